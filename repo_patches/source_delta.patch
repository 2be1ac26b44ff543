From c0f0d3d9380bf0cf18461d3845a61d441e7301dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 01/49] fix: coin selection is race free, linear and does not
 overflow

The selection enumerated every combination of coins, sharing a package
level slice between concurrent calls, and multiplied the target without
checking for overflow.
---
 pkg/explorer/coinselection.go | 73 +++++++++++++----------------------
 1 file changed, 27 insertions(+), 46 deletions(-)

diff --git a/pkg/explorer/coinselection.go b/pkg/explorer/coinselection.go
index da9b4ca..eb6d034 100644
--- a/pkg/explorer/coinselection.go
+++ b/pkg/explorer/coinselection.go
@@ -3,6 +3,7 @@ package explorer
 import (
 	"errors"
 	"fmt"
+	"math"
 	"sort"
 )
 
@@ -105,57 +106,37 @@ func isIndexOccupied(i int, list []int) bool {
 	return false
 }
 
-var combination = []uint64{}
-
-//getCombination is calculating all combinations for 'size' the elements of src array
-// number of combination formula -> len(src)! / size! * (len(src) - size)!
-func getCombination(src []uint64, size int, offset int) [][]uint64 {
-	result := [][]uint64{}
-	if size == 0 {
-		temp := make([]uint64, len(combination))
-		copy(temp, combination)
-		return append(result, temp)
-	}
-	for i := offset; i <= len(src)-size; i++ {
-		combination = append(combination, src[i])
-		temp := getCombination(src, size-1, i+1)
-		result = append(result, temp...)
-		combination = combination[:len(combination)-1]
-	}
-	return result[:]
-}
-func sum(items []uint64) uint64 {
-	var total uint64
-	for _, v := range items {
-		total += v
-	}
-	return total
-}
-
 //getBestCombination method implement strategy of selecting as less as possible
 //elements from items slice so that sum of elements is equal or greater than
-//target, with 10x ratio
+//target, with 10x ratio. Items are expected in descending order.
 //It uses bellow logic:
-//1. set size = 1
-//2. uses Recursion (getCombination) to get all combinations for size elements in the input Array.
-//3. check each combination if meet the requirements from 0 -> i, if yes, return it (finish)
-//4. if none of combination matches, then size++ and go to Step 2.
+//1. return the first single element in the range target - 10x target, if any.
+//2. otherwise, the elements that are not over the 10x ratio are all lower than
+//   target, the fewest of them covering it are the greatest ones.
+//3. if these do not cover the target, return the first element greater than it.
 func getBestCombination(items []uint64, target uint64) []uint64 {
-	result := [][]uint64{}
-	for i := 1; i < len(items)+1; i++ {
-		result = append(result, getCombination(items, i, 0)...)
-		for j := 0; j < len(result); j++ {
-			total := sum(result[j])
-			if total < target {
-				continue
-			}
-			if total == target {
-				return result[j]
-			}
-			if total <= target*10 {
-				return result[j]
-			}
+	limit := target * 10
+	if target > math.MaxUint64/10 {
+		limit = math.MaxUint64
+	}
+
+	for _, v := range items {
+		if v >= target && v <= limit {
+			return []uint64{v}
+		}
+	}
+
+	list := []uint64{}
+	missing := target
+	for _, v := range items {
+		if v > limit {
+			continue
+		}
+		list = append(list, v)
+		if v >= missing {
+			return list
 		}
+		missing -= v
 	}
 
 	//if there is no good combination just return first which is greater
-- 
2.43.0


From e96a31d08e75b05db94cae892b5f83394d0a3a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 02/49] fix: updates of vault, trades, markets and unspents in
 badger are atomic

---
 .../storage/db/badger/db_manager.go           | 52 +++++++++++++--
 .../db/badger/market_repository_impl.go       | 65 ++++++++++++-------
 .../db/badger/trade_repository_impl.go        | 35 +++++-----
 .../db/badger/unspent_repository_impl.go      | 43 +++++++++++-
 .../db/badger/vault_repository_impl.go        | 30 +++++----
 5 files changed, 163 insertions(+), 62 deletions(-)

diff --git a/internal/infrastructure/storage/db/badger/db_manager.go b/internal/infrastructure/storage/db/badger/db_manager.go
index 1bf012d..9d5ac8d 100644
--- a/internal/infrastructure/storage/db/badger/db_manager.go
+++ b/internal/infrastructure/storage/db/badger/db_manager.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"path/filepath"
+	"sync"
 	"time"
 
 	"github.com/dgraph-io/badger/v2"
@@ -179,6 +180,7 @@ func (d *repoManager) runTransaction(
 		tx, ctx := args.ctxMaker()
 		res, err := args.handler(ctx)
 		if err != nil {
+			tx.Discard()
 			if args.readOnly && isTransactionConflict(err) {
 				time.Sleep(50 * time.Millisecond)
 				continue
@@ -186,19 +188,55 @@ func (d *repoManager) runTransaction(
 			return nil, err
 		}
 
-		if !args.readOnly {
-			if err := tx.Commit(); err != nil {
-				if !isTransactionConflict(err) {
-					return nil, err
-				}
-				time.Sleep(50 * time.Millisecond)
-				continue
+		if args.readOnly {
+			tx.Discard()
+			return res, nil
+		}
+
+		if err := tx.Commit(); err != nil {
+			if !isTransactionConflict(err) {
+				return nil, err
 			}
+			time.Sleep(50 * time.Millisecond)
+			continue
 		}
 		return res, nil
 	}
 }
 
+// runAtomically invokes the handler within the transaction found in the given
+// context, if any. Otherwise, it runs the handler in a brand new transaction of
+// the store so that a read followed by a write can't overwrite any change made
+// by others in the meantime.
+func runAtomically(
+	ctx context.Context,
+	store *badgerhold.Store,
+	mtx *sync.Mutex,
+	handler func(ctx context.Context) error,
+) error {
+	if ctx.Value("tx") != nil {
+		return handler(ctx)
+	}
+
+	mtx.Lock()
+	defer mtx.Unlock()
+
+	for {
+		err := func() error {
+			tx := store.Badger().NewTransaction(true)
+			defer tx.Discard()
+
+			if err := handler(context.WithValue(ctx, "tx", tx)); err != nil {
+				return err
+			}
+			return tx.Commit()
+		}()
+		if !isTransactionConflict(err) {
+			return err
+		}
+	}
+}
+
 // isTransactionConflict returns wheter the error occured when commiting a
 // transacton is a conflict
 func isTransactionConflict(err error) bool {
diff --git a/internal/infrastructure/storage/db/badger/market_repository_impl.go b/internal/infrastructure/storage/db/badger/market_repository_impl.go
index bdf23a9..8f8703e 100644
--- a/internal/infrastructure/storage/db/badger/market_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/market_repository_impl.go
@@ -3,6 +3,7 @@ package dbbadger
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	"github.com/dgraph-io/badger/v2"
 	"github.com/tdex-network/tdex-daemon/internal/core/domain"
@@ -14,11 +15,12 @@ import (
 type marketRepositoryImpl struct {
 	store      *badgerhold.Store
 	priceStore *badgerhold.Store
+	mtx        *sync.Mutex
 }
 
 // NewMarketRepositoryImpl initialize a badger implementation of the domain.MarketRepository
 func NewMarketRepositoryImpl(store, priceStore *badgerhold.Store) domain.MarketRepository {
-	return marketRepositoryImpl{store, priceStore}
+	return marketRepositoryImpl{store, priceStore, &sync.Mutex{}}
 }
 
 func (m marketRepositoryImpl) GetOrCreateMarket(
@@ -99,25 +101,36 @@ func (m marketRepositoryImpl) UpdateMarket(
 	accountIndex int,
 	updateFn func(m *domain.Market) (*domain.Market, error),
 ) error {
-	currentMarket, err := m.getMarket(ctx, accountIndex)
-	if err != nil {
-		return err
-	}
-	if currentMarket == nil {
-		return ErrMarketNotFound
-	}
+	return runAtomically(ctx, m.store, m.mtx, func(ctx context.Context) error {
+		currentMarket, err := m.getMarket(ctx, accountIndex)
+		if err != nil {
+			return err
+		}
+		if currentMarket == nil {
+			return ErrMarketNotFound
+		}
 
-	updatedMarket, err := updateFn(currentMarket)
-	if err != nil {
-		return err
-	}
+		updatedMarket, err := updateFn(currentMarket)
+		if err != nil {
+			return err
+		}
 
-	return m.updateMarket(ctx, accountIndex, *updatedMarket)
+		return m.updateMarket(ctx, accountIndex, *updatedMarket)
+	})
 }
 
 func (m marketRepositoryImpl) OpenMarket(
 	ctx context.Context,
 	quoteAsset string,
+) error {
+	return runAtomically(ctx, m.store, m.mtx, func(ctx context.Context) error {
+		return m.openMarket(ctx, quoteAsset)
+	})
+}
+
+func (m marketRepositoryImpl) openMarket(
+	ctx context.Context,
+	quoteAsset string,
 ) error {
 	query := badgerhold.Where("QuoteAsset").Eq(quoteAsset)
 	markets, err := m.findMarkets(ctx, query)
@@ -148,6 +161,15 @@ func (m marketRepositoryImpl) OpenMarket(
 func (m marketRepositoryImpl) CloseMarket(
 	ctx context.Context,
 	quoteAsset string,
+) error {
+	return runAtomically(ctx, m.store, m.mtx, func(ctx context.Context) error {
+		return m.closeMarket(ctx, quoteAsset)
+	})
+}
+
+func (m marketRepositoryImpl) closeMarket(
+	ctx context.Context,
+	quoteAsset string,
 ) error {
 	query := badgerhold.Where("QuoteAsset").Eq(quoteAsset)
 	markets, err := m.findMarkets(ctx, query)
@@ -220,7 +242,12 @@ func (m marketRepositoryImpl) insertMarket(
 	accountIndex int,
 	market *domain.Market,
 ) error {
-	var err error
+	// The price is stored before the market so that there's always one for every
+	// market that can be found in the main db.
+	err := m.updatePriceByAccountIndex(ctx, accountIndex, domain.Prices{})
+	if err != nil {
+		return err
+	}
 
 	if ctx.Value("tx") != nil {
 		tx := ctx.Value("tx").(*badger.Txn)
@@ -234,12 +261,6 @@ func (m marketRepositoryImpl) insertMarket(
 		}
 	}
 
-	// Now we update the price store as well only if market insertion went ok
-	err = m.updatePriceByAccountIndex(ctx, accountIndex, domain.Prices{})
-	if err != nil {
-		return err
-	}
-
 	return nil
 }
 
@@ -335,7 +356,7 @@ func (m marketRepositoryImpl) getPriceByAccountIndex(ctx context.Context, accoun
 
 	if ctx.Value("ptx") != nil {
 		tx := ctx.Value("ptx").(*badger.Txn)
-		err = m.store.TxGet(tx, accountIndex, &prices)
+		err = m.priceStore.TxGet(tx, accountIndex, &prices)
 	} else {
 		err = m.priceStore.Get(accountIndex, &prices)
 	}
@@ -350,7 +371,7 @@ func (m marketRepositoryImpl) getPriceByAccountIndex(ctx context.Context, accoun
 func (m marketRepositoryImpl) updatePriceByAccountIndex(ctx context.Context, accountIndex int, prices domain.Prices) (err error) {
 	if ctx.Value("ptx") != nil {
 		tx := ctx.Value("ptx").(*badger.Txn)
-		err = m.store.TxUpsert(
+		err = m.priceStore.TxUpsert(
 			tx,
 			accountIndex,
 			prices,
diff --git a/internal/infrastructure/storage/db/badger/trade_repository_impl.go b/internal/infrastructure/storage/db/badger/trade_repository_impl.go
index 1230932..03dd0b3 100644
--- a/internal/infrastructure/storage/db/badger/trade_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/trade_repository_impl.go
@@ -2,6 +2,7 @@ package dbbadger
 
 import (
 	"context"
+	"sync"
 
 	"github.com/dgraph-io/badger/v2"
 	"github.com/google/uuid"
@@ -18,10 +19,11 @@ var tradeTablePrefixKey = []byte(TradeBadgerholdKeyPrefix)
 
 type tradeRepositoryImpl struct {
 	store *badgerhold.Store
+	mtx   *sync.Mutex
 }
 
 func NewTradeRepositoryImpl(store *badgerhold.Store) domain.TradeRepository {
-	return tradeRepositoryImpl{store}
+	return tradeRepositoryImpl{store, &sync.Mutex{}}
 }
 
 func (t tradeRepositoryImpl) GetOrCreateTrade(
@@ -97,27 +99,22 @@ func (t tradeRepositoryImpl) UpdateTrade(
 	ID *uuid.UUID,
 	updateFn func(t *domain.Trade) (*domain.Trade, error),
 ) error {
-	txIsNotGiven := ctx.Value("tx") == nil
-
-	currentTrade, err := t.getTrade(ctx, *ID)
-	if err != nil {
-		return err
-	}
-
-	updatedTrade, err := updateFn(currentTrade)
-	if err != nil {
-		return err
-	}
+	return runAtomically(ctx, t.store, t.mtx, func(ctx context.Context) error {
+		currentTrade, err := t.getTrade(ctx, *ID)
+		if err != nil {
+			return err
+		}
+		if currentTrade == nil {
+			return ErrTradeNotFound
+		}
 
-	for {
-		err := t.updateTrade(ctx, updatedTrade.ID, *updatedTrade)
+		updatedTrade, err := updateFn(currentTrade)
 		if err != nil {
-			if txIsNotGiven && isTransactionConflict(err) {
-				continue
-			}
+			return err
 		}
-		return err
-	}
+
+		return t.updateTrade(ctx, updatedTrade.ID, *updatedTrade)
+	})
 }
 
 func (t tradeRepositoryImpl) getOrCreateTrade(
diff --git a/internal/infrastructure/storage/db/badger/unspent_repository_impl.go b/internal/infrastructure/storage/db/badger/unspent_repository_impl.go
index 7d418e1..4c348c1 100644
--- a/internal/infrastructure/storage/db/badger/unspent_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/unspent_repository_impl.go
@@ -2,6 +2,7 @@ package dbbadger
 
 import (
 	"context"
+	"sync"
 
 	"github.com/dgraph-io/badger/v2"
 	"github.com/google/uuid"
@@ -20,28 +21,38 @@ var unspentTablePrefixKey = []byte(UnspentBadgerholdKeyPrefix)
 type unspentRepositoryImpl struct {
 	store     *badgerhold.Store
 	lockStore *badgerhold.Store
+	mtx       *sync.RWMutex
 }
 
 func NewUnspentRepositoryImpl(store, lockStore *badgerhold.Store) domain.UnspentRepository {
-	return unspentRepositoryImpl{store, lockStore}
+	return unspentRepositoryImpl{store, lockStore, &sync.RWMutex{}}
 }
 
 func (u unspentRepositoryImpl) AddUnspents(
 	ctx context.Context,
 	unspents []domain.Unspent,
 ) error {
+	u.mtx.Lock()
+	defer u.mtx.Unlock()
+
 	return u.addUnspents(ctx, unspents)
 }
 
 func (u unspentRepositoryImpl) GetAllUnspents(
 	ctx context.Context,
 ) []domain.Unspent {
+	u.mtx.RLock()
+	defer u.mtx.RUnlock()
+
 	return u.getAllUnspents(ctx)
 }
 
 func (u unspentRepositoryImpl) GetAvailableUnspents(
 	ctx context.Context,
 ) ([]domain.Unspent, error) {
+	u.mtx.RLock()
+	defer u.mtx.RUnlock()
+
 	query := badgerhold.Where("Spent").Eq(false).And("Confirmed").Eq(true)
 	unlockedOnly := true
 
@@ -52,6 +63,9 @@ func (u unspentRepositoryImpl) GetAllUnspentsForAddresses(
 	ctx context.Context,
 	addresses []string,
 ) ([]domain.Unspent, error) {
+	u.mtx.RLock()
+	defer u.mtx.RUnlock()
+
 	iface := make([]interface{}, 0, len(addresses))
 	for _, v := range addresses {
 		iface = append(iface, v)
@@ -67,6 +81,9 @@ func (u unspentRepositoryImpl) GetUnspentsForAddresses(
 	ctx context.Context,
 	addresses []string,
 ) ([]domain.Unspent, error) {
+	u.mtx.RLock()
+	defer u.mtx.RUnlock()
+
 	iface := make([]interface{}, 0, len(addresses))
 	for _, v := range addresses {
 		iface = append(iface, v)
@@ -84,6 +101,9 @@ func (u unspentRepositoryImpl) GetAvailableUnspentsForAddresses(
 	ctx context.Context,
 	addresses []string,
 ) ([]domain.Unspent, error) {
+	u.mtx.RLock()
+	defer u.mtx.RUnlock()
+
 	iface := make([]interface{}, 0, len(addresses))
 	for _, v := range addresses {
 		iface = append(iface, v)
@@ -101,6 +121,9 @@ func (u unspentRepositoryImpl) GetUnspentWithKey(
 	ctx context.Context,
 	unspentKey domain.UnspentKey,
 ) (*domain.Unspent, error) {
+	u.mtx.RLock()
+	defer u.mtx.RUnlock()
+
 	return u.getUnspent(ctx, unspentKey)
 }
 
@@ -109,6 +132,9 @@ func (u unspentRepositoryImpl) GetBalance(
 	addresses []string,
 	assetHash string,
 ) (uint64, error) {
+	u.mtx.RLock()
+	defer u.mtx.RUnlock()
+
 	unlockedOnly := false
 	return u.getBalance(ctx, addresses, assetHash, unlockedOnly)
 }
@@ -118,6 +144,9 @@ func (u unspentRepositoryImpl) GetUnlockedBalance(
 	addresses []string,
 	assetHash string,
 ) (uint64, error) {
+	u.mtx.RLock()
+	defer u.mtx.RUnlock()
+
 	unlockedOnly := true
 	return u.getBalance(ctx, addresses, assetHash, unlockedOnly)
 }
@@ -126,6 +155,9 @@ func (u unspentRepositoryImpl) SpendUnspents(
 	ctx context.Context,
 	unspentKeys []domain.UnspentKey,
 ) (int, error) {
+	u.mtx.Lock()
+	defer u.mtx.Unlock()
+
 	return u.spendUnspents(ctx, unspentKeys)
 }
 
@@ -133,6 +165,9 @@ func (u unspentRepositoryImpl) ConfirmUnspents(
 	ctx context.Context,
 	unspentKeys []domain.UnspentKey,
 ) (int, error) {
+	u.mtx.Lock()
+	defer u.mtx.Unlock()
+
 	return u.confirmUnspents(ctx, unspentKeys)
 }
 
@@ -141,6 +176,9 @@ func (u unspentRepositoryImpl) LockUnspents(
 	unspentKeys []domain.UnspentKey,
 	tradeID uuid.UUID,
 ) (int, error) {
+	u.mtx.Lock()
+	defer u.mtx.Unlock()
+
 	return u.lockUnspents(ctx, unspentKeys, tradeID)
 }
 
@@ -148,6 +186,9 @@ func (u unspentRepositoryImpl) UnlockUnspents(
 	ctx context.Context,
 	unspentKeys []domain.UnspentKey,
 ) (int, error) {
+	u.mtx.Lock()
+	defer u.mtx.Unlock()
+
 	return u.unlockUnspents(ctx, unspentKeys)
 }
 
diff --git a/internal/infrastructure/storage/db/badger/vault_repository_impl.go b/internal/infrastructure/storage/db/badger/vault_repository_impl.go
index 39611a4..170bc58 100644
--- a/internal/infrastructure/storage/db/badger/vault_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/vault_repository_impl.go
@@ -3,6 +3,7 @@ package dbbadger
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	"github.com/dgraph-io/badger/v2"
 	"github.com/tdex-network/tdex-daemon/internal/core/domain"
@@ -18,10 +19,11 @@ const (
 
 type vaultRepositoryImpl struct {
 	store *badgerhold.Store
+	mtx   *sync.Mutex
 }
 
 func NewVaultRepositoryImpl(store *badgerhold.Store) domain.VaultRepository {
-	return vaultRepositoryImpl{store}
+	return vaultRepositoryImpl{store, &sync.Mutex{}}
 }
 
 func (v vaultRepositoryImpl) GetOrCreateVault(
@@ -37,20 +39,22 @@ func (v vaultRepositoryImpl) UpdateVault(
 	ctx context.Context,
 	updateFn func(v *domain.Vault) (*domain.Vault, error),
 ) error {
-	vault, err := v.getVault(ctx)
-	if err != nil {
-		return err
-	}
-	if vault == nil {
-		return ErrVaultNotFound
-	}
+	return runAtomically(ctx, v.store, v.mtx, func(ctx context.Context) error {
+		vault, err := v.getVault(ctx)
+		if err != nil {
+			return err
+		}
+		if vault == nil {
+			return ErrVaultNotFound
+		}
 
-	updatedVault, err := updateFn(vault)
-	if err != nil {
-		return err
-	}
+		updatedVault, err := updateFn(vault)
+		if err != nil {
+			return err
+		}
 
-	return v.updateVault(ctx, *updatedVault)
+		return v.updateVault(ctx, *updatedVault)
+	})
 }
 
 func (v vaultRepositoryImpl) GetAccountByIndex(
-- 
2.43.0


From 24c627852c88ad57decac096372d6cb54770197c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 03/49] fix: in-memory repositories do not leak shared state,
 override locks or panic on unknown keys

---
 .../inmemory/market_memory_repository_impl.go | 20 ++++++++
 .../inmemory/trade_memory_repository_impl.go  |  1 +
 .../unspent_memory_repository_impl.go         | 37 ++++++++------
 .../inmemory/vault_memory_implementation.go   | 50 +++++++++++++++++--
 4 files changed, 87 insertions(+), 21 deletions(-)

diff --git a/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go b/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go
index f390bcb..48eb153 100644
--- a/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go
+++ b/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go
@@ -117,6 +117,10 @@ func (r MarketRepositoryImpl) OpenMarket(_ context.Context, quoteAsset string) e
 		return err
 	}
 
+	if currentMarket == nil {
+		return nil
+	}
+
 	// We update the market status only if the market is closed.
 	if currentMarket.IsTradable() {
 		return nil
@@ -142,6 +146,10 @@ func (r MarketRepositoryImpl) CloseMarket(_ context.Context, quoteAsset string)
 		return err
 	}
 
+	if currentMarket == nil {
+		return nil
+	}
+
 	// We update the market status only if the market is open.
 	if !currentMarket.IsTradable() {
 		return nil
@@ -166,6 +174,10 @@ func (r *MarketRepositoryImpl) UpdatePrices(_ context.Context, accountIndex int,
 		return err
 	}
 
+	if market == nil {
+		return ErrMarketNotFound
+	}
+
 	err = market.ChangeBasePrice(prices.BasePrice)
 	if err != nil {
 		return err
@@ -183,7 +195,15 @@ func (r *MarketRepositoryImpl) DeleteMarket(
 	_ context.Context,
 	accountIndex int,
 ) error {
+	r.store.locker.Lock()
+	defer r.store.locker.Unlock()
+
 	delete(r.store.markets, accountIndex)
+	for asset, index := range r.store.accountsByAsset {
+		if index == accountIndex {
+			delete(r.store.accountsByAsset, asset)
+		}
+	}
 
 	return nil
 }
diff --git a/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go b/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go
index 5f4fad2..32defd4 100644
--- a/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go
+++ b/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go
@@ -134,6 +134,7 @@ func (r tradeRepositoryImpl) getOrCreateTrade(tradeID *uuid.UUID) (*domain.Trade
 func (r tradeRepositoryImpl) getAllTrades() ([]*domain.Trade, error) {
 	allTrades := make([]*domain.Trade, 0)
 	for _, trade := range r.store.trades {
+		trade := trade
 		allTrades = append(allTrades, &trade)
 	}
 	return allTrades, nil
diff --git a/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go b/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
index 2871252..20eae8d 100644
--- a/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
+++ b/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
@@ -45,7 +45,13 @@ func (r UnspentRepositoryImpl) GetAvailableUnspents(_ context.Context) ([]domain
 	r.store.locker.RLock()
 	defer r.store.locker.RUnlock()
 
-	return r.getAvailableUnspents(nil), nil
+	unspents := make([]domain.Unspent, 0)
+	for _, u := range r.store.unspents {
+		if !u.IsSpent() && !u.IsLocked() && u.IsConfirmed() {
+			unspents = append(unspents, u)
+		}
+	}
+	return unspents, nil
 }
 
 // GetAllUnspentsForAddresses ...
@@ -179,7 +185,6 @@ func (r UnspentRepositoryImpl) ConfirmUnspents(
 		if unspent, ok := r.store.unspents[key]; ok {
 			if !unspent.IsConfirmed() {
 				unspent.Confirm()
-				unspent.Unlock()
 				r.store.unspents[key] = unspent
 				count++
 			}
@@ -291,14 +296,10 @@ func (r UnspentRepositoryImpl) getUnspents(addresses []string, isLocked bool) []
 	unspents := make([]domain.Unspent, 0)
 	for _, u := range r.store.unspents {
 		if !u.IsSpent() && u.IsLocked() == isLocked && u.IsConfirmed() {
-			if len(addresses) == 0 {
-				unspents = append(unspents, u)
-			} else {
-				for _, addr := range addresses {
-					if addr == u.Address {
-						unspents = append(unspents, u)
-						break
-					}
+			for _, addr := range addresses {
+				if addr == u.Address {
+					unspents = append(unspents, u)
+					break
 				}
 			}
 		}
@@ -313,9 +314,11 @@ func (r UnspentRepositoryImpl) lockUnspents(
 	count := 0
 	for _, key := range unspentKeys {
 		if unspent, ok := r.store.unspents[key]; ok {
-			unspent.Lock(&tradeID)
-			r.store.unspents[key] = unspent
-			count++
+			if !unspent.IsLocked() {
+				unspent.Lock(&tradeID)
+				r.store.unspents[key] = unspent
+				count++
+			}
 		}
 	}
 	return count, nil
@@ -327,9 +330,11 @@ func (r UnspentRepositoryImpl) unlockUnspents(
 	count := 0
 	for _, key := range unspentKeys {
 		if unspent, ok := r.store.unspents[key]; ok {
-			unspent.Unlock()
-			r.store.unspents[key] = unspent
-			count++
+			if unspent.IsLocked() {
+				unspent.Unlock()
+				r.store.unspents[key] = unspent
+				count++
+			}
 		}
 	}
 	return count, nil
diff --git a/internal/infrastructure/storage/db/inmemory/vault_memory_implementation.go b/internal/infrastructure/storage/db/inmemory/vault_memory_implementation.go
index 1e31d32..d01d415 100644
--- a/internal/infrastructure/storage/db/inmemory/vault_memory_implementation.go
+++ b/internal/infrastructure/storage/db/inmemory/vault_memory_implementation.go
@@ -58,12 +58,12 @@ func (r VaultRepositoryImpl) UpdateVault(
 		return ErrVaultNotFound
 	}
 
-	updatedVault, err := updateFn(v)
+	updatedVault, err := updateFn(copyVault(v))
 	if err != nil {
 		return err
 	}
 
-	r.store.vault = updatedVault
+	r.store.vault = copyVault(updatedVault)
 
 	return nil
 }
@@ -73,7 +73,11 @@ func (r VaultRepositoryImpl) GetAccountByIndex(ctx context.Context,
 	r.store.locker.Lock()
 	defer r.store.locker.Unlock()
 
-	return r.store.vault.AccountByIndex(accountIndex)
+	account, err := r.store.vault.AccountByIndex(accountIndex)
+	if err != nil {
+		return nil, err
+	}
+	return copyAccount(account), nil
 }
 
 func (r VaultRepositoryImpl) GetAccountByAddress(
@@ -83,7 +87,11 @@ func (r VaultRepositoryImpl) GetAccountByAddress(
 	r.store.locker.Lock()
 	defer r.store.locker.Unlock()
 
-	return r.store.vault.AccountByAddress(addr)
+	account, accountIndex, err := r.store.vault.AccountByAddress(addr)
+	if err != nil {
+		return nil, -1, err
+	}
+	return copyAccount(account), accountIndex, nil
 }
 
 func (r VaultRepositoryImpl) GetAllDerivedAddressesInfoForAccount(
@@ -120,7 +128,7 @@ func (r VaultRepositoryImpl) getOrCreateVault(
 		}
 		r.store.vault = v
 	}
-	return r.store.vault, nil
+	return copyVault(r.store.vault), nil
 }
 
 func (r VaultRepositoryImpl) getVault(_ context.Context) *domain.Vault {
@@ -150,3 +158,35 @@ func (r VaultRepositoryImpl) getDerivationPathByScript(
 
 	return m, nil
 }
+
+// copyVault returns a deep copy of the given vault. The one in the store must
+// never be shared with the callers since it's not safe for concurrent use.
+func copyVault(v *domain.Vault) *domain.Vault {
+	vault := *v
+	if v.Accounts != nil {
+		vault.Accounts = make(map[int]*domain.Account, len(v.Accounts))
+		for i, account := range v.Accounts {
+			vault.Accounts[i] = copyAccount(account)
+		}
+	}
+	if v.AccountAndKeyByAddress != nil {
+		vault.AccountAndKeyByAddress = make(
+			map[string]domain.AccountAndKey, len(v.AccountAndKeyByAddress),
+		)
+		for addr, info := range v.AccountAndKeyByAddress {
+			vault.AccountAndKeyByAddress[addr] = info
+		}
+	}
+	return &vault
+}
+
+func copyAccount(a *domain.Account) *domain.Account {
+	account := *a
+	account.DerivationPathByScript = make(
+		map[string]string, len(a.DerivationPathByScript),
+	)
+	for script, path := range a.DerivationPathByScript {
+		account.DerivationPathByScript[script] = path
+	}
+	return &account
+}
-- 
2.43.0


From 18aa859895d7bf02633ea28df0ea4717fd7350c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 04/49] fix: failed and expired trades can't be completed,
 rejected ones can't be settled

---
 internal/core/domain/trade_service.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/core/domain/trade_service.go b/internal/core/domain/trade_service.go
index 4a488a0..f364334 100644
--- a/internal/core/domain/trade_service.go
+++ b/internal/core/domain/trade_service.go
@@ -104,11 +104,15 @@ type CompleteResult struct {
 // be called before the trade expires, otherwise it won't be possible to
 // actually complete an accepted trade.
 func (t *Trade) Complete(tx string) (*CompleteResult, error) {
+	if t.Status.Code == Expired {
+		return nil, ErrTradeExpired
+	}
+
 	if t.Status.Code >= Completed {
 		return &CompleteResult{OK: true, TxHex: t.TxHex, TxID: t.TxID}, nil
 	}
 
-	if !t.IsAccepted() {
+	if !t.IsAccepted() || t.IsRejected() {
 		return nil, ErrTradeMustBeAccepted
 	}
 
@@ -161,7 +165,10 @@ func (t *Trade) Settle(settlementTime uint64) (bool, error) {
 		return true, nil
 	}
 
-	if !(t.IsCompleted() || t.IsAccepted() || t.Status.Failed) {
+	if len(t.SwapAccept.ID) <= 0 {
+		return false, ErrTradeMustBeCompletedOrAccepted
+	}
+	if !(t.IsCompleted() || t.IsAccepted() || t.Status.Code == Expired) {
 		return false, ErrTradeMustBeCompletedOrAccepted
 	}
 
@@ -174,7 +181,7 @@ func (t *Trade) Settle(settlementTime uint64) (bool, error) {
 // Fail marks the current status of the trade as Failed and adds the SwapFail
 // message.
 func (t *Trade) Fail(swapID string, errCode int, errMsg string) {
-	if t.Status.Failed {
+	if t.Status.Failed || t.IsSettled() {
 		return
 	}
 
-- 
2.43.0


From 5feb21f6164069c6112d392f4f50d401db5f059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 05/49] fix: a swap is completed only by the transaction that
 was accepted

---
 pkg/swap/complete.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/pkg/swap/complete.go b/pkg/swap/complete.go
index 1888bcd..60b89fe 100644
--- a/pkg/swap/complete.go
+++ b/pkg/swap/complete.go
@@ -26,6 +26,12 @@ func Complete(complete CompleteOpts) (string, []byte, error) {
 		return "", nil, fmt.Errorf("unmarshal swap accept %w", err)
 	}
 
+	acceptedPtx, err := pset.NewPsetFromBase64(msgAccept.GetTransaction())
+	if err != nil {
+		return "", nil, fmt.Errorf("accepted transaction is invalid")
+	}
+
+	var tx *transaction.Transaction
 	if !isHex(complete.Transaction) {
 		ptx, err := pset.NewPsetFromBase64(complete.Transaction)
 		if err != nil {
@@ -39,12 +45,19 @@ func Complete(complete CompleteOpts) (string, []byte, error) {
 		if !ok {
 			return "", nil, fmt.Errorf("transaction contains invalid signatures")
 		}
+		tx = ptx.UnsignedTx
 	} else {
-		if _, err := transaction.NewTxFromHex(complete.Transaction); err != nil {
+		tx, err = transaction.NewTxFromHex(complete.Transaction)
+		if err != nil {
 			return "", nil, fmt.Errorf("transaction in hex format is invalid")
 		}
 	}
 
+	// besides signatures, the transaction must be the same that was accepted
+	if !isSameTransaction(tx, acceptedPtx.UnsignedTx) {
+		return "", nil, fmt.Errorf("transaction does not match the accepted one")
+	}
+
 	randomID := randstr.Hex(8)
 	msgComplete := &pb.SwapComplete{
 		Id:          randomID,
@@ -119,6 +132,23 @@ func ValidateCompletePset(opts ValidateCompletePsetOpts) error {
 	return nil
 }
 
+// isSameTransaction returns whether the two given transactions are the same one
+// regardless of how their inputs are signed.
+func isSameTransaction(a, b *transaction.Transaction) bool {
+	hashWithoutSignatures := func(tx *transaction.Transaction) string {
+		unsignedTx := *tx
+		unsignedTx.Inputs = make([]*transaction.TxInput, 0, len(tx.Inputs))
+		for _, in := range tx.Inputs {
+			unsignedIn := *in
+			unsignedIn.Script = nil
+			unsignedTx.Inputs = append(unsignedTx.Inputs, &unsignedIn)
+		}
+		return unsignedTx.TxHash().String()
+	}
+
+	return hashWithoutSignatures(a) == hashWithoutSignatures(b)
+}
+
 func isHex(s string) bool {
 	_, err := hex.DecodeString(s)
 	return err == nil
-- 
2.43.0


From 41e63d76c9fc2271bfdcce7be5e0c3cab7d3cf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 06/49] fix: pricing a swap does not panic or wrap around for
 extreme amounts

---
 internal/core/domain/trade_service.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/internal/core/domain/trade_service.go b/internal/core/domain/trade_service.go
index f364334..ab7f3f4 100644
--- a/internal/core/domain/trade_service.go
+++ b/internal/core/domain/trade_service.go
@@ -2,6 +2,7 @@ package domain
 
 import (
 	"encoding/hex"
+	"math/big"
 	"time"
 
 	"github.com/shopspring/decimal"
@@ -302,12 +303,18 @@ func calculateMarketPrices(
 	swapRequest SwapRequest,
 	marketQuoteAsset string,
 ) (price Prices) {
-	pricePR := decimal.NewFromInt(int64(swapRequest.GetAmountP())).Div(
-		decimal.NewFromInt(int64(swapRequest.GetAmountR())),
-	).Truncate(8)
-	priceRP := decimal.NewFromInt(int64(swapRequest.GetAmountR())).Div(
-		decimal.NewFromInt(int64(swapRequest.GetAmountP())),
-	).Truncate(8)
+	amountP := decimal.NewFromBigInt(
+		new(big.Int).SetUint64(swapRequest.GetAmountP()), 0,
+	)
+	amountR := decimal.NewFromBigInt(
+		new(big.Int).SetUint64(swapRequest.GetAmountR()), 0,
+	)
+	if amountP.IsZero() || amountR.IsZero() {
+		return
+	}
+
+	pricePR := amountP.Div(amountR).Truncate(8)
+	priceRP := amountR.Div(amountP).Truncate(8)
 
 	if swapRequest.GetAssetP() == marketQuoteAsset {
 		price = Prices{
-- 
2.43.0


From 482d47f5ddc4b88d2d80a1a364252fd41c82928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 07/49] fix: proposals lock the coins they promise and trades
 are processed once at a time

---
 internal/core/application/keyed_mutex.go   |  40 +++
 internal/core/application/trade_service.go | 368 +++++++++++++++------
 2 files changed, 311 insertions(+), 97 deletions(-)
 create mode 100644 internal/core/application/keyed_mutex.go

diff --git a/internal/core/application/keyed_mutex.go b/internal/core/application/keyed_mutex.go
new file mode 100644
index 0000000..7548224
--- /dev/null
+++ b/internal/core/application/keyed_mutex.go
@@ -0,0 +1,40 @@
+package application
+
+import "sync"
+
+// keyedMutex is a collection of mutexes identified by a key, where only those
+// currently in use are retained.
+type keyedMutex struct {
+	mtx   sync.Mutex
+	locks map[string]*keyLock
+}
+
+type keyLock struct {
+	sync.Mutex
+	users int
+}
+
+// lock locks the mutex identified by the given key and returns the function to
+// unlock it.
+func (m *keyedMutex) lock(key string) func() {
+	m.mtx.Lock()
+	l, ok := m.locks[key]
+	if !ok {
+		l = &keyLock{}
+		m.locks[key] = l
+	}
+	l.users++
+	m.mtx.Unlock()
+
+	l.Lock()
+	return func() {
+		l.Unlock()
+
+		m.mtx.Lock()
+		defer m.mtx.Unlock()
+		l.users--
+		if l.users == 0 {
+			delete(m.locks, key)
+		}
+	}
+}
diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index f912673..74d67cd 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -5,8 +5,11 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"math/big"
+	"sync"
 	"time"
 
+	"github.com/google/uuid"
 	"github.com/shopspring/decimal"
 	log "github.com/sirupsen/logrus"
 	"github.com/tdex-network/tdex-daemon/internal/core/domain"
@@ -20,6 +23,16 @@ import (
 	"github.com/vulpemventures/go-elements/pset"
 )
 
+// coinsMtx serializes all operations that select coins of the wallet in order to
+// spend them, so that the same ones can't be selected more than once.
+var coinsMtx sync.Mutex
+
+// tradeLocks serializes the operations on the same accepted trade.
+var tradeLocks = keyedMutex{locks: make(map[string]*keyLock)}
+
+// errTradeRejected is returned when a trade proposal can't be accepted.
+var errTradeRejected = errors.New("trade proposal rejected")
+
 type TradeService interface {
 	GetTradableMarkets(ctx context.Context) ([]MarketWithFee, error)
 	GetMarketPrice(
@@ -294,10 +307,15 @@ func (t *tradeService) TradePropose(
 		log.Debugf("error while retrieving market: %s", err)
 		return nil, nil, 0, ErrServiceUnavailable
 	}
-	if marketAccountIndex < 0 {
+	if marketAccountIndex < 0 || market.BaseAsset != mkt.BaseAsset {
 		return nil, nil, 0, ErrMarketNotExist
 	}
 
+	// the coins available for the trade must not be selected by anyone else until
+	// those of this trade are locked.
+	coinsMtx.Lock()
+	defer coinsMtx.Unlock()
+
 	// get all unspents for market account (both as []domain.Unspents and as
 	// []explorer.Utxo)along with private blinding keys and signing derivation
 	// paths for respectively unblinding and signing them later
@@ -331,10 +349,7 @@ func (t *tradeService) TradePropose(
 	var swapExpiryTime uint64
 
 	var fillProposalResult *FillProposalResult
-	var outInfo *domain.AddressInfo
-	var changeInfo *domain.AddressInfo
-	var feeChangeInfo *domain.AddressInfo
-	var mnemonic []string
+	var proposedTrade domain.Trade
 
 	trade := domain.NewTrade()
 	if ok, _ := trade.Propose(
@@ -349,50 +364,89 @@ func (t *tradeService) TradePropose(
 		goto end
 	}
 
-	if !isValidTradePrice(swapRequest, tradeType, mkt, marketUnspents, t.priceSlippage) {
+	if !isValidTradeAssets(swapRequest, tradeType, mkt) {
 		trade.Fail(
 			swapRequest.GetId(),
 			int(pkgswap.ErrCodeInvalidSwapRequest),
-			"bad pricing",
+			"swap assets do not match those of the market",
 		)
 		swapFail = trade.SwapFailMessage()
 		goto end
 	}
 
-	// derive output and change address for market, and change address for fee account
-	outInfo, _ = vault.DeriveNextExternalAddressForAccount(marketAccountIndex)
-	changeInfo, _ = vault.DeriveNextInternalAddressForAccount(marketAccountIndex)
-	feeChangeInfo, _ = vault.DeriveNextInternalAddressForAccount(domain.FeeAccount)
-
-	mnemonic, _ = vault.GetMnemonicSafe()
-	fillProposalResult, err = TradeManager.FillProposal(FillProposalOpts{
-		Mnemonic:      mnemonic,
-		SwapRequest:   swapRequest,
-		MarketUtxos:   marketUnspents.ToUtxos(),
-		FeeUtxos:      feeUnspents.ToUtxos(),
-		MarketInfo:    marketInfo,
-		FeeInfo:       feeInfo,
-		OutputInfo:    *outInfo,
-		ChangeInfo:    *changeInfo,
-		FeeChangeInfo: *feeChangeInfo,
-		Network:       t.network,
-	})
-	if err != nil {
+	if !isValidTradePrice(swapRequest, tradeType, mkt, marketUnspents, t.priceSlippage) {
 		trade.Fail(
 			swapRequest.GetId(),
-			int(pkgswap.ErrCodeRejectedSwapRequest),
-			err.Error(),
+			int(pkgswap.ErrCodeInvalidSwapRequest),
+			"bad pricing",
 		)
 		swapFail = trade.SwapFailMessage()
 		goto end
 	}
 
-	if ok, _ := trade.Accept(
-		fillProposalResult.PsetBase64,
-		fillProposalResult.InputBlindingKeys,
-		fillProposalResult.OutputBlindingKeys,
-		uint64(t.expiryDuration.Seconds()),
-	); !ok {
+	// the addresses of the outputs owned by the daemon are derived and persisted
+	// only if the trade is accepted.
+	proposedTrade = *trade
+	err = t.repoManager.VaultRepository().UpdateVault(
+		ctx,
+		func(vault *domain.Vault) (*domain.Vault, error) {
+			*trade = proposedTrade
+
+			// derive output and change address for market, and change address for fee account
+			outInfo, err := vault.DeriveNextExternalAddressForAccount(marketAccountIndex)
+			if err != nil {
+				return nil, err
+			}
+			changeInfo, err := vault.DeriveNextInternalAddressForAccount(marketAccountIndex)
+			if err != nil {
+				return nil, err
+			}
+			feeChangeInfo, err := vault.DeriveNextInternalAddressForAccount(domain.FeeAccount)
+			if err != nil {
+				return nil, err
+			}
+			mnemonic, err := vault.GetMnemonicSafe()
+			if err != nil {
+				return nil, err
+			}
+
+			fillProposalResult, err = TradeManager.FillProposal(FillProposalOpts{
+				Mnemonic:      mnemonic,
+				SwapRequest:   swapRequest,
+				MarketUtxos:   marketUnspents.ToUtxos(),
+				FeeUtxos:      feeUnspents.ToUtxos(),
+				MarketInfo:    marketInfo,
+				FeeInfo:       feeInfo,
+				OutputInfo:    *outInfo,
+				ChangeInfo:    *changeInfo,
+				FeeChangeInfo: *feeChangeInfo,
+				Network:       t.network,
+			})
+			if err != nil {
+				trade.Fail(
+					swapRequest.GetId(),
+					int(pkgswap.ErrCodeRejectedSwapRequest),
+					err.Error(),
+				)
+				return nil, errTradeRejected
+			}
+
+			if ok, _ := trade.Accept(
+				fillProposalResult.PsetBase64,
+				fillProposalResult.InputBlindingKeys,
+				fillProposalResult.OutputBlindingKeys,
+				uint64(t.expiryDuration.Seconds()),
+			); !ok {
+				return nil, errTradeRejected
+			}
+			return vault, nil
+		},
+	)
+	if err != nil {
+		if err != errTradeRejected {
+			log.WithError(err).Warn("unable to persist addresses of accepted trade")
+			return nil, nil, 0, ErrServiceUnavailable
+		}
 		swapFail = trade.SwapFailMessage()
 		goto end
 	}
@@ -407,54 +461,55 @@ end:
 		log.Infof("trade with id %s accepted", trade.ID)
 
 		selectedUnspentKeys = getUnspentKeys(fillProposalResult.SelectedUnspents)
-		lockedUnspents, _ := t.repoManager.UnspentRepository().LockUnspents(
-			ctx,
-			selectedUnspentKeys,
-			trade.ID,
-		)
-		log.Debugf("locked %d unspents", lockedUnspents)
-
-		// set timer for trade expiration
-		go func() {
-			// admit a tollerance of 1 minute past the expiration time.
-			time.Sleep(t.expiryDuration + time.Minute)
-			t.checkTradeExpiration(trade.TxID, selectedUnspentKeys)
-		}()
 	} else {
 		log.WithField("reason", swapFail.GetFailureMessage()).Infof("trade with id %s rejected", trade.ID)
 	}
 
-	go func() {
-		if _, err := t.repoManager.RunTransaction(
-			context.Background(),
-			false,
-			func(ctx context.Context) (interface{}, error) {
-				if _, err := t.repoManager.TradeRepository().GetOrCreateTrade(ctx, &trade.ID); err != nil {
-					return nil, err
-				}
-				if err := t.repoManager.TradeRepository().UpdateTrade(ctx, &trade.ID, func(_ *domain.Trade) (*domain.Trade, error) {
-					return trade, nil
-				}); err != nil {
-					return nil, err
-				}
+	// the trade and the locks on its coins are persisted before replying to the
+	// counter-party, otherwise nothing would bind the daemon to what it accepts.
+	if _, err := t.repoManager.RunTransaction(
+		context.Background(),
+		false,
+		func(ctx context.Context) (interface{}, error) {
+			if _, err := t.repoManager.TradeRepository().GetOrCreateTrade(ctx, &trade.ID); err != nil {
+				return nil, err
+			}
+			if err := t.repoManager.TradeRepository().UpdateTrade(ctx, &trade.ID, func(_ *domain.Trade) (*domain.Trade, error) {
+				return trade, nil
+			}); err != nil {
+				return nil, err
+			}
 
-				if swapAccept != nil {
-					if err := t.repoManager.VaultRepository().UpdateVault(ctx, func(_ *domain.Vault) (*domain.Vault, error) {
-						return vault, nil
-					}); err != nil {
-						return nil, err
-					}
+			if swapAccept != nil {
+				lockedUnspents, err := t.repoManager.UnspentRepository().LockUnspents(
+					ctx,
+					selectedUnspentKeys,
+					trade.ID,
+				)
+				if err != nil {
+					return nil, err
 				}
-				return nil, nil
-			},
-		); err != nil {
-			log.WithError(err).Warn("unable to persist changes after trade is accepted")
-		}
-
+				log.Debugf("locked %d unspents", lockedUnspents)
+			}
+			return nil, nil
+		},
+	); err != nil {
+		log.WithError(err).Warnf("unable to persist trade with id %s", trade.ID)
 		if swapAccept != nil {
-			t.blockchainListener.StartObserveTx(trade.TxID)
+			return nil, nil, 0, ErrServiceUnavailable
 		}
-	}()
+	}
+
+	if swapAccept != nil {
+		// set timer for trade expiration
+		go func() {
+			// admit a tollerance of 1 minute past the expiration time.
+			time.Sleep(t.expiryDuration + time.Minute)
+			t.checkTradeExpiration(trade.TxID, selectedUnspentKeys)
+		}()
+
+		go t.blockchainListener.StartObserveTx(trade.TxID)
+	}
 
 	return swapAccept, swapFail, swapExpiryTime, nil
 }
@@ -474,6 +529,10 @@ func (t *tradeService) TradeComplete(
 		return "", swapFailMsg, nil
 	}
 
+	if swapComplete == nil {
+		return "", nil, errors.New("missing swap message")
+	}
+
 	return t.tradeComplete(ctx, *swapComplete)
 }
 
@@ -481,6 +540,9 @@ func (t *tradeService) tradeComplete(
 	ctx context.Context,
 	swapComplete domain.SwapComplete,
 ) (txID string, swapFail domain.SwapFail, err error) {
+	unlockTrade := tradeLocks.lock(swapComplete.GetAcceptId())
+	defer unlockTrade()
+
 	trade, err := t.repoManager.TradeRepository().GetTradeBySwapAcceptID(ctx, swapComplete.GetAcceptId())
 	if err != nil {
 		return
@@ -489,6 +551,11 @@ func (t *tradeService) tradeComplete(
 		err = fmt.Errorf("trade with swap id %s not found", swapComplete.GetAcceptId())
 		return
 	}
+	// the transaction of a completed trade has been broadcasted already
+	if trade.IsCompleted() || trade.IsSettled() {
+		txID = trade.TxID
+		return
+	}
 
 	tx := swapComplete.GetTransaction()
 
@@ -516,18 +583,26 @@ func (t *tradeService) tradeComplete(
 	log.Infof("trade with id %s broadcasted: %s", trade.ID, txID)
 
 	// we make sure that any problem happening at this point
-	// is not influencing the trade therefore we run as goroutine
+	// is not influencing the trade.
 	// this method will take care to retry to handle potential
 	// datastore conflicts (if any) at repository level
-	go func() {
-		if err := t.repoManager.TradeRepository().UpdateTrade(
-			ctx,
-			&trade.ID,
-			func(previousTrade *domain.Trade) (*domain.Trade, error) { return trade, nil },
-		); err != nil {
-			log.Error("unable to persist completed trade with id ", trade.ID, " : ", err.Error())
-		}
+	if err := t.repoManager.TradeRepository().UpdateTrade(
+		context.Background(),
+		&trade.ID,
+		func(previousTrade *domain.Trade) (*domain.Trade, error) {
+			if previousTrade.IsSettled() {
+				previousTrade.SwapComplete = trade.SwapComplete
+				previousTrade.TxHex = trade.TxHex
+				previousTrade.PsetBase64 = trade.PsetBase64
+				return previousTrade, nil
+			}
+			return trade, nil
+		},
+	); err != nil {
+		log.Error("unable to persist completed trade with id ", trade.ID, " : ", err.Error())
+	}
 
+	go func() {
 		_, accountIndex, _ := t.repoManager.MarketRepository().GetMarketByAsset(
 			ctx,
 			trade.MarketQuoteAsset,
@@ -549,10 +624,20 @@ func (t *tradeService) tradeFail(
 	swapFail domain.SwapFail,
 ) (domain.SwapFail, error) {
 	swapID := swapFail.GetMessageId()
+
+	unlockTrade := tradeLocks.lock(swapID)
+	defer unlockTrade()
+
 	trade, err := t.repoManager.TradeRepository().GetTradeBySwapAcceptID(ctx, swapID)
 	if err != nil {
 		return nil, err
 	}
+	if trade == nil {
+		return nil, fmt.Errorf("trade with swap id %s not found", swapID)
+	}
+	if trade.IsCompleted() || trade.IsSettled() {
+		return nil, fmt.Errorf("trade with id %s is already completed", trade.ID)
+	}
 
 	tradeID := trade.ID
 	if err := t.repoManager.TradeRepository().UpdateTrade(
@@ -598,7 +683,13 @@ func (t *tradeService) getInfoAndUnspentsForAccount(
 }
 
 func (t *tradeService) unlockUnspentsForTrade(trade *domain.Trade) {
-	p, _ := pset.NewPsetFromBase64(trade.PsetBase64)
+	p, err := pset.NewPsetFromBase64(trade.PsetBase64)
+	if err != nil {
+		log.WithError(err).Warnf(
+			"unable to unlock unspents for trade with id %s", trade.ID,
+		)
+		return
+	}
 	keyLen := len(p.Inputs)
 	unspentKeys := make([]domain.UnspentKey, keyLen, keyLen)
 
@@ -609,10 +700,7 @@ func (t *tradeService) unlockUnspentsForTrade(trade *domain.Trade) {
 		}
 	}
 
-	count, err := t.repoManager.UnspentRepository().UnlockUnspents(
-		context.Background(),
-		unspentKeys,
-	)
+	count, err := t.unlockUnspents(unspentKeys, trade.ID)
 	if err != nil {
 		log.Warnf(
 			"unable to unlock unspents for trade with id %s. You must run "+
@@ -624,6 +712,31 @@ func (t *tradeService) unlockUnspentsForTrade(trade *domain.Trade) {
 	log.Debugf("unlocked %d unspents", count)
 }
 
+// unlockUnspents unlocks those of the given unspents that are locked by the
+// given trade. Any other might have been locked by another one in the meantime.
+func (t *tradeService) unlockUnspents(
+	unspentKeys []domain.UnspentKey,
+	tradeID uuid.UUID,
+) (int, error) {
+	coinsMtx.Lock()
+	defer coinsMtx.Unlock()
+
+	ctx := context.Background()
+	lockedKeys := make([]domain.UnspentKey, 0, len(unspentKeys))
+	for _, key := range unspentKeys {
+		unspent, err := t.repoManager.UnspentRepository().GetUnspentWithKey(ctx, key)
+		if err != nil {
+			return -1, err
+		}
+		if unspent == nil || !unspent.IsLocked() || *unspent.LockedBy != tradeID {
+			continue
+		}
+		lockedKeys = append(lockedKeys, key)
+	}
+
+	return t.repoManager.UnspentRepository().UnlockUnspents(ctx, lockedKeys)
+}
+
 func (t *tradeService) checkTradeExpiration(
 	tradeTxID string,
 	selectedUnspentKeys []domain.UnspentKey,
@@ -632,12 +745,29 @@ func (t *tradeService) checkTradeExpiration(
 
 	// if the trade is expired it's required to unlock the unspents used as input
 	// and to bring the trade to failed status
-	trade, _ := t.repoManager.TradeRepository().GetTradeByTxID(ctx, tradeTxID)
+	trade, err := t.repoManager.TradeRepository().GetTradeByTxID(ctx, tradeTxID)
+	if err != nil || trade == nil {
+		log.Warnf("unable to find trade with tx id %s to check its expiration", tradeTxID)
+		return
+	}
+
+	unlockTrade := tradeLocks.lock(trade.SwapAccept.ID)
+	defer unlockTrade()
+
+	trade, err = t.repoManager.TradeRepository().GetTradeByTxID(ctx, tradeTxID)
+	if err != nil || trade == nil {
+		return
+	}
+	// the transaction of a completed trade has been broadcasted already, therefore
+	// the trade is waiting for it to be confirmed.
+	if trade.IsCompleted() {
+		return
+	}
 
 	if trade.IsExpired() {
 		t.blockchainListener.StopObserveTx(trade.TxID)
 
-		count, err := t.repoManager.UnspentRepository().UnlockUnspents(ctx, selectedUnspentKeys)
+		count, err := t.unlockUnspents(selectedUnspentKeys, trade.ID)
 		if err != nil {
 			log.WithError(err).Warnf(
 				"trade with id %s has expired but an error occured while "+
@@ -713,11 +843,17 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	// swap in order to get the full list of selected inputs
 	selectedUnspents := append(selectedUnspentsForSwap, psetWithFeesResult.SelectedUnspents...)
 
-	inputBlindingData, _, _ := wallet.ExtractBlindingDataFromTx(
+	inputBlindingData, _, err := wallet.ExtractBlindingDataFromTx(
 		opts.SwapRequest.GetTransaction(),
 		opts.SwapRequest.GetInputBlindingKey(),
 		nil,
 	)
+	if err != nil {
+		return nil, fmt.Errorf("failed to unblind inputs: %s", err)
+	}
+	if inputBlindingData == nil {
+		inputBlindingData = make(map[int]wallet.BlindingData)
+	}
 
 	// get the indexes of the inputs of the tx to sign
 	existingInputs := len(inputBlindingData)
@@ -732,7 +868,7 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 		}
 	}
 
-	outputBlindingKeys := opts.SwapRequest.GetOutputBlindingKey()
+	outputBlindingKeys := copyBlindingKeys(opts.SwapRequest.GetOutputBlindingKey())
 	outputBlindingKeys[opts.OutputInfo.Script] = opts.OutputInfo.BlindingKey
 	outputBlindingKeys[opts.ChangeInfo.Script] = opts.ChangeInfo.BlindingKey
 	for script, blindKey := range psetWithFeesResult.ChangeOutputsBlindingKeys {
@@ -762,6 +898,9 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	// get the derivation paths of the selected inputs
 	allInfo := append(opts.MarketInfo, opts.FeeInfo...)
 	selectedInfo := getSelectedInfo(allInfo, selectedUnspents)
+	if len(selectedInfo) != len(selectedUnspents) {
+		return nil, errors.New("failed to get derivation paths of selected inputs")
+	}
 
 	signedPsetBase64 := blindedPlusFees.PsetBase64
 	for i := 0; i < inputsToSign; i++ {
@@ -777,7 +916,7 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	}
 
 	// get blinding private keys for selected inputs
-	inputBlindingKeys := opts.SwapRequest.GetInputBlindingKey()
+	inputBlindingKeys := copyBlindingKeys(opts.SwapRequest.GetInputBlindingKey())
 	for _, info := range selectedInfo {
 		inputBlindingKeys[info.Script] = info.BlindingKey
 	}
@@ -810,6 +949,14 @@ func getSelectedInfo(allInfo domain.AddressesInfo, utxos []explorer.Utxo) domain
 	return selectedInfo
 }
 
+func copyBlindingKeys(keys map[string][]byte) map[string][]byte {
+	keysCopy := make(map[string][]byte, len(keys))
+	for script, key := range keys {
+		keysCopy[script] = key
+	}
+	return keysCopy
+}
+
 func getUnspentKeys(unspents []explorer.Utxo) []domain.UnspentKey {
 	keys := make([]domain.UnspentKey, 0, len(unspents))
 	for _, u := range unspents {
@@ -881,6 +1028,25 @@ func getBalanceByAsset(unspents []domain.Unspent) map[string]uint64 {
 	return balances
 }
 
+// isValidTradeAssets checks that the assets of the swap are those of the market
+// and that they're exchanged in the direction given by the type of the trade.
+func isValidTradeAssets(
+	swapRequest domain.SwapRequest,
+	tradeType int,
+	market *domain.Market,
+) bool {
+	switch tradeType {
+	case TradeBuy:
+		return swapRequest.GetAssetP() == market.QuoteAsset &&
+			swapRequest.GetAssetR() == market.BaseAsset
+	case TradeSell:
+		return swapRequest.GetAssetP() == market.BaseAsset &&
+			swapRequest.GetAssetR() == market.QuoteAsset
+	default:
+		return false
+	}
+}
+
 // isValidPrice checks that the amounts of the trade are valid by
 // making a preview of each counter amounts of the swap given the
 // current price of the market.
@@ -894,6 +1060,10 @@ func isValidTradePrice(
 	unspents []domain.Unspent,
 	slippage decimal.Decimal,
 ) bool {
+	if swapRequest.GetAmountP() == 0 || swapRequest.GetAmountR() == 0 {
+		return false
+	}
+
 	// TODO: parallelize the 2 ways of calculating and validating the preview
 	// amount to speed up the process.
 	amount := swapRequest.GetAmountR()
@@ -942,20 +1112,24 @@ func isPriceInRange(
 	isPreviewForQuoteAsset bool,
 	slippage decimal.Decimal,
 ) bool {
-	amountToCheck := decimal.NewFromInt(int64(swapRequest.GetAmountP()))
+	amountToCheck := decimalFromUint64(swapRequest.GetAmountP())
 	if tradeType == TradeSell {
 		if isPreviewForQuoteAsset {
-			amountToCheck = decimal.NewFromInt(int64(swapRequest.GetAmountR()))
+			amountToCheck = decimalFromUint64(swapRequest.GetAmountR())
 		}
 	} else {
 		if !isPreviewForQuoteAsset {
-			amountToCheck = decimal.NewFromInt(int64(swapRequest.GetAmountR()))
+			amountToCheck = decimalFromUint64(swapRequest.GetAmountR())
 		}
 	}
 
-	expectedAmount := decimal.NewFromInt(int64(previewAmount))
+	expectedAmount := decimalFromUint64(previewAmount)
 	lowerBound := expectedAmount.Mul(decimal.NewFromInt(1).Sub(slippage))
 	upperBound := expectedAmount.Mul(decimal.NewFromInt(1).Add(slippage))
 
 	return amountToCheck.GreaterThanOrEqual(lowerBound) && amountToCheck.LessThanOrEqual(upperBound)
 }
+
+func decimalFromUint64(amount uint64) decimal.Decimal {
+	return decimal.NewFromBigInt(new(big.Int).SetUint64(amount), 0)
+}
-- 
2.43.0


From d77cd41882b1cb01f239581e445937b7d44cf90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 08/49] fix: deposits, withdrawals and restore persist what
 they hand out before answering

---
 internal/core/application/operator_service.go | 250 +++++++++---------
 internal/core/application/wallet_service.go   | 156 +++++++----
 2 files changed, 227 insertions(+), 179 deletions(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index e6e9192..56edf52 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -138,6 +138,7 @@ func (o *operatorService) DepositMarket(
 	numOfAddresses int,
 ) ([]AddressAndBlindingKey, error) {
 	var accountIndex int
+	var isNewMarket bool
 
 	// First case: the assets are given. If are valid and a market exist we need to derive a new address for that account.
 	if len(baseAsset) > 0 || len(quoteAsset) > 0 {
@@ -167,64 +168,42 @@ func (o *operatorService) DepositMarket(
 		accountIndex = accountOfExistentMarket
 	} else {
 		// Second case: base and quote asset are empty. this means we need to create a new market.
-		_, latestAccountIndex, err := o.repoManager.MarketRepository().GetLatestMarket(
-			ctx,
-		)
-		if err != nil {
-			return nil, err
-		}
-
-		nextAccountIndex := latestAccountIndex + 1
-		accountIndex = nextAccountIndex
-	}
-	if numOfAddresses == 0 {
-		numOfAddresses = 1
-	}
-
-	vault, err := o.repoManager.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
-	if err != nil {
-		return nil, err
-	}
-
-	list := make([]AddressAndBlindingKey, numOfAddresses, numOfAddresses)
-	for i := 0; i < numOfAddresses; i++ {
-		info, err := vault.DeriveNextExternalAddressForAccount(accountIndex)
-		if err != nil {
-			return nil, err
-		}
-		list[i] = AddressAndBlindingKey{
-			Address:     info.Address,
-			BlindingKey: hex.EncodeToString(info.BlindingKey),
-		}
+		isNewMarket = true
 	}
 
-	go func() {
-		if _, err := o.repoManager.RunTransaction(ctx, false, func(ctx context.Context) (interface{}, error) {
-			// this makes sure that the market is created if it needs to. Otherwise,
-			// this does not commit any change to the marekt repo.
-			if _, err := o.repoManager.MarketRepository().GetOrCreateMarket(
+	// the addresses are returned only once they've been persisted.
+	var list []AddressAndBlindingKey
+	if _, err := o.repoManager.RunTransaction(ctx, false, func(ctx context.Context) (interface{}, error) {
+		if isNewMarket {
+			_, latestAccountIndex, err := o.repoManager.MarketRepository().GetLatestMarket(
 				ctx,
-				&domain.Market{
-					AccountIndex: accountIndex,
-					Fee:          o.marketFee,
-				},
-			); err != nil {
+			)
+			if err != nil {
 				return nil, err
 			}
 
-			if err := o.repoManager.VaultRepository().UpdateVault(
-				ctx,
-				func(_ *domain.Vault) (*domain.Vault, error) {
-					return vault, nil
-				}); err != nil {
-				return nil, err
-			}
+			nextAccountIndex := latestAccountIndex + 1
+			accountIndex = nextAccountIndex
+		}
 
-			return nil, nil
-		}); err != nil {
-			log.WithError(err).Warn("unable to persist changes")
+		var err error
+		list, err = o.deriveDepositAddresses(ctx, accountIndex, numOfAddresses)
+		if err != nil {
+			return nil, err
 		}
-	}()
+
+		// this makes sure that the market is created if it needs to. Otherwise,
+		// this does not commit any change to the marekt repo.
+		return o.repoManager.MarketRepository().GetOrCreateMarket(
+			ctx,
+			&domain.Market{
+				AccountIndex: accountIndex,
+				Fee:          o.marketFee,
+			},
+		)
+	}); err != nil {
+		return nil, err
+	}
 
 	return list, nil
 }
@@ -233,39 +212,42 @@ func (o *operatorService) DepositFeeAccount(
 	ctx context.Context,
 	numOfAddresses int,
 ) ([]AddressAndBlindingKey, error) {
-	if numOfAddresses == 0 {
-		numOfAddresses = 1
-	}
+	return o.deriveDepositAddresses(ctx, domain.FeeAccount, numOfAddresses)
+}
 
-	vault, err := o.repoManager.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
-	if err != nil {
-		return nil, err
+// deriveDepositAddresses derives the given number of addresses for an account
+// and persists them.
+func (o *operatorService) deriveDepositAddresses(
+	ctx context.Context,
+	accountIndex int,
+	numOfAddresses int,
+) ([]AddressAndBlindingKey, error) {
+	if numOfAddresses <= 0 {
+		numOfAddresses = 1
 	}
 
-	list := make([]AddressAndBlindingKey, numOfAddresses, numOfAddresses)
-	for i := 0; i < numOfAddresses; i++ {
-		info, err := vault.DeriveNextExternalAddressForAccount(domain.FeeAccount)
-		if err != nil {
-			return nil, err
-		}
+	var list []AddressAndBlindingKey
+	if err := o.repoManager.VaultRepository().UpdateVault(
+		ctx,
+		func(vault *domain.Vault) (*domain.Vault, error) {
+			list = make([]AddressAndBlindingKey, 0, numOfAddresses)
+			for i := 0; i < numOfAddresses; i++ {
+				info, err := vault.DeriveNextExternalAddressForAccount(accountIndex)
+				if err != nil {
+					return nil, err
+				}
 
-		list[i] = AddressAndBlindingKey{
-			Address:     info.Address,
-			BlindingKey: hex.EncodeToString(info.BlindingKey),
-		}
+				list = append(list, AddressAndBlindingKey{
+					Address:     info.Address,
+					BlindingKey: hex.EncodeToString(info.BlindingKey),
+				})
+			}
+			return vault, nil
+		},
+	); err != nil {
+		return nil, err
 	}
 
-	go func() {
-		if err := o.repoManager.VaultRepository().UpdateVault(
-			ctx,
-			func(_ *domain.Vault) (*domain.Vault, error) {
-				return vault, nil
-			},
-		); err != nil {
-			log.WithError(err).Warn("unable to update vault")
-		}
-	}()
-
 	return list, nil
 }
 
@@ -722,6 +704,11 @@ func (o *operatorService) WithdrawMarketFunds(
 		return nil, ErrMarketNotExist
 	}
 
+	// the coins available for the withdrawal must not be selected by anyone else
+	// until they are marked as spent.
+	coinsMtx.Lock()
+	defer coinsMtx.Unlock()
+
 	vault, err := o.repoManager.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
 	if err != nil {
 		return nil, err
@@ -786,53 +773,62 @@ func (o *operatorService) WithdrawMarketFunds(
 		return nil, err
 	}
 
-	mnemonic, err := vault.GetMnemonicSafe()
-	if err != nil {
-		return nil, err
-	}
+	var txHex string
+	if err := o.repoManager.VaultRepository().UpdateVault(
+		ctx,
+		func(vault *domain.Vault) (*domain.Vault, error) {
+			mnemonic, err := vault.GetMnemonicSafe()
+			if err != nil {
+				return nil, err
+			}
 
-	marketAccount, err := vault.AccountByIndex(market.AccountIndex)
-	if err != nil {
-		return nil, err
-	}
-	feeAccount, err := vault.AccountByIndex(domain.FeeAccount)
-	if err != nil {
-		return nil, err
-	}
+			marketAccount, err := vault.AccountByIndex(market.AccountIndex)
+			if err != nil {
+				return nil, err
+			}
+			feeAccount, err := vault.AccountByIndex(domain.FeeAccount)
+			if err != nil {
+				return nil, err
+			}
 
-	changePathsByAsset := map[string]string{}
-	feeChangePathByAsset := map[string]string{}
-	for _, asset := range getAssetsOfOutputs(outputs) {
-		info, err := vault.DeriveNextInternalAddressForAccount(accountIndex)
-		if err != nil {
-			return nil, err
-		}
+			changePathsByAsset := map[string]string{}
+			feeChangePathByAsset := map[string]string{}
+			for _, asset := range getAssetsOfOutputs(outputs) {
+				info, err := vault.DeriveNextInternalAddressForAccount(accountIndex)
+				if err != nil {
+					return nil, err
+				}
 
-		derivationPath := marketAccount.DerivationPathByScript[info.Script]
-		changePathsByAsset[asset] = derivationPath
-	}
+				derivationPath := marketAccount.DerivationPathByScript[info.Script]
+				changePathsByAsset[asset] = derivationPath
+			}
 
-	feeInfo, err := vault.DeriveNextInternalAddressForAccount(domain.FeeAccount)
-	if err != nil {
-		return nil, err
-	}
-	feeChangePathByAsset[o.network.AssetID] =
-		feeAccount.DerivationPathByScript[feeInfo.Script]
-
-	txHex, err := sendToMany(sendToManyOpts{
-		mnemonic:              mnemonic,
-		unspents:              marketUnspents,
-		feeUnspents:           feeUnspents,
-		outputs:               outputs,
-		outputsBlindingKeys:   outputsBlindingKeys,
-		changePathsByAsset:    changePathsByAsset,
-		feeChangePathByAsset:  feeChangePathByAsset,
-		inputPathsByScript:    marketAccount.DerivationPathByScript,
-		feeInputPathsByScript: feeAccount.DerivationPathByScript,
-		milliSatPerByte:       int(req.MillisatPerByte),
-		network:               o.network,
-	})
-	if err != nil {
+			feeInfo, err := vault.DeriveNextInternalAddressForAccount(domain.FeeAccount)
+			if err != nil {
+				return nil, err
+			}
+			feeChangePathByAsset[o.network.AssetID] =
+				feeAccount.DerivationPathByScript[feeInfo.Script]
+
+			txHex, err = sendToMany(sendToManyOpts{
+				mnemonic:              mnemonic,
+				unspents:              marketUnspents,
+				feeUnspents:           feeUnspents,
+				outputs:               outputs,
+				outputsBlindingKeys:   outputsBlindingKeys,
+				changePathsByAsset:    changePathsByAsset,
+				feeChangePathByAsset:  feeChangePathByAsset,
+				inputPathsByScript:    marketAccount.DerivationPathByScript,
+				feeInputPathsByScript: feeAccount.DerivationPathByScript,
+				milliSatPerByte:       int(req.MillisatPerByte),
+				network:               o.network,
+			})
+			if err != nil {
+				return nil, err
+			}
+			return vault, nil
+		},
+	); err != nil {
 		return nil, err
 	}
 
@@ -844,22 +840,16 @@ func (o *operatorService) WithdrawMarketFunds(
 		}
 	}
 
-	if err := o.repoManager.VaultRepository().UpdateVault(
-		ctx,
-		func(_ *domain.Vault) (*domain.Vault, error) {
-			return vault, nil
-		},
-	); err != nil {
-		return nil, err
-	}
-
-	go extractUnspentsFromTxAndUpdateUtxoSet(
+	extractUnspentsFromTxAndUpdateUtxoSet(
 		o.repoManager.UnspentRepository(),
 		o.repoManager.VaultRepository(),
 		o.network,
 		txHex,
 		market.AccountIndex,
 	)
+	if req.Push {
+		o.blockchainListener.StartObserveTx(txid)
+	}
 
 	// Publish message for topic AccountWithdraw to pubsub service.
 	if svc := o.blockchainListener.PubSubService(); svc != nil {
diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 27e69d5..31e0a47 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -20,6 +20,7 @@ import (
 	"github.com/tdex-network/tdex-daemon/pkg/wallet"
 	"github.com/vulpemventures/go-elements/address"
 	"github.com/vulpemventures/go-elements/network"
+	"github.com/vulpemventures/go-elements/pset"
 	"github.com/vulpemventures/go-elements/transaction"
 )
 
@@ -179,6 +180,7 @@ func (w *walletService) InitWallet(
 
 	if restore {
 		w.setSyncing(true)
+		defer w.setSyncing(false)
 		log.Debug("restoring wallet")
 		start := time.Now()
 		defer func() {
@@ -189,7 +191,16 @@ func (w *walletService) InitWallet(
 		log.Debug("creating wallet")
 	}
 
-	vault, err := w.repoManager.VaultRepository().GetOrCreateVault(ctx, mnemonic, passphrase, w.network)
+	// when restoring, the vault is persisted only at the end along with the rest
+	// of the restored state, so that the wallet can be initialized again in case
+	// of errors.
+	var vault *domain.Vault
+	var err error
+	if restore {
+		vault, err = domain.NewVault(mnemonic, passphrase, w.network)
+	} else {
+		vault, err = w.repoManager.VaultRepository().GetOrCreateVault(ctx, mnemonic, passphrase, w.network)
+	}
 	if err != nil {
 		chErr <- fmt.Errorf("unable to retrieve vault: %v", err)
 		return
@@ -247,7 +258,9 @@ func (w *walletService) InitWallet(
 			i++
 		}
 
-		if err := w.persistRestoredState(ctx, vault, unspents, markets); err != nil {
+		if err := w.persistRestoredState(
+			ctx, mnemonic, passphrase, vault, unspents, markets,
+		); err != nil {
 			chErr <- fmt.Errorf("unable to persist restored state: %v", err)
 			return
 		}
@@ -273,9 +286,6 @@ func (w *walletService) InitWallet(
 		CurrentPwd: passphrase,
 	}
 	w.setInitialized(true)
-	if w.isSyncing() {
-		w.setSyncing(false)
-	}
 	log.Debug("done")
 }
 
@@ -303,15 +313,6 @@ func (w *walletService) UnlockWallet(
 		return err
 	}
 
-	if err := w.repoManager.VaultRepository().UpdateVault(
-		ctx,
-		func(_ *domain.Vault) (*domain.Vault, error) {
-			return vault, nil
-		},
-	); err != nil {
-		return err
-	}
-
 	if w.blockchainListener.PubSubService() != nil {
 		go func() {
 			// For backward compatibility, check if the pubsub store has been
@@ -478,6 +479,11 @@ func (w *walletService) SendToMany(
 		return nil, err
 	}
 
+	// the coins available for the tx must not be selected by anyone else until
+	// they are marked as spent.
+	coinsMtx.Lock()
+	defer coinsMtx.Unlock()
+
 	walletUnspents, err := w.getAllUnspentsForAccount(ctx, domain.WalletAccount, true)
 	if err != nil {
 		return nil, err
@@ -548,29 +554,31 @@ func (w *walletService) SendToMany(
 
 			txHex = _txHex
 
-			if !req.Push {
-				return v, nil
-			}
-
-			txid, err := w.explorerService.BroadcastTransaction(txHex)
-			if err != nil {
-				return nil, err
-			}
-			log.Debugf("wallet account tx broadcasted with id: %s", txid)
-
 			return v, nil
 		},
 	); err != nil {
 		return nil, err
 	}
 
-	go extractUnspentsFromTxAndUpdateUtxoSet(
+	var txid string
+	if req.Push {
+		txid, err = w.explorerService.BroadcastTransaction(txHex)
+		if err != nil {
+			return nil, err
+		}
+		log.Debugf("wallet account tx broadcasted with id: %s", txid)
+	}
+
+	extractUnspentsFromTxAndUpdateUtxoSet(
 		w.repoManager.UnspentRepository(),
 		w.repoManager.VaultRepository(),
 		w.network,
 		txHex,
 		domain.FeeAccount,
 	)
+	if req.Push {
+		w.blockchainListener.StartObserveTx(txid)
+	}
 
 	rawTx, _ := hex.DecodeString(txHex)
 	return rawTx, nil
@@ -613,12 +621,21 @@ func (w *walletService) restoreVault(
 		SigningMnemonic: mnemonic,
 	})
 
-	var feeRestoreInfo, walletRestoreInfo *accountLastDerivedIndex
+	var walletRestoreInfo *accountLastDerivedIndex
 	var marketsRestoreInfo []*accountLastDerivedIndex
 
-	feeRestoreInfo = w.restoreAccount(ww, domain.FeeAccount)
-	walletRestoreInfo = w.restoreAccount(ww, domain.WalletAccount)
-	marketsRestoreInfo = w.restoreMarketAccounts(ww)
+	feeRestoreInfo, err := w.restoreAccount(ww, domain.FeeAccount)
+	if err != nil {
+		return nil, nil, err
+	}
+	walletRestoreInfo, err = w.restoreAccount(ww, domain.WalletAccount)
+	if err != nil {
+		return nil, nil, err
+	}
+	marketsRestoreInfo, err = w.restoreMarketAccounts(ww)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	// restore vault accounts
 	feeInfo, err := initVaultAccount(vault, domain.FeeAccount, feeRestoreInfo)
@@ -646,7 +663,7 @@ func (w *walletService) restoreVault(
 func (w *walletService) restoreAccount(
 	ww *wallet.Wallet,
 	accountIndex int,
-) *accountLastDerivedIndex {
+) (*accountLastDerivedIndex, error) {
 	lastDerivedIndex := &accountLastDerivedIndex{}
 	for chainIndex := 0; chainIndex <= 1; chainIndex++ {
 		firstUnusedAddress := -1
@@ -661,7 +678,11 @@ func (w *walletService) restoreAccount(
 				Script: script,
 			})
 
-			if !isAddressFunded(ctAddress, blindKey.Serialize(), w.explorerService) {
+			isFunded, err := isAddressFunded(ctAddress, blindKey.Serialize(), w.explorerService)
+			if err != nil {
+				return nil, err
+			}
+			if !isFunded {
 				if firstUnusedAddress < 0 {
 					firstUnusedAddress = i
 				}
@@ -683,33 +704,36 @@ func (w *walletService) restoreAccount(
 
 	if lastDerivedIndex.external < 0 && lastDerivedIndex.internal < 0 {
 		log.Debugf("account %d empty", accountIndex)
-		return nil
+		return nil, nil
 	}
 	log.Debugf(
 		"account %d total fetched addresses: %d",
 		accountIndex, lastDerivedIndex.total(),
 	)
-	return lastDerivedIndex
+	return lastDerivedIndex, nil
 }
 
 func (w *walletService) restoreMarketAccounts(
 	ww *wallet.Wallet,
-) []*accountLastDerivedIndex {
+) ([]*accountLastDerivedIndex, error) {
 	marketsLastIndex := make([]*accountLastDerivedIndex, 0)
 	i := 0
 	for {
 		marketIndex := domain.MarketAccountStart + i
-		lastDerivedIndex := w.restoreAccount(
+		lastDerivedIndex, err := w.restoreAccount(
 			ww,
 			marketIndex,
 		)
+		if err != nil {
+			return nil, err
+		}
 		if lastDerivedIndex == nil {
 			break
 		}
 		marketsLastIndex = append(marketsLastIndex, lastDerivedIndex)
 		i++
 	}
-	return marketsLastIndex
+	return marketsLastIndex, nil
 }
 
 func (w *walletService) restoreMarket(
@@ -745,6 +769,8 @@ func (w *walletService) restoreMarket(
 
 func (w *walletService) persistRestoredState(
 	ctx context.Context,
+	mnemonic []string,
+	passphrase string,
 	vault *domain.Vault,
 	unspents []domain.Unspent,
 	markets []*domain.Market,
@@ -753,6 +779,12 @@ func (w *walletService) persistRestoredState(
 		ctx,
 		false,
 		func(ctx context.Context) (interface{}, error) {
+			if _, err := w.repoManager.VaultRepository().GetOrCreateVault(
+				ctx, mnemonic, passphrase, w.network,
+			); err != nil {
+				return nil, fmt.Errorf("unable to persist the vault: %s", err)
+			}
+
 			// update changes to vault
 			if err := w.repoManager.VaultRepository().UpdateVault(
 				ctx,
@@ -853,9 +885,14 @@ func (w *walletService) restoreUnspents(
 		time.Sleep(1 * time.Millisecond)
 	}
 
+	var restoreErr error
 	for r := range chUnspentsInfo {
+		if restoreErr != nil {
+			continue
+		}
 		if r.err != nil {
-			return nil, r.err
+			restoreErr = r.err
+			continue
 		}
 
 		unspents = append(unspents, r.unspents...)
@@ -874,6 +911,9 @@ func (w *walletService) restoreUnspents(
 		}
 	}
 
+	if restoreErr != nil {
+		return nil, restoreErr
+	}
 	return unspents, nil
 }
 
@@ -932,6 +972,9 @@ func parseRequestOutputs(reqOutputs []TxOut) (
 		if err != nil {
 			return nil, nil, err
 		}
+		if out.Value <= 0 {
+			return nil, nil, fmt.Errorf("invalid output value %d", out.Value)
+		}
 		value, err := bufferutil.ValueToBytes(uint64(out.Value))
 		if err != nil {
 			return nil, nil, err
@@ -1028,12 +1071,6 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 		return "", err
 	}
 
-	// update the list of output blinding keys with those of the eventual changes
-	outputsBlindingKeys := opts.outputsBlindingKeys
-	for _, v := range updateResult.ChangeOutputsBlindingKeys {
-		outputsBlindingKeys = append(outputsBlindingKeys, v)
-	}
-
 	// add inputs for paying network fees
 	feeUpdateResult, err := w.UpdateTx(wallet.UpdateTxOpts{
 		PsetBase64:         updateResult.PsetBase64,
@@ -1047,9 +1084,26 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 		return "", err
 	}
 
-	// again, add changes' blinding keys to the list of those of the outputs
-	for _, v := range feeUpdateResult.ChangeOutputsBlindingKeys {
-		outputsBlindingKeys = append(outputsBlindingKeys, v)
+	// update the list of output blinding keys with those of the eventual changes
+	// in the same order they've been added to the tx.
+	changeOutputsBlindingKeys := make(map[string][]byte)
+	for script, key := range updateResult.ChangeOutputsBlindingKeys {
+		changeOutputsBlindingKeys[script] = key
+	}
+	for script, key := range feeUpdateResult.ChangeOutputsBlindingKeys {
+		changeOutputsBlindingKeys[script] = key
+	}
+	ptx, err := pset.NewPsetFromBase64(feeUpdateResult.PsetBase64)
+	if err != nil {
+		return "", err
+	}
+	outputsBlindingKeys := make([][]byte, 0, len(ptx.UnsignedTx.Outputs))
+	outputsBlindingKeys = append(outputsBlindingKeys, opts.outputsBlindingKeys...)
+	for _, out := range ptx.UnsignedTx.Outputs[len(opts.outputs):] {
+		outputsBlindingKeys = append(
+			outputsBlindingKeys,
+			changeOutputsBlindingKeys[hex.EncodeToString(out.Script)],
+		)
 	}
 
 	// blind the transaction
@@ -1146,13 +1200,17 @@ func initVaultAccount(
 	return addresses, nil
 }
 
-func isAddressFunded(addr string, blindKey []byte, explorerSvc explorer.Service) bool {
+func isAddressFunded(
+	addr string,
+	blindKey []byte,
+	explorerSvc explorer.Service,
+) (bool, error) {
 	txs, err := explorerSvc.GetTransactionsForAddress(addr, blindKey)
 	if err != nil {
 		// should we retry?
-		return false
+		return false, err
 	}
-	return len(txs) > 0
+	return len(txs) > 0, nil
 }
 
 func getBalancesByAsset(unspents []explorer.Utxo) map[string]BalanceInfo {
-- 
2.43.0


From 032fa6f7e06819b3cdb106c0ac52fd77b821fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:46 +0000
Subject: [PATCH 09/49] fix: trades and locked coins are found in badger after
 a restart

Their keys were encoded differently by every process, depending on the order in
which types were first gob encoded.
---
 .../infrastructure/storage/db/badger/db_manager.go  | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/infrastructure/storage/db/badger/db_manager.go b/internal/infrastructure/storage/db/badger/db_manager.go
index 9d5ac8d..760b617 100644
--- a/internal/infrastructure/storage/db/badger/db_manager.go
+++ b/internal/infrastructure/storage/db/badger/db_manager.go
@@ -11,12 +11,25 @@ import (
 
 	"github.com/dgraph-io/badger/v2"
 	"github.com/dgraph-io/badger/v2/options"
+	"github.com/google/uuid"
 	log "github.com/sirupsen/logrus"
 	"github.com/tdex-network/tdex-daemon/internal/core/domain"
 	"github.com/tdex-network/tdex-daemon/internal/core/ports"
 	"github.com/timshannon/badgerhold/v2"
 )
 
+// The keys of trades and locks are gob encoded and their encoding includes the
+// id of the key's type, which is assigned by order of first usage within the
+// process. Registering the types upfront makes sure that the same key has the
+// same encoding also after the daemon restarts.
+func init() {
+	for _, key := range []interface{}{uuid.UUID{}, domain.UnspentKey{}} {
+		if _, err := badgerhold.DefaultEncode(key); err != nil {
+			panic(err)
+		}
+	}
+}
+
 // repoManager holds all the badgerhold stores in a single data structure.
 type repoManager struct {
 	store        *badgerhold.Store
-- 
2.43.0


From 0b169a8c986538447e25ab44fab5ad7d2b633ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:31 +0000
Subject: [PATCH 10/49] fix: extracting unspents from a tx does not panic on
 foreign witnesses

A swap completed with an input of the counter-party that is not native segwit
made the daemon crash, one with an output it can't unblind left the utxo set
outdated.
---
 internal/core/application/types.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/core/application/types.go b/internal/core/application/types.go
index e31cb5a..fc99135 100644
--- a/internal/core/application/types.go
+++ b/internal/core/application/types.go
@@ -2,10 +2,10 @@ package application
 
 import (
 	"encoding/hex"
-	"fmt"
 
 	"github.com/btcsuite/btcd/btcec"
 	"github.com/shopspring/decimal"
+	log "github.com/sirupsen/logrus"
 	"github.com/tdex-network/tdex-daemon/internal/core/domain"
 	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
 	"github.com/tdex-network/tdex-daemon/pkg/explorer"
@@ -261,8 +261,12 @@ func (t transactionManager) ExtractUnspents(
 
 	for _, in := range tx.Inputs {
 		// our unspents are native-segiwt only
-		if len(in.Witness) > 0 {
-			pubkey, _ := btcec.ParsePubKey(in.Witness[1], btcec.S256())
+		if len(in.Witness) == 2 {
+			pubkey, err := btcec.ParsePubKey(in.Witness[1], btcec.S256())
+			if err != nil {
+				// not a native segwit input, it can't be one of ours
+				continue
+			}
 			p := payment.FromPublicKey(pubkey, network, nil)
 
 			script := hex.EncodeToString(p.WitnessScript)
@@ -280,7 +284,9 @@ func (t transactionManager) ExtractUnspents(
 		if info, ok := infoByScript[script]; ok {
 			unconfidential, ok := transactionutil.UnblindOutput(out, info.BlindingKey)
 			if !ok {
-				return nil, nil, fmt.Errorf("unable to unblind output")
+				// an output that can't be unblinded can't be spent either
+				log.Debugf("unable to unblind output %d of tx %s", i, tx.TxHash())
+				continue
 			}
 			unspentsToAdd = append(unspentsToAdd, domain.Unspent{
 				TxID:            tx.TxHash().String(),
-- 
2.43.0


From 53b16e5217bc03364070af32a9c100404cfa833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 11/49] fix: unspents get confirmed also if their tx does not
 belong to a trade

Coins of txs other than trades' ones were never confirmed and their txs observed
forever, and a coin added while its trade was being settled stayed unconfirmed.
---
 .../core/application/blockchain_listener.go   | 79 +++++++++++--------
 internal/core/application/wallet_service.go   | 14 +++-
 2 files changed, 59 insertions(+), 34 deletions(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index 3ab7652..d68d4f6 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -166,8 +166,14 @@ func (b *blockchainListener) listenToEventChannel() {
 			ctx := context.Background()
 
 			trade, err := b.repoManager.TradeRepository().GetTradeByTxID(ctx, e.TxID)
-			if err != nil {
-				log.Warnf("unable to find trade with id %s: %v", e.TxID, err)
+			if err != nil || trade == nil {
+				// the tx does not belong to any trade, it's one of those that funded
+				// or were sent by the wallet and whose outputs were unconfirmed.
+				if err := b.confirmUnspents(e.TxID); err != nil {
+					log.Warnf("trying to confirm unspents of tx %s: %v", e.TxID, err)
+					break
+				}
+				b.StopObserveTx(e.TxID)
 				break
 			}
 
@@ -191,6 +197,10 @@ func (b *blockchainListener) listenToEventChannel() {
 						log.WithError(err).Warn("an error occured while retrieving market")
 						return
 					}
+					if mkt == nil {
+						log.Warnf("market with quote asset %s not found", trade.MarketQuoteAsset)
+						return
+					}
 
 					info, err := b.repoManager.VaultRepository().GetAllDerivedAddressesInfoForAccount(
 						ctx, mktAccount,
@@ -255,16 +265,15 @@ func (b *blockchainListener) listenToEventChannel() {
 }
 
 func (b *blockchainListener) startPendingObservables() {
-	if len(b.pendingObservables) <= 0 {
-		return
-	}
+	b.mutex.Lock()
+	pendingObservables := b.pendingObservables
+	b.pendingObservables = nil
+	b.mutex.Unlock()
 
-	for _, observable := range b.pendingObservables {
+	for _, observable := range pendingObservables {
 		b.crawlerSvc.AddObservable(observable)
 		time.Sleep(200 * time.Millisecond)
 	}
-
-	b.pendingObservables = nil
 }
 
 func (b *blockchainListener) settleTrade(tradeID *uuid.UUID, event crawler.TransactionEvent) error {
@@ -311,37 +320,41 @@ func (b *blockchainListener) confirmOrAddUnspents(
 		return err
 	}
 
-	uLen := len(unspentsToAdd)
-	unspentAddresses := make([]string, uLen, uLen)
-	for i, u := range unspentsToAdd {
-		unspentAddresses[i] = u.Address
+	// the unspents might have been already added as unconfirmed, or it might be
+	// happening right now.
+	unspentKeys := make([]domain.UnspentKey, 0, len(unspentsToAdd))
+	for i := range unspentsToAdd {
+		unspentsToAdd[i].Confirmed = true
+		unspentKeys = append(unspentKeys, unspentsToAdd[i].Key())
 	}
-
-	u, err := b.repoManager.UnspentRepository().GetAllUnspentsForAddresses(ctx, unspentAddresses)
-	if err != nil {
+	if err := addUnspents(b.repoManager.UnspentRepository(), unspentsToAdd); err != nil {
 		return err
 	}
-	if len(u) > 0 {
-		unspentKeys := make([]domain.UnspentKey, uLen, uLen)
-		for i, u := range unspentsToAdd {
-			unspentKeys[i] = u.Key()
-		}
-		count, err := b.repoManager.UnspentRepository().ConfirmUnspents(ctx, unspentKeys)
-		if err != nil {
-			return err
-		}
-		log.Debugf("confirmed %d unspents", count)
-		return nil
+	count, err := b.repoManager.UnspentRepository().ConfirmUnspents(ctx, unspentKeys)
+	if err != nil {
+		return err
 	}
+	log.Debugf("confirmed %d unspents", count)
+
+	spendUnspentsAsync(b.repoManager.UnspentRepository(), unspentsToSpend)
+	return nil
+}
 
-	go func() {
-		// these unspents must be inserted already confirmed.
-		for i := range unspentsToAdd {
-			unspentsToAdd[i].Confirmed = true
+// confirmUnspents confirms all the known unspents of the given transaction.
+func (b *blockchainListener) confirmUnspents(txID string) error {
+	ctx := context.Background()
+
+	unspentKeys := make([]domain.UnspentKey, 0)
+	for _, u := range b.repoManager.UnspentRepository().GetAllUnspents(ctx) {
+		if u.TxID == txID && !u.IsConfirmed() {
+			unspentKeys = append(unspentKeys, u.Key())
 		}
-		addUnspentsAsync(b.repoManager.UnspentRepository(), unspentsToAdd)
-		spendUnspentsAsync(b.repoManager.UnspentRepository(), unspentsToSpend)
-	}()
+	}
 
+	count, err := b.repoManager.UnspentRepository().ConfirmUnspents(ctx, unspentKeys)
+	if err != nil {
+		return err
+	}
+	log.Debugf("confirmed %d unspents", count)
 	return nil
 }
diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 31e0a47..a15d499 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -1301,7 +1301,19 @@ func fetchAndAddUnspents(
 		return nil
 	}
 	go startObserveUnconfirmedUnspents(bcListener, unspents)
-	return addUnspents(unspentRepo, unspents)
+	if err := addUnspents(unspentRepo, unspents); err != nil {
+		return err
+	}
+
+	// those already known might have been confirmed in the meantime
+	confirmedKeys := make([]domain.UnspentKey, 0)
+	for _, u := range unspents {
+		if u.IsConfirmed() {
+			confirmedKeys = append(confirmedKeys, u.Key())
+		}
+	}
+	_, err = unspentRepo.ConfirmUnspents(context.Background(), confirmedKeys)
+	return err
 }
 
 func spendUnspents(
-- 
2.43.0


From cd77e2866ac87ce240eed67dfc3fe46fe66bd524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:02 +0000
Subject: [PATCH 12/49] fix: previews of extreme amounts do not wrap around or
 return negative amounts

---
 internal/core/domain/market_service.go        | 12 +++++--
 internal/core/domain/pluggable_strategy.go    | 22 +++++++++---
 pkg/marketmaking/formula/balanced_reserves.go | 34 ++++++++++++++-----
 3 files changed, 53 insertions(+), 15 deletions(-)

diff --git a/internal/core/domain/market_service.go b/internal/core/domain/market_service.go
index 20604b5..5601a5d 100644
--- a/internal/core/domain/market_service.go
+++ b/internal/core/domain/market_service.go
@@ -379,7 +379,7 @@ func (m *Market) chargeFixedFees(
 ) (uint64, error) {
 	if isBuy {
 		if isBaseAsset {
-			return amount + uint64(m.FixedFee.QuoteFee), nil
+			return safeAddFeesToAmount(amount, uint64(m.FixedFee.QuoteFee))
 		}
 		return safeSubtractFeesFromAmount(
 			amount, uint64(m.FixedFee.BaseFee), baseBalance,
@@ -391,7 +391,7 @@ func (m *Market) chargeFixedFees(
 			amount, uint64(m.FixedFee.QuoteFee), quoteBalance,
 		)
 	}
-	return amount + uint64(m.FixedFee.BaseFee), nil
+	return safeAddFeesToAmount(amount, uint64(m.FixedFee.BaseFee))
 }
 
 // getStrategySafe is a backward compatible method that returns the current
@@ -444,3 +444,11 @@ func safeSubtractFeesFromAmount(amount, fee, balance uint64) (uint64, error) {
 	}
 	return amountLessFees, nil
 }
+
+func safeAddFeesToAmount(amount, fee uint64) (uint64, error) {
+	amountPlusFees := amount + fee
+	if amountPlusFees < amount {
+		return 0, ErrMarketPreviewAmountTooBig
+	}
+	return amountPlusFees, nil
+}
diff --git a/internal/core/domain/pluggable_strategy.go b/internal/core/domain/pluggable_strategy.go
index 9aba40b..10a4a02 100644
--- a/internal/core/domain/pluggable_strategy.go
+++ b/internal/core/domain/pluggable_strategy.go
@@ -2,6 +2,7 @@ package domain
 
 import (
 	"errors"
+	"math/big"
 
 	"github.com/shopspring/decimal"
 	"github.com/tdex-network/tdex-daemon/pkg/mathutil"
@@ -31,8 +32,11 @@ func (s PluggableStrategy) OutGivenIn(_opts interface{}, amountIn uint64) (uint6
 		return 0, ErrMarketPreviewAmountTooLow
 	}
 
-	amountR := decimal.NewFromInt(int64(amountIn)).Mul(opts.Price).BigInt().Uint64()
-	amountR, _ = mathutil.LessFee(amountR, opts.Fee)
+	amount := decimalFromUint64(amountIn).Mul(opts.Price).BigInt()
+	if !amount.IsUint64() {
+		return 0, ErrMarketPreviewAmountTooBig
+	}
+	amountR, _ := mathutil.LessFee(amount.Uint64(), opts.Fee)
 	if amountR == 0 {
 		return 0, ErrMarketPreviewAmountTooLow
 	}
@@ -51,8 +55,14 @@ func (s PluggableStrategy) InGivenOut(_opts interface{}, amountOut uint64) (uint
 		return 0, ErrMarketPreviewAmountTooBig
 	}
 
-	amountP := decimal.NewFromInt(int64(amountOut)).Mul(opts.Price).BigInt().Uint64()
-	amountP, _ = mathutil.PlusFee(amountP, opts.Fee)
+	amount := decimalFromUint64(amountOut).Mul(opts.Price).BigInt()
+	if !amount.IsUint64() {
+		return 0, ErrMarketPreviewAmountTooBig
+	}
+	amountP, _ := mathutil.PlusFee(amount.Uint64(), opts.Fee)
+	if amountP < amount.Uint64() {
+		return 0, ErrMarketPreviewAmountTooBig
+	}
 	if amountP == 0 {
 		return 0, ErrMarketPreviewAmountTooLow
 	}
@@ -62,3 +72,7 @@ func (s PluggableStrategy) InGivenOut(_opts interface{}, amountOut uint64) (uint
 func (s PluggableStrategy) FormulaType() int {
 	return PluggableStrategyType
 }
+
+func decimalFromUint64(amount uint64) decimal.Decimal {
+	return decimal.NewFromBigInt(new(big.Int).SetUint64(amount), 0)
+}
diff --git a/pkg/marketmaking/formula/balanced_reserves.go b/pkg/marketmaking/formula/balanced_reserves.go
index 1bafafb..884529b 100644
--- a/pkg/marketmaking/formula/balanced_reserves.go
+++ b/pkg/marketmaking/formula/balanced_reserves.go
@@ -3,6 +3,7 @@ package formula
 
 import (
 	"errors"
+	"math/big"
 
 	"github.com/shopspring/decimal"
 	"github.com/tdex-network/tdex-daemon/pkg/mathutil"
@@ -83,12 +84,12 @@ func (BalancedReserves) OutGivenIn(_opts interface{}, amountIn uint64) (uint64,
 		return 0, ErrAmountTooLow
 	}
 
-	balanceIn := decimal.NewFromInt(int64(opts.BalanceIn))
-	balanceOut := decimal.NewFromInt(int64(opts.BalanceOut))
+	balanceIn := decimalFromUint64(opts.BalanceIn)
+	balanceOut := decimalFromUint64(opts.BalanceOut)
 	amountOutDecimal := balanceOut.Mul(
 		decimal.NewFromInt(1).Sub(
 			balanceIn.Div(
-				balanceIn.Add(decimal.NewFromInt(int64(amount))),
+				balanceIn.Add(decimalFromUint64(amount)),
 			),
 		),
 	)
@@ -100,6 +101,9 @@ func (BalancedReserves) OutGivenIn(_opts interface{}, amountIn uint64) (uint64,
 	if amountOut == 0 {
 		return 0, ErrAmountTooLow
 	}
+	if amountOut >= opts.BalanceOut {
+		return 0, ErrAmountTooBig
+	}
 
 	return amountOut, nil
 }
@@ -130,21 +134,29 @@ func (BalancedReserves) InGivenOut(_opts interface{}, amountOut uint64) (uint64,
 	if amount == 0 {
 		return 0, ErrAmountTooLow
 	}
-	if amount >= opts.BalanceOut {
+	if amount < amountOut || amount >= opts.BalanceOut {
 		return 0, ErrAmountTooBig
 	}
 
-	balanceIn := decimal.NewFromInt(int64(opts.BalanceIn))
-	balanceOut := decimal.NewFromInt(int64(opts.BalanceOut))
+	balanceIn := decimalFromUint64(opts.BalanceIn)
+	balanceOut := decimalFromUint64(opts.BalanceOut)
 	amountInDecimal := balanceIn.Mul(
 		balanceOut.Div(
-			balanceOut.Sub(decimal.NewFromInt(int64(amount))),
+			balanceOut.Sub(decimalFromUint64(amount)),
 		).Sub(decimal.NewFromInt(1)),
 	)
 
-	amountIn := amountInDecimal.BigInt().Uint64()
+	amountInBig := amountInDecimal.BigInt()
+	if !amountInBig.IsUint64() {
+		return 0, ErrAmountTooBig
+	}
+	amountIn := amountInBig.Uint64()
 	if opts.ChargeFeeOnTheWayIn {
-		amountIn, _ = mathutil.PlusFee(amountIn, opts.Fee)
+		amountInPlusFee, _ := mathutil.PlusFee(amountIn, opts.Fee)
+		if amountInPlusFee < amountIn {
+			return 0, ErrAmountTooBig
+		}
+		amountIn = amountInPlusFee
 	}
 	if amountIn == 0 {
 		return 0, ErrAmountTooLow
@@ -156,3 +168,7 @@ func (BalancedReserves) InGivenOut(_opts interface{}, amountOut uint64) (uint64,
 func (BalancedReserves) FormulaType() int {
 	return BalancedReservesType
 }
+
+func decimalFromUint64(amount uint64) decimal.Decimal {
+	return decimal.NewFromBigInt(new(big.Int).SetUint64(amount), 0)
+}
-- 
2.43.0


From f5502e5eaa61880b25352eb2820c288a78c85798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:50 +0000
Subject: [PATCH 13/49] fix: the storage opens after a kill in the middle of a
 write

---
 internal/infrastructure/storage/db/badger/db_manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/infrastructure/storage/db/badger/db_manager.go b/internal/infrastructure/storage/db/badger/db_manager.go
index 760b617..23b4aa8 100644
--- a/internal/infrastructure/storage/db/badger/db_manager.go
+++ b/internal/infrastructure/storage/db/badger/db_manager.go
@@ -305,6 +305,10 @@ func createDb(dbDir string, logger badger.Logger) (*badgerhold.Store, error) {
 	} else {
 		opts.ValueLogLoadingMode = options.FileIO
 		opts.Compression = options.ZSTD
+		// If the process gets killed while writing, the value log may end with an
+		// incomplete entry that was never acknowledged and must be dropped, or the
+		// db wouldn't open anymore.
+		opts.Truncate = true
 	}
 
 	db, err := badgerhold.Open(badgerhold.Options{
-- 
2.43.0


From 5f1e89fb4f604b3712f06b318b3b4af59b5ec65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:10 +0000
Subject: [PATCH 14/49] fix: proposals whose transaction does not match the
 amounts of the swap are rejected

---
 internal/core/application/trade_service.go | 40 ++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 74d67cd..de6e37f 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -843,14 +843,17 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	// swap in order to get the full list of selected inputs
 	selectedUnspents := append(selectedUnspentsForSwap, psetWithFeesResult.SelectedUnspents...)
 
-	inputBlindingData, _, err := wallet.ExtractBlindingDataFromTx(
+	inputBlindingData, outputBlindingData, err := wallet.ExtractBlindingDataFromTx(
 		opts.SwapRequest.GetTransaction(),
 		opts.SwapRequest.GetInputBlindingKey(),
-		nil,
+		opts.SwapRequest.GetOutputBlindingKey(),
 	)
 	if err != nil {
 		return nil, fmt.Errorf("failed to unblind inputs: %s", err)
 	}
+	if !isBalancedProposal(opts.SwapRequest, inputBlindingData, outputBlindingData) {
+		return nil, errors.New("amounts of proposed transaction do not match those of the swap")
+	}
 	if inputBlindingData == nil {
 		inputBlindingData = make(map[int]wallet.BlindingData)
 	}
@@ -929,6 +932,39 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	}, nil
 }
 
+// isBalancedProposal checks that, for every asset, the difference between the
+// inputs and the outputs added by the proposer is the one given by the swap. The
+// final transaction would not be valid otherwise.
+func isBalancedProposal(
+	swapRequest domain.SwapRequest,
+	inputs, outputs map[int]wallet.BlindingData,
+) bool {
+	balances := make(map[string]*big.Int)
+	add := func(asset string, amount uint64, sign int64) {
+		if _, ok := balances[asset]; !ok {
+			balances[asset] = new(big.Int)
+		}
+		value := new(big.Int).SetUint64(amount)
+		balances[asset].Add(balances[asset], value.Mul(value, big.NewInt(sign)))
+	}
+
+	for _, in := range inputs {
+		add(in.Asset, in.Amount, 1)
+	}
+	for _, out := range outputs {
+		add(out.Asset, out.Amount, -1)
+	}
+	add(swapRequest.GetAssetP(), swapRequest.GetAmountP(), -1)
+	add(swapRequest.GetAssetR(), swapRequest.GetAmountR(), 1)
+
+	for _, balance := range balances {
+		if balance.Sign() != 0 {
+			return false
+		}
+	}
+	return true
+}
+
 func getSelectedInfo(allInfo domain.AddressesInfo, utxos []explorer.Utxo) domain.AddressesInfo {
 	contains := func(script string) *domain.AddressInfo {
 		for _, info := range allInfo {
-- 
2.43.0


From dfdd8b8c3345e8b87df8c83a7411fecf03a38a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 15/49] fix: completions in hex format or with forged prevouts
 are refused if not fully signed

---
 pkg/swap/complete.go | 85 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 84 insertions(+), 1 deletion(-)

diff --git a/pkg/swap/complete.go b/pkg/swap/complete.go
index 60b89fe..e246c2d 100644
--- a/pkg/swap/complete.go
+++ b/pkg/swap/complete.go
@@ -1,11 +1,16 @@
 package swap
 
 import (
+	"bytes"
 	"encoding/hex"
 	"fmt"
 
+	"github.com/btcsuite/btcd/btcec"
+	"github.com/btcsuite/btcd/txscript"
+	"github.com/btcsuite/btcutil"
 	pb "github.com/tdex-network/tdex-protobuf/generated/go/swap"
 	"github.com/thanhpk/randstr"
+	"github.com/vulpemventures/go-elements/payment"
 	"github.com/vulpemventures/go-elements/pset"
 	"github.com/vulpemventures/go-elements/transaction"
 	"google.golang.org/protobuf/proto"
@@ -38,6 +43,10 @@ func Complete(complete CompleteOpts) (string, []byte, error) {
 			return "", nil, fmt.Errorf("transaction in base64 format is invalid")
 		}
 
+		if err := validatePrevouts(ptx); err != nil {
+			return "", nil, err
+		}
+
 		ok, err := ptx.ValidateAllSignatures()
 		if err != nil {
 			return "", nil, err
@@ -45,7 +54,14 @@ func Complete(complete CompleteOpts) (string, []byte, error) {
 		if !ok {
 			return "", nil, fmt.Errorf("transaction contains invalid signatures")
 		}
-		tx = ptx.UnsignedTx
+
+		if err := pset.FinalizeAll(ptx); err != nil {
+			return "", nil, err
+		}
+		tx, err = pset.Extract(ptx)
+		if err != nil {
+			return "", nil, err
+		}
 	} else {
 		tx, err = transaction.NewTxFromHex(complete.Transaction)
 		if err != nil {
@@ -57,6 +73,9 @@ func Complete(complete CompleteOpts) (string, []byte, error) {
 	if !isSameTransaction(tx, acceptedPtx.UnsignedTx) {
 		return "", nil, fmt.Errorf("transaction does not match the accepted one")
 	}
+	if !isSigned(tx, acceptedPtx) {
+		return "", nil, fmt.Errorf("transaction contains missing or invalid signatures")
+	}
 
 	randomID := randstr.Hex(8)
 	msgComplete := &pb.SwapComplete{
@@ -149,6 +168,70 @@ func isSameTransaction(a, b *transaction.Transaction) bool {
 	return hashWithoutSignatures(a) == hashWithoutSignatures(b)
 }
 
+// validatePrevouts returns an error if the prevouts that the pset carries cannot
+// be used to verify the signatures of its inputs.
+func validatePrevouts(ptx *pset.Pset) error {
+	for i, in := range ptx.Inputs {
+		if in.NonWitnessUtxo == nil {
+			continue
+		}
+		prevoutIndex := ptx.UnsignedTx.Inputs[i].Index
+		if int64(prevoutIndex) >= int64(len(in.NonWitnessUtxo.Outputs)) {
+			return fmt.Errorf("non-witness utxo of input %d is invalid", i)
+		}
+		script := in.NonWitnessUtxo.Outputs[prevoutIndex].Script
+		if in.RedeemScript != nil {
+			script = in.RedeemScript
+		}
+		if txscript.IsPayToWitnessPubKeyHash(script) && in.WitnessUtxo == nil {
+			return fmt.Errorf("witness utxo of input %d is missing", i)
+		}
+	}
+	return nil
+}
+
+// isSigned returns whether all the inputs of the final transaction are signed.
+// The signatures of those spending a P2WPKH prevout, like all the ones owned by
+// the daemon, are verified against the prevouts of the accepted transaction.
+func isSigned(tx *transaction.Transaction, acceptedPtx *pset.Pset) bool {
+	for i, in := range tx.Inputs {
+		prevout := acceptedPtx.Inputs[i].WitnessUtxo
+		if prevout == nil || !txscript.IsPayToWitnessPubKeyHash(prevout.Script) {
+			if len(in.Script) <= 0 && len(in.Witness) <= 0 {
+				return false
+			}
+			continue
+		}
+
+		if len(in.Witness) != 2 || len(in.Witness[0]) <= 0 {
+			return false
+		}
+		sig, pubkey := in.Witness[0], in.Witness[1]
+		if !bytes.Equal(btcutil.Hash160(pubkey), prevout.Script[2:]) {
+			return false
+		}
+		key, err := btcec.ParsePubKey(pubkey, btcec.S256())
+		if err != nil {
+			return false
+		}
+		signature, err := btcec.ParseDERSignature(sig[:len(sig)-1], btcec.S256())
+		if err != nil {
+			return false
+		}
+		pay, err := payment.FromScript(prevout.Script, nil, nil)
+		if err != nil {
+			return false
+		}
+		hash := tx.HashForWitnessV0(
+			i, pay.Script, prevout.Value, txscript.SigHashType(sig[len(sig)-1]),
+		)
+		if !signature.Verify(hash[:], key) {
+			return false
+		}
+	}
+	return true
+}
+
 func isHex(s string) bool {
 	_, err := hex.DecodeString(s)
 	return err == nil
-- 
2.43.0


From 89b62ccbc39748369ac8659ba23471d31486252c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 16/49] fix: malformed transactions and PSETs of unknown origin
 are refused before being deserialized

---
 go.mod                        |   1 +
 pkg/swap/complete.go          |   7 ++
 pkg/swap/request.go           |  10 ++
 pkg/transactionutil/sanity.go | 195 ++++++++++++++++++++++++++++++++++
 4 files changed, 213 insertions(+)
 create mode 100644 pkg/transactionutil/sanity.go

diff --git a/go.mod b/go.mod
index da55a75..a70ee00 100644
--- a/go.mod
+++ b/go.mod
@@ -11,6 +11,7 @@ replace github.com/tdex-network/tdex-daemon/pkg/macaroons => ./pkg/macaroons
 require (
 	github.com/btcsuite/btcd v0.21.0-beta.0.20210426180113-7eba688b65e5
 	github.com/btcsuite/btcutil v1.0.3-0.20201208143702-a53e38424cce
+	github.com/btcsuite/btcutil/psbt v1.0.3-0.20201208143702-a53e38424cce
 	github.com/desertbit/timer v0.0.0-20180107155436-c41aec40b27f // indirect
 	github.com/dgraph-io/badger/v2 v2.2007.2
 	github.com/dgrijalva/jwt-go v3.2.0+incompatible
diff --git a/pkg/swap/complete.go b/pkg/swap/complete.go
index e246c2d..1615cb9 100644
--- a/pkg/swap/complete.go
+++ b/pkg/swap/complete.go
@@ -8,6 +8,7 @@ import (
 	"github.com/btcsuite/btcd/btcec"
 	"github.com/btcsuite/btcd/txscript"
 	"github.com/btcsuite/btcutil"
+	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
 	pb "github.com/tdex-network/tdex-protobuf/generated/go/swap"
 	"github.com/thanhpk/randstr"
 	"github.com/vulpemventures/go-elements/payment"
@@ -38,6 +39,9 @@ func Complete(complete CompleteOpts) (string, []byte, error) {
 
 	var tx *transaction.Transaction
 	if !isHex(complete.Transaction) {
+		if err := transactionutil.CheckPset(complete.Transaction); err != nil {
+			return "", nil, fmt.Errorf("transaction in base64 format is invalid")
+		}
 		ptx, err := pset.NewPsetFromBase64(complete.Transaction)
 		if err != nil {
 			return "", nil, fmt.Errorf("transaction in base64 format is invalid")
@@ -63,6 +67,9 @@ func Complete(complete CompleteOpts) (string, []byte, error) {
 			return "", nil, err
 		}
 	} else {
+		if err := transactionutil.CheckTxHex(complete.Transaction); err != nil {
+			return "", nil, fmt.Errorf("transaction in hex format is invalid")
+		}
 		tx, err = transaction.NewTxFromHex(complete.Transaction)
 		if err != nil {
 			return "", nil, fmt.Errorf("transaction in hex format is invalid")
diff --git a/pkg/swap/request.go b/pkg/swap/request.go
index 9f40cd1..676362d 100644
--- a/pkg/swap/request.go
+++ b/pkg/swap/request.go
@@ -4,6 +4,7 @@ import (
 	"encoding/hex"
 	"fmt"
 
+	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
 	pb "github.com/tdex-network/tdex-protobuf/generated/go/swap"
 	"github.com/thanhpk/randstr"
 	"github.com/vulpemventures/go-elements/pset"
@@ -63,6 +64,9 @@ func checkTxAndBlindKeys(
 	psetBase64 string,
 	inBlindKeys, outBlindKeys map[string][]byte,
 ) error {
+	if err := transactionutil.CheckPset(psetBase64); err != nil {
+		return fmt.Errorf("pset is not in a valid base64 format")
+	}
 	ptx, err := pset.NewPsetFromBase64(psetBase64)
 	if err != nil {
 		return fmt.Errorf("pset is not in a valid base64 format")
@@ -77,7 +81,13 @@ func checkTxAndBlindKeys(
 		if in.WitnessUtxo != nil {
 			prevout = in.WitnessUtxo
 		} else {
+			if in.NonWitnessUtxo == nil {
+				return fmt.Errorf("missing prevout for input %d", i)
+			}
 			txinIndex := ptx.UnsignedTx.Inputs[i].Index
+			if int64(txinIndex) >= int64(len(in.NonWitnessUtxo.Outputs)) {
+				return fmt.Errorf("invalid prevout for input %d", i)
+			}
 			prevout = in.NonWitnessUtxo.Outputs[txinIndex]
 		}
 		if checkInputKeys {
diff --git a/pkg/transactionutil/sanity.go b/pkg/transactionutil/sanity.go
new file mode 100644
index 0000000..d935104
--- /dev/null
+++ b/pkg/transactionutil/sanity.go
@@ -0,0 +1,195 @@
+package transactionutil
+
+import (
+	"encoding/base64"
+	"encoding/binary"
+	"encoding/hex"
+	"errors"
+
+	"github.com/btcsuite/btcutil/psbt"
+	"github.com/vulpemventures/go-elements/transaction"
+)
+
+// ErrMalformedTransaction is returned when a serialized transaction declares
+// more data than it contains.
+var ErrMalformedTransaction = errors.New("transaction is malformed")
+
+// CheckTxHex returns an error if any of the lengths declared by the given raw
+// transaction exceeds its size. It must be used for those of unknown origin
+// before deserializing them, because memory is allocated for the declared size.
+func CheckTxHex(txHex string) error {
+	buf, err := hex.DecodeString(txHex)
+	if err != nil {
+		return err
+	}
+	r := &reader{buf: buf}
+	r.skipTx()
+	return r.err
+}
+
+// CheckPset is like CheckTxHex but for a PSET in base64 format.
+func CheckPset(psetBase64 string) error {
+	buf, err := base64.StdEncoding.DecodeString(psetBase64)
+	if err != nil {
+		return err
+	}
+
+	r := &reader{buf: buf}
+	r.next(5) // magic bytes
+
+	// the unsigned transaction is always the first of the global section
+	key, value := r.nextKeyValue()
+	if r.err != nil || len(key) != 1 ||
+		psbt.GlobalType(key[0]) != psbt.UnsignedTxType {
+		return ErrMalformedTransaction
+	}
+	tx := &reader{buf: value}
+	ins, outs := tx.skipTx()
+	if tx.err != nil {
+		return tx.err
+	}
+
+	// it's followed by a section of key-value pairs for the rest of the global
+	// ones, for every input and for every output.
+	for i := uint64(0); i < 1+ins+outs && r.err == nil; i++ {
+		for r.err == nil {
+			key, value := r.nextKeyValue()
+			if len(key) <= 0 {
+				break
+			}
+			if isInput := i > 0 && i <= ins; !isInput {
+				continue
+			}
+			field := &reader{buf: value}
+			switch psbt.InputType(key[0]) {
+			case psbt.NonWitnessUtxoType:
+				field.skipTx()
+			case psbt.WitnessUtxoType:
+				if field.skipOutput() {
+					field.skipSlice()
+					field.skipSlice()
+				}
+			}
+			if field.err != nil {
+				return field.err
+			}
+		}
+	}
+
+	return r.err
+}
+
+type reader struct {
+	buf []byte
+	err error
+}
+
+func (r *reader) next(n uint64) []byte {
+	if r.err != nil || n > uint64(len(r.buf)) {
+		r.err = ErrMalformedTransaction
+		return make([]byte, 8)
+	}
+	b := r.buf[:n]
+	r.buf = r.buf[n:]
+	return b
+}
+
+func (r *reader) nextVarInt() uint64 {
+	switch prefix := r.next(1)[0]; prefix {
+	case 0xff:
+		return binary.LittleEndian.Uint64(r.next(8))
+	case 0xfe:
+		return uint64(binary.LittleEndian.Uint32(r.next(4)))
+	case 0xfd:
+		return uint64(binary.LittleEndian.Uint16(r.next(2)))
+	default:
+		return uint64(prefix)
+	}
+}
+
+// nextKeyValue returns an empty key at the end of a section.
+func (r *reader) nextKeyValue() (key, value []byte) {
+	keyLen := r.nextVarInt()
+	if keyLen <= 0 || r.err != nil {
+		return nil, nil
+	}
+	key = r.next(keyLen)
+	value = r.next(r.nextVarInt())
+	if r.err != nil {
+		return nil, nil
+	}
+	return
+}
+
+func (r *reader) skipSlice() {
+	r.next(r.nextVarInt())
+}
+
+func (r *reader) skipVector() {
+	count := r.nextVarInt()
+	for i := uint64(0); i < count && r.err == nil; i++ {
+		r.skipSlice()
+	}
+}
+
+func (r *reader) skipValue() {
+	switch r.next(1)[0] {
+	case 1:
+		r.next(8)
+	case 8, 9:
+		r.next(32)
+	}
+}
+
+// skipOutput returns whether the output is a confidential one.
+func (r *reader) skipOutput() bool {
+	r.next(33)
+	r.skipValue()
+	nonce := r.next(1)[0]
+	isConfidential := nonce >= 1 && nonce <= 3
+	if isConfidential {
+		r.next(32)
+	}
+	r.skipSlice()
+	return isConfidential
+}
+
+// skipTx returns the number of inputs and outputs of the transaction.
+func (r *reader) skipTx() (ins, outs uint64) {
+	r.next(4)
+	hasWitness := r.next(1)[0] == 1
+
+	ins = r.nextVarInt()
+	for i := uint64(0); i < ins && r.err == nil; i++ {
+		r.next(32)
+		index := binary.LittleEndian.Uint32(r.next(4))
+		r.skipSlice()
+		r.next(4)
+		if index != transaction.MinusOne &&
+			index&transaction.OutpointIssuanceFlag != 0 {
+			r.next(64)
+			r.skipValue()
+			r.skipValue()
+		}
+	}
+
+	outs = r.nextVarInt()
+	for i := uint64(0); i < outs && r.err == nil; i++ {
+		r.skipOutput()
+	}
+	r.next(4)
+
+	if hasWitness {
+		for i := uint64(0); i < ins && r.err == nil; i++ {
+			r.skipSlice()
+			r.skipSlice()
+			r.skipVector()
+			r.skipVector()
+		}
+		for i := uint64(0); i < outs && r.err == nil; i++ {
+			r.skipSlice()
+			r.skipSlice()
+		}
+	}
+	return
+}
-- 
2.43.0


From 231427f97771bb7ff73e618028758097016e3360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 17/49] fix: changing the password of the secure store keeps
 every record and is atomic

---
 pkg/securestore/bolt/store.go | 198 +++++++++++++++++-----------------
 1 file changed, 98 insertions(+), 100 deletions(-)

diff --git a/pkg/securestore/bolt/store.go b/pkg/securestore/bolt/store.go
index 6a85c2a..dd1a871 100644
--- a/pkg/securestore/bolt/store.go
+++ b/pkg/securestore/bolt/store.go
@@ -2,10 +2,8 @@ package boltsecurestore
 
 import (
 	"bytes"
-	"fmt"
 	"os"
 	"path/filepath"
-	"strings"
 	"sync"
 
 	"github.com/btcsuite/btcwallet/snacl"
@@ -67,22 +65,28 @@ func NewSecureStorage(datadir, filename string) (securestore.SecureStorage, erro
 // IsLocked returns whether the store is locked by checking if the encryption
 // key is stored in-memory.
 func (s *boltSecureStorage) IsLocked() bool {
-	return s.encKey == nil
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	return s.isLocked()
 }
 
 // Lock eventually locks the store by flushing the in-memory encryption key.
 func (s *boltSecureStorage) Lock() {
-	if !s.IsLocked() {
-		s.encKey.Zero()
-		s.encKey = nil
-	}
+	s.encKeyMtx.Lock()
+	defer s.encKeyMtx.Unlock()
+
+	s.lock()
 }
 
 // CreateUnlock sets an encryption key if one is not already set, otherwise it
 // checks if the password is correct for the stored encryption key.
 func (s *boltSecureStorage) CreateUnlock(password *[]byte) error {
+	s.encKeyMtx.Lock()
+	defer s.encKeyMtx.Unlock()
+
 	// Is the store is already unlocked there's nothing to do here.
-	if !s.IsLocked() {
+	if !s.isLocked() {
 		return nil
 	}
 
@@ -90,9 +94,6 @@ func (s *boltSecureStorage) CreateUnlock(password *[]byte) error {
 		return ErrPasswordRequired
 	}
 
-	s.encKeyMtx.Lock()
-	defer s.encKeyMtx.Unlock()
-
 	return kvdb.Update(s.db, func(tx kvdb.RwTx) error {
 		bucket := tx.ReadWriteBucket(RootKeyBucketName)
 		if bucket == nil {
@@ -135,9 +136,13 @@ func (s *boltSecureStorage) CreateUnlock(password *[]byte) error {
 // ChangePassword decrypts the store (included the root key) with the old
 // password and then encrypts it again with the new password.
 func (s *boltSecureStorage) ChangePassword(oldPw, newPw []byte) error {
+	// No entry can be read or written with the old key while it's replaced.
+	s.encKeyMtx.Lock()
+	defer s.encKeyMtx.Unlock()
+
 	// The store must be already unlocked. This ensures that there already is a
 	// key in the DB.
-	if s.IsLocked() {
+	if s.isLocked() {
 		return ErrStoreLocked
 	}
 
@@ -175,32 +180,34 @@ func (s *boltSecureStorage) ChangePassword(oldPw, newPw []byte) error {
 		return err
 	}
 
-	// Efficiently decrypt DB with old password and encrypt is again with the
-	// new one.
-	if err := s.updateEncryptedDb(encKeyNew); err != nil {
-		return err
-	}
-
-	// Finally, store the new encryption key parameters in the DB
-	// as well.
-	return kvdb.Update(s.db, func(tx kvdb.RwTx) error {
+	// Decrypt all entries with the old key, encrypt them again with the new one
+	// and store the new encryption key parameters, all in the same transaction
+	// so that the DB is always fully readable with one of the two passwords.
+	if err := kvdb.Update(s.db, func(tx kvdb.RwTx) error {
 		bucket := tx.ReadWriteBucket(RootKeyBucketName)
 		if bucket == nil {
 			return ErrRootKeyBucketNotFound
 		}
 
-		if err := bucket.Put(encryptionKeyID, encKeyNew.Marshal()); err != nil {
+		if err := s.updateEncryptedBucket(bucket, encKeyNew); err != nil {
 			return err
 		}
 
-		s.encKey = encKeyNew
-		return nil
-	}, func() {})
+		return bucket.Put(encryptionKeyID, encKeyNew.Marshal())
+	}, func() {}); err != nil {
+		return err
+	}
+
+	s.encKey = encKeyNew
+	return nil
 }
 
 // CreateBucket creates a nested bucket into the root one.
 func (s *boltSecureStorage) CreateBucket(key []byte) error {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return ErrStoreLocked
 	}
 
@@ -224,7 +231,10 @@ func (s *boltSecureStorage) CreateBucket(key []byte) error {
 // AddToBucket stores the provided data encrypted into the given bucket.
 // If the bucket key is nil, the key/value entry is added to the root one.
 func (s *boltSecureStorage) AddToBucket(bucketKey, key, value []byte) error {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return ErrStoreLocked
 	}
 
@@ -265,7 +275,10 @@ func (s *boltSecureStorage) AddToBucket(bucketKey, key, value []byte) error {
 // GetFromBucket retrieves data for the given key and bucket. If the bucket key
 // is nil, data is retrieved from the root bucket.
 func (s *boltSecureStorage) GetFromBucket(bucketKey, key []byte) ([]byte, error) {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return nil, ErrStoreLocked
 	}
 
@@ -313,7 +326,10 @@ func (s *boltSecureStorage) GetFromBucket(bucketKey, key []byte) ([]byte, error)
 // GetAllFromBucket returns all data stored in the given bucket.
 // If the bucket key is nil
 func (s *boltSecureStorage) GetAllFromBucket(bucketKey []byte) (map[string][]byte, error) {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return nil, ErrStoreLocked
 	}
 
@@ -350,7 +366,10 @@ func (s *boltSecureStorage) GetAllFromBucket(bucketKey []byte) (map[string][]byt
 }
 
 func (s *boltSecureStorage) ListBuckets() ([][]byte, error) {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return nil, ErrStoreLocked
 	}
 
@@ -382,7 +401,7 @@ func (s *boltSecureStorage) Close() error {
 	s.encKeyMtx.Lock()
 	defer s.encKeyMtx.Unlock()
 
-	s.Lock()
+	s.lock()
 
 	return s.db.Close()
 }
@@ -390,7 +409,10 @@ func (s *boltSecureStorage) Close() error {
 // RemoveFromBucket removes the entry identified by the given key for the given
 // bucket. If bucket key is nil, the entry is removed from the root bucket.
 func (s *boltSecureStorage) RemoveFromBucket(bucketKey, key []byte) error {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return ErrStoreLocked
 	}
 
@@ -419,7 +441,10 @@ func (s *boltSecureStorage) RemoveFromBucket(bucketKey, key []byte) error {
 }
 
 func (s *boltSecureStorage) RemoveBucket(key []byte) error {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return ErrStoreLocked
 	}
 
@@ -440,84 +465,57 @@ func (s *boltSecureStorage) RemoveBucket(key []byte) error {
 	}, func() {})
 }
 
-type bucketData struct {
-	bucketKey []byte
-	data      map[string][]byte
-	err       error
+func (s *boltSecureStorage) isLocked() bool {
+	return s.encKey == nil
 }
 
-func (s *boltSecureStorage) updateEncryptedDb(newKey *snacl.SecretKey) error {
-	buckets, err := s.ListBuckets()
-	if err != nil {
-		return err
+func (s *boltSecureStorage) lock() {
+	if !s.isLocked() {
+		s.encKey.Zero()
+		s.encKey = nil
 	}
-	// nil key is used for the top level bucket
-	buckets = append(buckets, nil)
-
-	wg := &sync.WaitGroup{}
-	wg.Add(len(buckets))
-	chData := make(chan bucketData)
-
-	go func() {
-		wg.Wait()
-		close(chData)
-	}()
+}
 
-	for _, bucketKey := range buckets {
-		go s.getAllFromBucket(bucketKey, wg, chData)
+// updateEncryptedBucket encrypts with the new key all the entries of the given
+// bucket and of those nested into it.
+func (s *boltSecureStorage) updateEncryptedBucket(
+	bucket kvdb.RwBucket, newKey *snacl.SecretKey,
+) error {
+	nestedKeys := make([][]byte, 0)
+	data := make(map[string][]byte)
+	if err := bucket.ForEach(func(k, v []byte) error {
+		if v == nil {
+			nestedKeys = append(nestedKeys, append([]byte{}, k...))
+			return nil
+		}
+		if bytes.Equal(k, encryptionKeyID) {
+			return nil
+		}
+		value, err := s.encKey.Decrypt(v)
+		if err != nil {
+			return err
+		}
+		data[string(k)] = value
+		return nil
+	}); err != nil {
+		return err
 	}
 
-	allBucketData := make(map[string][]byte)
-	for d := range chData {
-		if d.err != nil {
+	for k, v := range data {
+		encryptedValue, err := newKey.Encrypt(v)
+		if err != nil {
 			return err
 		}
-
-		for k, v := range d.data {
-			key := fmt.Sprintf("%s_%s", string(d.bucketKey), k)
-			allBucketData[key] = v
+		if err := bucket.Put([]byte(k), encryptedValue); err != nil {
+			return err
 		}
 	}
 
-	wg = &sync.WaitGroup{}
-	wg.Add(len(allBucketData))
-
-	for k := range allBucketData {
-		k := k
-		v := allBucketData[k]
-		go func() {
-			defer wg.Done()
-			kk := strings.Split(k, "_")
-			bucketKey := []byte(kk[0])
-			key := []byte(kk[1])
-
-			kvdb.Batch(s.db, func(tx kvdb.RwTx) error {
-				bucket := tx.ReadWriteBucket(RootKeyBucketName)
-				if len(bucketKey) > 0 {
-					bucket = bucket.NestedReadWriteBucket(bucketKey)
-				}
-
-				encryptedValue, _ := newKey.Encrypt(v)
-				bucket.Put(key, encryptedValue)
-				return nil
-			})
-		}()
+	for _, k := range nestedKeys {
+		nested := bucket.NestedReadWriteBucket(k)
+		if err := s.updateEncryptedBucket(nested, newKey); err != nil {
+			return err
+		}
 	}
-
-	wg.Wait()
-
 	return nil
 }
-
-func (s *boltSecureStorage) getAllFromBucket(
-	key []byte, wg *sync.WaitGroup, chData chan bucketData,
-) {
-	defer wg.Done()
-
-	data, err := s.GetAllFromBucket(key)
-	if err != nil {
-		chData <- bucketData{err: err}
-		return
-	}
-	chData <- bucketData{bucketKey: key, data: data}
-}
-- 
2.43.0


From ab3c2d6e643d4708ae4a2f631bc64e37ec6d4b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 18/49] fix: truncated cyphertexts are refused instead of
 causing a panic

---
 pkg/wallet/cypher.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pkg/wallet/cypher.go b/pkg/wallet/cypher.go
index 4a21eb2..89b682b 100644
--- a/pkg/wallet/cypher.go
+++ b/pkg/wallet/cypher.go
@@ -9,6 +9,13 @@ import (
 	"golang.org/x/crypto/scrypt"
 )
 
+const (
+	saltLen = 32
+	// minCypherTextLen is the length of nonce, auth tag and salt that are always
+	// part of a cyphertext.
+	minCypherTextLen = 12 + 16 + saltLen
+)
+
 // EncryptOpts is the struct given to Encrypt method
 type EncryptOpts struct {
 	PlainText  string
@@ -65,7 +72,11 @@ func (o DecryptOpts) validate() error {
 	if len(o.CypherText) <= 0 {
 		return ErrNullCypherText
 	}
-	if _, err := base64.StdEncoding.DecodeString(o.CypherText); err != nil {
+	data, err := base64.StdEncoding.DecodeString(o.CypherText)
+	if err != nil {
+		return ErrInvalidCypherText
+	}
+	if len(data) < minCypherTextLen {
 		return ErrInvalidCypherText
 	}
 	if len(o.Passphrase) <= 0 {
@@ -81,7 +92,7 @@ func Decrypt(opts DecryptOpts) (string, error) {
 	}
 
 	data, _ := base64.StdEncoding.DecodeString(opts.CypherText)
-	salt, data := data[len(data)-32:], data[:len(data)-32]
+	salt, data := data[len(data)-saltLen:], data[:len(data)-saltLen]
 
 	key, _, err := DeriveKey([]byte(opts.Passphrase), salt)
 	if err != nil {
@@ -107,7 +118,7 @@ func Decrypt(opts DecryptOpts) (string, error) {
 // DeriveKey derives a 32 byte array key from a custom passhprase
 func DeriveKey(passphrase, salt []byte) ([]byte, []byte, error) {
 	if salt == nil {
-		salt = make([]byte, 32)
+		salt = make([]byte, saltLen)
 		if _, err := rand.Read(salt); err != nil {
 			return nil, nil, err
 		}
-- 
2.43.0


From 0a3d72421cd12947ba4db7e75a2c7869ac0b4d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 19/49] fix: the crawler keeps polling after errors and never
 panics, leaks or deadlocks when stopped

---
 pkg/crawler/observable.go | 81 +++++++++++++++++++++++++++++----------
 pkg/crawler/service.go    | 44 ++++++++++++++-------
 2 files changed, 91 insertions(+), 34 deletions(-)

diff --git a/pkg/crawler/observable.go b/pkg/crawler/observable.go
index 2add166..0d1a99f 100644
--- a/pkg/crawler/observable.go
+++ b/pkg/crawler/observable.go
@@ -50,6 +50,9 @@ func (a *AddressObservable) Observe(
 	}
 
 	observableStatus.Set(Waiting)
+	// whatever the outcome, the observable must be polled again at next tick
+	defer observableStatus.Set(Processed)
+
 	if err := rateLimiter.Wait(context.Background()); err != nil {
 		errChan <- err
 		return
@@ -64,8 +67,6 @@ func (a *AddressObservable) Observe(
 	}
 	unspents := iUnspents.([]explorer.Utxo)
 
-	observableStatus.Set(Processed)
-
 	var eventType EventType
 	switch a.AccountIndex {
 	case domain.FeeAccount:
@@ -111,6 +112,9 @@ func (t *TransactionObservable) Observe(
 	}
 
 	observableStatus.Set(Waiting)
+	// whatever the outcome, the observable must be polled again at next tick
+	defer observableStatus.Set(Processed)
+
 	if err := rateLimiter.Wait(context.Background()); err != nil {
 		errChan <- err
 		return
@@ -135,8 +139,6 @@ func (t *TransactionObservable) Observe(
 		}
 	}
 
-	observableStatus.Set(Processed)
-
 	var confirmed bool
 	var blockHash string
 	var blockTime float64
@@ -207,11 +209,10 @@ func (o *observableStatus) Set(status Status) {
 type observableHandler struct {
 	observable       Observable
 	explorerSvc      explorer.Service
-	wg               *sync.WaitGroup
 	ticker           *time.Ticker
 	eventChan        chan Event
 	errChan          chan error
-	stopChan         chan int
+	stopChan         chan struct{}
 	observableStatus *observableStatus
 	rateLimiter      *rate.Limiter
 }
@@ -219,19 +220,17 @@ type observableHandler struct {
 func newObservableHandler(
 	observable Observable,
 	explorerSvc explorer.Service,
-	wg *sync.WaitGroup,
 	interval time.Duration,
 	eventChan chan Event,
 	errChan chan error,
 	rateLimiter *rate.Limiter,
 ) *observableHandler {
 	ticker := time.NewTicker(interval)
-	stopChan := make(chan int, 1)
+	stopChan := make(chan struct{})
 
 	return &observableHandler{
 		observable,
 		explorerSvc,
-		wg,
 		ticker,
 		eventChan,
 		errChan,
@@ -243,31 +242,71 @@ func newObservableHandler(
 
 func (oh *observableHandler) start() {
 	oh.logAction("start")
-	oh.wg.Add(1)
+	defer oh.ticker.Stop()
+
 	for {
 		select {
 		case <-oh.ticker.C:
+			if oh.isStopped() {
+				return
+			}
 			if oh.observableStatus.Get() != Waiting {
-				oh.observable.Observe(
-					oh.explorerSvc,
-					oh.errChan,
-					oh.eventChan,
-					oh.observableStatus,
-					oh.rateLimiter,
-				)
+				oh.observe()
 			}
 		case <-oh.stopChan:
-			oh.ticker.Stop()
-			close(oh.stopChan)
 			return
 		}
 	}
 }
 
+// observe polls the observable once and forwards the resulting event or error,
+// unless the handler gets stopped in the meantime. The observable is given
+// buffered channels so that the handler never blocks, if there's nobody
+// reading from the crawler's ones, once it's been stopped.
+func (oh *observableHandler) observe() {
+	errChan := make(chan error, 1)
+	eventChan := make(chan Event, 1)
+
+	oh.observable.Observe(
+		oh.explorerSvc,
+		errChan,
+		eventChan,
+		oh.observableStatus,
+		oh.rateLimiter,
+	)
+
+	if oh.isStopped() {
+		return
+	}
+
+	select {
+	case err := <-errChan:
+		select {
+		case oh.errChan <- err:
+		case <-oh.stopChan:
+		}
+	case event := <-eventChan:
+		select {
+		case oh.eventChan <- event:
+		case <-oh.stopChan:
+		}
+	default:
+	}
+}
+
+func (oh *observableHandler) isStopped() bool {
+	select {
+	case <-oh.stopChan:
+		return true
+	default:
+		return false
+	}
+}
+
+// stop makes the handler quit. It must be called at most once.
 func (oh *observableHandler) stop() {
 	oh.logAction("stop")
-	oh.stopChan <- 1
-	oh.wg.Done()
+	close(oh.stopChan)
 }
 
 func (oh *observableHandler) logAction(action string) {
diff --git a/pkg/crawler/service.go b/pkg/crawler/service.go
index fed4295..6817290 100644
--- a/pkg/crawler/service.go
+++ b/pkg/crawler/service.go
@@ -21,8 +21,9 @@ type blockchainCrawler struct {
 	observables  map[string]*observableHandler
 	errorHandler func(err error)
 	mutex        *sync.RWMutex
-	wg           *sync.WaitGroup
 	rateLimiter  *rate.Limiter
+	quitChan     chan struct{}
+	stopped      bool
 }
 
 // Opts defines the parameters needed for creating a crawler service with NewService method
@@ -52,8 +53,8 @@ func NewService(opts Opts) Service {
 		observables:  map[string]*observableHandler{},
 		errorHandler: opts.ErrorHandler,
 		mutex:        &sync.RWMutex{},
-		wg:           &sync.WaitGroup{},
 		rateLimiter:  rateLimiter,
+		quitChan:     make(chan struct{}),
 	}
 }
 
@@ -61,25 +62,39 @@ func NewService(opts Opts) Service {
 // events/Observable object
 func (bc *blockchainCrawler) Start() {
 	for {
-		err, more := <-bc.errChan
-		if !more {
+		select {
+		case err := <-bc.errChan:
+			go bc.errorHandler(err)
+		case <-bc.quitChan:
 			return
 		}
-		go bc.errorHandler(err)
 	}
 }
 
-// Stop stops crawler
+// Stop stops crawler. It can be safely called more than once and it never
+// blocks, even if nobody is listening to the event channel. A stopped crawler
+// does not observe anything anymore.
 func (bc *blockchainCrawler) Stop() {
 	bc.mutex.Lock()
 	defer bc.mutex.Unlock()
-	for _, obsHandler := range bc.observables {
-		go obsHandler.stop()
+
+	if bc.stopped {
+		return
+	}
+	bc.stopped = true
+
+	for key, obsHandler := range bc.observables {
+		obsHandler.stop()
+		delete(bc.observables, key)
+	}
+	close(bc.quitChan)
+
+	select {
+	case bc.eventChan <- CloseEvent{}:
+	default:
+		// the queue is full, notify the listener as soon as it makes room
+		go func() { bc.eventChan <- CloseEvent{} }()
 	}
-	bc.wg.Wait()
-	bc.eventChan <- CloseEvent{}
-	close(bc.errChan)
-	return
 }
 
 // GetEventChannel returns Event channel which can be used to "listen" to
@@ -96,11 +111,14 @@ func (bc *blockchainCrawler) AddObservable(observable Observable) {
 	bc.mutex.Lock()
 	defer bc.mutex.Unlock()
 
+	if bc.stopped {
+		return
+	}
+
 	if _, ok := bc.observables[observable.Key()]; !ok {
 		obsHandler := newObservableHandler(
 			observable,
 			bc.explorerSvc,
-			bc.wg,
 			bc.interval,
 			bc.eventChan,
 			bc.errChan,
-- 
2.43.0


From 40135e43cd043a20cdd32e5df02f69891d7d40ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 20/49] fix: webhooks are added, removed and invoked
 independently of each other

---
 .../infrastructure/pubsub/webhook/service.go  | 100 ++++++++++++++----
 1 file changed, 79 insertions(+), 21 deletions(-)

diff --git a/internal/infrastructure/pubsub/webhook/service.go b/internal/infrastructure/pubsub/webhook/service.go
index c3f30d5..5a6dd40 100644
--- a/internal/infrastructure/pubsub/webhook/service.go
+++ b/internal/infrastructure/pubsub/webhook/service.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"net/http"
+	"sync"
 
 	"github.com/dgrijalva/jwt-go"
 	"github.com/sony/gobreaker"
@@ -17,7 +18,14 @@ import (
 type webhookService struct {
 	store      webhookStore
 	httpClient *esplora.Client
-	cb         *gobreaker.CircuitBreaker
+
+	// hooksMtx serializes the additions and the removals of webhooks.
+	hooksMtx *sync.Mutex
+
+	// every webhook has its own circuit breaker so that one whose endpoint is
+	// failing does not prevent the others from being invoked.
+	cbMtx    *sync.Mutex
+	cbByHook map[string]*gobreaker.CircuitBreaker
 }
 
 func NewWebhookPubSubService(
@@ -34,7 +42,9 @@ func NewWebhookPubSubService(
 	return &webhookService{
 		store:      webhookStore{store},
 		httpClient: httpClient,
-		cb:         circuitbreaker.NewCircuitBreaker(),
+		hooksMtx:   &sync.Mutex{},
+		cbMtx:      &sync.Mutex{},
+		cbByHook:   make(map[string]*gobreaker.CircuitBreaker),
 	}, nil
 }
 
@@ -109,6 +119,9 @@ func (ws *webhookService) TopicsByLabel() map[string]ports.Topic {
 // NOTE: The generation of the hook ID can be assumed enough random to infer
 // that if 2 hooks have the same id, then they are the same.
 func (ws *webhookService) addWebhook(hook *Webhook) (string, error) {
+	ws.hooksMtx.Lock()
+	defer ws.hooksMtx.Unlock()
+
 	hookID := []byte(hook.ID)
 	hh, err := ws.store.db().GetFromBucket(hooksBucket, hookID)
 	if err != nil {
@@ -122,7 +135,9 @@ func (ws *webhookService) addWebhook(hook *Webhook) (string, error) {
 	if err := ws.store.db().AddToBucket(hooksBucket, hookID, hook.Serialize()); err != nil {
 		return "", err
 	}
-	ws.addHookByAction(hook)
+	if err := ws.addHookByAction(hook); err != nil {
+		return "", err
+	}
 	return hook.ID, nil
 }
 
@@ -130,6 +145,9 @@ func (ws *webhookService) addWebhook(hook *Webhook) (string, error) {
 // managed by the handler. Nothing is done in case the hook does not actually
 // exist in the handler's store.db().
 func (ws *webhookService) removeWebhook(hookID string) error {
+	ws.hooksMtx.Lock()
+	defer ws.hooksMtx.Unlock()
+
 	buf, err := ws.store.db().GetFromBucket(hooksBucket, []byte(hookID))
 	if err != nil {
 		return err
@@ -138,12 +156,19 @@ func (ws *webhookService) removeWebhook(hookID string) error {
 		return nil
 	}
 
+	hook, err := NewWebhookFromBytes(buf)
+	if err != nil {
+		return err
+	}
+	if err := ws.removeHookByAction(hook); err != nil {
+		return err
+	}
+
 	if err := ws.store.db().RemoveFromBucket(hooksBucket, []byte(hookID)); err != nil {
 		return err
 	}
 
-	hook, _ := NewWebhookFromBytes(buf)
-	ws.removeHookByAction(hook)
+	ws.removeCircuitBreaker(hookID)
 	return nil
 }
 
@@ -179,40 +204,51 @@ func (ws *webhookService) invokeWebhooksForAction(actionType WebhookAction, mess
 	return eg.Wait()
 }
 
-func (ws *webhookService) addHookByAction(hook *Webhook) {
+func (ws *webhookService) addHookByAction(hook *Webhook) error {
 	key := []byte{byte(hook.ActionType)}
-	hooks := ws.getSerializedHooks(hook.ActionType)
+	hooks, err := ws.getSerializedHooks(hook.ActionType)
+	if err != nil {
+		return err
+	}
 	hooks = append(hooks, hook.Serialize())
 	updatedHooks := bytes.Join(hooks, separator)
-	ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
+	return ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
 }
 
-func (ws *webhookService) removeHookByAction(hook *Webhook) {
-	rawHooks := ws.getSerializedHooks(hook.ActionType)
+func (ws *webhookService) removeHookByAction(hook *Webhook) error {
+	rawHooks, err := ws.getSerializedHooks(hook.ActionType)
+	if err != nil {
+		return err
+	}
 
-	var index int
+	index := -1
 	for i, buf := range rawHooks {
-		hh, _ := NewWebhookFromBytes(buf)
+		hh, err := NewWebhookFromBytes(buf)
+		if err != nil {
+			continue
+		}
 		if hh.ID == hook.ID {
 			index = i
 			break
 		}
 	}
+	if index < 0 {
+		return nil
+	}
 
 	key := []byte{byte(hook.ActionType)}
 	rawHooks = append(rawHooks[:index], rawHooks[index+1:]...)
 
 	if len(rawHooks) <= 0 {
-		ws.store.db().RemoveFromBucket(hooksByActionBucket, key)
-		return
+		return ws.store.db().RemoveFromBucket(hooksByActionBucket, key)
 	}
 
 	updatedHooks := bytes.Join(rawHooks, separator)
-	ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
+	return ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
 }
 
 func (ws *webhookService) getHooksByAction(actionType WebhookAction) []*Webhook {
-	rawHooks := ws.getSerializedHooks(actionType)
+	rawHooks, _ := ws.getSerializedHooks(actionType)
 	hooks := make([]*Webhook, 0, len(rawHooks))
 	for _, buf := range rawHooks {
 		hook, _ := NewWebhookFromBytes(buf)
@@ -221,17 +257,39 @@ func (ws *webhookService) getHooksByAction(actionType WebhookAction) []*Webhook
 	return hooks
 }
 
-func (ws *webhookService) getSerializedHooks(actionType WebhookAction) [][]byte {
+func (ws *webhookService) getSerializedHooks(actionType WebhookAction) ([][]byte, error) {
 	key := []byte{byte(actionType)}
-	hooks, _ := ws.store.db().GetFromBucket(hooksByActionBucket, key)
+	hooks, err := ws.store.db().GetFromBucket(hooksByActionBucket, key)
+	if err != nil {
+		return nil, err
+	}
 	if len(hooks) <= 0 {
-		return nil
+		return nil, nil
 	}
-	return bytes.Split(hooks, separator)
+	return bytes.Split(hooks, separator), nil
+}
+
+func (ws *webhookService) getCircuitBreaker(hookID string) *gobreaker.CircuitBreaker {
+	ws.cbMtx.Lock()
+	defer ws.cbMtx.Unlock()
+
+	cb, ok := ws.cbByHook[hookID]
+	if !ok {
+		cb = circuitbreaker.NewCircuitBreaker()
+		ws.cbByHook[hookID] = cb
+	}
+	return cb
+}
+
+func (ws *webhookService) removeCircuitBreaker(hookID string) {
+	ws.cbMtx.Lock()
+	defer ws.cbMtx.Unlock()
+
+	delete(ws.cbByHook, hookID)
 }
 
 func (ws *webhookService) doRequest(hook *Webhook, payload string) error {
-	_, err := ws.cb.Execute(func() (interface{}, error) {
+	_, err := ws.getCircuitBreaker(hook.ID).Execute(func() (interface{}, error) {
 		headers := map[string]string{
 			"Content-Type": "application/json",
 		}
-- 
2.43.0


From 6c0a5952285b5e5cc6732bbeac1c94fd1247c338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 21/49] fix: the pubsub store follows the wallet's passphrase

---
 internal/core/application/wallet_service.go   | 108 ++++++++++--------
 .../infrastructure/pubsub/webhook/store.go    |   8 ++
 2 files changed, 68 insertions(+), 48 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index a15d499..498fbf3 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -268,18 +268,7 @@ func (w *walletService) InitWallet(
 		go startObserveUnconfirmedUnspents(w.blockchainListener, unspents)
 	}
 
-	if w.blockchainListener.PubSubService() != nil {
-		go func() {
-			if err := w.blockchainListener.PubSubService().Store().Init(
-				passphrase,
-			); err != nil {
-				log.WithError(err).Warn(
-					"an error occured while initializing pubsub service. " +
-						"Pubsub not available for the current session.",
-				)
-			}
-		}()
-	}
+	w.initPubSub(passphrase)
 
 	w.pwChan <- PassphraseMsg{
 		Method:     InitWallet,
@@ -313,31 +302,7 @@ func (w *walletService) UnlockWallet(
 		return err
 	}
 
-	if w.blockchainListener.PubSubService() != nil {
-		go func() {
-			// For backward compatibility, check if the pubsub store has been
-			// initialized by wallet.Init, otherwise it is initialized before being
-			// unlocked here.
-			if w.blockchainListener.PubSubService().Store().IsLocked() {
-				if err := w.blockchainListener.PubSubService().Store().Init(
-					passphrase,
-				); err != nil {
-					log.WithError(err).Warn(
-						"an error occured while initializing pubsub service. " +
-							"Pubsub not available for the current session.",
-					)
-					return
-				}
-			}
-			if err := w.blockchainListener.PubSubService().Store().Unlock(
-				passphrase,
-			); err != nil {
-				log.WithError(err).Warn(
-					"an error occured while unlocking pubsub internal store",
-				)
-			}
-		}()
-	}
+	w.unlockPubSub(passphrase)
 
 	w.pwChan <- PassphraseMsg{
 		Method:     UnlockWallet,
@@ -372,17 +337,7 @@ func (w *walletService) ChangePassword(
 		return err
 	}
 
-	if w.blockchainListener.PubSubService() != nil {
-		go func() {
-			if err := w.blockchainListener.PubSubService().Store().ChangePassword(
-				currentPassphrase, newPassphrase,
-			); err != nil {
-				log.WithError(err).Warn(
-					"an error occured while updating pubsub service password",
-				)
-			}
-		}()
-	}
+	w.changePubSubPassword(currentPassphrase, newPassphrase)
 
 	w.pwChan <- PassphraseMsg{
 		Method:     ChangePassphrase,
@@ -393,6 +348,63 @@ func (w *walletService) ChangePassword(
 	return nil
 }
 
+// initPubSub, unlockPubSub and changePubSubPassword keep the internal store of
+// the pubsub service in step with the wallet. They run before the related
+// wallet operation returns so that consecutive operations can't overlap.
+func (w *walletService) initPubSub(passphrase string) {
+	pubsubSvc := w.blockchainListener.PubSubService()
+	if pubsubSvc == nil {
+		return
+	}
+
+	if err := pubsubSvc.Store().Init(passphrase); err != nil {
+		log.WithError(err).Warn(
+			"an error occured while initializing pubsub service. " +
+				"Pubsub not available for the current session.",
+		)
+	}
+}
+
+func (w *walletService) unlockPubSub(passphrase string) {
+	pubsubSvc := w.blockchainListener.PubSubService()
+	if pubsubSvc == nil {
+		return
+	}
+
+	// For backward compatibility, check if the pubsub store has been
+	// initialized by wallet.Init, otherwise it is initialized before being
+	// unlocked here.
+	if pubsubSvc.Store().IsLocked() {
+		if err := pubsubSvc.Store().Init(passphrase); err != nil {
+			log.WithError(err).Warn(
+				"an error occured while initializing pubsub service. " +
+					"Pubsub not available for the current session.",
+			)
+			return
+		}
+	}
+	if err := pubsubSvc.Store().Unlock(passphrase); err != nil {
+		log.WithError(err).Warn(
+			"an error occured while unlocking pubsub internal store",
+		)
+	}
+}
+
+func (w *walletService) changePubSubPassword(currentPassphrase, newPassphrase string) {
+	pubsubSvc := w.blockchainListener.PubSubService()
+	if pubsubSvc == nil {
+		return
+	}
+
+	if err := pubsubSvc.Store().ChangePassword(
+		currentPassphrase, newPassphrase,
+	); err != nil {
+		log.WithError(err).Warn(
+			"an error occured while updating pubsub service password",
+		)
+	}
+}
+
 func (w *walletService) PassphraseChan() chan PassphraseMsg {
 	return w.pwChan
 }
diff --git a/internal/infrastructure/pubsub/webhook/store.go b/internal/infrastructure/pubsub/webhook/store.go
index 7d00245..b7932f7 100644
--- a/internal/infrastructure/pubsub/webhook/store.go
+++ b/internal/infrastructure/pubsub/webhook/store.go
@@ -47,6 +47,14 @@ func (ws webhookStore) Unlock(password string) error {
 }
 
 func (ws webhookStore) ChangePassword(oldPwd, newPwd string) error {
+	// The password of the store can be changed only if this is unlocked, while
+	// the one of the wallet can be changed only if this is locked.
+	if ws.IsLocked() {
+		if err := ws.Unlock(oldPwd); err != nil {
+			return err
+		}
+		defer ws.Lock()
+	}
 	return ws.store.ChangePassword([]byte(oldPwd), []byte(newPwd))
 }
 
-- 
2.43.0


From 9f1729e1eb670f3702fea007db107175ea5a07ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:42 +0000
Subject: [PATCH 22/49] fix: re-keying the macaroon store keeps all root keys
 and is safe for concurrent use

---
 pkg/macaroons/store.go | 59 ++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/pkg/macaroons/store.go b/pkg/macaroons/store.go
index 64b55dc..5e1d6f7 100644
--- a/pkg/macaroons/store.go
+++ b/pkg/macaroons/store.go
@@ -138,9 +138,12 @@ func (r *RootKeyStorage) CreateUnlock(password *[]byte) error {
 	}, func() {})
 }
 
-// ChangePassword decrypts the macaroon root key with the old password and then
-// encrypts it again with the new password.
+// ChangePassword decrypts all the macaroon root keys with the old password and
+// then encrypts them again with the new password.
 func (r *RootKeyStorage) ChangePassword(oldPw, newPw []byte) error {
+	r.encKeyMtx.Lock()
+	defer r.encKeyMtx.Unlock()
+
 	// We need the store to already be unlocked. With this we can make sure
 	// that there already is a key in the DB.
 	if r.encKey == nil {
@@ -152,7 +155,8 @@ func (r *RootKeyStorage) ChangePassword(oldPw, newPw []byte) error {
 		return ErrPasswordRequired
 	}
 
-	return kvdb.Update(r, func(tx kvdb.RwTx) error {
+	var encKeyNew *snacl.SecretKey
+	if err := kvdb.Update(r, func(tx kvdb.RwTx) error {
 		bucket := tx.ReadWriteBucket(rootKeyBucketName)
 		if bucket == nil {
 			return ErrRootKeyBucketNotFound
@@ -179,40 +183,47 @@ func (r *RootKeyStorage) ChangePassword(oldPw, newPw []byte) error {
 		}
 
 		// Create a new encryption key from the new password.
-		encKeyNew, err := snacl.NewSecretKey(
+		encKeyNew, err = snacl.NewSecretKey(
 			&newPw, scryptN, scryptR, scryptP,
 		)
 		if err != nil {
 			return err
 		}
 
-		// Now try to decrypt the root key with the old encryption key,
+		// Now try to decrypt every root key with the old encryption key,
 		// encrypt it with the new one and then store it in the DB.
-		decryptedKey, err := encKeyOld.Decrypt(rootKeyDb)
-		if err != nil {
+		encryptedKeys := make(map[string][]byte)
+		err = bucket.ForEach(func(id, encryptedKey []byte) error {
+			if bytes.Equal(id, encryptionKeyID) {
+				return nil
+			}
+			rootKey, err := encKeyOld.Decrypt(encryptedKey)
+			if err != nil {
+				return err
+			}
+			encryptedKeys[string(id)], err = encKeyNew.Encrypt(rootKey)
 			return err
-		}
-		rootKey := make([]byte, len(decryptedKey))
-		copy(rootKey, decryptedKey)
-		encryptedKey, err := encKeyNew.Encrypt(rootKey)
+		})
 		if err != nil {
 			return err
 		}
-		err = bucket.Put(DefaultRootKeyID, encryptedKey)
-		if err != nil {
-			return err
+		for id, encryptedKey := range encryptedKeys {
+			if err := bucket.Put([]byte(id), encryptedKey); err != nil {
+				return err
+			}
 		}
 
 		// Finally, store the new encryption key parameters in the DB
 		// as well.
-		err = bucket.Put(encryptionKeyID, encKeyNew.Marshal())
-		if err != nil {
-			return err
-		}
+		return bucket.Put(encryptionKeyID, encKeyNew.Marshal())
+	}, func() {
+		encKeyNew = nil
+	}); err != nil {
+		return err
+	}
 
-		r.encKey = encKeyNew
-		return nil
-	}, func() {})
+	r.encKey = encKeyNew
+	return nil
 }
 
 // Get implements the Get method for the bakery.RootKeyStorage interface.
@@ -313,6 +324,9 @@ func (r *RootKeyStorage) RootKey(ctx context.Context) ([]byte, []byte, error) {
 // GenerateNewRootKey generates a new macaroon root key, replacing the previous
 // root key if it existed.
 func (r *RootKeyStorage) GenerateNewRootKey() error {
+	r.encKeyMtx.RLock()
+	defer r.encKeyMtx.RUnlock()
+
 	// We need the store to already be unlocked. With this we can make sure
 	// that there already is a key in the DB that can be replaced.
 	if r.encKey == nil {
@@ -383,7 +397,8 @@ func (r *RootKeyStorage) ListMacaroonIDs(_ context.Context) ([][]byte, error) {
 		appendRootKey := func(k, _ []byte) error {
 			// Only append when the key value is not encryptedKeyID.
 			if !bytes.Equal(k, encryptionKeyID) {
-				rootKeySlice = append(rootKeySlice, k)
+				// Keys are not valid out of the transaction.
+				rootKeySlice = append(rootKeySlice, append([]byte{}, k...))
 			}
 			return nil
 		}
-- 
2.43.0


From 52d8a842a0bf4ad8e565655bccf0e3734cef2f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 23/49] fix: macaroon auth fails closed, covers ReportMarketFee
 and follows the wallet's passphrase

---
 .../interfaces/grpc/permissions/permissions.go   |  4 ++++
 internal/interfaces/grpc/service.go              | 16 +++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/internal/interfaces/grpc/permissions/permissions.go b/internal/interfaces/grpc/permissions/permissions.go
index ac9b9fa..fd64cc2 100644
--- a/internal/interfaces/grpc/permissions/permissions.go
+++ b/internal/interfaces/grpc/permissions/permissions.go
@@ -243,6 +243,10 @@ func AllPermissionsByMethod() map[string][]bakery.Op {
 			Entity: EntityMarket,
 			Action: "read",
 		}},
+		"/Operator/ReportMarketFee": {{
+			Entity: EntityMarket,
+			Action: "read",
+		}},
 		"/Operator/BalanceFeeAccount": {{
 			Entity: EntityMarket,
 			Action: "read",
diff --git a/internal/interfaces/grpc/service.go b/internal/interfaces/grpc/service.go
index 24e7206..ec136d3 100644
--- a/internal/interfaces/grpc/service.go
+++ b/internal/interfaces/grpc/service.go
@@ -179,9 +179,13 @@ func NewService(opts ServiceOpts) (interfaces.Service, error) {
 
 	var macaroonSvc *macaroons.Service
 	if !opts.NoMacaroons {
-		macaroonSvc, _ = macaroons.NewService(
+		var err error
+		macaroonSvc, err = macaroons.NewService(
 			opts.dbDatadir(), Location, DBFile, false, macaroons.IPLockChecker,
 		)
+		if err != nil {
+			return nil, fmt.Errorf("failed to set up macaroon service: %s", err)
+		}
 		if err := generateOperatorTLSKeyCert(
 			opts.tlsDatadir(), opts.OperatorExtraIPs, opts.OperatorExtraDomains,
 		); err != nil {
@@ -296,6 +300,16 @@ func (s *service) startListeningToPassphraseChan() {
 			case application.ChangePassphrase:
 				currentPwd := []byte(msg.CurrentPwd)
 				newPwd := []byte(msg.NewPwd)
+				// The password of the macaroon service can be changed only if this
+				// is unlocked.
+				unlockPwd := []byte(msg.CurrentPwd)
+				if err := s.macaroonSvc.CreateUnlock(&unlockPwd); err != nil {
+					if err != macaroons.ErrAlreadyUnlocked {
+						log.WithError(err).Warn(
+							"an error occured while unlocking macaroon service",
+						)
+					}
+				}
 				if err := s.macaroonSvc.ChangePassword(currentPwd, newPwd); err != nil {
 					log.WithError(err).Warn(
 						"an error occured while changing password of macaroon service",
-- 
2.43.0


From 613bbf9a5e27f0daddc3dfd387077930856cbc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:23 +0000
Subject: [PATCH 24/49] fix: explorer clients report malformed or missing
 answers as errors

---
 pkg/explorer/elements/client.go      |  11 +-
 pkg/explorer/elements/errors.go      |   6 +
 pkg/explorer/elements/service.go     |  24 +++-
 pkg/explorer/elements/transaction.go |  52 +++++--
 pkg/explorer/elements/types.go       |  79 ++++++++---
 pkg/explorer/elements/unspents.go    |  15 ++-
 pkg/explorer/esplora/block.go        |   9 +-
 pkg/explorer/esplora/transaction.go  | 117 ++++++++--------
 pkg/explorer/esplora/types.go        | 194 ++++++++++++++++++++-------
 pkg/explorer/esplora/unspents.go     |  65 ++++++++-
 pkg/explorer/rawtx.go                | 120 +++++++++++++++++
 11 files changed, 543 insertions(+), 149 deletions(-)
 create mode 100644 pkg/explorer/rawtx.go

diff --git a/pkg/explorer/elements/client.go b/pkg/explorer/elements/client.go
index 70fbdc2..2aeab3d 100644
--- a/pkg/explorer/elements/client.go
+++ b/pkg/explorer/elements/client.go
@@ -74,6 +74,8 @@ func NewClient(host string, port int, user, passwd string, useSSL bool, timeout
 		serverAddr = "http://"
 		httpClient = &http.Client{}
 	}
+	// this includes the time spent for reading the body of the response
+	httpClient.Timeout = time.Duration(timeout) * time.Second
 	c = &RPCClient{serverAddr: fmt.Sprintf("%s%s:%d", serverAddr, host, port), user: user, passwd: passwd, httpClient: httpClient, timeout: timeout}
 	return
 }
@@ -133,7 +135,11 @@ func (c *RPCClient) call(method string, params interface{}) (rr rpcResponse, err
 
 	err = json.Unmarshal(data, &rr)
 	if err != nil {
-		err = errors.New(string(data))
+		err = fmt.Errorf("%s: %s", resp.Status, string(data))
+		return
+	}
+	if resp.StatusCode != http.StatusOK && rr.Err == nil {
+		err = fmt.Errorf("%s: %s", resp.Status, string(data))
 	}
 	return
 }
@@ -146,6 +152,9 @@ func handleError(err error, r *rpcResponse) error {
 	if r.Err != nil {
 		return r.Err
 	}
+	if len(r.Result) <= 0 || string(r.Result) == "null" {
+		return ErrMissingResult
+	}
 
 	return nil
 }
diff --git a/pkg/explorer/elements/errors.go b/pkg/explorer/elements/errors.go
index 52ae566..499996e 100644
--- a/pkg/explorer/elements/errors.go
+++ b/pkg/explorer/elements/errors.go
@@ -17,6 +17,12 @@ var (
 	ErrInvalidAddress = fmt.Errorf("invalid address")
 	// ErrBlindKeyNotFound ...
 	ErrBlindKeyNotFound = fmt.Errorf("blindkey not found for address")
+	// ErrMissingResult ...
+	ErrMissingResult = fmt.Errorf("missing result in RPC response")
+	// ErrInvalidUnspent ...
+	ErrInvalidUnspent = fmt.Errorf("invalid unspent")
+	// ErrMissingConfirmations ...
+	ErrMissingConfirmations = fmt.Errorf("missing confirmations of transaction")
 	// ErrInvalidTxJSON ...
 	ErrInvalidTxJSON = fmt.Errorf("invalid tx JSON")
 )
diff --git a/pkg/explorer/elements/service.go b/pkg/explorer/elements/service.go
index 81a039c..0f15d3f 100644
--- a/pkg/explorer/elements/service.go
+++ b/pkg/explorer/elements/service.go
@@ -75,6 +75,23 @@ func (e *elements) importAddress(addr, label string, blindKey []byte, rescan boo
 	if err = handleError(err, &r); err != nil {
 		return err
 	}
+
+	var results []struct {
+		Success bool      `json:"success"`
+		Err     *RPCError `json:"error"`
+	}
+	if err := json.Unmarshal(r.Result, &results); err != nil {
+		return fmt.Errorf("unmarshal: %w", err)
+	}
+	if len(results) != 1 {
+		return ErrMissingResult
+	}
+	if !results[0].Success {
+		if results[0].Err != nil {
+			return results[0].Err
+		}
+		return fmt.Errorf("address %s not imported", addr)
+	}
 	return nil
 }
 
@@ -84,13 +101,13 @@ func (e *elements) isAddressImported(targetLabel string) (bool, error) {
 		return false, err
 	}
 
-	var labels []interface{}
+	var labels []string
 	if err := json.Unmarshal(r.Result, &labels); err != nil {
 		return false, fmt.Errorf("unmarshal: %w", err)
 	}
 
 	for _, label := range labels {
-		if label.(string) == targetLabel {
+		if label == targetLabel {
 			return true, nil
 		}
 	}
@@ -122,6 +139,9 @@ func (e *elements) mine() (string, error) {
 	if err := json.Unmarshal(r.Result, &blockHash); err != nil {
 		return "", fmt.Errorf("unmarshal: %w", err)
 	}
+	if len(blockHash) <= 0 {
+		return "", ErrMissingResult
+	}
 	return blockHash[0], nil
 }
 
diff --git a/pkg/explorer/elements/transaction.go b/pkg/explorer/elements/transaction.go
index 935a1c4..cc5cf6f 100644
--- a/pkg/explorer/elements/transaction.go
+++ b/pkg/explorer/elements/transaction.go
@@ -1,8 +1,10 @@
 package elements
 
 import (
+	"encoding/hex"
 	"encoding/json"
 	"fmt"
+	"strings"
 	"sync"
 
 	"github.com/tdex-network/tdex-daemon/pkg/explorer"
@@ -16,7 +18,14 @@ func (e *elements) GetTransaction(txid string) (explorer.Transaction, error) {
 	if err = handleError(err, &r); err != nil {
 		return nil, fmt.Errorf("rawtx: %w", err)
 	}
-	return NewTxFromJSON(string(r.Result))
+	tx, err := NewTxFromJSON(string(r.Result))
+	if err != nil {
+		return nil, err
+	}
+	if !strings.EqualFold(tx.Hash(), txid) {
+		return nil, fmt.Errorf("got transaction %s instead of %s", tx.Hash(), txid)
+	}
+	return tx, nil
 }
 
 // GetTransactionHex returns the hex of the transaction indentified by its hash
@@ -31,6 +40,13 @@ func (e *elements) GetTransactionHex(txid string) (string, error) {
 	if err := json.Unmarshal(r.Result, &txhex); err != nil {
 		return "", fmt.Errorf("unmarshal: %w", err)
 	}
+	tx, err := explorer.ParseRawTransaction(txhex)
+	if err != nil {
+		return "", fmt.Errorf("rawtx: %w", err)
+	}
+	if hash := tx.TxHash().String(); !strings.EqualFold(hash, txid) {
+		return "", fmt.Errorf("got transaction %s instead of %s", hash, txid)
+	}
 	return txhex, nil
 }
 
@@ -43,7 +59,7 @@ func (e *elements) IsTransactionConfirmed(txid string) (bool, error) {
 	}
 	confirmations, ok := data["confirmations"].(float64)
 	if !ok {
-		return false, nil
+		return false, ErrMissingConfirmations
 	}
 	return confirmations > 0, nil
 }
@@ -59,7 +75,11 @@ func (e *elements) GetTransactionStatus(txid string) (map[string]interface{}, er
 		return nil, err
 	}
 
-	isConfirmed := data["confirmations"].(float64) > 0
+	confirmations, ok := data["confirmations"].(float64)
+	if !ok {
+		return nil, ErrMissingConfirmations
+	}
+	isConfirmed := confirmations > 0
 	if isConfirmed {
 		r, err := e.client.call("getblock", []interface{}{data["blockhash"]})
 		if err = handleError(err, &r); err != nil {
@@ -99,7 +119,7 @@ func (e *elements) GetTransactionsForAddress(addr string, blindingKey []byte) ([
 	if err != nil {
 		return nil, fmt.Errorf("label: %w", err)
 	}
-	isImportedAddress, err := e.isAddressImported(addr)
+	isImportedAddress, err := e.isAddressImported(addrLabel)
 	if err != nil {
 		return nil, fmt.Errorf("check import: %w", err)
 	}
@@ -113,17 +133,21 @@ func (e *elements) GetTransactionsForAddress(addr string, blindingKey []byte) ([
 	if err = handleError(err, &r); err != nil {
 		return nil, fmt.Errorf("list: %w", err)
 	}
-	var data []interface{}
+	var data []struct {
+		TxIDs []string `json:"txids"`
+	}
 	if err := json.Unmarshal(r.Result, &data); err != nil {
 		return nil, fmt.Errorf("unmarshal: %w", err)
 	}
 
 	if len(data) > 0 {
-		info := data[0].(map[string]interface{})
-		txids := info["txids"].([]interface{})
+		txids := data[0].TxIDs
+		if txids == nil {
+			return nil, ErrMissingResult
+		}
 
 		txs := make([]explorer.Transaction, 0, len(txids))
-		chRes := make(chan txResult)
+		chRes := make(chan txResult, len(txids))
 		wg := &sync.WaitGroup{}
 		wg.Add(len(txids))
 
@@ -134,7 +158,7 @@ func (e *elements) GetTransactionsForAddress(addr string, blindingKey []byte) ([
 
 		for i := range txids {
 			txid := txids[i]
-			go e.getTxDetails(txid.(string), chRes, wg)
+			go e.getTxDetails(txid, chRes, wg)
 		}
 
 		for r := range chRes {
@@ -161,6 +185,9 @@ func (e *elements) BroadcastTransaction(txhex string) (string, error) {
 	if err := json.Unmarshal(r.Result, &txid); err != nil {
 		return "", fmt.Errorf("unmarshal: %w", err)
 	}
+	if buf, err := hex.DecodeString(txid); err != nil || len(buf) != 32 {
+		return "", fmt.Errorf("send: invalid transaction id %s", txid)
+	}
 	return txid, nil
 }
 
@@ -210,7 +237,10 @@ func (e *elements) Mint(address string, amount float64) (string, string, error)
 	if err := json.Unmarshal(r.Result, &data); err != nil {
 		return "", "", fmt.Errorf("asset unmarshal: %w", err)
 	}
-	asset := data["asset"].(string)
+	asset, ok := data["asset"].(string)
+	if !ok {
+		return "", "", ErrMissingResult
+	}
 
 	r, err = e.client.call("sendtoaddress", []interface{}{address, amount, "", "", false, false, 1, "UNSET", asset})
 	if err = handleError(err, &r); err != nil {
@@ -225,7 +255,7 @@ func (e *elements) Mint(address string, amount float64) (string, string, error)
 		return "", "", fmt.Errorf("mine: %w", err)
 	}
 
-	return "", "", nil
+	return txid, asset, nil
 }
 
 func (e *elements) getTransaction(txid string) (map[string]interface{}, error) {
diff --git a/pkg/explorer/elements/types.go b/pkg/explorer/elements/types.go
index f8df24c..96d41f8 100644
--- a/pkg/explorer/elements/types.go
+++ b/pkg/explorer/elements/types.go
@@ -12,18 +12,18 @@ import (
 )
 
 type tx struct {
-	TxHash      string      `json:"txid"`
-	TxVersion   int         `json:"version"`
-	TxLocktime  int         `json:"locktime"`
-	TxSize      int         `json:"size"`
-	TxWeight    int         `json:"weight"`
-	TxInputs    interface{} `json:"vin"`
-	TxOutputs   interface{} `json:"vout"`
+	TxHash      string
+	TxVersion   int
+	TxLocktime  int
+	TxSize      int
+	TxWeight    int
+	TxInputs    []*transaction.TxInput
+	TxOutputs   []*transaction.TxOutput
 	TxConfirmed bool
 }
 
 func NewTxFromHex(txhex string, confirmed bool) (explorer.Transaction, error) {
-	t, err := transaction.NewTxFromHex(txhex)
+	t, err := explorer.ParseRawTransaction(txhex)
 	if err != nil {
 		return nil, err
 	}
@@ -40,12 +40,39 @@ func NewTxFromHex(txhex string, confirmed bool) (explorer.Transaction, error) {
 	}, nil
 }
 
+// NewTxFromJSON is the factory for a Transaction given the verbose response of
+// the getrawtransaction RPC, including the raw transaction in hex format.
 func NewTxFromJSON(txJSON string) (explorer.Transaction, error) {
-	var t tx
-	if err := json.Unmarshal([]byte(txJSON), &t); err != nil {
+	var data struct {
+		TxID          string `json:"txid"`
+		Hex           string `json:"hex"`
+		Size          *int   `json:"size"`
+		Weight        *int   `json:"weight"`
+		Confirmations int64  `json:"confirmations"`
+	}
+	if err := json.Unmarshal([]byte(txJSON), &data); err != nil {
+		return nil, ErrInvalidTxJSON
+	}
+	if data.Size == nil || data.Weight == nil {
+		return nil, ErrInvalidTxJSON
+	}
+	trx, err := explorer.ParseRawTransaction(data.Hex)
+	if err != nil {
+		return nil, ErrInvalidTxJSON
+	}
+	if trx.TxHash().String() != data.TxID {
 		return nil, ErrInvalidTxJSON
 	}
-	return &t, nil
+	return &tx{
+		TxHash:      data.TxID,
+		TxVersion:   int(trx.Version),
+		TxLocktime:  int(trx.Locktime),
+		TxSize:      *data.Size,
+		TxWeight:    *data.Weight,
+		TxInputs:    trx.Inputs,
+		TxOutputs:   trx.Outputs,
+		TxConfirmed: data.Confirmations > 0,
+	}, nil
 }
 
 func (t *tx) Hash() string {
@@ -61,11 +88,11 @@ func (t *tx) Locktime() int {
 }
 
 func (t *tx) Inputs() []*transaction.TxInput {
-	return t.TxInputs.([]*transaction.TxInput)
+	return t.TxInputs
 }
 
 func (t *tx) Outputs() []*transaction.TxOutput {
-	return t.TxOutputs.([]*transaction.TxOutput)
+	return t.TxOutputs
 }
 
 func (t *tx) Size() int {
@@ -90,13 +117,28 @@ func (t *tx) Confirmed() bool {
 	return t.TxConfirmed
 }
 
+// validate makes sure that nothing required to identify the unspent, its value
+// and its asset is missing.
+func (eu elementsUnspent) validate() error {
+	if buf, err := hex.DecodeString(eu.UTxID); err != nil || len(buf) != 32 {
+		return ErrInvalidUnspent
+	}
+	if buf, err := hex.DecodeString(eu.UAsset); err != nil || len(buf) != 32 {
+		return ErrInvalidUnspent
+	}
+	if eu.UVout == nil || eu.UAmount <= 0 {
+		return ErrInvalidUnspent
+	}
+	return nil
+}
+
 type elementsUnspent struct {
 	UAddress          string  `json:"address,omitempty"`
 	ULabel            string  `json:"label,omitempty"`
 	UScriptPubKey     string  `json:"scriptPubKey,omitempty"`
 	UConfirmations    int64   `json:"confirmations"`
 	UTxID             string  `json:"txid"`
-	UVout             uint32  `json:"vout"`
+	UVout             *uint32 `json:"vout"`
 	UAmount           float64 `json:"amount"`
 	UAsset            string  `json:"asset,omitempty"`
 	UAmountCommitment string  `json:"amountcommitment,omitempty"`
@@ -113,11 +155,14 @@ func (eu elementsUnspent) Hash() string {
 }
 
 func (eu elementsUnspent) Index() uint32 {
-	return eu.UVout
+	if eu.UVout == nil {
+		return 0
+	}
+	return *eu.UVout
 }
 
 func (eu elementsUnspent) Value() uint64 {
-	return uint64(eu.UAmount * math.Pow10(8))
+	return uint64(math.Round(eu.UAmount * math.Pow10(8)))
 }
 
 func (eu elementsUnspent) Asset() string {
@@ -177,7 +222,7 @@ func (eu elementsUnspent) Parse() (*transaction.TxInput, *transaction.TxOutput,
 	if err != nil {
 		return nil, nil, err
 	}
-	input := transaction.NewTxInput(inHash, eu.UVout)
+	input := transaction.NewTxInput(inHash, eu.Index())
 
 	var witnessUtxo *transaction.TxOutput
 	if eu.IsConfidential() {
diff --git a/pkg/explorer/elements/unspents.go b/pkg/explorer/elements/unspents.go
index d68ce9b..c807510 100644
--- a/pkg/explorer/elements/unspents.go
+++ b/pkg/explorer/elements/unspents.go
@@ -10,7 +10,6 @@ import (
 	"github.com/btcsuite/btcd/btcec"
 	"github.com/tdex-network/tdex-daemon/pkg/explorer"
 	"github.com/vulpemventures/go-elements/address"
-	"github.com/vulpemventures/go-elements/transaction"
 )
 
 func (e *elements) GetUnspents(addr string, blindKeys [][]byte) ([]explorer.Utxo, error) {
@@ -102,8 +101,14 @@ func (e *elements) toUtxos(unspents []elementsUnspent) ([]explorer.Utxo, error)
 		return nil, nil
 	}
 
+	for _, unspent := range unspents {
+		if err := unspent.validate(); err != nil {
+			return nil, err
+		}
+	}
+
 	utxos := make([]explorer.Utxo, 0, len(unspents))
-	chRes := make(chan utxoResult)
+	chRes := make(chan utxoResult, len(unspents))
 	wg := &sync.WaitGroup{}
 	wg.Add(len(unspents))
 
@@ -142,11 +147,15 @@ func (e *elements) getUtxoDetails(
 		chRes <- utxoResult{err: err}
 		return
 	}
-	tx, err := transaction.NewTxFromHex(txhex)
+	tx, err := explorer.ParseRawTransaction(txhex)
 	if err != nil {
 		chRes <- utxoResult{err: err}
 		return
 	}
+	if int64(utxo.Index()) >= int64(len(tx.Outputs)) {
+		chRes <- utxoResult{err: ErrInvalidUnspent}
+		return
+	}
 	utxo.UNonce = tx.Outputs[utxo.Index()].Nonce
 	utxo.URangeProof = tx.Outputs[utxo.Index()].RangeProof
 	utxo.USurjectionProof = tx.Outputs[utxo.Index()].SurjectionProof
diff --git a/pkg/explorer/esplora/block.go b/pkg/explorer/esplora/block.go
index ce8fc82..6d0b19c 100644
--- a/pkg/explorer/esplora/block.go
+++ b/pkg/explorer/esplora/block.go
@@ -1,9 +1,11 @@
 package esplora
 
 import (
+	"errors"
 	"fmt"
 	"net/http"
 	"strconv"
+	"strings"
 )
 
 func (e *esplora) GetBlockHeight() (int, error) {
@@ -16,13 +18,16 @@ func (e *esplora) GetBlockHeight() (int, error) {
 		return -1, err
 	}
 	if status != http.StatusOK {
-		return -1, fmt.Errorf(resp)
+		return -1, errors.New(resp)
 	}
 
-	blockHeight, err := strconv.Atoi(resp)
+	blockHeight, err := strconv.Atoi(strings.TrimSpace(resp))
 	if err != nil {
 		return -1, err
 	}
+	if blockHeight < 0 {
+		return -1, fmt.Errorf("invalid block height %d", blockHeight)
+	}
 
 	return blockHeight, nil
 }
diff --git a/pkg/explorer/esplora/transaction.go b/pkg/explorer/esplora/transaction.go
index 22fc37c..e3692f6 100644
--- a/pkg/explorer/esplora/transaction.go
+++ b/pkg/explorer/esplora/transaction.go
@@ -2,9 +2,10 @@ package esplora
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"net/http"
-	"sync"
+	"strings"
 
 	"github.com/tdex-network/tdex-daemon/pkg/explorer"
 )
@@ -41,7 +42,7 @@ func (e *esplora) GetTransactionsForAddress(address string, _ []byte) ([]explore
 		return nil, err
 	}
 	if status != http.StatusOK {
-		return nil, fmt.Errorf(resp)
+		return nil, errors.New(resp)
 	}
 
 	return parseTransactions(resp)
@@ -63,10 +64,14 @@ func (e *esplora) BroadcastTransaction(txHex string) (string, error) {
 		return "", err
 	}
 	if status != http.StatusOK {
-		return "", fmt.Errorf(resp)
+		return "", errors.New(resp)
 	}
 
-	return resp, nil
+	txid := strings.TrimSpace(resp)
+	if !isHash(txid) {
+		return "", fmt.Errorf("invalid broadcast response: %s", resp)
+	}
+	return txid, nil
 }
 
 func (e *esplora) Faucet(address string, amount float64, asset string) (string, error) {
@@ -85,11 +90,16 @@ func (e *esplora) Faucet(address string, amount float64, asset string) (string,
 		return "", err
 	}
 	if status != http.StatusOK {
-		return "", fmt.Errorf(resp)
+		return "", errors.New(resp)
 	}
 
 	var rr map[string]string
-	json.Unmarshal([]byte(resp), &rr)
+	if err := json.Unmarshal([]byte(resp), &rr); err != nil {
+		return "", err
+	}
+	if !isHash(rr["txId"]) {
+		return "", fmt.Errorf("invalid faucet response: %s", resp)
+	}
 
 	return rr["txId"], nil
 }
@@ -109,11 +119,16 @@ func (e *esplora) Mint(address string, amount float64) (string, string, error) {
 		return "", "", err
 	}
 	if status != http.StatusOK {
-		return "", "", fmt.Errorf(resp)
+		return "", "", errors.New(resp)
 	}
 
 	var rr map[string]string
-	json.Unmarshal([]byte(resp), &rr)
+	if err := json.Unmarshal([]byte(resp), &rr); err != nil {
+		return "", "", err
+	}
+	if !isHash(rr["txId"]) || !isHash(rr["asset"]) {
+		return "", "", fmt.Errorf("invalid mint response: %s", resp)
+	}
 
 	return rr["txId"], rr["asset"], nil
 }
@@ -129,10 +144,27 @@ func (e *esplora) getTransactionHex(hash string) (string, error) {
 		return "", err
 	}
 	if status != http.StatusOK {
-		return "", fmt.Errorf(resp)
+		return "", errors.New(resp)
+	}
+
+	txHex := strings.TrimSpace(resp)
+	if err := checkTxHex(txHex, hash); err != nil {
+		return "", err
 	}
+	return txHex, nil
+}
 
-	return resp, nil
+// checkTxHex makes sure that the given raw transaction is the one identified
+// by the given hash.
+func checkTxHex(txHex, hash string) error {
+	tx, err := explorer.ParseRawTransaction(txHex)
+	if err != nil {
+		return fmt.Errorf("invalid transaction: %w", err)
+	}
+	if txHash := tx.TxHash().String(); !strings.EqualFold(txHash, hash) {
+		return fmt.Errorf("got transaction %s instead of %s", txHash, hash)
+	}
+	return nil
 }
 
 func (e *esplora) isTransactionConfirmed(hash string) (bool, error) {
@@ -141,12 +173,7 @@ func (e *esplora) isTransactionConfirmed(hash string) (bool, error) {
 		return false, err
 	}
 
-	var isConfirmed bool
-	switch confirmed := trxStatus["confirmed"].(type) {
-	case bool:
-		isConfirmed = confirmed
-	}
-
+	isConfirmed, _ := trxStatus["confirmed"].(bool)
 	return isConfirmed, nil
 }
 
@@ -161,7 +188,7 @@ func (e *esplora) getTransactionStatus(hash string) (map[string]interface{}, err
 		return nil, err
 	}
 	if status != http.StatusOK {
-		return nil, fmt.Errorf(resp)
+		return nil, errors.New(resp)
 	}
 
 	var trxStatus map[string]interface{}
@@ -169,60 +196,30 @@ func (e *esplora) getTransactionStatus(hash string) (map[string]interface{}, err
 	if err != nil {
 		return nil, err
 	}
+	if _, ok := trxStatus["confirmed"].(bool); !ok {
+		return nil, fmt.Errorf("missing status of transaction %s", hash)
+	}
 
 	return trxStatus, nil
 }
 
-type txResult struct {
-	tx  explorer.Transaction
-	err error
-}
-
 func parseTransactions(txList string) ([]explorer.Transaction, error) {
-	txInterfaces := make([]interface{}, 0)
-	if err := json.Unmarshal([]byte(txList), &txInterfaces); err != nil {
+	var list []json.RawMessage
+	if err := json.Unmarshal([]byte(txList), &list); err != nil {
 		return nil, err
 	}
-
-	txs := make([]explorer.Transaction, 0, len(txInterfaces))
-	chRes := make(chan txResult)
-	wg := &sync.WaitGroup{}
-	wg.Add(len(txInterfaces))
-
-	go func() {
-		wg.Wait()
-		close(chRes)
-	}()
-
-	for i := range txInterfaces {
-		txi := txInterfaces[i]
-
-		go parseTransaction(txi, chRes, wg)
+	if list == nil {
+		return nil, fmt.Errorf("missing list of transactions")
 	}
 
-	for r := range chRes {
-		if r.err != nil {
-			return nil, r.err
+	txs := make([]explorer.Transaction, 0, len(list))
+	for _, txJSON := range list {
+		tx, err := NewTxFromJSON(string(txJSON))
+		if err != nil {
+			return nil, err
 		}
-		txs = append(txs, r.tx)
+		txs = append(txs, tx)
 	}
 
 	return txs, nil
 }
-
-func parseTransaction(txi interface{}, chRes chan txResult, wg *sync.WaitGroup) {
-	defer wg.Done()
-
-	trx, err := json.Marshal(txi)
-	if err != nil {
-		chRes <- txResult{err: err}
-		return
-	}
-	tx, err := NewTxFromJSON(string(trx))
-	if err != nil {
-		chRes <- txResult{err: err}
-		return
-	}
-
-	chRes <- txResult{tx: tx}
-}
diff --git a/pkg/explorer/esplora/types.go b/pkg/explorer/esplora/types.go
index 5dd87ff..d094107 100644
--- a/pkg/explorer/esplora/types.go
+++ b/pkg/explorer/esplora/types.go
@@ -7,7 +7,6 @@ import (
 
 	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
 	"github.com/tdex-network/tdex-daemon/pkg/explorer"
-	"github.com/vulpemventures/go-elements/elementsutil"
 	"github.com/vulpemventures/go-elements/transaction"
 )
 
@@ -27,15 +26,56 @@ type tx struct {
 
 // NewTxFromJSON is the factory for a Transaction in given its JSON format.
 func NewTxFromJSON(txJSON string) (explorer.Transaction, error) {
-	t := &tx{}
-	if err := json.Unmarshal([]byte(txJSON), t); err != nil {
+	var data struct {
+		TxID     string            `json:"txid"`
+		Version  *int              `json:"version"`
+		Locktime *int              `json:"locktime"`
+		Vin      []json.RawMessage `json:"vin"`
+		Vout     []json.RawMessage `json:"vout"`
+		Size     *int              `json:"size"`
+		Weight   *int              `json:"weight"`
+		Status   *status           `json:"status"`
+	}
+	if err := json.Unmarshal([]byte(txJSON), &data); err != nil {
+		return nil, fmt.Errorf("invalid tx JSON")
+	}
+	if !isHash(data.TxID) || data.Version == nil || data.Locktime == nil ||
+		data.Vin == nil || data.Vout == nil || data.Size == nil ||
+		data.Weight == nil || data.Status == nil {
 		return nil, fmt.Errorf("invalid tx JSON")
 	}
-	return t, nil
+
+	inputs := make([]*transaction.TxInput, 0, len(data.Vin))
+	for _, in := range data.Vin {
+		input, err := parseInput(in)
+		if err != nil {
+			return nil, fmt.Errorf("invalid tx JSON: %w", err)
+		}
+		inputs = append(inputs, input)
+	}
+	outputs := make([]*transaction.TxOutput, 0, len(data.Vout))
+	for _, out := range data.Vout {
+		output, err := parseOutput(out)
+		if err != nil {
+			return nil, fmt.Errorf("invalid tx JSON: %w", err)
+		}
+		outputs = append(outputs, output)
+	}
+
+	return &tx{
+		TxHash:      data.TxID,
+		TxVersion:   *data.Version,
+		TxLocktime:  *data.Locktime,
+		TxInputs:    inputs,
+		TxOutputs:   outputs,
+		TxSize:      *data.Size,
+		TxWeight:    *data.Weight,
+		TxConfirmed: data.Status.Confirmed,
+	}, nil
 }
 
 func NewTxFromHex(txhex string, confirmed bool) (explorer.Transaction, error) {
-	t, err := transaction.NewTxFromHex(txhex)
+	t, err := explorer.ParseRawTransaction(txhex)
 	if err != nil {
 		return nil, err
 	}
@@ -84,63 +124,99 @@ func (t *tx) Confirmed() bool {
 	return t.TxConfirmed
 }
 
-func parseInput(i interface{}) *transaction.TxInput {
-	m := i.(map[string]interface{})
-
-	txid := interfaceToBytes(m["txid"])
-	vout := uint32(m["vout"].(float64))
-	in := transaction.NewTxInput(elementsutil.ReverseBytes(txid), vout)
-
-	in.Script = interfaceToBytes(m["scriptsig"])
-
-	if m["witness"] != nil {
-		in.Witness = parseWitness(m["witness"])
+func parseInput(inJSON []byte) (*transaction.TxInput, error) {
+	var data struct {
+		TxID      string   `json:"txid"`
+		Vout      *uint32  `json:"vout"`
+		ScriptSig hexBytes `json:"scriptsig"`
+		// a null JSON value is a valid one for the witness
+		Witness  []hexBytes `json:"witness"`
+		Sequence *uint32    `json:"sequence"`
+		IsPegin  bool       `json:"is_pegin"`
+	}
+	if err := json.Unmarshal(inJSON, &data); err != nil {
+		return nil, err
+	}
+	if !isHash(data.TxID) || data.Vout == nil || data.Sequence == nil {
+		return nil, fmt.Errorf("malformed input")
 	}
 
-	in.Sequence = uint32(m["sequence"].(float64))
-	in.IsPegin = m["is_pegin"].(bool)
+	txid, err := bufferutil.TxIDToBytes(data.TxID)
+	if err != nil {
+		return nil, err
+	}
+	in := transaction.NewTxInput(txid, *data.Vout)
+	in.Script = data.ScriptSig
+	for _, wit := range data.Witness {
+		in.Witness = append(in.Witness, wit)
+	}
+	in.Sequence = *data.Sequence
+	in.IsPegin = data.IsPegin
 
 	// TODO: parse issuance
-	return in
+	return in, nil
 }
 
-func parseOutput(i interface{}) *transaction.TxOutput {
-	m := i.(map[string]interface{})
-
-	asset := make([]byte, 33)
-	if m["asset"] != nil {
-		asset, _ = bufferutil.AssetHashToBytes(m["asset"].(string))
-	} else {
-		asset = interfaceToBytes(m["assetcommitment"])
+func parseOutput(outJSON []byte) (*transaction.TxOutput, error) {
+	var data struct {
+		Asset           string   `json:"asset"`
+		Value           *uint64  `json:"value"`
+		AssetCommitment hexBytes `json:"assetcommitment"`
+		ValueCommitment hexBytes `json:"valuecommitment"`
+		Script          hexBytes `json:"scriptpubkey"`
+	}
+	if err := json.Unmarshal(outJSON, &data); err != nil {
+		return nil, err
 	}
 
-	value := make([]byte, 0)
-	if m["value"] != nil {
-		value, _ = bufferutil.ValueToBytes(uint64(m["value"].(float64)))
-	} else {
-		value = interfaceToBytes(m["valuecommitment"])
+	asset := []byte(data.AssetCommitment)
+	if len(data.Asset) > 0 {
+		if !isHash(data.Asset) {
+			return nil, fmt.Errorf("malformed output asset")
+		}
+		buf, err := bufferutil.AssetHashToBytes(data.Asset)
+		if err != nil {
+			return nil, err
+		}
+		asset = buf
+	}
+	value := []byte(data.ValueCommitment)
+	if data.Value != nil {
+		buf, err := bufferutil.ValueToBytes(*data.Value)
+		if err != nil {
+			return nil, err
+		}
+		value = buf
+	}
+	if len(asset) != 33 || (len(value) != 9 && len(value) != 33) {
+		return nil, fmt.Errorf("malformed output")
 	}
-	script := interfaceToBytes(m["scriptpubkey"])
 
 	// TODO: parse nonce and proof; these values must be retrieved by parsing the
 	// hex of the transaction like done in getUtxoDetails
-	return transaction.NewTxOutput(asset, value, script)
+	return transaction.NewTxOutput(asset, value, data.Script), nil
 }
 
-func interfaceToBytes(i interface{}) []byte {
-	s := i.(string)
-	buf, _ := hex.DecodeString(s)
-	return buf
-}
+// hexBytes is a JSON string in hex format.
+type hexBytes []byte
 
-func parseWitness(i interface{}) transaction.TxWitness {
-	witnesses := i.([]interface{})
-	buf := make(transaction.TxWitness, 0, len(witnesses))
-	for _, wit := range witnesses {
-		b := interfaceToBytes(wit)
-		buf = append(buf, b)
+func (h *hexBytes) UnmarshalJSON(b []byte) error {
+	var s string
+	if err := json.Unmarshal(b, &s); err != nil {
+		return err
 	}
-	return buf
+	buf, err := hex.DecodeString(s)
+	if err != nil {
+		return err
+	}
+	*h = buf
+	return nil
+}
+
+// isHash returns whether the given string is a 32-byte hash in hex format.
+func isHash(s string) bool {
+	buf, err := hex.DecodeString(s)
+	return err == nil && len(buf) == 32
 }
 
 /**** UTXO *****/
@@ -161,10 +237,36 @@ type witnessUtxo struct {
 	UAssetBlinder    []byte
 }
 
+// validate makes sure that nothing required to identify the utxo, its value and
+// its asset is missing.
+func (wu witnessUtxo) validate() error {
+	if !isHash(wu.UHash) ||
+		(len(wu.UValueCommitment) <= 0 && wu.UValue == 0) ||
+		(len(wu.UAssetCommitment) <= 0 && !isHash(wu.UAsset)) {
+		return fmt.Errorf("malformed utxo %s:%d", wu.UHash, wu.UIndex)
+	}
+	return nil
+}
+
 type status struct {
 	Confirmed bool `json:"confirmed"`
 }
 
+// UnmarshalJSON makes sure that the confirmation status is always defined.
+func (s *status) UnmarshalJSON(b []byte) error {
+	var data struct {
+		Confirmed *bool `json:"confirmed"`
+	}
+	if err := json.Unmarshal(b, &data); err != nil {
+		return err
+	}
+	if data.Confirmed == nil {
+		return fmt.Errorf("missing confirmation status")
+	}
+	s.Confirmed = *data.Confirmed
+	return nil
+}
+
 // NewUnconfidentialWitnessUtxo is the factory for a non-confidential witnessUtxo.
 func NewUnconfidentialWitnessUtxo(
 	hash string,
diff --git a/pkg/explorer/esplora/unspents.go b/pkg/explorer/esplora/unspents.go
index f8a5082..45bed11 100644
--- a/pkg/explorer/esplora/unspents.go
+++ b/pkg/explorer/esplora/unspents.go
@@ -2,6 +2,7 @@ package esplora
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"net/http"
 	"sync"
@@ -26,7 +27,8 @@ func (e *esplora) GetUnspentsForAddresses(
 	addresses []string,
 	blindingKeys [][]byte,
 ) ([]explorer.Utxo, error) {
-	chRes := make(chan utxosResult)
+	addresses = unique(addresses)
+	chRes := make(chan utxosResult, len(addresses))
 	utxos := make([]explorer.Utxo, 0)
 	wg := &sync.WaitGroup{}
 	wg.Add(len(addresses))
@@ -53,6 +55,18 @@ func (e *esplora) GetUnspentsForAddresses(
 	return utxos, nil
 }
 
+func unique(addresses []string) []string {
+	seen := make(map[string]struct{})
+	list := make([]string, 0, len(addresses))
+	for _, addr := range addresses {
+		if _, ok := seen[addr]; !ok {
+			seen[addr] = struct{}{}
+			list = append(list, addr)
+		}
+	}
+	return list
+}
+
 type utxoResult struct {
 	utxo explorer.Utxo
 	err  error
@@ -69,16 +83,16 @@ func (e *esplora) getUtxos(addr string, blindingKeys [][]byte) ([]explorer.Utxo,
 		return nil, fmt.Errorf("error on retrieving utxos: %s", err)
 	}
 	if status != http.StatusOK {
-		return nil, fmt.Errorf(resp)
+		return nil, errors.New(resp)
 	}
 
-	var witnessOuts []witnessUtxo
-	if err := json.Unmarshal([]byte(resp), &witnessOuts); err != nil {
+	witnessOuts, err := parseUtxos(resp)
+	if err != nil {
 		return nil, fmt.Errorf("error on retrieving utxos: %s", err)
 	}
 
 	utxos := make([]explorer.Utxo, 0, len(witnessOuts))
-	chRes := make(chan utxoResult)
+	chRes := make(chan utxoResult, len(witnessOuts))
 	wg := &sync.WaitGroup{}
 	wg.Add(len(witnessOuts))
 
@@ -106,7 +120,7 @@ func (e *esplora) getUtxos(addr string, blindingKeys [][]byte) ([]explorer.Utxo,
 	}
 
 	if len(utxosToUnblind) > 0 {
-		chRes := make(chan utxoResult)
+		chRes := make(chan utxoResult, len(utxosToUnblind))
 		wg.Add(len(utxosToUnblind))
 
 		go func() {
@@ -131,6 +145,33 @@ func (e *esplora) getUtxos(addr string, blindingKeys [][]byte) ([]explorer.Utxo,
 	return utxos, nil
 }
 
+func parseUtxos(utxoList string) ([]witnessUtxo, error) {
+	var list []struct {
+		witnessUtxo
+		UIndex *uint32 `json:"vout"`
+	}
+	if err := json.Unmarshal([]byte(utxoList), &list); err != nil {
+		return nil, err
+	}
+	if list == nil {
+		return nil, errors.New("missing list")
+	}
+
+	utxos := make([]witnessUtxo, 0, len(list))
+	for _, u := range list {
+		utxo := u.witnessUtxo
+		if u.UIndex == nil {
+			return nil, fmt.Errorf("malformed utxo of transaction %s", utxo.UHash)
+		}
+		utxo.UIndex = *u.UIndex
+		if err := utxo.validate(); err != nil {
+			return nil, err
+		}
+		utxos = append(utxos, utxo)
+	}
+	return utxos, nil
+}
+
 func (e *esplora) getUnspentsForAddress(
 	addr string,
 	blindingKeys [][]byte,
@@ -161,7 +202,17 @@ func (e *esplora) getUtxoDetails(
 		chRes <- utxoResult{err: err}
 		return
 	}
-	trx, _ := transaction.NewTxFromHex(prevoutTxHex)
+	trx, err := explorer.ParseRawTransaction(prevoutTxHex)
+	if err != nil {
+		chRes <- utxoResult{err: err}
+		return
+	}
+	if int64(utxo.Index()) >= int64(len(trx.Outputs)) {
+		chRes <- utxoResult{err: fmt.Errorf(
+			"missing output %d of transaction %s", utxo.Index(), utxo.Hash(),
+		)}
+		return
+	}
 	prevout := trx.Outputs[utxo.Index()]
 
 	if utxo.IsConfidential() {
diff --git a/pkg/explorer/rawtx.go b/pkg/explorer/rawtx.go
new file mode 100644
index 0000000..117a5d5
--- /dev/null
+++ b/pkg/explorer/rawtx.go
@@ -0,0 +1,120 @@
+package explorer
+
+import (
+	"encoding/binary"
+	"encoding/hex"
+	"errors"
+
+	"github.com/vulpemventures/go-elements/transaction"
+)
+
+// ErrMalformedTransaction is returned when a serialized transaction declares
+// more data than it contains.
+var ErrMalformedTransaction = errors.New("transaction is malformed")
+
+// ParseRawTransaction deserializes a transaction in hex format received from
+// the outside. Deserialization allocates memory for the sizes declared by the
+// raw transaction, therefore these are checked in advance.
+func ParseRawTransaction(txHex string) (*transaction.Transaction, error) {
+	buf, err := hex.DecodeString(txHex)
+	if err != nil {
+		return nil, err
+	}
+	r := &rawTx{buf: buf}
+	r.skipTx()
+	if r.err != nil || len(r.buf) > 0 {
+		return nil, ErrMalformedTransaction
+	}
+	return transaction.NewTxFromHex(txHex)
+}
+
+type rawTx struct {
+	buf []byte
+	err error
+}
+
+func (r *rawTx) next(n uint64) []byte {
+	if r.err != nil || n > uint64(len(r.buf)) {
+		r.err = ErrMalformedTransaction
+		return make([]byte, 8)
+	}
+	b := r.buf[:n]
+	r.buf = r.buf[n:]
+	return b
+}
+
+func (r *rawTx) nextVarInt() uint64 {
+	switch prefix := r.next(1)[0]; prefix {
+	case 0xff:
+		return binary.LittleEndian.Uint64(r.next(8))
+	case 0xfe:
+		return uint64(binary.LittleEndian.Uint32(r.next(4)))
+	case 0xfd:
+		return uint64(binary.LittleEndian.Uint16(r.next(2)))
+	default:
+		return uint64(prefix)
+	}
+}
+
+func (r *rawTx) skipSlice() {
+	r.next(r.nextVarInt())
+}
+
+func (r *rawTx) skipVector() {
+	count := r.nextVarInt()
+	for i := uint64(0); i < count && r.err == nil; i++ {
+		r.skipSlice()
+	}
+}
+
+func (r *rawTx) skipValue() {
+	switch r.next(1)[0] {
+	case 1:
+		r.next(8)
+	case 8, 9:
+		r.next(32)
+	}
+}
+
+func (r *rawTx) skipTx() {
+	r.next(4)
+	hasWitness := r.next(1)[0] == 1
+
+	ins := r.nextVarInt()
+	for i := uint64(0); i < ins && r.err == nil; i++ {
+		r.next(32)
+		index := binary.LittleEndian.Uint32(r.next(4))
+		r.skipSlice()
+		r.next(4)
+		if index != transaction.MinusOne &&
+			index&transaction.OutpointIssuanceFlag != 0 {
+			r.next(64)
+			r.skipValue()
+			r.skipValue()
+		}
+	}
+
+	outs := r.nextVarInt()
+	for i := uint64(0); i < outs && r.err == nil; i++ {
+		r.next(33)
+		r.skipValue()
+		if nonce := r.next(1)[0]; nonce >= 1 && nonce <= 3 {
+			r.next(32)
+		}
+		r.skipSlice()
+	}
+	r.next(4)
+
+	if hasWitness {
+		for i := uint64(0); i < ins && r.err == nil; i++ {
+			r.skipSlice()
+			r.skipSlice()
+			r.skipVector()
+			r.skipVector()
+		}
+		for i := uint64(0); i < outs && r.err == nil; i++ {
+			r.skipSlice()
+			r.skipSlice()
+		}
+	}
+}
-- 
2.43.0


From d0903de15e90738518386f03b1a274bdb78ff6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:48 +0000
Subject: [PATCH 25/49] fix: prime the shared context of the crypto library
 before concurrent use

---
 pkg/transactionutil/transactionutil.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/transactionutil/transactionutil.go b/pkg/transactionutil/transactionutil.go
index 0b3dddc..0038631 100644
--- a/pkg/transactionutil/transactionutil.go
+++ b/pkg/transactionutil/transactionutil.go
@@ -12,6 +12,13 @@ import (
 	"github.com/vulpemventures/go-elements/transaction"
 )
 
+// The crypto library creates the context shared by its serialization functions
+// at the first use, without any locking. It must be created in advance because
+// outputs are blinded and unblinded concurrently.
+func init() {
+	confidential.AssetCommitment(make([]byte, 32), make([]byte, 32))
+}
+
 type UnblindedResult struct {
 	AssetHash    string
 	Value        uint64
-- 
2.43.0


From 9a8fa392e9385f61fc1f047969789cae562b71c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:12 +0000
Subject: [PATCH 26/49] fix: badger market updates persist the prices they
 change

---
 internal/core/domain/market_service.go                   | 5 +++++
 .../storage/db/badger/market_repository_impl.go          | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/internal/core/domain/market_service.go b/internal/core/domain/market_service.go
index 5601a5d..e5a445d 100644
--- a/internal/core/domain/market_service.go
+++ b/internal/core/domain/market_service.go
@@ -20,6 +20,11 @@ func (p Prices) AreZero() bool {
 	return decimal.Decimal(p.BasePrice).Equal(decimal.NewFromInt(0)) && decimal.Decimal(p.QuotePrice).Equal(decimal.NewFromInt(0))
 }
 
+// Equal returns whether the prices are the same.
+func (p Prices) Equal(other Prices) bool {
+	return p.BasePrice.Equal(other.BasePrice) && p.QuotePrice.Equal(other.QuotePrice)
+}
+
 func (f FixedFee) validate() error {
 	if f.BaseFee < 0 || f.QuoteFee < 0 {
 		return ErrInvalidFixedFee
diff --git a/internal/infrastructure/storage/db/badger/market_repository_impl.go b/internal/infrastructure/storage/db/badger/market_repository_impl.go
index 8f8703e..fd56872 100644
--- a/internal/infrastructure/storage/db/badger/market_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/market_repository_impl.go
@@ -110,11 +110,20 @@ func (m marketRepositoryImpl) UpdateMarket(
 			return ErrMarketNotFound
 		}
 
+		currentPrice := currentMarket.Price
 		updatedMarket, err := updateFn(currentMarket)
 		if err != nil {
 			return err
 		}
 
+		if !updatedMarket.Price.Equal(currentPrice) {
+			if err := m.updatePriceByAccountIndex(
+				ctx, accountIndex, updatedMarket.Price,
+			); err != nil {
+				return err
+			}
+		}
+
 		return m.updateMarket(ctx, accountIndex, *updatedMarket)
 	})
 }
-- 
2.43.0


From 50e6d50a23b60e413e036065d39b5cae5c59a37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:50 +0000
Subject: [PATCH 27/49] fix: market fee changes apply to the stored market, not
 to a stale copy

---
 internal/core/application/operator_service.go | 34 +++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index 56edf52..030dddb 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -353,7 +353,7 @@ func (o *operatorService) UpdateMarketPercentageFee(
 		return nil, ErrMarketNotExist
 	}
 
-	mkt, accountIndex, err := o.repoManager.MarketRepository().GetMarketByAsset(
+	_, accountIndex, err := o.repoManager.MarketRepository().GetMarketByAsset(
 		ctx,
 		req.QuoteAsset,
 	)
@@ -364,15 +364,18 @@ func (o *operatorService) UpdateMarketPercentageFee(
 		return nil, ErrMarketNotExist
 	}
 
-	if err := mkt.ChangeFeeBasisPoint(req.BasisPoint); err != nil {
-		return nil, err
-	}
-
+	// The change is made on the market as it's stored at this time, so that no
+	// other change made in the meantime gets lost.
+	var mkt *domain.Market
 	if err := o.repoManager.MarketRepository().UpdateMarket(
 		ctx,
 		accountIndex,
-		func(_ *domain.Market) (*domain.Market, error) {
-			return mkt, nil
+		func(m *domain.Market) (*domain.Market, error) {
+			if err := m.ChangeFeeBasisPoint(req.BasisPoint); err != nil {
+				return nil, err
+			}
+			mkt = m
+			return m, nil
 		},
 	); err != nil {
 		return nil, err
@@ -409,7 +412,7 @@ func (o *operatorService) UpdateMarketFixedFee(
 		return nil, ErrMarketNotExist
 	}
 
-	mkt, accountIndex, err := o.repoManager.MarketRepository().GetMarketByAsset(
+	_, accountIndex, err := o.repoManager.MarketRepository().GetMarketByAsset(
 		ctx,
 		req.QuoteAsset,
 	)
@@ -420,15 +423,18 @@ func (o *operatorService) UpdateMarketFixedFee(
 		return nil, ErrMarketNotExist
 	}
 
-	if err := mkt.ChangeFixedFee(req.FixedBaseFee, req.FixedQuoteFee); err != nil {
-		return nil, err
-	}
-
+	// The change is made on the market as it's stored at this time, so that no
+	// other change made in the meantime gets lost.
+	var mkt *domain.Market
 	if err := o.repoManager.MarketRepository().UpdateMarket(
 		ctx,
 		accountIndex,
-		func(_ *domain.Market) (*domain.Market, error) {
-			return mkt, nil
+		func(m *domain.Market) (*domain.Market, error) {
+			if err := m.ChangeFixedFee(req.FixedBaseFee, req.FixedQuoteFee); err != nil {
+				return nil, err
+			}
+			mkt = m
+			return m, nil
 		},
 	); err != nil {
 		return nil, err
-- 
2.43.0


From 908118d640aceb269589a30cae3b80d2789d4801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 28/49] fix: at most one market per asset pair and account

---
 internal/core/application/errors.go           |  3 +++
 internal/core/application/operator_service.go | 25 +++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/internal/core/application/errors.go b/internal/core/application/errors.go
index a6defee..d379b45 100644
--- a/internal/core/application/errors.go
+++ b/internal/core/application/errors.go
@@ -11,6 +11,9 @@ var (
 	ErrTxNotConfirmed = errors.New("transaction not confirmed")
 	// ErrMarketNotExist ...
 	ErrMarketNotExist = errors.New("market does not exists")
+	// ErrMarketAlreadyExists is returned when attempting to fund a market with
+	// the assets of another one.
+	ErrMarketAlreadyExists = errors.New("a market with the same assets already exists")
 	// ErrMarketNotFunded ...
 	ErrMarketNotFunded = errors.New("market account not funded")
 	// ErrMissingNonFundedMarkets ...
diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index 030dddb..58f83f0 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -108,6 +108,9 @@ type operatorService struct {
 	marketFee                  int64
 	network                    *network.Network
 	feeAccountBalanceThreshold uint64
+
+	// marketMtx is held while a market is created or gets its assets.
+	marketMtx sync.Mutex
 }
 
 // NewOperatorService is a constructor function for OperatorService.
@@ -169,6 +172,9 @@ func (o *operatorService) DepositMarket(
 	} else {
 		// Second case: base and quote asset are empty. this means we need to create a new market.
 		isNewMarket = true
+
+		o.marketMtx.Lock()
+		defer o.marketMtx.Unlock()
 	}
 
 	// the addresses are returned only once they've been persisted.
@@ -1229,6 +1235,25 @@ func (o *operatorService) fundMarket(
 		})
 	}
 
+	// There can be only one market for each asset pair.
+	o.marketMtx.Lock()
+	defer o.marketMtx.Unlock()
+
+	for _, outpoint := range outpoints {
+		if outpoint.Asset == o.marketBaseAsset {
+			continue
+		}
+		_, marketAccount, err := o.repoManager.MarketRepository().GetMarketByAsset(
+			context.Background(), outpoint.Asset,
+		)
+		if err != nil {
+			return err
+		}
+		if marketAccount >= 0 && marketAccount != accountIndex {
+			return ErrMarketAlreadyExists
+		}
+	}
+
 	// Update the market trying to funding attaching the newly found quote asset.
 	return o.repoManager.MarketRepository().UpdateMarket(
 		context.Background(),
-- 
2.43.0


From 23e0016176b84ed47eb320d96872e34aa1b799bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:45 +0000
Subject: [PATCH 29/49] fix: funded markets keep accepting deposits of other
 assets

---
 internal/core/application/operator_service.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index 58f83f0..35b0cdf 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -1239,8 +1239,14 @@ func (o *operatorService) fundMarket(
 	o.marketMtx.Lock()
 	defer o.marketMtx.Unlock()
 
+	market, err := o.repoManager.MarketRepository().GetMarketByAccount(
+		context.Background(), accountIndex,
+	)
+	if err != nil {
+		return err
+	}
 	for _, outpoint := range outpoints {
-		if outpoint.Asset == o.marketBaseAsset {
+		if (market != nil && market.IsFunded()) || outpoint.Asset == o.marketBaseAsset {
 			continue
 		}
 		_, marketAccount, err := o.repoManager.MarketRepository().GetMarketByAsset(
-- 
2.43.0


From 280790a252d9bbe45c9141f46c2ff8013e9b1c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:58 +0000
Subject: [PATCH 30/49] fix: claims of negative output indexes are refused,
 those of known unconfirmed coins confirm them

---
 internal/core/application/operator_service.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index 35b0cdf..34565be 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -1159,7 +1159,7 @@ func (o *operatorService) claimDeposit(
 			return err
 		}
 
-		if len(tx.Outputs()) <= v.Index {
+		if v.Index < 0 || len(tx.Outputs()) <= v.Index {
 			return ErrInvalidOutpoint
 		}
 
@@ -1206,6 +1206,16 @@ func (o *operatorService) claimDeposit(
 
 			go func() {
 				addUnspentsAsync(o.repoManager.UnspentRepository(), unspents)
+				// those already known as unconfirmed are now confirmed.
+				unspentKeys := make([]domain.UnspentKey, 0, len(unspents))
+				for _, u := range unspents {
+					unspentKeys = append(unspentKeys, u.Key())
+				}
+				if _, err := o.repoManager.UnspentRepository().ConfirmUnspents(
+					context.Background(), unspentKeys,
+				); err != nil {
+					log.WithError(err).Warn("unable to confirm unspents")
+				}
 				if depositType == feeDeposit {
 					if err := o.checkAccountBalance(infoPerAccount[accountIndex]); err != nil {
 						log.Warn(err)
-- 
2.43.0


From 22f7bd9554204c78a7b6e1fff12902d2a2a54165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:55 +0000
Subject: [PATCH 31/49] fix: network fees above the selected amount are covered
 by more coins and no empty change is added

The change underflowed when the fee exceeded the amount the fee coins were
selected for, and totals beyond 64 bits wrapped around.
---
 pkg/wallet/transaction.go | 68 +++++++++++++++++++++------------------
 pkg/wallet/util.go        | 27 ++++++++++++++++
 2 files changed, 63 insertions(+), 32 deletions(-)

diff --git a/pkg/wallet/transaction.go b/pkg/wallet/transaction.go
index 328bca4..b42484f 100644
--- a/pkg/wallet/transaction.go
+++ b/pkg/wallet/transaction.go
@@ -226,11 +226,17 @@ func (o UpdateTxOpts) validate() error {
 			return ErrNullChangePathsByAsset
 		}
 
+		totalAmountsByAsset := map[string]uint64{}
 		for _, out := range o.Outputs {
 			asset := bufferutil.AssetHashFromBytes(out.Asset)
 			if _, ok := o.ChangePathsByAsset[asset]; !ok {
 				return fmt.Errorf("missing derivation path for eventual change of asset '%s'", asset)
 			}
+			amount := bufferutil.ValueFromBytes(out.Value)
+			if totalAmountsByAsset[asset]+amount < amount {
+				return fmt.Errorf("total output amount of asset '%s' is too big", asset)
+			}
+			totalAmountsByAsset[asset] += amount
 		}
 
 		// in case change for network fees is requested, make sure that a change
@@ -396,20 +402,18 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 					outputsToAdd[changeOutputIndex].Value, _ = bufferutil.ValueToBytes(changeAmount - feeAmount)
 				} else {
 					unspents := getRemainingUnspents(opts.Unspents, inputsToAdd)
-					selectedUnspents, change, err := explorer.SelectUnspents(
-						unspents,
-						DummyFeeAmount,
-						opts.Network.AssetID,
+					selectedUnspents, change, amount, err := selectUnspentsForFees(
+						ptx, unspents, opts.Network.AssetID,
+						len(inputsToAdd), len(outputsToAdd), opts.MilliSatsPerBytes,
+						changeAmount, 1,
 					)
 					if err != nil {
 						return nil, err
 					}
 					inputsToAdd = append(inputsToAdd, selectedUnspents...)
 
-					feeAmount = calcFeeAmount(ptx, len(inputsToAdd), len(outputsToAdd), opts.MilliSatsPerBytes)
-					change += DummyFeeAmount - feeAmount
-					outputsToAdd[changeOutputIndex].Value, _ = bufferutil.ValueToBytes(changeAmount + change)
-
+					feeAmount = amount
+					outputsToAdd[changeOutputIndex].Value, _ = bufferutil.ValueToBytes(change)
 				}
 			} else {
 				// In case there's no LBTC change, it's necessary to choose some other
@@ -417,38 +421,38 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 				// inputs to add to the tx and add another output for the eventual change
 				// returned by the coin selection
 				unspents := getRemainingUnspents(opts.Unspents, inputsToAdd)
-				selectedUnspents, change, err := explorer.SelectUnspents(
-					unspents,
-					DummyFeeAmount,
-					opts.Network.AssetID,
+				selectedUnspents, change, amount, err := selectUnspentsForFees(
+					ptx, unspents, opts.Network.AssetID,
+					len(inputsToAdd), len(outputsToAdd)+1, opts.MilliSatsPerBytes,
+					0, 0,
 				)
 				if err != nil {
 					return nil, err
 				}
 				inputsToAdd = append(inputsToAdd, selectedUnspents...)
+				feeAmount = amount
 
-				feeAmount = calcFeeAmount(ptx, len(inputsToAdd), len(outputsToAdd)+1, opts.MilliSatsPerBytes)
-				change += DummyFeeAmount - feeAmount
-
-				lbtcChangeOutput, _ := newTxOutput(
-					opts.Network.AssetID,
-					change,
-					lbtcChangeScript,
-				)
-				outputsToAdd = append(outputsToAdd, lbtcChangeOutput)
+				if change > 0 {
+					lbtcChangeOutput, _ := newTxOutput(
+						opts.Network.AssetID,
+						change,
+						lbtcChangeScript,
+					)
+					outputsToAdd = append(outputsToAdd, lbtcChangeOutput)
 
-				lbtcChangePrvBlindingKey, lbtcChangePubBlindingKey, _ := w.DeriveBlindingKeyPair(
-					DeriveBlindingKeyPairOpts{
-						Script: lbtcChangeScript,
-					},
-				)
+					lbtcChangePrvBlindingKey, lbtcChangePubBlindingKey, _ := w.DeriveBlindingKeyPair(
+						DeriveBlindingKeyPairOpts{
+							Script: lbtcChangeScript,
+						},
+					)
 
-				if opts.WantPrivateBlindKeys {
-					changeOutputsBlindingKeys[hex.EncodeToString(lbtcChangeScript)] =
-						lbtcChangePrvBlindingKey.Serialize()
-				} else {
-					changeOutputsBlindingKeys[hex.EncodeToString(lbtcChangeScript)] =
-						lbtcChangePubBlindingKey.SerializeCompressed()
+					if opts.WantPrivateBlindKeys {
+						changeOutputsBlindingKeys[hex.EncodeToString(lbtcChangeScript)] =
+							lbtcChangePrvBlindingKey.Serialize()
+					} else {
+						changeOutputsBlindingKeys[hex.EncodeToString(lbtcChangeScript)] =
+							lbtcChangePubBlindingKey.SerializeCompressed()
+					}
 				}
 			}
 		}
diff --git a/pkg/wallet/util.go b/pkg/wallet/util.go
index 61a0086..8dfd461 100644
--- a/pkg/wallet/util.go
+++ b/pkg/wallet/util.go
@@ -246,6 +246,33 @@ func calcWitnessSizeFromRedeemScript(script []byte) int {
 	return scriptSize
 }
 
+// selectUnspentsForFees selects the unspents covering, along with the given
+// available amount, the network fees of the transaction resulting by adding
+// them, and at least the given min change. It returns also the change and the
+// fee amount.
+func selectUnspentsForFees(
+	ptx *pset.Pset, unspents []explorer.Utxo, lbtcAsset string,
+	nInputs, nOutputs, mSatsPerByte int, availableAmount, minChange uint64,
+) ([]explorer.Utxo, uint64, uint64, error) {
+	targetAmount := DummyFeeAmount
+	for {
+		selectedUnspents, change, err := explorer.SelectUnspents(
+			unspents, targetAmount, lbtcAsset,
+		)
+		if err != nil {
+			return nil, 0, 0, err
+		}
+		feeAmount := calcFeeAmount(
+			ptx, nInputs+len(selectedUnspents), nOutputs, mSatsPerByte,
+		)
+		totalAmount := availableAmount + targetAmount + change
+		if totalAmount >= feeAmount+minChange {
+			return selectedUnspents, totalAmount - feeAmount, feeAmount, nil
+		}
+		targetAmount = feeAmount + minChange - availableAmount
+	}
+}
+
 func calcFeeAmount(ptx *pset.Pset, nInputs, nOutputs, mSatsPerByte int) uint64 {
 	inScriptTypes, inAuxiliaryRedeemScriptSize, inAuxiliaryWitnessSize,
 		outScriptTypes, outAuxiliaryRedeemScriptSize := extractScriptTypesFromPset(ptx)
-- 
2.43.0


From 0692773dc72409d9a5ba0a0a4cfd51cd8d95ce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:08 +0000
Subject: [PATCH 32/49] fix: withdrawals and sends can spend the coins of the
 utxo set, and mark those of the wallet account

Coins of the utxo set are stored without proofs, so blinding with keys failed
for the confidential ones. The wallet account's coins known to the utxo set
were left unspent after being spent.
---
 internal/core/application/wallet_service.go | 29 ++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 498fbf3..9163938 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -586,7 +586,7 @@ func (w *walletService) SendToMany(
 		w.repoManager.VaultRepository(),
 		w.network,
 		txHex,
-		domain.FeeAccount,
+		domain.WalletAccount,
 	)
 	if req.Push {
 		w.blockchainListener.StartObserveTx(txid)
@@ -1118,9 +1118,18 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 		)
 	}
 
-	// blind the transaction
-	blindedPset, err := w.BlindTransactionWithKeys(wallet.BlindTransactionWithKeysOpts{
+	// blind the transaction, the inputs are revealed by the blinding data of the
+	// selected unspents because those of the utxo set come without proofs
+	inputsBlindingData := make(map[int]wallet.BlindingData)
+	for _, u := range updateResult.SelectedUnspents {
+		inputsBlindingData[len(inputsBlindingData)] = blindingDataOfUtxo(u)
+	}
+	for _, u := range feeUpdateResult.SelectedUnspents {
+		inputsBlindingData[len(inputsBlindingData)] = blindingDataOfUtxo(u)
+	}
+	blindedPset, err := w.BlindTransactionWithData(wallet.BlindTransactionWithDataOpts{
 		PsetBase64:         feeUpdateResult.PsetBase64,
+		InputBlindingData:  inputsBlindingData,
 		OutputBlindingKeys: outputsBlindingKeys,
 	})
 	if err != nil {
@@ -1160,6 +1169,20 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 	return txHex, nil
 }
 
+func blindingDataOfUtxo(u explorer.Utxo) wallet.BlindingData {
+	data := wallet.BlindingData{
+		Asset:         u.Asset(),
+		Amount:        u.Value(),
+		AssetBlinder:  u.AssetBlinder(),
+		AmountBlinder: u.ValueBlinder(),
+	}
+	if !u.IsConfidential() {
+		data.AssetBlinder = make([]byte, 32)
+		data.AmountBlinder = make([]byte, 32)
+	}
+	return data
+}
+
 func getDerivationPathsForUnspents(
 	account *domain.Account,
 	unspents []explorer.Utxo,
-- 
2.43.0


From fe7d532e37c2656c67554a506877d1602fbb5b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:20 +0000
Subject: [PATCH 33/49] fix: a trade's settlement is announced once and keeps
 its transaction

---
 .../core/application/blockchain_listener.go   | 40 ++++++++++++++-----
 internal/core/application/wallet_service.go   |  2 +-
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index d68d4f6..61fb430 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -177,17 +177,22 @@ func (b *blockchainListener) listenToEventChannel() {
 				break
 			}
 
-			if err := b.settleTrade(&trade.ID, e); err != nil {
-				log.Warnf("trying to settle trade with id %s: %v", trade.ID, err)
+			if len(e.TxHex) <= 0 {
+				// without the tx there's no way to know its unspents, nor to add it to
+				// the trade. The event will be emitted again at next tick.
 				break
 			}
-			if err := b.confirmOrAddUnspents(e.TxHex, e.TxID, trade.MarketQuoteAsset); err != nil {
-				log.Warnf("trying to confirm or add unspents: %v", err)
+
+			settled, err := b.settleTrade(&trade.ID, e)
+			if err != nil {
+				log.Warnf("trying to settle trade with id %s: %v", trade.ID, err)
 				break
 			}
+			unspentsErr := b.confirmOrAddUnspents(e.TxHex, e.TxID, trade.MarketQuoteAsset)
 
-			// Publish message for topic TradeSettled to pubsub service.
-			if b.pubsubSvc != nil {
+			// Publish message for topic TradeSettled to pubsub service, only once
+			// no matter how many times the event is received.
+			if settled && b.pubsubSvc != nil {
 				go func() {
 					ctx := context.Background()
 					mkt, mktAccount, err := b.repoManager.MarketRepository().GetMarketByAsset(
@@ -258,6 +263,10 @@ func (b *blockchainListener) listenToEventChannel() {
 					}
 				}()
 			}
+			if unspentsErr != nil {
+				log.Warnf("trying to confirm or add unspents: %v", unspentsErr)
+				break
+			}
 			// stop watching for a tx after it's confirmed
 			b.StopObserveTx(e.TxID)
 		}
@@ -276,12 +285,19 @@ func (b *blockchainListener) startPendingObservables() {
 	}
 }
 
-func (b *blockchainListener) settleTrade(tradeID *uuid.UUID, event crawler.TransactionEvent) error {
+// settleTrade brings the given trade to settled status. It returns whether the
+// trade was not settled yet.
+func (b *blockchainListener) settleTrade(
+	tradeID *uuid.UUID,
+	event crawler.TransactionEvent,
+) (bool, error) {
+	var settled bool
 	if err := b.repoManager.TradeRepository().UpdateTrade(
 		context.Background(),
 		tradeID,
 		func(t *domain.Trade) (*domain.Trade, error) {
-			mustAddTxHex := t.IsAccepted()
+			settled = !t.IsSettled()
+			mustAddTxHex := t.IsAccepted() || len(t.TxHex) <= 0
 			if _, err := t.Settle(uint64(event.BlockTime)); err != nil {
 				return nil, err
 			}
@@ -292,11 +308,13 @@ func (b *blockchainListener) settleTrade(tradeID *uuid.UUID, event crawler.Trans
 			return t, nil
 		},
 	); err != nil {
-		return err
+		return false, err
 	}
 
-	log.Infof("trade with id %s settled", tradeID)
-	return nil
+	if settled {
+		log.Infof("trade with id %s settled", tradeID)
+	}
+	return settled, nil
 }
 
 func (b *blockchainListener) confirmOrAddUnspents(
diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 9163938..b168c2d 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -1335,10 +1335,10 @@ func fetchAndAddUnspents(
 	if unspents == nil {
 		return nil
 	}
-	go startObserveUnconfirmedUnspents(bcListener, unspents)
 	if err := addUnspents(unspentRepo, unspents); err != nil {
 		return err
 	}
+	go startObserveUnconfirmedUnspents(bcListener, unspents)
 
 	// those already known might have been confirmed in the meantime
 	confirmedKeys := make([]domain.UnspentKey, 0)
-- 
2.43.0


From 972f4aaebaa91141725222d994494a6c5901f7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:34 +0000
Subject: [PATCH 34/49] fix: pending trades are watched again and expire after
 a restart

---
 cmd/tdexd/main.go                          | 20 +++++-----
 internal/core/application/trade_service.go | 46 +++++++++++++++++++++-
 2 files changed, 56 insertions(+), 10 deletions(-)

diff --git a/cmd/tdexd/main.go b/cmd/tdexd/main.go
index 396a3c0..0761b04 100644
--- a/cmd/tdexd/main.go
+++ b/cmd/tdexd/main.go
@@ -112,15 +112,6 @@ func main() {
 	)
 
 	// Init application services
-	tradeSvc := application.NewTradeService(
-		repoManager,
-		explorerSvc,
-		blockchainListener,
-		marketsBaseAsset,
-		tradesExpiryDurationInSeconds,
-		pricesSlippagePercentage,
-		network,
-	)
 	operatorSvc := application.NewOperatorService(
 		repoManager,
 		explorerSvc,
@@ -146,6 +137,17 @@ func main() {
 		return
 	}
 
+	// it resumes pending trades, therefore it requires the utxo set to be restored
+	tradeSvc := application.NewTradeService(
+		repoManager,
+		explorerSvc,
+		blockchainListener,
+		marketsBaseAsset,
+		tradesExpiryDurationInSeconds,
+		pricesSlippagePercentage,
+		network,
+	)
+
 	// Init gRPC interfaces.
 	opts := grpcinterface.ServiceOpts{
 		NoMacaroons:          noMacaroons,
diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index de6e37f..b36ceff 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -98,7 +98,7 @@ func newTradeService(
 	priceSlippage decimal.Decimal,
 	net *network.Network,
 ) *tradeService {
-	return &tradeService{
+	svc := &tradeService{
 		repoManager:        repoManager,
 		explorerSvc:        explorerSvc,
 		blockchainListener: bcListener,
@@ -107,6 +107,50 @@ func newTradeService(
 		priceSlippage:      priceSlippage,
 		network:            net,
 	}
+	svc.resumePendingTrades()
+	return svc
+}
+
+// resumePendingTrades makes sure that, after a restart, the transactions of the
+// trades that are waiting to be completed or settled are watched again and that
+// those that are going to expire do it. It requires the utxo set of the wallet
+// to be restored already.
+func (t *tradeService) resumePendingTrades() {
+	trades, err := t.repoManager.TradeRepository().GetAllTrades(context.Background())
+	if err != nil {
+		log.WithError(err).Warn("unable to resume pending trades")
+		return
+	}
+
+	for _, trade := range trades {
+		if trade.IsRejected() || !(trade.IsAccepted() || trade.IsCompleted()) {
+			continue
+		}
+		t.blockchainListener.StartObserveTx(trade.TxID)
+
+		if trade.IsAccepted() {
+			go func(trade *domain.Trade) {
+				p, err := pset.NewPsetFromBase64(trade.PsetBase64)
+				if err != nil {
+					log.WithError(err).Warnf(
+						"unable to watch expiration of trade with id %s", trade.ID,
+					)
+					return
+				}
+				unspentKeys := make([]domain.UnspentKey, 0, len(p.UnsignedTx.Inputs))
+				for _, in := range p.UnsignedTx.Inputs {
+					unspentKeys = append(unspentKeys, domain.UnspentKey{
+						TxID: bufferutil.TxIDFromBytes(in.Hash),
+						VOut: in.Index,
+					})
+				}
+
+				expiryTime := time.Unix(int64(trade.ExpiryTime), 0)
+				time.Sleep(time.Until(expiryTime) + time.Minute)
+				t.checkTradeExpiration(trade.TxID, unspentKeys)
+			}(trade)
+		}
+	}
 }
 
 func (t *tradeService) GetTradableMarkets(ctx context.Context) (
-- 
2.43.0


From 52ba76a8c50dd87a705e649f065dfdf7c8fc5448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:47 +0000
Subject: [PATCH 35/49] fix: proposals filled with unconfidential coins of the
 explorer do not crash the daemon

---
 internal/core/application/trade_service.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index b36ceff..2555698 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -907,12 +907,7 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	inputsToSign := len(selectedUnspents)
 
 	for i, u := range selectedUnspents {
-		inputBlindingData[existingInputs+i] = wallet.BlindingData{
-			Asset:         u.Asset(),
-			Amount:        u.Value(),
-			AssetBlinder:  u.AssetBlinder(),
-			AmountBlinder: u.ValueBlinder(),
-		}
+		inputBlindingData[existingInputs+i] = blindingDataOfUtxo(u)
 	}
 
 	outputBlindingKeys := copyBlindingKeys(opts.SwapRequest.GetOutputBlindingKey())
-- 
2.43.0


From b477252673298d65bdb46e2cdf9740c0c63f409a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:38 +0000
Subject: [PATCH 36/49] fix: the estimated size of a transaction is never below
 the real one

---
 pkg/wallet/estimation.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/wallet/estimation.go b/pkg/wallet/estimation.go
index 22027e6..77459a0 100644
--- a/pkg/wallet/estimation.go
+++ b/pkg/wallet/estimation.go
@@ -59,8 +59,8 @@ var (
 	scripsigtSizeByScriptType = map[int]int{
 		P2PK:        140, // len + opcode + sig + opcode + pubkey uncompressed
 		P2PKH:       108, // len + opcode + sig + opcode + pubkey
-		P2SH_P2WPKH: 23,  // len + p2wpkh script
-		P2SH_P2WSH:  35,  // len + p2wsh script
+		P2SH_P2WPKH: 24,  // len + opcode + p2wpkh script
+		P2SH_P2WSH:  36,  // len + opcode + p2wsh script
 		P2WPKH:      1,   // no scriptsig, still len is serialized
 		P2WSH:       1,   // no scriptsig
 	}
@@ -131,8 +131,13 @@ func calcTxWitnessSize(
 	}
 
 	numOutputs := len(outScriptTypes)
+	// number of inputs + bitmap of those used (max 3) + signature
+	numInputs := len(inScriptTypes)
+	surjectionProofSize := 2 + (numInputs+7)/8 + 32*(1+3)
 	// size(range proof) + proof + size(surjection proof) + proof
-	outsSize := (3 + 4174 + 1 + 131) * numOutputs
+	outSize := 3 + 4174 +
+		varIntSerializeSize(uint64(surjectionProofSize)) + surjectionProofSize
+	outsSize := outSize * numOutputs
 	// size of proofs for unconf fee out
 	outsSize += 1 + 1
 
-- 
2.43.0


From 519bf5430c431b1e304adfaa5498deae430d7c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:45 +0000
Subject: [PATCH 37/49] fix: malformed transactions and outputs make the wallet
 library fail rather than panic

---
 pkg/bufferutil/bufferutil.go           |  3 +++
 pkg/swap/complete.go                   |  6 +++--
 pkg/swap/swap.go                       |  6 +++++
 pkg/transactionutil/sanity.go          |  9 +++++++
 pkg/transactionutil/transactionutil.go | 32 ++++++++++++++++++++++-
 pkg/wallet/blind.go                    | 35 ++++++++++++++++++++------
 pkg/wallet/errors.go                   |  2 ++
 pkg/wallet/sign.go                     |  8 +++++-
 pkg/wallet/transaction.go              | 26 ++++++++++++++++---
 pkg/wallet/util.go                     | 34 +++++++++++++++++++------
 10 files changed, 138 insertions(+), 23 deletions(-)

diff --git a/pkg/bufferutil/bufferutil.go b/pkg/bufferutil/bufferutil.go
index 2b0314b..d4759d8 100644
--- a/pkg/bufferutil/bufferutil.go
+++ b/pkg/bufferutil/bufferutil.go
@@ -7,6 +7,9 @@ import (
 )
 
 func AssetHashFromBytes(buffer []byte) string {
+	if len(buffer) <= 0 {
+		return ""
+	}
 	// We remove the first byte from the buffer array that represents if confidential or unconfidential
 	return hex.EncodeToString(elementsutil.ReverseBytes(buffer[1:]))
 }
diff --git a/pkg/swap/complete.go b/pkg/swap/complete.go
index 1615cb9..6bb5117 100644
--- a/pkg/swap/complete.go
+++ b/pkg/swap/complete.go
@@ -25,9 +25,11 @@ type CompleteOpts struct {
 
 // Complete takes a CompleteOpts and returns the id of the SwapComplete entity
 // and its serialized version
-func Complete(complete CompleteOpts) (string, []byte, error) {
+func Complete(complete CompleteOpts) (id string, msg []byte, err error) {
+	defer transactionutil.RecoverMalformed(&err)
+
 	var msgAccept pb.SwapAccept
-	err := proto.Unmarshal(complete.Message, &msgAccept)
+	err = proto.Unmarshal(complete.Message, &msgAccept)
 	if err != nil {
 		return "", nil, fmt.Errorf("unmarshal swap accept %w", err)
 	}
diff --git a/pkg/swap/swap.go b/pkg/swap/swap.go
index 7f94cb5..b0911b5 100644
--- a/pkg/swap/swap.go
+++ b/pkg/swap/swap.go
@@ -20,6 +20,9 @@ func compareMessagesAndTransaction(request *pb.SwapRequest, accept *pb.SwapAccep
 	for index, input := range decodedFromRequest.Inputs {
 		if input.WitnessUtxo == nil && input.NonWitnessUtxo != nil {
 			inputVout := decodedFromRequest.UnsignedTx.Inputs[index].Index
+			if int64(inputVout) >= int64(len(input.NonWitnessUtxo.Outputs)) {
+				return errors.New("non-witness utxo of SwapRequest's input is invalid")
+			}
 			decodedFromRequest.Inputs[index].WitnessUtxo = input.NonWitnessUtxo.Outputs[inputVout]
 		}
 	}
@@ -128,6 +131,9 @@ func utxosFilteredByAssetHashAndUnblinded(utxos []pset.PInput, asset string, inp
 	filteredUtxos := make([]pset.PInput, 0)
 
 	for _, utxo := range utxos {
+		if utxo.WitnessUtxo == nil {
+			return nil, errors.New("missing witness utxo of input")
+		}
 		// if confidential, unblind before checking asset hash
 		if utxo.WitnessUtxo.IsConfidential() {
 			script := hex.EncodeToString(utxo.WitnessUtxo.Script)
diff --git a/pkg/transactionutil/sanity.go b/pkg/transactionutil/sanity.go
index d935104..c9577fb 100644
--- a/pkg/transactionutil/sanity.go
+++ b/pkg/transactionutil/sanity.go
@@ -14,6 +14,15 @@ import (
 // more data than it contains.
 var ErrMalformedTransaction = errors.New("transaction is malformed")
 
+// RecoverMalformed must be deferred by the functions handling (partial)
+// transactions of unknown origin. The elements library doesn't validate those
+// it's given, and it panics if any of their fields has not the expected length.
+func RecoverMalformed(err *error) {
+	if r := recover(); r != nil {
+		*err = ErrMalformedTransaction
+	}
+}
+
 // CheckTxHex returns an error if any of the lengths declared by the given raw
 // transaction exceeds its size. It must be used for those of unknown origin
 // before deserializing them, because memory is allocated for the declared size.
diff --git a/pkg/transactionutil/transactionutil.go b/pkg/transactionutil/transactionutil.go
index 0038631..a599c4e 100644
--- a/pkg/transactionutil/transactionutil.go
+++ b/pkg/transactionutil/transactionutil.go
@@ -1,6 +1,7 @@
 package transactionutil
 
 import (
+	"bytes"
 	"encoding/hex"
 
 	"github.com/vulpemventures/go-elements/network"
@@ -31,7 +32,7 @@ func UnblindOutput(
 	blindKey []byte,
 ) (*UnblindedResult, bool) {
 	if utxo.IsConfidential() {
-		revealed, err := confidential.UnblindOutputWithKey(utxo, blindKey)
+		revealed, err := unblindOutput(utxo, blindKey)
 		if err != nil {
 			return nil, false
 		}
@@ -51,6 +52,35 @@ func UnblindOutput(
 	}, true
 }
 
+func unblindOutput(utxo *transaction.TxOutput, blindKey []byte) (
+	revealed *confidential.UnblindOutputResult, err error,
+) {
+	// the rest of the fields are validated by the crypto library
+	if len(utxo.Asset) != 33 || len(utxo.Value) != 33 ||
+		len(utxo.RangeProof) <= 0 {
+		return nil, ErrMalformedTransaction
+	}
+	defer RecoverMalformed(&err)
+
+	revealed, err = confidential.UnblindOutputWithKey(utxo, blindKey)
+	if err != nil {
+		return nil, err
+	}
+
+	// the range proof commits to the value, while the asset is just a message
+	// that the creator of the output can choose at will.
+	assetCommitment, err := confidential.AssetCommitment(
+		revealed.Asset, revealed.AssetBlindingFactor,
+	)
+	if err != nil {
+		return nil, err
+	}
+	if !bytes.Equal(assetCommitment, utxo.Asset) {
+		return nil, ErrMalformedTransaction
+	}
+	return revealed, nil
+}
+
 func NewFeeOutput(feeAmount uint64, net *network.Network) []*transaction.TxOutput {
 	feeAsset, _ := bufferutil.AssetHashToBytes(net.AssetID)
 	feeValue, _ := bufferutil.ValueToBytes(feeAmount)
diff --git a/pkg/wallet/blind.go b/pkg/wallet/blind.go
index 4d038ae..a166d30 100644
--- a/pkg/wallet/blind.go
+++ b/pkg/wallet/blind.go
@@ -8,6 +8,7 @@ import (
 	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
 	"github.com/vulpemventures/go-elements/elementsutil"
 	"github.com/vulpemventures/go-elements/pset"
+	"github.com/vulpemventures/go-elements/transaction"
 )
 
 const (
@@ -72,9 +73,12 @@ func (w *Wallet) BlindTransactionWithKeys(opts BlindTransactionWithKeysOpts) (st
 	inKeysLen := len(ptx.Inputs)
 	inBlindingKeys := make([]pset.BlindingDataLike, inKeysLen, inKeysLen)
 	for i, in := range ptx.Inputs {
-		blindingPrvkey, _, _ := w.DeriveBlindingKeyPair(DeriveBlindingKeyPairOpts{
+		blindingPrvkey, _, err := w.DeriveBlindingKeyPair(DeriveBlindingKeyPairOpts{
 			Script: in.WitnessUtxo.Script,
 		})
+		if err != nil {
+			return "", err
+		}
 		inBlindingKeys[i] = pset.PrivateBlindingKey(blindingPrvkey.Serialize())
 	}
 
@@ -113,6 +117,9 @@ func (o BlindSwapTransactionWithKeysOpts) validate() error {
 	}
 
 	for i, in := range ptx.Inputs {
+		if in.WitnessUtxo == nil {
+			return ErrNullInputWitnessUtxo
+		}
 		script := hex.EncodeToString(in.WitnessUtxo.Script)
 		if _, ok := o.InputBlindingKeys[script]; !ok {
 			return fmt.Errorf(
@@ -246,6 +253,9 @@ func (o BlindTransactionWithDataOpts) validate() error {
 	if o.InputBlindingData == nil {
 		return ErrNullInputBlindingData
 	}
+	if len(o.InputBlindingData) != len(ptx.Inputs) {
+		return ErrInvalidInputIndex
+	}
 	for i, b := range o.InputBlindingData {
 		if i < 0 || i >= len(ptx.Inputs) {
 			return ErrInvalidInputIndex
@@ -325,12 +335,19 @@ func (o BlindSwapTransactionWithDataOpts) validate() error {
 	}
 
 	for i, in := range ptx.Inputs {
-		if _, ok := o.InputBlindingData[i]; !ok {
+		if in.WitnessUtxo == nil {
+			return ErrNullInputWitnessUtxo
+		}
+		data, ok := o.InputBlindingData[i]
+		if !ok {
 			script := hex.EncodeToString(in.WitnessUtxo.Script)
 			return fmt.Errorf(
 				"missing blinding data for input %d with script '%s'", i, script,
 			)
 		}
+		if err := data.validate(); err != nil {
+			return err
+		}
 	}
 	for i, out := range ptx.UnsignedTx.Outputs {
 		script := hex.EncodeToString(out.Script)
@@ -402,7 +419,9 @@ func (w *Wallet) blindTransaction(
 	inBlindingData []pset.BlindingDataLike,
 	outBlindingKeys map[int][]byte,
 	maxAttempts int,
-) error {
+) (err error) {
+	defer transactionutil.RecoverMalformed(&err)
+
 	blinder, err := pset.NewBlinder(
 		ptx,
 		inBlindingData,
@@ -445,11 +464,11 @@ func ExtractBlindingDataFromTx(
 
 	if len(inBlindingKeys) > 0 {
 		inBlindingData = make(map[int]BlindingData)
-		for i, in := range ptx.Inputs {
-			prevout := in.WitnessUtxo
-			if in.WitnessUtxo == nil {
-				prevoutIndex := ptx.UnsignedTx.Inputs[i].Index
-				prevout = in.NonWitnessUtxo.Outputs[prevoutIndex]
+		for i := range ptx.Inputs {
+			var prevout *transaction.TxOutput
+			prevout, err = getPrevout(ptx, i)
+			if err != nil {
+				return
 			}
 			script := hex.EncodeToString(prevout.Script)
 			var blindKey []byte
diff --git a/pkg/wallet/errors.go b/pkg/wallet/errors.go
index 7beea67..4baf917 100644
--- a/pkg/wallet/errors.go
+++ b/pkg/wallet/errors.go
@@ -10,6 +10,8 @@ var (
 	ErrNullNetwork = errors.New("network must not be null")
 	// ErrNullInputWitnessUtxo ...
 	ErrNullInputWitnessUtxo = errors.New("input witness utxo must not be null")
+	// ErrNullInputPrevout ...
+	ErrNullInputPrevout = errors.New("input must include the output it spends")
 	// ErrNullSigningMnemonic ...
 	ErrNullSigningMnemonic = errors.New("signing mnemonic is null")
 	// ErrNullBlindingMnemonic ...
diff --git a/pkg/wallet/sign.go b/pkg/wallet/sign.go
index 33d67f4..d2adcc2 100644
--- a/pkg/wallet/sign.go
+++ b/pkg/wallet/sign.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/btcsuite/btcd/txscript"
+	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
 	"github.com/vulpemventures/go-elements/payment"
 	"github.com/vulpemventures/go-elements/pset"
 )
@@ -42,6 +43,9 @@ func (o SignTransactionOpts) validate() error {
 	}
 
 	for i, in := range ptx.Inputs {
+		if in.WitnessUtxo == nil {
+			return ErrNullInputWitnessUtxo
+		}
 		script := in.WitnessUtxo.Script
 		_, ok := o.DerivationPathMap[hex.EncodeToString(script)]
 		if !ok {
@@ -136,7 +140,9 @@ func (w *Wallet) SignInput(opts SignInputOpts) (string, error) {
 	return ptx.ToBase64()
 }
 
-func (w *Wallet) signInput(ptx *pset.Pset, inIndex int, derivationPath string) error {
+func (w *Wallet) signInput(ptx *pset.Pset, inIndex int, derivationPath string) (err error) {
+	defer transactionutil.RecoverMalformed(&err)
+
 	updater, err := pset.NewUpdater(ptx)
 	if err != nil {
 		return err
diff --git a/pkg/wallet/transaction.go b/pkg/wallet/transaction.go
index b42484f..27a6692 100644
--- a/pkg/wallet/transaction.go
+++ b/pkg/wallet/transaction.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
 	"github.com/tdex-network/tdex-daemon/pkg/explorer"
+	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
 	"github.com/vulpemventures/go-elements/network"
 	"github.com/vulpemventures/go-elements/pset"
 	"github.com/vulpemventures/go-elements/transaction"
@@ -205,7 +206,7 @@ func (o UpdateTxOpts) validate() error {
 	if len(o.PsetBase64) <= 0 {
 		return ErrNullPset
 	}
-	_, err := pset.NewPsetFromBase64(o.PsetBase64)
+	ptx, err := pset.NewPsetFromBase64(o.PsetBase64)
 	if err != nil {
 		return err
 	}
@@ -215,6 +216,12 @@ func (o UpdateTxOpts) validate() error {
 	}
 
 	if len(o.Unspents) > 0 {
+		for i := range ptx.Inputs {
+			if _, err := getPrevout(ptx, i); err != nil {
+				return err
+			}
+		}
+
 		for _, in := range o.Unspents {
 			_, _, err := in.Parse()
 			if err != nil {
@@ -225,6 +232,15 @@ func (o UpdateTxOpts) validate() error {
 		if len(o.ChangePathsByAsset) <= 0 {
 			return ErrNullChangePathsByAsset
 		}
+		for _, path := range o.ChangePathsByAsset {
+			derivationPath, err := ParseDerivationPath(path)
+			if err != nil {
+				return err
+			}
+			if err := checkDerivationPath(derivationPath); err != nil {
+				return err
+			}
+		}
 
 		totalAmountsByAsset := map[string]uint64{}
 		for _, out := range o.Outputs {
@@ -486,7 +502,11 @@ func (o FinalizeAndExtractTransactionOpts) validate() error {
 // FinalizeAndExtractTransaction attempts to finalize the provided partial
 // transaction and eventually extracts the final transaction and returns
 // it in hex string format, along with its transaction id
-func FinalizeAndExtractTransaction(opts FinalizeAndExtractTransactionOpts) (string, string, error) {
+func FinalizeAndExtractTransaction(opts FinalizeAndExtractTransactionOpts) (
+	txHex, txid string, err error,
+) {
+	defer transactionutil.RecoverMalformed(&err)
+
 	if err := opts.validate(); err != nil {
 		return "", "", err
 	}
@@ -509,7 +529,7 @@ func FinalizeAndExtractTransaction(opts FinalizeAndExtractTransactionOpts) (stri
 	if err != nil {
 		return "", "", err
 	}
-	txHex, err := tx.ToHex()
+	txHex, err = tx.ToHex()
 	if err != nil {
 		return "", "", err
 	}
diff --git a/pkg/wallet/util.go b/pkg/wallet/util.go
index 8dfd461..07904d4 100644
--- a/pkg/wallet/util.go
+++ b/pkg/wallet/util.go
@@ -161,20 +161,38 @@ func addInsAndOutsToPset(
 	return ptx.ToBase64()
 }
 
+// getPrevout returns the output spent by the given input of the pset.
+func getPrevout(ptx *pset.Pset, inIndex int) (*transaction.TxOutput, error) {
+	in := ptx.Inputs[inIndex]
+	if in.WitnessUtxo != nil {
+		return in.WitnessUtxo, nil
+	}
+	prevoutIndex := ptx.UnsignedTx.Inputs[inIndex].Index
+	if in.NonWitnessUtxo == nil ||
+		int64(prevoutIndex) >= int64(len(in.NonWitnessUtxo.Outputs)) {
+		return nil, ErrNullInputPrevout
+	}
+	return in.NonWitnessUtxo.Outputs[prevoutIndex], nil
+}
+
+func getScriptType(script []byte) int {
+	if len(script) < 2 {
+		return -1
+	}
+	return address.GetScriptType(script)
+}
+
 func extractScriptTypesFromPset(ptx *pset.Pset) ([]int, []int, []int, []int, []int) {
 	inScriptTypes := make([]int, len(ptx.Inputs), len(ptx.Inputs))
 	inAuxiliaryRedeemScriptSize := make([]int, 0)
 	inAuxiliaryWitnessSize := make([]int, 0)
 	for i, in := range ptx.Inputs {
-		var prevout *transaction.TxOutput
-		if in.WitnessUtxo != nil {
-			prevout = in.WitnessUtxo
-		} else {
-			prevoutIndex := ptx.UnsignedTx.Inputs[i].Index
-			prevout = in.NonWitnessUtxo.Outputs[prevoutIndex]
+		prevout, err := getPrevout(ptx, i)
+		if err != nil {
+			continue
 		}
 
-		sType := address.GetScriptType(prevout.Script)
+		sType := getScriptType(prevout.Script)
 		switch sType {
 		case address.P2ShScript:
 			if in.WitnessScript != nil {
@@ -214,7 +232,7 @@ func extractScriptTypesFromPset(ptx *pset.Pset) ([]int, []int, []int, []int, []i
 	outScriptTypes := make([]int, len(ptx.Outputs), len(ptx.Outputs))
 	outAuxiliaryRedeemScriptSize := make([]int, 0)
 	for i, out := range ptx.UnsignedTx.Outputs {
-		sType := address.GetScriptType(out.Script)
+		sType := getScriptType(out.Script)
 		switch sType {
 		case address.P2PkhScript:
 			outScriptTypes[i] = P2PKH
-- 
2.43.0


From 4043e9736469405b92b5519e098c6d1f87f245ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:34 +0000
Subject: [PATCH 38/49] fix: reject market prices that are not numbers

---
 internal/interfaces/grpc/handler/operator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/interfaces/grpc/handler/operator.go b/internal/interfaces/grpc/handler/operator.go
index 5a4e361..bb498e9 100644
--- a/internal/interfaces/grpc/handler/operator.go
+++ b/internal/interfaces/grpc/handler/operator.go
@@ -3,6 +3,7 @@ package grpchandler
 import (
 	"context"
 	"errors"
+	"math"
 	"time"
 
 	"github.com/shopspring/decimal"
@@ -850,6 +851,11 @@ func validatePrice(price *pbtypes.Price) error {
 	if price.GetBasePrice() <= 0 || price.GetQuotePrice() <= 0 {
 		return errors.New("base or quote price are too low")
 	}
+	for _, p := range []float32{price.GetBasePrice(), price.GetQuotePrice()} {
+		if math.IsNaN(float64(p)) || math.IsInf(float64(p), 0) {
+			return errors.New("base or quote price are not valid numbers")
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From b5f02b7e6d968ed718617a026abe7fc8dbd442d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:52 +0000
Subject: [PATCH 39/49] fix: cap the number of addresses derived with one
 request

---
 internal/core/application/constants.go        | 4 ++++
 internal/core/application/errors.go           | 2 ++
 internal/core/application/operator_service.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/internal/core/application/constants.go b/internal/core/application/constants.go
index d0118c0..51c6552 100644
--- a/internal/core/application/constants.go
+++ b/internal/core/application/constants.go
@@ -25,3 +25,7 @@ const (
 	AccountLowBalance
 	AccountWithdraw
 )
+
+// maxNumOfAddresses is the max number of addresses that can be derived with a
+// single request.
+const maxNumOfAddresses = 1000
diff --git a/internal/core/application/errors.go b/internal/core/application/errors.go
index d379b45..4ec49cd 100644
--- a/internal/core/application/errors.go
+++ b/internal/core/application/errors.go
@@ -18,6 +18,8 @@ var (
 	ErrMarketNotFunded = errors.New("market account not funded")
 	// ErrMissingNonFundedMarkets ...
 	ErrMissingNonFundedMarkets = errors.New("no non-funded markets found")
+	// ErrTooManyAddresses is returned when asking for too many addresses at once.
+	ErrTooManyAddresses = errors.New("number of addresses is too high")
 	// ErrInvalidOutpoint ...
 	ErrInvalidOutpoint = errors.New("outpoint refers to inexistent tx output")
 	// ErrInvalidOutpoints ...
diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index 34565be..00de997 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -231,6 +231,9 @@ func (o *operatorService) deriveDepositAddresses(
 	if numOfAddresses <= 0 {
 		numOfAddresses = 1
 	}
+	if numOfAddresses > maxNumOfAddresses {
+		return nil, ErrTooManyAddresses
+	}
 
 	var list []AddressAndBlindingKey
 	if err := o.repoManager.VaultRepository().UpdateVault(
-- 
2.43.0


From 30b0bd085784b2bc406a7dc5382a2d571c0e7718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:10 +0000
Subject: [PATCH 40/49] fix: do not get stuck restoring a wallet when the
 client goes away and return the error of the restore

---
 internal/interfaces/grpc/handler/wallet.go | 34 ++++++++++++----------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/internal/interfaces/grpc/handler/wallet.go b/internal/interfaces/grpc/handler/wallet.go
index 51b3e73..f4e0756 100644
--- a/internal/interfaces/grpc/handler/wallet.go
+++ b/internal/interfaces/grpc/handler/wallet.go
@@ -115,24 +115,26 @@ func (w walletHandler) initWallet(
 		chErr,
 	)
 
-	for {
-		select {
-		case err := <-chErr:
-			return err
-		case reply, ok := <-chReplies:
-			if !ok {
-				return nil
-			}
-			if err := stream.Send(&pb.InitWalletReply{
-				Account: uint64(reply.AccountIndex),
-				Index:   uint64(reply.AddressIndex),
-				Status:  pb.InitWalletReply_Status(reply.Status),
-				Data:    reply.Data,
-			}); err != nil {
-				return err
-			}
+	// the replies must be consumed until the end even if the client is gone,
+	// otherwise the service would be stuck forever.
+	var sendErr error
+	for reply := range chReplies {
+		if sendErr != nil {
+			continue
 		}
+		sendErr = stream.Send(&pb.InitWalletReply{
+			Account: uint64(reply.AccountIndex),
+			Index:   uint64(reply.AddressIndex),
+			Status:  pb.InitWalletReply_Status(reply.Status),
+			Data:    reply.Data,
+		})
 	}
+
+	// at this point chErr either has an error or is already closed.
+	if err := <-chErr; err != nil {
+		return err
+	}
+	return sendErr
 }
 
 func (w walletHandler) unlockWallet(
-- 
2.43.0


From 8c31ac2615ea189c776b698cdf8650e5a927a3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:28 +0000
Subject: [PATCH 41/49] fix: check what the provider answers before signing a
 swap

---
 pkg/trade/buy.go     | 92 +++++++++++++++++++++++++++++++++++++++++++-
 pkg/trade/preview.go | 14 +++++++
 pkg/trade/wallet.go  |  3 ++
 3 files changed, 108 insertions(+), 1 deletion(-)

diff --git a/pkg/trade/buy.go b/pkg/trade/buy.go
index 75f6891..9eca3a5 100644
--- a/pkg/trade/buy.go
+++ b/pkg/trade/buy.go
@@ -1,6 +1,7 @@
 package trade
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 	"fmt"
@@ -10,8 +11,11 @@ import (
 	tradetype "github.com/tdex-network/tdex-daemon/pkg/trade/type"
 	pb "github.com/tdex-network/tdex-protobuf/generated/go/swap"
 
+	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
 	"github.com/tdex-network/tdex-daemon/pkg/swap"
+	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
 	"github.com/vulpemventures/go-elements/address"
+	"github.com/vulpemventures/go-elements/pset"
 	"google.golang.org/protobuf/proto"
 )
 
@@ -26,6 +30,8 @@ var (
 	ErrNullPrivateKey = errors.New("private key must not be null")
 	// ErrNullBlindingKey ...
 	ErrNullBlindingKey = errors.New("blinding key must not be null")
+	// ErrInvalidSwapAccept ...
+	ErrInvalidSwapAccept = errors.New("swap accept does not match the swap request")
 )
 
 // BuyOrSellOpts is the struct given to Buy/Sell method
@@ -193,12 +199,96 @@ func (t *Trade) marketOrderRequest(
 		SwapRequest: swapRequestMsg,
 		TradeType:   tradeType,
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	if fail := reply.GetSwapFail(); fail != nil {
 		return nil, fmt.Errorf("trade proposal has been rejected for reason: %s", fail.GetFailureMessage())
 	}
 
-	return proto.Marshal(reply.GetSwapAccept())
+	swapAccept := reply.GetSwapAccept()
+	if err := checkSwapAccept(
+		swapRequestMsg, swapAccept, outputScript, blindingKey,
+	); err != nil {
+		return nil, err
+	}
+
+	return proto.Marshal(swapAccept)
+}
+
+// checkSwapAccept returns an error if the swap accept does not answer the given
+// request, or if its transaction does not have all the outputs the proposer
+// asked for, or if it spends other coins of the proposer than the ones of the
+// request.
+func checkSwapAccept(
+	swapRequestMsg []byte, swapAccept *pb.SwapAccept, script, blindingKey []byte,
+) (err error) {
+	defer transactionutil.RecoverMalformed(&err)
+
+	swapRequest := &pb.SwapRequest{}
+	if err := proto.Unmarshal(swapRequestMsg, swapRequest); err != nil {
+		return err
+	}
+	if swapAccept.GetRequestId() != swapRequest.GetId() {
+		return ErrInvalidSwapAccept
+	}
+	if err := transactionutil.CheckPset(swapAccept.GetTransaction()); err != nil {
+		return ErrInvalidSwapAccept
+	}
+	acceptPtx, err := pset.NewPsetFromBase64(swapAccept.GetTransaction())
+	if err != nil {
+		return ErrInvalidSwapAccept
+	}
+	requestPtx, err := pset.NewPsetFromBase64(swapRequest.GetTransaction())
+	if err != nil {
+		return err
+	}
+
+	for i, in := range acceptPtx.Inputs {
+		if in.WitnessUtxo == nil || !bytes.Equal(in.WitnessUtxo.Script, script) {
+			continue
+		}
+		isInRequest := false
+		for _, requestIn := range requestPtx.UnsignedTx.Inputs {
+			txIn := acceptPtx.UnsignedTx.Inputs[i]
+			if bytes.Equal(txIn.Hash, requestIn.Hash) && txIn.Index == requestIn.Index {
+				isInRequest = true
+			}
+		}
+		if !isInRequest {
+			return ErrInvalidSwapAccept
+		}
+	}
+
+	isMatched := make(map[int]bool)
+	for _, requestOut := range requestPtx.UnsignedTx.Outputs {
+		isFound := false
+		for i, out := range acceptPtx.UnsignedTx.Outputs {
+			if isMatched[i] || !bytes.Equal(out.Script, script) {
+				continue
+			}
+			asset := bufferutil.AssetHashFromBytes(out.Asset)
+			value := bufferutil.ValueFromBytes(out.Value)
+			if out.IsConfidential() {
+				unblinded, ok := transactionutil.UnblindOutput(out, blindingKey)
+				if !ok {
+					continue
+				}
+				asset, value = unblinded.AssetHash, unblinded.Value
+			}
+			if asset == bufferutil.AssetHashFromBytes(requestOut.Asset) &&
+				value == bufferutil.ValueFromBytes(requestOut.Value) {
+				isMatched[i], isFound = true, true
+				break
+			}
+		}
+		if !isFound {
+			return ErrInvalidSwapAccept
+		}
+	}
+
+	return nil
 }
 
 func (t *Trade) marketOrderComplete(swapAcceptMsg []byte, w *Wallet) (string, error) {
diff --git a/pkg/trade/preview.go b/pkg/trade/preview.go
index c2d7d18..fc55a66 100644
--- a/pkg/trade/preview.go
+++ b/pkg/trade/preview.go
@@ -18,6 +18,8 @@ var (
 	ErrInvalidTradeType = errors.New("trade type must be either BUY or SELL")
 	// ErrInvalidAmount ...
 	ErrInvalidAmount = errors.New("amount must be a positive satoshi amount")
+	// ErrInvalidPreview ...
+	ErrInvalidPreview = errors.New("preview does not match the given market and asset")
 )
 
 // PreviewOpts is the struct given to Preview method
@@ -69,7 +71,19 @@ func (t *Trade) Preview(opts PreviewOpts) (*PreviewResult, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(reply.GetPrices()) <= 0 {
+		return nil, ErrInvalidPreview
+	}
 	preview := reply.GetPrices()[0]
+	// the previewed amount must be of the other asset of the market pair.
+	if opts.Asset == preview.GetAsset() || preview.GetAmount() <= 0 {
+		return nil, ErrInvalidPreview
+	}
+	for _, asset := range []string{opts.Asset, preview.GetAsset()} {
+		if asset != opts.Market.BaseAsset && asset != opts.Market.QuoteAsset {
+			return nil, ErrInvalidPreview
+		}
+	}
 
 	assetToSend := preview.GetAsset()
 	amountToSend := preview.GetAmount()
diff --git a/pkg/trade/wallet.go b/pkg/trade/wallet.go
index ffcb7a7..daf0f8a 100644
--- a/pkg/trade/wallet.go
+++ b/pkg/trade/wallet.go
@@ -112,6 +112,9 @@ func (w *Wallet) Sign(psetBase64 string) (string, error) {
 	}
 
 	for i, in := range ptx.Inputs {
+		if in.WitnessUtxo == nil {
+			continue
+		}
 		script, witnessScript := w.Script()
 		if bytes.Equal(in.WitnessUtxo.Script, witnessScript) {
 			hashForSignature := ptx.UnsignedTx.HashForWitnessV0(
-- 
2.43.0


From 2edb0bbe62741a30982c79fe71a066af525192df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:58 +0000
Subject: [PATCH 42/49] fix: restore wallets with markets that were not
 completely funded

---
 internal/core/application/wallet_service.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index b168c2d..55f909a 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -771,8 +771,14 @@ func (w *walletService) restoreMarket(
 			}
 		}
 
+		// a market with coins missing for an asset, or with coins of other assets,
+		// can't be an obstacle to the restoration. It's left not funded and the
+		// operator can fund it by claiming its deposits.
 		if err := market.FundMarket(outpoints, w.marketBaseAsset); err != nil {
-			return nil, err
+			log.WithError(err).Warnf(
+				"market with account index %d restored as not funded", accountIndex,
+			)
+			return market, nil
 		}
 	}
 
-- 
2.43.0


From 74c264aa7ac305376f76278d70411303c4a31c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:15 +0000
Subject: [PATCH 43/49] fix: do not restore two markets for the same pair

---
 internal/core/application/wallet_service.go | 27 ++++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 55f909a..8b8fba1 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -247,15 +247,20 @@ func (w *walletService) InitWallet(
 		// restore markets
 		mLen := len(marketInfoByAccount)
 		markets := make([]*domain.Market, mLen, mLen)
-		i := 0
-		for accountIndex, info := range marketInfoByAccount {
-			market, err := w.restoreMarket(ctx, accountIndex, info, unspentsByAddress)
+		quoteAssets := make(map[string]bool)
+		// the most recent account comes first, so that it's the one restored as
+		// funded in case a dropped market left coins of the same pair behind.
+		for i := mLen - 1; i >= 0; i-- {
+			accountIndex := domain.MarketAccountStart + i
+			market, err := w.restoreMarket(
+				ctx, accountIndex, marketInfoByAccount[accountIndex],
+				unspentsByAddress, quoteAssets,
+			)
 			if err != nil {
 				chErr <- fmt.Errorf("unable to restore market: %v", err)
 				return
 			}
 			markets[i] = market
-			i++
 		}
 
 		if err := w.persistRestoredState(
@@ -753,6 +758,7 @@ func (w *walletService) restoreMarket(
 	accountIndex int,
 	info domain.AddressesInfo,
 	unspentsByAddress map[string][]domain.Unspent,
+	quoteAssets map[string]bool,
 ) (*domain.Market, error) {
 	market, err := w.repoManager.MarketRepository().GetOrCreateMarket(ctx, &domain.Market{
 		AccountIndex: accountIndex,
@@ -763,14 +769,26 @@ func (w *walletService) restoreMarket(
 	}
 
 	if len(unspentsByAddress) > 0 {
+		var duplicated bool
 		outpoints := make([]domain.OutpointWithAsset, 0)
 		for _, i := range info {
 			unspentsForAddress := unspentsByAddress[i.Address]
 			for _, u := range unspentsForAddress {
 				outpoints = append(outpoints, u.ToOutpointWithAsset())
+				if quoteAssets[u.AssetHash] {
+					duplicated = true
+				}
 			}
 		}
 
+		if duplicated {
+			log.Warnf(
+				"market with account index %d restored as not funded: another market "+
+					"exists for the same pair", accountIndex,
+			)
+			return market, nil
+		}
+
 		// a market with coins missing for an asset, or with coins of other assets,
 		// can't be an obstacle to the restoration. It's left not funded and the
 		// operator can fund it by claiming its deposits.
@@ -780,6 +798,7 @@ func (w *walletService) restoreMarket(
 			)
 			return market, nil
 		}
+		quoteAssets[market.QuoteAsset] = true
 	}
 
 	return market, nil
-- 
2.43.0


From 085fa61f569542b71ebfae25f7618086de3aaeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:49 +0000
Subject: [PATCH 44/49] fix: spend funds once when fragmenting even if their
 txid is given more times

---
 cmd/tdex/fragmentfee.go    | 18 ++++++++++++++++--
 cmd/tdex/fragmentmarket.go |  2 +-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/cmd/tdex/fragmentfee.go b/cmd/tdex/fragmentfee.go
index 2742ae2..44f80f9 100644
--- a/cmd/tdex/fragmentfee.go
+++ b/cmd/tdex/fragmentfee.go
@@ -229,7 +229,7 @@ func findBaseAssetsUnspents(
 	unspents := make([]explorer.Utxo, 0)
 	valuePerAsset := make(map[string]uint64, 0)
 
-	for _, txid := range txids {
+	for _, txid := range uniqueTxids(txids) {
 		u, err := getUnspents(explorerSvc, randomWallet, txid)
 		if err != nil {
 			return 0, nil, err
@@ -369,5 +369,19 @@ func waitForOperatorFunds() []string {
 	if trimmedIn == "" {
 		return nil
 	}
-	return strings.Split(trimmedIn, " ")
+	return strings.Fields(trimmedIn)
+}
+
+// uniqueTxids removes the duplicates from the given list, so that funds are not
+// counted, and spent, more than once.
+func uniqueTxids(txids []string) []string {
+	seen := make(map[string]bool)
+	unique := make([]string, 0, len(txids))
+	for _, txid := range txids {
+		if !seen[txid] {
+			seen[txid] = true
+			unique = append(unique, txid)
+		}
+	}
+	return unique
 }
diff --git a/cmd/tdex/fragmentmarket.go b/cmd/tdex/fragmentmarket.go
index bcc322a..c49cfc8 100644
--- a/cmd/tdex/fragmentmarket.go
+++ b/cmd/tdex/fragmentmarket.go
@@ -343,7 +343,7 @@ func findAssetsUnspents(
 	var unspents []explorer.Utxo
 	valuePerAsset := make(map[string]uint64, 0)
 
-	for _, txid := range txids {
+	for _, txid := range uniqueTxids(txids) {
 		u, err := getUnspents(explorerSvc, randomWallet, txid)
 		if err != nil {
 			return assetValuePair, nil, err
-- 
2.43.0


From ccc2f3abf375ac0b168be3efd5362eff06bffe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:08 +0000
Subject: [PATCH 45/49] fix: skip the coins that can't be unblinded when
 fragmenting deposits

---
 cmd/tdex/fragmentfee.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/tdex/fragmentfee.go b/cmd/tdex/fragmentfee.go
index 44f80f9..18355a4 100644
--- a/cmd/tdex/fragmentfee.go
+++ b/cmd/tdex/fragmentfee.go
@@ -333,7 +333,11 @@ func getUnspents(explorerSvc explorer.Service, w *trade.Wallet, txid string) ([]
 	_, script := w.Script()
 	for i, out := range tx.Outputs() {
 		if bytes.Equal(out.Script, script) {
-			revealed, _ := transactionutil.UnblindOutput(out, w.BlindingKey())
+			revealed, ok := transactionutil.UnblindOutput(out, w.BlindingKey())
+			if !ok {
+				log.Warnf("output %s:%d can't be unblinded, skipping", txid, i)
+				continue
+			}
 			var valueCommitment, assetCommitment string
 			if out.IsConfidential() {
 				valueCommitment = hex.EncodeToString(out.Value)
-- 
2.43.0


From 744b0dce20aa90a8238fc74f2ef0e4c7f2781e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:27 +0000
Subject: [PATCH 46/49] fix: do not make empty fragments of small amounts

---
 cmd/tdex/fragmentmarket.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/cmd/tdex/fragmentmarket.go b/cmd/tdex/fragmentmarket.go
index c49cfc8..16ef1f2 100644
--- a/cmd/tdex/fragmentmarket.go
+++ b/cmd/tdex/fragmentmarket.go
@@ -284,16 +284,17 @@ func fragmentUnspents(pair AssetValuePair, fragmentationMap map[int]int) ([]uint
 	quoteSum := uint64(0)
 	for numOfUtxo, percentage := range fragmentationMap {
 		for ; numOfUtxo > 0; numOfUtxo-- {
-			if pair.BaseValue > 0 {
-				baseAssetPart := percent(int(pair.BaseValue), percentage)
-				baseSum += uint64(baseAssetPart)
-				baseAssetFragments = append(baseAssetFragments, uint64(baseAssetPart))
+			// parts of amounts too small to be fragmented are not worth an output
+			baseAssetPart := uint64(percent(int(pair.BaseValue), percentage))
+			if baseAssetPart > 0 {
+				baseSum += baseAssetPart
+				baseAssetFragments = append(baseAssetFragments, baseAssetPart)
 			}
 
-			if pair.QuoteValue > 0 {
-				quoteAssetPart := percent(int(pair.QuoteValue), percentage)
-				quoteSum += uint64(quoteAssetPart)
-				quoteAssetFragments = append(quoteAssetFragments, uint64(quoteAssetPart))
+			quoteAssetPart := uint64(percent(int(pair.QuoteValue), percentage))
+			if quoteAssetPart > 0 {
+				quoteSum += quoteAssetPart
+				quoteAssetFragments = append(quoteAssetFragments, quoteAssetPart)
 			}
 		}
 	}
@@ -310,7 +311,9 @@ func fragmentUnspents(pair AssetValuePair, fragmentationMap map[int]int) ([]uint
 	//add it to last fragment
 	if baseSum != pair.BaseValue {
 		baseRest := pair.BaseValue - baseSum
-		if baseRest > 0 {
+		if len(baseAssetFragments) == 0 {
+			baseAssetFragments = append(baseAssetFragments, baseRest)
+		} else if baseRest > 0 {
 			baseAssetFragments[len(baseAssetFragments)-1] =
 				baseAssetFragments[len(baseAssetFragments)-1] + baseRest
 		}
@@ -320,7 +323,9 @@ func fragmentUnspents(pair AssetValuePair, fragmentationMap map[int]int) ([]uint
 	//add it to last fragment
 	if quoteSum != pair.QuoteValue {
 		quoteRest := pair.QuoteValue - quoteSum
-		if quoteRest > 0 {
+		if len(quoteAssetFragments) == 0 {
+			quoteAssetFragments = append(quoteAssetFragments, quoteRest)
+		} else if quoteRest > 0 {
 			quoteAssetFragments[len(quoteAssetFragments)-1] =
 				quoteAssetFragments[len(quoteAssetFragments)-1] + quoteRest
 		}
-- 
2.43.0


From 9b6f449521015ddee417ac14b9fd12aa9e15bab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:44 +0000
Subject: [PATCH 47/49] fix: spend only the coins of the market's assets when
 fragmenting deposits

---
 cmd/tdex/fragmentmarket.go | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/cmd/tdex/fragmentmarket.go b/cmd/tdex/fragmentmarket.go
index 16ef1f2..2108706 100644
--- a/cmd/tdex/fragmentmarket.go
+++ b/cmd/tdex/fragmentmarket.go
@@ -345,7 +345,7 @@ func findAssetsUnspents(
 	txids []string,
 ) (AssetValuePair, []explorer.Utxo, error) {
 	var assetValuePair AssetValuePair
-	var unspents []explorer.Utxo
+	var allUnspents, unspents []explorer.Utxo
 	valuePerAsset := make(map[string]uint64, 0)
 
 	for _, txid := range uniqueTxids(txids) {
@@ -358,24 +358,25 @@ func findAssetsUnspents(
 			for _, v := range u {
 				valuePerAsset[v.Asset()] += v.Value()
 			}
-			unspents = append(unspents, u...)
+			allUnspents = append(allUnspents, u...)
 		}
 	}
 
-	for k, v := range valuePerAsset {
-		if k == baseAssetKey {
-			assetValuePair.BaseAsset = k
-			assetValuePair.BaseValue = v
-		} else {
-			if assetValuePair.QuoteAsset == "" {
-				assetValuePair.QuoteAsset = k
-				assetValuePair.QuoteValue = v
-			} else {
-				if k != assetValuePair.QuoteAsset {
-					log.Warnf("congrats! You just lost %d of asset %s 🎉", v, k)
-				}
-			}
+	// only the coins of the 2 assets of the market can be spent. The quote asset
+	// is the first one, other than the base one, found in the given transactions.
+	for _, u := range allUnspents {
+		asset := u.Asset()
+		if asset == baseAssetKey {
+			assetValuePair.BaseAsset = asset
+			assetValuePair.BaseValue = valuePerAsset[asset]
+		} else if assetValuePair.QuoteAsset == "" {
+			assetValuePair.QuoteAsset = asset
+			assetValuePair.QuoteValue = valuePerAsset[asset]
+		} else if asset != assetValuePair.QuoteAsset {
+			log.Warnf("congrats! You just lost %d of asset %s 🎉", u.Value(), asset)
+			continue
 		}
+		unspents = append(unspents, u)
 	}
 
 	if assetValuePair.BaseValue == 0 {
-- 
2.43.0


From 7e5df070e1ab813cdf9c88827880d2476b76c705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:11 +0000
Subject: [PATCH 48/49] fix: fragment deposits so that the network fee can be
 paid

---
 cmd/tdex/fragmentfee.go    | 9 +++++++--
 cmd/tdex/fragmentmarket.go | 8 ++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/cmd/tdex/fragmentfee.go b/cmd/tdex/fragmentfee.go
index 18355a4..15754cc 100644
--- a/cmd/tdex/fragmentfee.go
+++ b/cmd/tdex/fragmentfee.go
@@ -108,9 +108,14 @@ func fragmentFeeAction(ctx *cli.Context) error {
 	}
 
 	log.Info("calculating fragments...")
-	baseFragments := fragmentFeeUnspents(baseAssetValue, MinFee, MaxNumOfOutputs)
-
 	numUnspents := len(unspents)
+	baseFragments := fragmentFeeUnspents(baseAssetValue, MinFee, MaxNumOfOutputs)
+	// the last fragment pays for the network fees, hence it must be large enough
+	for n := len(baseFragments); n > 1 &&
+		baseFragments[n-1] <= estimateFees(numUnspents, n); n-- {
+		baseFragments[n-2] += baseFragments[n-1]
+		baseFragments = baseFragments[:n-1]
+	}
 	numFragments := len(baseFragments)
 	log.Infof(
 		"detected %d fund(s) of total amount %d that will be split into %d fragments",
diff --git a/cmd/tdex/fragmentmarket.go b/cmd/tdex/fragmentmarket.go
index 2108706..1eae7b9 100644
--- a/cmd/tdex/fragmentmarket.go
+++ b/cmd/tdex/fragmentmarket.go
@@ -408,6 +408,14 @@ func craftTransaction(
 	network *network.Network,
 	assetValuePair AssetValuePair,
 ) (string, error) {
+	// network fees are deducted from the last base asset fragment
+	if n := len(baseFragments); n == 0 || baseFragments[n-1] <= feeAmount {
+		return "", fmt.Errorf(
+			"base asset funds are too low to pay for network fees of %d sats, please "+
+				"top up and retry by specifying all txids with --txid", feeAmount,
+		)
+	}
+
 	baseAssetKey := assetValuePair.BaseAsset
 	outs := createOutputs(
 		baseFragments,
-- 
2.43.0


From 5cd72247f3c40cd02256c2951a6cceb3fad158c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:26 +0000
Subject: [PATCH 49/49] fix: the configuration can be read while the wallet is
 being unlocked

---
 config/config.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/config/config.go b/config/config.go
index 69f3756..a73a182 100644
--- a/config/config.go
+++ b/config/config.go
@@ -7,6 +7,7 @@ import (
 	"path/filepath"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/btcsuite/btcutil"
@@ -91,6 +92,10 @@ const (
 )
 
 var vip *viper.Viper
+
+// vipMtx guards vip, which is not safe for concurrent use: the mnemonic is set
+// while requests are served.
+var vipMtx sync.RWMutex
 var defaultDatadir = btcutil.AppDataDir("tdex-daemon", false)
 
 func init() {
@@ -132,36 +137,54 @@ func init() {
 
 //GetString ...
 func GetString(key string) string {
+	vipMtx.RLock()
+	defer vipMtx.RUnlock()
+
 	return vip.GetString(key)
 }
 
 //GetInt ...
 func GetInt(key string) int {
+	vipMtx.RLock()
+	defer vipMtx.RUnlock()
+
 	return vip.GetInt(key)
 }
 
 //GetFloat ...
 func GetFloat(key string) float64 {
+	vipMtx.RLock()
+	defer vipMtx.RUnlock()
+
 	return vip.GetFloat64(key)
 }
 
 func GetStringSlice(key string) []string {
+	vipMtx.RLock()
+	defer vipMtx.RUnlock()
+
 	return vip.GetStringSlice(key)
 }
 
 //GetDuration ...
 func GetDuration(key string) time.Duration {
+	vipMtx.RLock()
+	defer vipMtx.RUnlock()
+
 	return vip.GetDuration(key)
 }
 
 //GetBool ...
 func GetBool(key string) bool {
+	vipMtx.RLock()
+	defer vipMtx.RUnlock()
+
 	return vip.GetBool(key)
 }
 
 //GetNetwork ...
 func GetNetwork() *network.Network {
-	if vip.GetString(NetworkKey) == network.Regtest.Name {
+	if GetString(NetworkKey) == network.Regtest.Name {
 		return &network.Regtest
 	}
 	return &network.Liquid
@@ -181,19 +204,25 @@ func GetExplorer() (explorer.Service, error) {
 
 // Set a value for the given key
 func Set(key string, value interface{}) {
+	vipMtx.Lock()
+	defer vipMtx.Unlock()
+
 	vip.Set(key, value)
 }
 
 // IsSet returns whether the give key is set
 func IsSet(key string) bool {
+	vipMtx.RLock()
+	defer vipMtx.RUnlock()
+
 	return vip.IsSet(key)
 }
 
 // GetMnemonic returns the current set mnemonic
 func GetMnemonic() []string {
 	var mnemonic []string
-	if vip.GetString(MnemonicKey) != "" {
-		mnemonic = strings.Split(vip.GetString(MnemonicKey), " ")
+	if str := GetString(MnemonicKey); str != "" {
+		mnemonic = strings.Split(str, " ")
 	}
 
 	return mnemonic
-- 
2.43.0

