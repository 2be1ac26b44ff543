package sim

import (
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/shopspring/decimal"
	log "github.com/sirupsen/logrus"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	dbbadger "github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/badger"
	"github.com/tdex-network/tdex-daemon/pkg/crawler"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
)

func init() {
	if os.Getenv("VERIF_LOG") == "" {
		log.SetOutput(ioutil.Discard)
	} else {
		log.SetLevel(log.DebugLevel)
	}
}

// Words is the mnemonic of every daemon of a process (the daemon keeps its
// mnemonic in process-global state).
var Words = []string{
	"leave", "dice", "fine", "decrease", "dune", "ribbon", "ocean", "earn",
	"lunar", "account", "silver", "admit", "cheap", "fringe", "disorder", "trade",
	"because", "trade", "steak", "clock", "grace", "video", "jacket", "equal",
}

// Pass is the passphrase of every daemon.
const Pass = "Passphrase-of-the-harness-1"

// DaemonOpts configures a daemon.
type DaemonOpts struct {
	Chain     *Chain
	Dir       string // badger directory, empty for memory
	Repo      ports.RepoManager
	Expiry    time.Duration
	Slippage  decimal.Decimal
	MarketFee int64
	PubSub    ports.SecurePubSub
	Crawl     time.Duration
	Threshold uint64
	// WrapRepo wraps the repository manager before the services see it.
	WrapRepo func(ports.RepoManager) ports.RepoManager
	// Explorer replaces the chain as explorer of the services.
	Explorer explorer.Service
	// FewAddrs bounds the addresses derived for funding (several coins on each).
	FewAddrs int
	// KeepPass leaves the passphrase channel of the wallet to somebody else.
	KeepPass bool
	// Crawler replaces the crawler under the listener.
	Crawler crawler.Service
	// NoListener records observations instead of running the crawler.
	NoListener bool
}

// Daemon is a daemon assembled as cmd/tdexd does, on the fake chain.
type Daemon struct {
	Opts     DaemonOpts
	Chain    *Chain
	Repo     ports.RepoManager
	Crawler  crawler.Service
	Listener application.BlockchainListener
	Trade    application.TradeService
	Operator application.OperatorService
	Wallet   application.WalletService
	CrawlErr func() int

	mu      sync.Mutex
	errs    int
	stop    chan struct{}
	expires bool
}

// NewDaemon builds the services. The wallet is neither initialised nor unlocked.
func NewDaemon(o DaemonOpts) (*Daemon, error) {
	d := &Daemon{Opts: o, Chain: o.Chain, stop: make(chan struct{})}
	if d.Chain == nil {
		d.Chain = NewChain()
	}
	if o.Expiry == 0 {
		// longer than a process lives: a proposal leaves a goroutine sleeping
		// until its trade's expiry
		o.Expiry = 20 * time.Hour
	}
	d.expires = o.Expiry < 0
	if o.Crawl == 0 {
		o.Crawl = 20 * time.Millisecond
	}
	if o.MarketFee == 0 {
		o.MarketFee = 25
	}
	d.Repo = o.Repo
	if d.Repo == nil {
		r, err := dbbadger.NewRepoManager(o.Dir, nil)
		if err != nil {
			return nil, err
		}
		d.Repo = r
	}
	repo := d.Repo
	if o.WrapRepo != nil {
		repo = o.WrapRepo(repo)
	}
	var exp explorer.Service = d.Chain
	if o.Explorer != nil {
		exp = o.Explorer
	}
	d.CrawlErr = func() int { d.mu.Lock(); defer d.mu.Unlock(); return d.errs }
	if o.NoListener {
		d.Listener = &NullListener{Pub: o.PubSub}
	} else {
		d.Crawler = o.Crawler
		if d.Crawler == nil {
			d.Crawler = crawler.NewService(crawler.Opts{
				ExplorerSvc: exp, ErrorHandler: func(error) { d.mu.Lock(); d.errs++; d.mu.Unlock() },
				CrawlerInterval: o.Crawl, ExplorerLimit: 1000, ExplorerTokenBurst: 100000,
			})
		}
		d.Listener = application.NewBlockchainListener(d.Crawler, repo, o.PubSub, LBTC, Net)
	}
	d.Operator = application.NewOperatorService(repo, exp, d.Listener, LBTC, o.MarketFee, Net, o.Threshold)
	w, err := application.NewWalletService(repo, exp, d.Listener, Net, o.MarketFee, LBTC)
	if err != nil {
		return nil, err
	}
	d.Wallet = w
	// it resumes the pending trades of the restored wallet
	d.Trade = application.NewTradeService(repo, exp, d.Listener, LBTC, o.Expiry, o.Slippage, Net)
	if o.KeepPass {
		return d, nil
	}
	go func() {
		for {
			select {
			case <-w.PassphraseChan():
			case <-d.stop:
				return
			}
		}
	}()
	return d, nil
}

// InitReply collects what InitWallet streamed.
type InitReply struct {
	Replies []application.InitWalletReply
	Errs    []error
}

// Err is the first error streamed, if any.
func (r InitReply) Err() error {
	for _, e := range r.Errs {
		if e != nil {
			return e
		}
	}
	return nil
}

// Init runs InitWallet to its end.
func (d *Daemon) Init(words []string, pass string, restore bool) InitReply {
	res := make(chan *application.InitWalletReply)
	errc := make(chan error, 1)
	var out InitReply
	go d.Wallet.InitWallet(context.Background(), words, pass, restore, res, errc)
	for res != nil || errc != nil {
		select {
		case r, ok := <-res:
			if !ok {
				res = nil
				continue
			}
			out.Replies = append(out.Replies, *r)
		case e, ok := <-errc:
			if !ok {
				errc = nil
				continue
			}
			out.Errs = append(out.Errs, e)
		}
	}
	return out
}

// Up initialises a new wallet and unlocks it.
func (d *Daemon) Up() error {
	if r := d.Init(Words, Pass, false); len(r.Errs) > 0 {
		return r.Errs[0]
	}
	return d.Wallet.UnlockWallet(context.Background(), Pass)
}

// Close stops the crawler and closes the storage.
func (d *Daemon) Close() {
	close(d.stop)
	if d.Crawler != nil {
		done := make(chan struct{})
		go func() { d.Listener.StopObservation(); close(done) }()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
		}
	}
	quiesce(d.expires)
	d.Repo.Close()
}

// Quiesce waits for the work requests left running in the background (like
// extracting the coins of a completed trade) to be over, because badger panics
// if it is closed under it. The daemon closes its db last and exits.
func Quiesce() { quiesce(false) }

// quiesce waits for sleeping goroutines too if sleepers is set (those that
// expire a trade, with a short expiry).
func quiesce(sleepers bool) {
	buf := make([]byte, 4<<20)
	idle := 0
	for i := 0; i < 600 && idle < 4; i++ {
		busy := false
		for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
			head := g
			if nl := strings.IndexByte(g, '\n'); nl >= 0 {
				head = g[:nl]
			}
			top := ""
			if ls := strings.SplitN(g, "\n", 3); len(ls) > 1 {
				top = ls[1]
			}
			if !sleepers && strings.Contains(head, "[sleep") || strings.Contains(g, "sim.quiesce") ||
				strings.Contains(g, "createDb") && !strings.Contains(g, "internal/core/application.") {
				continue
			}
			if strings.Contains(top, "application.") && (strings.Contains(top, "listenToEventChannel") || strings.Contains(top, "NewWalletService")) {
				continue // parked there, doing nothing
			}
			if i := strings.Index(g, "\ncreated by "); i >= 0 && (strings.Contains(g, "pkg/crawler.") || strings.Contains(g, "(*script).Start")) {
				g = g[:i] // the loop of the crawler (or of its stand-in) is always there
			}
			if strings.Contains(g, "internal/core/application.") || strings.Contains(g, "internal/infrastructure/storage") {
				busy = true
				break
			}
		}
		if busy {
			idle = 0
		} else {
			idle++
		}
		time.Sleep(15 * time.Millisecond)
	}
}

// MustDaemon is a running daemon or a panic.
func MustDaemon(o DaemonOpts) *Daemon {
	d, err := NewDaemon(o)
	if err == nil {
		err = d.Up()
	}
	if err != nil {
		panic("harness daemon: " + err.Error())
	}
	return d
}

// NewAsset is a random asset id that is not LBTC.
func NewAsset() string { return hex.EncodeToString(RandBytes(32)) }

// few is how many addresses to derive for n coins.
func (d *Daemon) few(n int) int {
	if d.Opts.FewAddrs > 0 && n > d.Opts.FewAddrs {
		return d.Opts.FewAddrs
	}
	return n
}

// FundFee gives the fee account one coin per value.
func (d *Daemon) FundFee(values ...uint64) error {
	ctx := context.Background()
	n := len(values)
	a, err := d.Operator.DepositFeeAccount(ctx, d.few(n))
	if err != nil {
		return err
	}
	if !d.HasAddrs(domain.FeeAccount, a) {
		return errors.New("fee account addresses not stored")
	}
	pays := make([]Pay, n)
	for i, v := range values {
		pays[i] = Pay{a[i%len(a)].Address, LBTC, v}
	}
	ops, err := d.Chain.Fund(true, pays...)
	if err != nil {
		return err
	}
	before := len(d.Unspents())
	if err := d.Operator.ClaimFeeDeposit(ctx, ToTxOutpoints(ops)); err != nil {
		return err
	}
	if !WaitFor(20*time.Second, func() bool { return len(d.Unspents()) >= before+n }) {
		return errors.New("fee deposit not added")
	}
	return nil
}

// ToTxOutpoints converts.
func ToTxOutpoints(ops []Outpoint) []application.TxOutpoint {
	r := make([]application.TxOutpoint, len(ops))
	for i, o := range ops {
		r[i] = application.TxOutpoint{Hash: o.Hash, Index: int(o.Index)}
	}
	return r
}

// HasAddrs waits until the vault knows the addresses.
func (d *Daemon) HasAddrs(account int, list []application.AddressAndBlindingKey) bool {
	return WaitFor(20*time.Second, func() bool {
		info, err := d.Repo.VaultRepository().GetAllDerivedAddressesInfoForAccount(context.Background(), account)
		if err != nil {
			return false
		}
		have := map[string]bool{}
		for _, i := range info {
			have[i.Address] = true
		}
		for _, a := range list {
			if !have[a.Address] {
				return false
			}
		}
		return true
	})
}

// Unspents lists every coin of the daemon's set.
func (d *Daemon) Unspents() []domain.Unspent {
	return d.Repo.UnspentRepository().GetAllUnspents(context.Background())
}

// MarketOf returns the market and its account.
func (d *Daemon) MarketOf(quote string) (*domain.Market, int) {
	m, i, err := d.Repo.MarketRepository().GetMarketByAsset(context.Background(), quote)
	if err != nil {
		return nil, -1
	}
	return m, i
}

// NewMarket creates and funds a market; bases and quotes are coin values.
func (d *Daemon) NewMarket(quote string, bases, quotes []uint64) (application.Market, int, error) {
	ctx := context.Background()
	mk := application.Market{BaseAsset: LBTC, QuoteAsset: quote}
	n := len(bases) + len(quotes)
	var before int
	ms, _ := d.Operator.ListMarket(ctx)
	before = len(ms)
	a, err := d.Operator.DepositMarket(ctx, "", "", d.few(n))
	if err != nil {
		return mk, -1, err
	}
	if !WaitFor(20*time.Second, func() bool { ms, _ := d.Operator.ListMarket(ctx); return len(ms) > before }) {
		return mk, -1, errors.New("market not stored")
	}
	ms, _ = d.Operator.ListMarket(ctx)
	acc := -1
	for _, m := range ms {
		if int(m.AccountIndex) > acc {
			acc = int(m.AccountIndex)
		}
	}
	if !d.HasAddrs(acc, a) {
		return mk, -1, errors.New("market addresses not stored")
	}
	pays := []Pay{}
	for i, v := range bases {
		pays = append(pays, Pay{a[i%len(a)].Address, LBTC, v})
	}
	for i, v := range quotes {
		pays = append(pays, Pay{a[(len(bases)+i)%len(a)].Address, quote, v})
	}
	ops, err := d.Chain.Fund(true, pays...)
	if err != nil {
		return mk, -1, err
	}
	nb := len(d.Unspents())
	if err := d.Operator.ClaimMarketDeposit(ctx, mk, ToTxOutpoints(ops)); err != nil {
		return mk, -1, err
	}
	if !WaitFor(20*time.Second, func() bool { return len(d.Unspents()) >= nb+n }) {
		return mk, -1, errors.New("market deposit not added")
	}
	return mk, acc, nil
}

// OpenedMarket creates, funds, optionally prices, and opens a market.
func (d *Daemon) OpenedMarket(quote string, bases, quotes []uint64) (application.Market, int, error) {
	mk, acc, err := d.NewMarket(quote, bases, quotes)
	if err != nil {
		return mk, acc, err
	}
	ctx := context.Background()
	m, _ := d.MarketOf(quote)
	if m == nil {
		return mk, acc, fmt.Errorf("market of %s not found", quote)
	}
	if m.IsStrategyPluggable() && !m.IsStrategyPluggableInitialized() {
		if err := d.Operator.UpdateMarketStrategy(ctx, application.MarketStrategy{
			Market: mk, Strategy: domain.StrategyTypeBalanced,
		}); err != nil {
			return mk, acc, err
		}
	}
	return mk, acc, d.Operator.OpenMarket(ctx, LBTC, quote)
}

// TradeOf returns the stored trade.
func (d *Daemon) TradeByAccept(acceptID string) *domain.Trade {
	t, err := d.Repo.TradeRepository().GetTradeBySwapAcceptID(context.Background(), acceptID)
	if err != nil || t == nil {
		return nil
	}
	return t
}

// ShiftExpiry moves a stored trade's expiry time.
func (d *Daemon) ShiftExpiry(t *domain.Trade, when int64) error {
	id := t.ID
	return d.Repo.TradeRepository().UpdateTrade(context.Background(), &id, func(x *domain.Trade) (*domain.Trade, error) {
		x.ExpiryTime = uint64(when)
		return x, nil
	})
}

// NullListener records what it is asked to observe and does nothing.
type NullListener struct {
	mu  sync.Mutex
	Txs map[string]int
	Pub ports.SecurePubSub
}

func (n *NullListener) StartObservation() {}
func (n *NullListener) StopObservation()  {}
func (n *NullListener) StartObserveAddress(int, string, []byte) {
}
func (n *NullListener) StopObserveAddress(string) {}
func (n *NullListener) StartObserveTx(txid string) {
	n.mu.Lock()
	if n.Txs == nil {
		n.Txs = map[string]int{}
	}
	n.Txs[txid]++
	n.mu.Unlock()
}
func (n *NullListener) StopObserveTx(txid string) {
	n.mu.Lock()
	if n.Txs != nil {
		delete(n.Txs, txid)
	}
	n.mu.Unlock()
}
func (n *NullListener) PubSubService() ports.SecurePubSub { return n.Pub }

// RecTopic is a topic of the recording pubsub.
type RecTopic struct {
	C int
	L string
}

func (t RecTopic) Code() int     { return t.C }
func (t RecTopic) Label() string { return t.L }

// RecPubSub records what is published.
type RecPubSub struct {
	mu   sync.Mutex
	Msgs []PubMsg
}

// PubMsg is one published message.
type PubMsg struct{ Topic, Message string }

type recStore struct{}

func (recStore) Init(string) error                   { return nil }
func (recStore) IsLocked() bool                      { return false }
func (recStore) Lock()                               {}
func (recStore) Unlock(string) error                 { return nil }
func (recStore) ChangePassword(string, string) error { return nil }
func (recStore) Close() error                        { return nil }

func (p *RecPubSub) Store() ports.PubSubStore { return recStore{} }
func (p *RecPubSub) Subscribe(string, ...interface{}) (string, error) {
	return "id", nil
}
func (p *RecPubSub) Unsubscribe(string, string) error { return nil }
func (p *RecPubSub) ListSubscriptionsForTopic(string) []ports.Subscription {
	return nil
}
func (p *RecPubSub) Publish(topic, message string) error {
	p.mu.Lock()
	p.Msgs = append(p.Msgs, PubMsg{topic, message})
	p.mu.Unlock()
	return nil
}
func (p *RecPubSub) TopicsByCode() map[int]ports.Topic {
	return map[int]ports.Topic{
		application.TradeSettled:      RecTopic{application.TradeSettled, "TRADE_SETTLED"},
		application.AccountLowBalance: RecTopic{application.AccountLowBalance, "ACCOUNT_LOW_BALANCE"},
		application.AccountWithdraw:   RecTopic{application.AccountWithdraw, "ACCOUNT_WITHDRAW"},
	}
}
func (p *RecPubSub) TopicsByLabel() map[string]ports.Topic {
	r := map[string]ports.Topic{}
	for _, t := range p.TopicsByCode() {
		r[t.Label()] = t
	}
	return r
}

// Published copies the messages of a topic.
func (p *RecPubSub) Published(topic string) []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	r := []string{}
	for _, m := range p.Msgs {
		if m.Topic == topic {
			r = append(r, m.Message)
		}
	}
	return r
}
