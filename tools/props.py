import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":mech,"where":files[0]}]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
A="internal/core/application/"
D="internal/core/domain/"
DB="internal/infrastructure/storage/db/"
p("C01","A wallet coin never backs two live trades or spends",
"An unspent output of the daemon that an accepted swap spends stays reserved for that trade alone: no other accepted swap, withdrawal or send uses it until the trade has failed or expired, whatever the interleaving of concurrent proposals, completions, failures, expiries and operator spends. The reservation outlives a daemon restart, and only the failure or the expiry of the trade that holds it, or its being spent, ends it.",
["schedules","histories"],"all interleavings of concurrent propose, complete, fail, expire and withdraw calls on one or several markets, and all sequential histories of them",
"The only concurrent test mocks coin selection (all four trades get the same coins) and never looks at which coins were taken; double use needs two proposals between selection and lock.",
[A+"trade_service.go",A+"wallet_service.go",A+"operator_service.go",DB+"inmemory/unspent_memory_repository_impl.go",DB+"badger/unspent_repository_impl.go"],
"TradePropose selects from GetAvailableUnspents, builds the transaction and then LockUnspents; unlock on fail/expiry; spend on completion.",[("unspent locked/lockedBy","coin reserved for a trade id")])
p("C02","An accepted swap moves exactly the agreed amounts",
"The transaction of every accepted swap keeps all of the proposer's inputs and outputs, gives the market account exactly the amount the trader proposed to pay, takes from it (net of change) exactly the requested amount, and takes only the network fee from the fee account; every asset is conserved and all daemon outputs are addresses of the daemon that it can unblind. A proposal is accepted only if the market is open, its assets are the market's pair in the direction of the trade, and its amounts are worth at least the previewed price less the configured slippage; one at the previewed price that the coins of the daemon can serve is accepted, and any other gets a fail message or an error and leaves no coin locked.",
["inputs","histories"],"all proposals (honest or adversarial amounts, assets, PSETs, blinding keys), market states, prices, strategies and coin sets",
"Tests run two or four mocked proposals with a mocked trade manager and random PSET strings; no test inspects the values in the resulting transaction.",
[A+"trade_service.go",A+"types.go","pkg/wallet/transaction.go","pkg/wallet/blind.go",D+"trade_service.go"],
"TradePropose -> ParseSwapRequest, isValidTradePrice, FillProposal (UpdateSwapTx, blind, sign), Trade.Accept.")
p("C03","Trade status only moves forward along its lifecycle",
"A trade only moves from empty to proposal, accepted, completed and settled, one step at a time, or from a state before settlement into failure or expiry. A trade that failed or expired is never accepted or completed afterwards (it may only be settled, if the transaction that was accepted for it is confirmed), a proposal that was rejected never goes further, a trade past its expiry cannot be completed, and a settled trade never changes status. A call that is refused, or repeated on a trade already past that step, leaves the stored trade as it was, and the recorded messages, transaction id, terms and times are never lost or replaced by later steps; this holds as well when completions, failures, expiries and confirmations of one trade are processed concurrently.",
["histories","schedules"],"all sequences of domain and service calls (propose, accept, complete, settle, fail, expire, in any order and repeated), including concurrent ones",
"Unit tests call each transition once from its expected predecessor and from a couple of wrong ones; histories of several calls and concurrent calls are not explored.",
[D+"trade_service.go",D+"trade_model.go",A+"trade_service.go",A+"blockchain_listener.go"],
"Trade.Propose/Accept/Complete/Settle/Fail/Expire guard on Status.Code; trade service persists through UpdateTrade.",[("Trade.Status","lifecycle code plus failed flag")])
p("C04","Completing a trade broadcasts only the swap it accepted",
"The daemon broadcasts, in answer to a completion, only a fully signed transaction with the very inputs and outputs of the swap it accepted for that trade, never again once the trade is completed, and never for a trade that is unknown, expired or failed. When the broadcast succeeds the trade is completed with that transaction's id, the wallet coins it spends are no longer available; a malformed, unsigned or foreign completion is refused without broadcasting.",
["inputs","histories"],"all completion and fail messages (mutated PSETs, missing or foreign signatures, other trades' transactions, repeated messages) against trades in any state",
"The unit test mocks the PSET parser, so any string is a valid completion; nothing compares the broadcast transaction with the accepted one.",
[A+"trade_service.go","pkg/swap/complete.go",D+"trade_service.go","pkg/wallet/transaction.go"],
"tradeComplete -> Trade.Complete -> swap.Complete, FinalizeAndExtractTransaction, explorer.BroadcastTransaction, spend unspents.")
p("C05","UTXO set: balances and locks agree with its history",
"For every sequence of add, lock, unlock, confirm and spend operations, both storage back ends report the same set as a simple reference model: an outpoint is never duplicated by re-adding, available unspents are exactly the confirmed, unspent and unlocked ones of the addresses asked for, balances are the sums of values over the matching unspents, and spent is final. Locking a coin that another trade holds never transfers it, and concurrent operations behave as if run one at a time.",
["histories","schedules"],"all operation sequences and concurrent interleavings over a few outpoints, addresses and trade ids, on the in-memory and the badger repository",
"Tests call each repository method once on fixed fixtures.",
[DB+"inmemory/unspent_memory_repository_impl.go",DB+"badger/unspent_repository_impl.go",D+"unspent_service.go"],
"UnspentRepository implementations.",[("unspents map / badgerhold store","outpoint -> value, asset, spent, confirmed, locked")])
p("C06","Market making never gives value away",
"With the balanced strategy, for any balances, amount, fee and trade direction, the quoted amount is what the constant product rule gives up to the eight decimal digits that ratios of reserves are computed with (half a unit of the eighth digit of the reserve, plus one smallest unit), never reduces the product of the two reserves by more than that rounding, never reaches or exceeds the reserve it is taken from, gets no better for the trader as the percentage or fixed fee grows, and grows with the amount. With the pluggable strategy the quote is the operator's price times the amount with the fees applied in the daemon's favour; a preview that cannot be served is an error and never a wrapped, negative or panicking result.",
["inputs"],"all 64-bit balances, amounts, fees in basis points, fixed fees and prices",
"Tests check a dozen hand-computed quotes.",
["pkg/marketmaking/formula/balanced_reserves.go","pkg/mathutil/math.go","pkg/mathutil/fee.go",D+"market_service.go",A+"trade_service.go"],
"BalancedReserves.InGivenOut/OutGivenIn/SpotPrice, mathutil.PlusFee/LessFee, getPriceAndPreviewForMarket.")
p("C07","Operator reports equal the sum of what happened",
"The balances, unspent list, trade list, swap list and fee report given to the operator equal what the recorded history of deposits, trades and spends adds up to: each market's balance is the sum of its unspent coins per asset, each completed trade of a market appears exactly once with its stored amounts, fees and status, and fee totals are the sums over completed trades of the fee configured when they were made. Paging a listing returns every element once, in the same order as the unpaged listing.",
["histories","inputs"],"all histories of deposits, trades in every state, market settings changes and page requests",
"Tests use one fixture with fixed numbers.",
[A+"operator_service.go",DB+"badger/trade_repository_impl.go",DB+"inmemory/trade_memory_repository_impl.go"],
"OperatorService.ListTrades/ReportMarketFee/GetMarketBalance/ListUtxos/FeeAccountBalance and paginated repository reads.")
p("C08","No wallet address is handed out twice",
"Every address the daemon hands out or uses as an output, for deposits, change or trade proceeds, is derived from the seed at a fresh index of its account, is never handed out a second time (even under concurrent requests or after a restart), and is recorded so that the daemon later recognises, unblinds and can sign for coins sent to it. Accounts never overlap: an address belongs to exactly one market, the fee account or the wallet account.",
["histories","schedules"],"all interleavings and sequences of address requests, trades and spends, with restarts between them",
"Tests derive a couple of addresses sequentially from a fixed vault.",
[D+"vault_service.go",D+"vault_model.go",A+"operator_service.go",A+"wallet_service.go",A+"trade_service.go","pkg/wallet/keys.go"],
"Vault.DeriveNextExternal/InternalAddressForAccount and VaultRepository.UpdateVault.",[("Vault account indexes","last derived external/internal index per account")])
p("C09","The seed opens only with the current passphrase",
"The mnemonic is available exactly while the vault is unlocked, and it unlocks only with the passphrase set last; a failed unlock, lock or passphrase change leaves everything as it was, and a successful change makes the old passphrase useless and the seed unchanged. Sealed data opens to the exact plaintext with its passphrase; with another passphrase, or after any truncation or modification of the sealed bytes, opening gives an error and never a panic or other plaintext, and neither the plaintext seed nor the passphrase is ever written to disk.",
["histories","inputs"],"all sequences of init, lock, unlock and change-passphrase with right and wrong passphrases; all plaintexts, passphrases and ciphertext corruptions",
"Tests exercise one right and one wrong passphrase and no corrupted ciphertext.",
[D+"vault_service.go","pkg/wallet/cypher.go",A+"wallet_service.go","config/config.go"],
"Vault.Lock/Unlock/ChangePassphrase over AES-GCM/scrypt in pkg/wallet.Encrypt/Decrypt.")
p("C10","Every RPC obeys the macaroon permission it declares",
"With authentication on, a call reaches its handler only when it carries a macaroon minted by this daemon that is unmodified, whose caveats hold and whose permissions include the entity and action of that method; the public trade interface and the four calls that create or unlock the wallet (GenSeed, InitWallet, UnlockWallet, ChangePassword) need none. Every method of every registered operator and wallet service is covered by the permission table, a macaroon never grants more after being narrowed, and none is accepted from another root key or after the store has been re-keyed.",
["inputs","configurations"],"all registered RPC methods crossed with all permission sets, caveats, tampered, foreign and truncated macaroons",
"Tests cover the service with two permissions and never the daemon's own method table.",
["internal/interfaces/grpc/permissions/permissions.go","internal/interfaces/grpc/interceptor/","pkg/macaroons/service.go","pkg/macaroons/store.go","internal/interfaces/grpc/service.go"],
"macaroons.Service.ValidateMacaroon and unary/stream interceptors over permissions.AllPermissionsByMethod.")
p("C11","The encrypted store keeps every record through re-keying",
"Every value written to the encrypted key-value store reads back unchanged by its own bucket and key until removed, across close, reopen, lock and unlock, and across any number of password changes, whatever bytes bucket names, keys and values contain. The store opens only with its current password, gives no access while locked, stores no plaintext value on disk, and a crash at any point of a write or password change leaves it readable with either the old or the new password with nothing lost.",
["histories","crash_points","inputs"],"all sequences of add, get, remove, list, lock, unlock, change-password and reopen over arbitrary byte strings, and process death at any point of them",
"Tests use single-word keys and change the password once.",
["pkg/securestore/bolt/store.go","pkg/securestore/kvdb/"],
"boltsecurestore with snacl-style key sealed by the password; ChangePassword re-encrypts all entries.")
p("C12","No request, well-formed or not, crashes the daemon",
"Whatever message a client sends to the trade, operator or wallet interfaces (missing, empty, huge, negative or inconsistent fields, unknown ids, malformed transactions, any order of calls, before or after the wallet is initialised), the daemon answers with a response or an error status and keeps serving. A request answered with an error leaves markets, balances, trades and the vault as they were, apart from addresses derived for a withdrawal or swap that is refused afterwards, which stay used.",
["inputs","histories"],"all protobuf-valid request messages to every method of the three services, in any order and in any daemon state",
"Tests send a handful of valid and obviously invalid messages to the application layer; the gRPC handlers have no tests at all.",
["internal/interfaces/grpc/handler/","internal/core/application/","pkg/swap/","pkg/wallet/"],
"gRPC handlers validate and call application services; no recovery interceptor exists.")
p("C13","Events reach exactly the webhooks subscribed to them",
"Each published event is delivered, with its exact payload, once to every webhook subscribed to its topic (or to all topics) and to no other; a delivery to a secured hook carries a token that verifies with the hook's secret, and one to an unsecured hook carries none. A hook stays subscribed until it is removed, concurrent additions and removals never lose or resurrect another hook, and a hook whose endpoint is slow or failing does not stop delivery to the others or lose its subscription.",
["histories","schedules","fault_sequences"],"all sequences and interleavings of subscribe, unsubscribe, publish, restart and password change, with failing, slow and hanging endpoints",
"Tests subscribe a fixed set of hooks sequentially against an always-healthy server.",
["internal/infrastructure/pubsub/webhook/","pkg/circuitbreaker/circuitbreaker.go","pkg/securestore/"],
"webhook pubsub service storing hooks and per-topic indexes in the secure store; HTTP POST with JWT.")
p("C14","The crawler keeps watching and reports what it saw",
"While running, the crawler keeps polling every observed address and transaction until it is removed or told to stop, whatever errors the explorer returns in between, and each event it emits states what the explorer answered for that observable. Adding, removing, re-adding and stopping in any order, at any moment and while nobody reads events, never panics, leaks a poller or deadlocks, and after removal or stop no further event for that observable is emitted beyond those in flight.",
["schedules","fault_sequences","histories"],"all interleavings of add, remove, start and stop with polling, and all sequences of explorer errors, delays and answers",
"Tests add a few observables and wait; the explorer mock never fails.",
["pkg/crawler/service.go","pkg/crawler/observable.go","pkg/crawler/event.go"],
"crawler.Service with one goroutine per observable, event/err/quit channels and a rate limiter.")
p("C15","Chain events settle trades and confirm coins exactly",
"When the explorer reports a trade's transaction confirmed, the trade becomes settled with the block's time and its transaction, its new coins become usable in the right account and the spent ones stay spent, exactly once however often or in whatever order the event is reported, and the settlement is announced once; a confirmed transaction of the wallet that belongs to no trade has its coins confirmed all the same. A transaction stays watched until its confirmation has been handled, through explorer faults and across restarts; trades pending at a restart are watched again and still expire. Reloading the utxo set enters the coins of the daemon's addresses exactly once with their true asset and amount, the confirmed ones usable.",
["histories","fault_sequences"],"all orders, repetitions and losses of explorer reports for trades and wallet spends, with explorer faults and restarts in between",
"The listener has no test.",
[A+"blockchain_listener.go",A+"wallet_service.go","pkg/crawler/"],
"BlockchainListener.listenToEventChannel handling TransactionConfirmed and TransactionUnConfirmed events; tradeService.resumePendingTrades; fetchAndAddUnspents.")
p("C16","Committed data survives a crash, transactions are whole",
"Every change the storage layer acknowledged is there after the process is killed at any point and restarted, and nothing of a change it reported as failed is. The updates of one transaction become visible and durable all together or not at all, an error returned inside it leaves no trace, and concurrent transactions on the same records never lose one another's updates.",
["crash_points","schedules","histories"],"process death at any point of any workload; all interleavings of concurrent transactions; errors at any step of a transaction",
"Tests run against a fresh database in one process and never kill it or run two transactions at once.",
[DB+"badger/",DB+"inmemory/db_manager.go"],
"RepoManager.RunTransaction / RunUnspentsTransaction over badger txns with retry on conflict.")
p("C17","Coin selection pays the target without waste",
"For any list of coins, target and asset, selection either returns distinct coins from the list, all of the asked asset, whose values add up to at least the target with the change being exactly the excess, or an error; it fails for lack of funds only when the coins of that asset really do not add up to the target. It does not depend on other selections running at the same time, is right whenever the values of the asset add up within 64 bits, and ends promptly for wallets of hundreds of coins.",
["inputs","schedules"],"all lists of coins, targets and assets (including amounts near the 64-bit limit) and concurrent calls",
"Tests check five fixed lists sequentially.",
["pkg/explorer/coinselection.go"],
"explorer.SelectUnspents with getBestCombination over a package-level slice.")
p("C18","Wallet sends pay exactly what was asked",
"A send, withdrawal or sweep the daemon reports as done is a valid, fully signed and balanced transaction that pays each requested output exactly its asset and amount to its address (confidentially if that address is confidential), pays a network fee at the requested rate from the fee account or wallet only, and returns all the rest to fresh addresses the daemon owns and can unblind. It spends only unlocked coins of the intended account, marks exactly those spent, and when it is refused or its broadcast fails nothing changes. A well-formed request that the coins of its account and of the fee account plainly cover is not refused.",
["inputs","histories","fault_sequences"],"all output lists, assets, amounts, fee rates and coin sets, and explorer failures",
"Tests mock the transaction manager and blinder.",
[A+"wallet_service.go",A+"operator_service.go",A+"types.go","pkg/wallet/transaction.go","pkg/wallet/blind.go"],
"WalletService.SendToMany, OperatorService.WithdrawMarketFunds, sendToMany helper.")
p("C19","Markets trade only when funded, open and priced",
"A market takes proposals, quotes prices or is listed as tradable only while it is open; it opens only once funded with its two assets and, with the pluggable strategy, once a price is set; settings that may change only while it is closed are refused while it is open. Fees stay within their allowed range, at most one market exists per asset pair and account, a refused change leaves the market as it was, and dropping one market never affects another.",
["histories","inputs"],"all sequences of market creation, deposit, open, close, fee, price, strategy and drop calls, with valid and invalid arguments",
"Unit tests check each setter once per outcome.",
[D+"market_service.go",D+"market_model.go",A+"operator_service.go",A+"trade_service.go",DB+"inmemory/market_memory_repository_impl.go",DB+"badger/market_repository_impl.go"],
"Market.MakeTradable/ChangeBasisPoint/..., OperatorService market methods, MarketRepository.")
p("C20","A wallet restored from its seed finds all its coins",
"Initialising a daemon in restore mode with a seed that was used before yields the same accounts, addresses and keys, and the same spendable coins and balances per market and fee account as the chain holds for it, wherever address gaps stay below the gap limit of 20 and market accounts without any used address do not precede used ones, and new addresses continue after the last used one. If the explorer fails during restoration the operation reports an error, never a silently incomplete wallet.",
["histories","fault_sequences"],"all prior usages of a wallet (markets, deposits, trades, gaps) and explorer failures during restoration",
"The restore test uses a fixed mock that says every address is funded or not.",
[A+"wallet_service.go",D+"vault_service.go"],
"walletService.initWallet/restoreVault/restoreUnspents with isAddressFunded gap scanning.")
p("C21","Concurrent requests are free of data races",
"Any mix of concurrent calls to the trade, operator and wallet services, while the crawler and listener run, never accesses shared memory without synchronisation, deadlocks or panics, and every call returns.",
["schedules"],"all schedules of concurrent mixed requests over in-memory and badger storage with the background pollers running",
"The suite is not run under the race detector and has one four-way concurrent test against mocks.",
[A,DB,"pkg/crawler/","pkg/explorer/coinselection.go","config/config.go"],
"Services, repositories and pollers share state guarded by mutexes and badger transactions.")
p("C22","Swap messages stay bound to one another",
"A well-formed swap request, accept, complete and fail serialise and parse back to themselves (ids, assets, amounts, transaction, keys), an accept names the id of its request, a complete the id of its accept, a fail the id of the message it refuses with the code of the stage that refused. A request or accept is only made of a transaction that can be parsed, has all its prevouts and, if it carries blinding keys, has one for every input and output; a complete only of the accepted transaction itself with every input validly signed by its owner; anything else is an error, that refuses the trade and leaves it without the refused message. A final transaction passes validation exactly when it spends enough of both assets and has both amounts of the request among its outputs. No malformed message, transaction or key makes any of this panic.",
["inputs"],"all requests, accepts and completes with arbitrary amounts, assets, confidential or explicit outputs, and mutated transactions and keys",
"Tests parse five fixed PSETs.",
["pkg/swap/",D+"trade_service.go"],
"swap.Request/Accept/Complete/Fail and ValidateSwapRequest/compareMessagesAndTransaction.")
p("C23","The explorer client reports what the server said",
"The unspents, transactions, statuses, block times and heights the explorer client returns are those the server's answers encode, with confidential amounts unblinded using the right keys, combining several addresses gives each address's coins once, and the id returned by a broadcast is the server's. An error status, malformed or truncated body, or timeout is an error and never an empty, partial or zero result, or a panic.",
["inputs","fault_sequences"],"all server answers: valid, erroneous, malformed, truncated, slow, in any order",
"Most explorer tests need a live server and do not run here.",
["pkg/explorer/esplora/","pkg/explorer/elements/"],
"esplora service over HTTP.")
p("C24","Both storage back ends store what was written",
"For every sequence of repository operations, the in-memory and the badger storage return the same trades, markets, accounts and vault as were last written, found under every lookup the repository offers (id, swap ids, transaction id, market, account, asset, completion status, pages), including when a restart happens in between for badger. A returned value is a snapshot: changing it without saving changes nothing stored, and an update that returns an error changes nothing.",
["histories"],"all sequences of get-or-create, update, delete and lookup operations over trades, markets and vault",
"Tests call each repository method on one fixture and compare with literals.",
[DB+"badger/",DB+"inmemory/"],
"TradeRepository, MarketRepository and VaultRepository implementations of the two managers.")
p("C25","The trader client accepts only swaps on its own terms",
"The client library proposes a transaction that offers exactly the amount and asset its caller agreed to and asks for exactly the previewed amount, with all change returned to the caller's address; it signs and returns a provider's answer only if that transaction still pays the caller the agreed amount to the caller's script and spends nothing else of the caller's. A provider answer that does otherwise is an error, and the caller's signature never leaves the client for it.",
["inputs"],"all wallets, previews, amounts and provider answers, honest or malicious",
"Tests need a live daemon and explorer and do not run here.",
["pkg/trade/","pkg/trade/client/"],
"trade.Buy/Sell, NewSwapTx, marketOrderComplete, Wallet.Sign.")
p("C26","Built transactions balance, unblind and verify",
"A transaction the wallet library updates, blinds and signs conserves every asset exactly, pays the computed fee, unblinds to the intended amounts and assets with the right keys only, carries valid proofs and signatures for the keys of its inputs and verifies as consensus requires; its estimated size is never below the real one. Derivation is deterministic and follows BIP32/SLIP77, path parsing accepts only valid paths, and invalid input or corrupted transactions give errors, never panics.",
["inputs"],"all numbers and kinds of inputs and outputs, amounts, assets, fee rates, seeds and paths, and corrupted transactions",
"Tests use a few fixed PSETs and only check that no error is returned.",
["pkg/wallet/","pkg/transactionutil/transactionutil.go"],
"wallet.UpdateTx/UpdateSwapTx/BlindTransaction*/SignTransaction/FinalizeAndExtractTransaction/EstimateTxSize, DeriveSigningKeyPair/DeriveBlindingKeyPair.")
p("C27","A deposit claim credits exactly the claimed coins",
"Claiming deposits for a market or the fee account succeeds only when every given outpoint is a confirmed coin paying an address of that very account that the daemon derived, and then makes exactly those coins available once with their true asset and amount, however often, in whatever order and with whatever repetition they are claimed. A claim with any other outpoint is refused and changes nothing; a market becomes funded only by coins of exactly its base asset and one quote asset.",
["inputs","histories"],"all lists of outpoints (valid, repeated, foreign, unconfirmed, spent, unknown, wrong vout) and repeated or interleaved claims",
"Tests claim one fixed list against a mock explorer.",
[A+"operator_service.go",A+"blockchain_listener.go"],
"OperatorService.ClaimMarketDeposit/ClaimFeeDeposit -> claimDeposit, fundMarket.")
p("C28","Fragmented deposits add up to the funds sent",
"The operator's deposit fragmenter splits any amount into pieces that are all positive and add up, with the fees it plans for, exactly to the funds received, keeps the two assets in the required ratio of fragments, and the transaction it builds spends all the received coins of those assets once, pays only the market or fee account addresses it was given and a network fee; funds too small to fragment are reported as such.",
["inputs"],"all amounts of base and quote asset and coin sets",
"Tests check a few fixed amounts.",
["cmd/tdex/fragmentmarket.go","cmd/tdex/fragmentfee.go"],
"fragmentUnspents, craftTransaction.")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80
