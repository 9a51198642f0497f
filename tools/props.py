P("C01", "A market is always well formed and is reconfigured only while closed",
 "A market always has a percentage fee between 0 and 9999 basis points, non-negative fixed fees that are both zero or both positive, and either no assets or two distinct ones; it can be open only when funded and, with a pluggable strategy, priced. Percentage fee, fixed fees and strategy change only while the market is closed (fees also only once it is funded), funding assigns the pair from exactly the configured base asset plus one single other asset found in the outputs, and every refused operation leaves the market unchanged. Switching to the pluggable strategy clears the price so that the market cannot reopen unpriced.",
 ["inputs", "histories"], "every market state satisfying the invariant, every operation of the market and every argument (fees, prices, any list of funding outputs)",
 "The domain tests try a few fees and outputs; the invariant must survive every sequence of operations on any state and any list of funding outpoints.",
 ["internal/core/domain/market_model.go", "internal/core/domain/market_service.go"],
 [("NewMarket, FundMarket, MakeTradable, MakeNotTradable, ChangeFeeBasisPoint, ChangeFixedFee, ChangeBasePrice, ChangeQuotePrice, MakeStrategyPluggable, MakeStrategyBalanced", "internal/core/domain/market_service.go")],
 state=[("Market", "assets, fees, price, strategy and open flag of a market", "internal/core/domain/market_model.go")],
 note="Integers are machine integers (wrap modelled); decimals are exact rationals.")

P("C02", "Constant-product quotes are exact up to precision and never exceed the reserve",
 "For every pair of reserves and every amount, a balanced quote equals the constant-product value of the net amount up to the precision of an eight-decimal division scaled by the reserve plus one unit (the reserve ratio is rounded to eight decimals and the result is rounded down to whole units), never exceeds the output reserve, is never zero, and is refused with amount zero when a reserve or the amount is empty or the requested output is not below the reserve. A quote that does not fit in 64 bits is refused, never wrapped. The percentage fee is taken exactly once, on the input or on the output as configured: reduced from a given input, added to a computed input, added to a requested output, or taken out of a computed output. The spot price is the ratio of the output to the input reserve rounded to eight decimals, and is refused when either reserve is empty.",
 ["inputs"], "all reserves and amounts up to 21e14 units, all fees up to 9999 basis points, both fee directions",
 "Formula tests sample a handful of balances; rounding, wrap-around and boundary errors appear at specific magnitudes only.",
 ["pkg/marketmaking/formula/balanced_reserves.go", "pkg/mathutil/math.go", "pkg/mathutil/fee.go"],
 [("OutGivenIn, InGivenOut, SpotPrice of the balanced formula", "pkg/marketmaking/formula/balanced_reserves.go")],
 note="Decimal division is modelled as shopspring rounds it (half away from zero at DivisionPrecision 8).")

P("C04", "Percentage fees are exact floors of the basis-point fraction",
 "Adding a fee of f basis points to an amount gives floor(amount*(10000+f)/10000) and subtracting it gives floor(amount*(10000-f)/10000), with the reported fee floor(amount*f/10000), for every fee up to 9999 basis points and every amount up to 9e18. Both are monotone in the amount, and the fee added or subtracted never differs by more than one unit from the reported one. The integer and decimal helpers add, subtract, multiply and divide exactly (division to eight decimals, rounded half away from zero).",
 ["inputs"], "all amounts and all fees for which the result fits in 64 bits",
 "Tests use a few round numbers; an error in rounding or an overflow shows at particular residues or magnitudes.",
 ["pkg/mathutil/math.go", "pkg/mathutil/fee.go"],
 [("PlusFee, LessFee, Add, Sub, Mul, Div and their decimal variants", "pkg/mathutil")],
 note="Fees are bounded by 9999 basis points where the contract says so.")

P("C03", "A market quotes exactly what its strategy, price and fees say",
 "For any balances and amount, the preview of a trade is the market strategy's quote for the given amount: amounts of the base asset are priced with the quote price and amounts of the quote asset with the base price, buying draws on the base reserve and selling on the quote reserve, and the requested asset is quoted as input or as output as the trade type says. The market's percentage fee is charged on the input side of a balanced market, the counter asset's fixed fee is added to what the trader must pay and taken from what the trader receives, and never wraps. The preview names the other asset, carries the market's price or the spot prices of the balances, is refused when the market is closed, the amount is below the given asset's fixed fee, the strategy cannot quote, or the payout is not strictly below the reserve that pays it, is answered otherwise, and never changes the market. The pluggable quote is amount times price, rounded down, with the percentage fee taken off an output or put on an input.",
 ["inputs"], "every open or closed market, all balances and amounts up to 21e14 units, all non-negative prices, all four combinations of direction and given asset",
 "Preview tests check a few amounts on one market; the direction, fee side and rounding must be right for every combination.",
 ["internal/core/domain/market_service.go", "internal/core/domain/pluggable_strategy.go"],
 [("Market.Preview, previewForMarket helpers", "internal/core/domain/market_service.go"), ("PluggableStrategy.OutGivenIn and InGivenOut", "internal/core/domain/pluggable_strategy.go")])

P("C05", "A trade moves forward only through its life cycle, once, with its terms kept",
 "A trade goes from empty to proposal to accepted to completed to settled, or to expired. Only a non-failed proposal is accepted, only an accepted trade whose expiry has not passed is completed, only an accepted, completed or failed one is settled, and only one whose set expiry date has passed expires. Repeating a step that is done succeeds and changes nothing; a refused step changes nothing, except that completing too late marks the trade as failed. A message the counterparty's rules reject marks the trade as failed, with one fail message about the right swap message and its code, without moving it. The expiry date is set (to the accept time plus the trade duration) exactly while the trade is accepted, completed or expired. Price, fees, market, trader key and request message are fixed when proposed (price: ratio of the two amounts, oriented by the market's quote asset), the transaction and its id by accept, and later steps never alter them.",
 ["inputs", "histories"], "every trade state satisfying the life-cycle invariant, every request, transaction, duration and answer of the message parsers, every clock reading",
 "Domain tests walk through the happy path and some refusals; the invariant must survive any sequence of steps, at any time, on any state.",
 ["internal/core/domain/trade_model.go", "internal/core/domain/trade_service.go"],
 [("NewTrade, Propose, Accept, Complete, Settle, Fail, Expire", "internal/core/domain/trade_service.go")],
 state=[("Trade", "status, messages, terms, transaction and dates of a trade", "internal/core/domain/trade_model.go")],
 note="Swap amounts are assumed positive; the message parsers are any implementation of the parser interfaces.")

P("C07", "An output reserved for one trade is never handed to another",
 "An unspent output is locked exactly while it names the trade that locked it. Locking a free output records that trade; locking it again for the same trade succeeds and changes nothing; locking it for any other trade is refused and leaves the first lock in place, until it is unlocked. Spending, confirming, locking and unlocking change nothing but their own flag: the output stays the same coin (outpoint, amount, asset, commitments, blinders, proofs and address), and is presented to the wallet as exactly that coin. The database keeps to this: it locks those of the given outputs that it has and that are free, counts exactly the ones it locked, leaves the locks of other trades in place, reads every output with its own lock, offers as available only unlocked and unspent outputs of the addresses asked for, and marks as spent and frees exactly the outputs named.",
 ["inputs", "histories"], "every output, every pair of trades, every sequence of lock, unlock, spend and confirm, every content of the database and failure of its operations",
 "Tests lock one output once; double reservation needs a second trade to arrive at the same output in a particular state.",
 ["internal/core/domain/unspent_model.go", "internal/core/domain/unspent_service.go", "internal/infrastructure/storage/db/badger/unspent_repository_impl.go"],
 [("Lock, Unlock, Spend, Confirm, Key, IsKeyEqual, ToUtxo, ToOutpointWithAsset", "internal/core/domain/unspent_service.go"),
  ("AddUnspents, LockUnspents, UnlockUnspents, SpendUnspents, findUnspents and the queries over it", "internal/infrastructure/storage/db/badger/unspent_repository_impl.go")],
 state=[("Unspent", "the coin, its lock and its spent and confirmed flags", "internal/core/domain/unspent_model.go"),
        ("LockedUnspent", "the lock of an output, kept in the main database under the output's key", "internal/infrastructure/storage/db/badger/unspent_repository_impl.go")],
 note="The operations of badgerhold are tables: get, insert, update, upsert and delete by key, and searches by the criteria given; that its transactions are isolated is its own.")

P("C08", "The database keeps what it is given and changes nothing else",
 "Every repository of the database reads what was stored under the key asked for and nothing else: a market with its own prices and its strategy restored, a trade, the vault and its accounts, addresses and paths, an output with its lock. An update hands the stored item to its caller, stores exactly what the caller returns under the same key, and stores nothing when the caller refuses or the item is missing; creating an item that exists leaves it as it is. A search asks for the criteria its name tells. Everything is read and written in the transaction of the caller, if there is one: what a transaction's handler did is committed once when it succeeds and dropped when it fails, and the handler is run again in a new transaction only after a conflict. An operation that fails reports it.",
 ["inputs", "histories", "fault histories"], "every content of the database, key, caller, transaction and failure of the store",
 "Tests store and read a couple of items in memory; an item stored under another's key, a write outside the transaction or a lost failure needs particular contents, callers and failures.",
 ["internal/infrastructure/storage/db/badger/market_repository_impl.go", "internal/infrastructure/storage/db/badger/trade_repository_impl.go", "internal/infrastructure/storage/db/badger/vault_repository_impl.go", "internal/infrastructure/storage/db/badger/unspent_repository_impl.go", "internal/infrastructure/storage/db/badger/db_manager.go"],
 [("GetOrCreateMarket, GetMarketByAccount, GetMarketByAsset, GetLatestMarket, GetTradableMarkets, GetAllMarkets, UpdateMarket, OpenMarket, CloseMarket, UpdatePrices, DeleteMarket", "internal/infrastructure/storage/db/badger/market_repository_impl.go"),
  ("GetOrCreateTrade, UpdateTrade and the queries", "internal/infrastructure/storage/db/badger/trade_repository_impl.go"),
  ("GetOrCreateVault, UpdateVault, GetAccountByIndex, GetAccountByAddress, GetDerivationPathByScript, GetAllDerived*AddressesInfoForAccount", "internal/infrastructure/storage/db/badger/vault_repository_impl.go"),
  ("RunTransaction, RunUnspentsTransaction, RunPricesTransaction", "internal/infrastructure/storage/db/badger/db_manager.go")],
 note="The operations of badgerhold and badger are tables with the failures they document; that keys and values survive encoding, that commits survive a crash and that transactions are isolated is theirs.")

P("C13", "The vault hands out each address once and keeps track of every one",
 "The vault is unlocked only by the passphrase it is encrypted with; a locked vault reveals no mnemonic, derives nothing and lists no derived account addresses; locking it forgets the mnemonic. The passphrase changes only while the vault is locked and only by someone who knows it, and re-encrypts the same mnemonic. Deriving the next address of an account uses the account's next index on the external or internal chain and then moves past it, registers the address under its account with its blinding key and derivation path, keeps every other account and address as it was, and a refused derivation registers nothing. Initialising an account that exists changes nothing. The addresses listed for an account are exactly those of its indexes, in order, external before internal, each with its path, script and blinding key; the listing of all addresses has exactly one correct entry per registered address.",
 ["inputs", "histories"], "every vault, account, mnemonic, passphrase and cipher answer",
 "Tests derive a couple of addresses from one seed; reusing or losing an address needs a particular account, chain or index state.",
 ["internal/core/domain/vault_model.go", "internal/core/domain/vault_service.go"],
 [("NewVault, Lock, Unlock, ChangePassphrase, GetMnemonicSafe, InitAccount, AccountByIndex, AccountByAddress, DeriveNextExternalAddressForAccount, DeriveNextInternalAddressForAccount, AllDerivedAddressesInfo, AllDerivedAddressesInfoForAccount", "internal/core/domain/vault_service.go")],
 state=[("Vault", "encrypted mnemonic, passphrase hash, accounts, address index", "internal/core/domain/vault_model.go")],
 note="Key derivation and address encoding are deterministic functions of their arguments (C12 covers paths); the mnemonic store and the cypher are any implementation of their interfaces.")

P("C14", "Secrets are kept encrypted and opened only by their password",
 "The mnemonic is encrypted with a fresh salt and a fresh nonce under a key stretched from the passphrase and that salt, and what is kept is exactly nonce, sealed text and salt; decrypting it with the same passphrase gives the mnemonic back, with any other it is refused, and so is any text that was not sealed so, however short. The secure store keeps every value encrypted under its own key, in the bucket and under the key given, reads back what was stored there and nothing else, reaches nothing while locked, never touches the entry of its encryption key, and is unlocked only by the password of the key it holds; a first password makes and stores that key, a failed unlock leaves it locked. The same holds of the store of the macaroons' root keys, where a root key is 32 random bytes, kept only encrypted, made once and returned to whoever asks for that id; changing the password requires the old one and stores the same default root key and the new key's parameters together, or neither.",
 ["inputs", "fault histories"], "every text, passphrase, key and entry, and every failure of the ciphers, the random source and the database",
 "Tests encrypt one mnemonic and read it back; a reused nonce, a value stored in plain or a key written before the other shows in no round trip.",
 ["pkg/wallet/cypher.go", "pkg/securestore/bolt/store.go", "pkg/macaroons/store.go", "internal/core/domain/vault_model.go"],
 [("Encrypt, Decrypt, DeriveKey", "pkg/wallet/cypher.go"),
  ("CreateUnlock, Lock, AddToBucket, GetFromBucket, RemoveFromBucket, CreateBucket, RemoveBucket", "pkg/securestore/bolt/store.go"),
  ("CreateUnlock, ChangePassword, Get, RootKey, GenerateNewRootKey, DeleteMacaroonID", "pkg/macaroons/store.go"),
  ("walletEncrypter", "internal/core/domain/vault_model.go")],
 note="scrypt, AES-GCM, snacl, base64 and the random source are ideal: the cipher opens exactly what was sealed with the same key and nonce, another passphrase makes another key, base64 is read back as written. The databases are transactions that fail or run once. Not covered: the secure store's ChangePassword (goroutines and channels), GetAllFromBucket and ListBuckets (callbacks of the database).")

P("C15", "A swap is priced right only within the slippage of the market's own quote",
 "The balances of a market are, per asset, the exact sums of its outputs. The preview of a trade is the market's own quote for those balances, given asset and direction, refused exactly when the market refuses it, and reports the quoted amount and asset, the price, the market's fees and the balances. A swap request is priced right exactly when its quote amount is within the slippage of the preview of its base amount, or its base amount is within the slippage of the preview of its quote amount, the quote being what a buyer sends and a seller receives; the bounds are inclusive and computed exactly.",
 ["inputs"], "every request, market, set of outputs, slippage and trade direction, amounts below 2^63",
 "Tests use one slippage and a few amounts; an inverted direction or an off-by-one bound shows only at particular amounts.",
 ["internal/core/application/trade_service.go"],
 [("isValidTradePrice, isPriceInRange, previewForMarket, getBalanceByAsset", "internal/core/application/trade_service.go")],
 note="previewForMarket and Market.Preview enter their callers as functions of their arguments (contracts of C15 and C03 say which).")

P("C16", "Proposals are accepted only on the market's terms, then reserved and watched",
 "A proposal is accepted only if the market exists, the wallet is unlocked, the assets are those of the market in the trade's direction and the price is right; the answer is either an acceptance or a fail message. The accepted transaction is filled from the market's and fee account's available outputs, pays the market's and fee account's next addresses, and the outputs selected are locked for that trade; the trade is stored, the vault with its new addresses saved and the transaction watched exactly when accepted; a refused proposal locks nothing and is stored as failed. Completion broadcasts only the transaction of a trade that was accepted and whose completion was valid, once per request, and repeats it for a trade already completed. A fail message marks exactly its trade as failed and stops watching it; an unknown trade is an error. An expired trade's outputs, and only those, are unlocked, and a settled one is left alone. A price is quoted only for an open market and a known pair, and is the market's own quote.",
 ["inputs", "fault histories"], "every answer of the repositories, wallet, explorer and parsers, including failures, every request and message",
 "The service tests run the happy path on in-memory repositories; missing a check or a reservation shows only for particular answers or failures.",
 ["internal/core/application/trade_service.go", "internal/core/domain/trade_service.go"],
 [("TradePropose, TradeComplete, tradeFail, checkTradeExpiration, fillProposal, GetMarketPrice", "internal/core/application/trade_service.go"),
  ("ExtractBlindingDataFromTx", "pkg/wallet/blind.go")],
 note="Goroutines started by the service are run after it returns; repositories answer arbitrarily but do not change the trade they return. Known finding: TradePropose ignores how many outputs were locked.")

P("C19", "Whoever subscribes to a topic is told of it until unsubscribed, and nobody else",
 "Subscribing to a known topic stores a webhook with the endpoint and the secret given under an id of its own and adds it after those of its action, of which none is lost; anything else is refused and stores nothing, and a subscription that could not be stored and listed is an error. Unsubscribing removes exactly the webhook of that id, leaving the others in their order, and is done only when it is gone both from the store and from the list. The subscriptions of a topic are those of its action followed by those of all actions. Publishing to a topic posts the message exactly once to each of these and to no other, as JSON, with a token signed with the webhook's own secret exactly when it has one, and fails when some request does. The store of the webhooks is initialised with both its buckets and left locked.",
 ["inputs", "fault histories"], "every topic, endpoint, secret and message, any number of webhooks, every failure of the store and of the requests",
 "The service test subscribes a few hooks and removes them one at a time; losing one of many or removing another needs a particular list or a failure of the store.",
 ["internal/infrastructure/pubsub/webhook/service.go", "internal/infrastructure/pubsub/webhook/store.go"],
 [("Subscribe, Unsubscribe, ListSubscriptionsForTopic, Publish, doRequest", "internal/infrastructure/pubsub/webhook/service.go"),
  ("Init, Unlock, Lock, ChangePassword", "internal/infrastructure/pubsub/webhook/store.go")],
 note="A list of webhooks is split as it was joined and a webhook is read as it was written (encoding/json, and no webhook holds the separator); requests started by errgroup are run at once, one after the other; two subscriptions at the same time are not covered.")

P("C22", "The operator's commands change exactly the market they name",
 "A command of the operator that names a pair of assets acts on the market of that pair and on no other: it is refused without any change unless the assets are well formed, the base asset is the daemon's and the market exists, and it is refused when the market's own rules refuse it (open markets, fees out of range, prices out of range). When it succeeds the stored market differs from the old one exactly in what was asked (percentage fee, fixed fees, prices, strategy, open or closed) and the reply tells the stored values. Deposit commands give out as many addresses as asked (one by default, whatever number is given) derived for that account alone, store the vault, and create the market with the next account and the default fee when none is named. A claimed deposit is accepted only if every outpoint is an output of a confirmed transaction paying an address of one and the same account among those searched; then exactly those outputs, with the amounts and assets their owner sees in them, are added to the wallet and (for markets) fund the market of that account; otherwise nothing is.",
 ["inputs", "fault histories"], "every request, market, vault, transaction, outpoint and failure of the repositories",
 "Tests send a handful of well formed requests to mocked repositories; a command that changes something else too, an outpoint of another account or a crash on a negative number needs particular states.",
 ["internal/core/application/operator_service.go", "internal/core/domain/market_service.go"],
 [("UpdateMarketPercentageFee, UpdateMarketFixedFee, UpdateMarketPrice, UpdateMarketStrategy, OpenMarket, CloseMarket", "internal/core/application/operator_service.go"), ("DepositMarket, DepositFeeAccount", "internal/core/application/operator_service.go"), ("ClaimMarketDeposit, ClaimFeeDeposit, claimDeposit, fundMarket", "internal/core/application/operator_service.go")],
 note="validateAssetString is a function of its argument; claimDeposit is checked against the contracts of groupAddressesInfoByScript, fundMarket and Market.FundMarket (proved on their own, here and under C01), and the vault's derivations are as C13 has them; the unblinding of an output is a function of the output and its owner's key.")
P("C23", "The reports given to the operator tell what is stored",
 "Listing the markets describes each stored market once, in order, with its own assets, fees, prices, strategy and state; listing a market's addresses gives the addresses derived for its account; the fee report has one entry for each completed trade of the market, with its id, the asset and the fee on the amount the trader sent at the trade's own fee and the price of that asset at the time, and its totals are the sums of those entries for each asset; the balance of the fee account is that of its addresses in the base asset; the list of outputs places each stored output once under the account of its address as spent, locked or unspent, with its own outpoint, value and asset; and each trade is reported with its own id, status, swap, prices, times and failure.",
 ["inputs"], "every set of markets, trades, addresses and outputs, of any size",
 "Tests list one or two items with equal fields; an item counted under another's name, asset or account needs several that differ.",
 ["internal/core/application/operator_service.go"],
 [("ListMarket, ListMarketExternalAddresses, GetCollectedMarketFee, FeeAccountBalance, ListUtxos, tradeToTradeInfo, appendUtxoInfo", "internal/core/application/operator_service.go")],
 note="The order of the list of trades (concurrent workers, then a sort) is not covered, nor the link to the explorer in a trade's report; the stored swap messages are read by a function of their bytes.")
P("C06", "Swap messages say what was agreed and refer to one another",
 "A swap request carries the given id (or a new one), exactly the assets and amounts the proposer sends and receives, the transaction and the blinding keys it was given; an accept answers the request it was made from by its id and carries its transaction and keys; a complete names the accept it was made from and carries the transaction given, which must be a transaction or a pset with only valid signatures that can be finalised; a fail names the message it rejects, with its code. The id returned with a message is the one inside it. A request or accept is only made for a pset that decodes, tells every output it spends and, when keys are given, has a key for each input's and output's script; anything else is refused, never a crash. The daemon's parser passes every field through unchanged in both directions and reports the failure code of the message that failed. An output is found in a transaction only if one pays exactly the amount and asset, revealed with its own key if blinded.",
 ["inputs"], "every message, pset, set of keys, and failure of the libraries",
 "Tests build one message of each kind and compare its length only; a swapped field, a wrong reference or an unchecked input goes unseen.",
 ["pkg/swap", "internal/core/domain/trade_model.go"],
 [("Request, checkTxAndBlindKeys", "pkg/swap/request.go"), ("Accept", "pkg/swap/accept.go"), ("Complete", "pkg/swap/complete.go"), ("Fail", "pkg/swap/fail.go"), ("outputFoundInTransaction", "pkg/swap/swap.go"), ("swapParser.SerializeRequest, SerializeAccept, SerializeComplete, SerializeFail, DeserializeRequest, DeserializeAccept, DeserializeComplete, DeserializeFail", "internal/core/domain/trade_model.go")],
 note="Assumed by contract: protobuf serialisation (a field read is a function of the bytes), pset decoding and signature checks, random ids. One known finding: the request's output keys.")
P("C18", "A call is served only to a caller whose macaroon grants it",
 "Every call the daemon serves is either one of the few that must work without credentials (the trader's methods, and seed generation, wallet initialisation, unlocking and change of password) or requires a macaroon that is present once, decodes, and is granted every operation the call requires, or that very call by name; any other call, and any call the daemon does not know, is refused before its handler runs. Each call requires the operation of its own kind: the admin macaroon may call everything, the read-only one exactly the calls that read, the market one markets and prices but no withdrawal, the price one only the update of a price, the wallet one only wallet addresses, balances and sends, the webhook one only webhooks. With macaroons enabled, the daemon never starts to serve without authentication, whatever fails at start.",
 ["inputs", "fault histories"], "every method name, request metadata, macaroon, authorisation answer and failure at start",
 "Tests of the permissions list a handful of methods; a missing or wrong entry, or a refused call that still runs, shows only for that method or failure.",
 ["internal/interfaces/grpc/permissions/permissions.go", "internal/interfaces/grpc/interceptor/auth.go", "internal/interfaces/grpc/service.go", "pkg/macaroons/service.go"],
 [("Permissions, AllPermissionsByMethod, Whitelist, AdminPermissions, ReadOnlyPermissions, MarketPermissions…", "internal/interfaces/grpc/permissions/permissions.go"), ("unaryMacaroonAuthHandler, streamMacaroonAuthHandler, checkMacaroon", "internal/interfaces/grpc/interceptor/auth.go"), ("NewService", "internal/interfaces/grpc/service.go"), ("ValidateMacaroon", "pkg/macaroons/service.go")],
 note="The cryptography of macaroons and the bakery's authorisation check are trusted; file and key store failures are arbitrary.")

P("C17", "A confirmed trade is settled and the wallet's outputs follow the chain",
 "When the crawler reports the transaction of a trade as confirmed, exactly that trade is settled with the block's time (keeping the transaction of a trade its trader never completed), the outputs that pay the wallet are confirmed if known or else added confirmed while those spent are marked as spent, the settlement is published once, and only then is the transaction no longer watched: if any step fails, or the transaction belongs to no trade, it stays watched and nothing is published; other events change nothing. The outputs taken from a transaction are exactly those paying an address of the account or of the fee account, once each, with their own index, revealed amount, asset and address; the outputs taken as spent are exactly those spent by one of the wallet's keys; inputs of any other kind are passed over.",
 ["inputs", "fault histories"], "every event, trade, transaction, set of addresses and failure of the repositories",
 "Tests use a mocked crawler and one transaction; a step skipped or done twice on failure, or an output taken for another's, shows only for particular transactions or failures.",
 ["internal/core/application/blockchain_listener.go", "internal/core/application/types.go", "internal/core/application/wallet_service.go", "internal/core/application/operator_service.go"],
 [("listenToEventChannel, settleTrade, confirmOrAddUnspents", "internal/core/application/blockchain_listener.go"), ("ExtractUnspents", "internal/core/application/types.go"), ("extractUnspentsFromTx, startObserveUnconfirmedUnspents", "internal/core/application/wallet_service.go"), ("groupAddressesInfoByScript", "internal/core/application/operator_service.go")],
 note="Transaction parsing, key parsing and unblinding are functions of their arguments; a parsed transaction has no nil inputs or outputs. Goroutines run after the function that starts them.")
P("C10", "The daemon's transactions spend and pay exactly what they account for",
 "A transaction the wallet makes or updates keeps its inputs and outputs, gains one input for each coin it reports as selected, naming that coin, and for each asset the coins added are worth exactly the new outputs plus the change; change goes to the path of its own asset with that path's script and nothing else is paid; if the coins or the fee cannot be covered there is an error and no transaction. The fee is the one for the size asked at the rate asked, is paid once in the network's asset, and no sum wraps around. A withdrawal from the wallet or a market pays exactly the recipients asked for, taking coins and change addresses of that account alone (and fees from the fee account alone), blinds with the keys of the recipients and of its own change, signs every coin it takes with the path of its script, broadcasts only if asked to, and tells what was withdrawn; a withdrawal above the balance, or a step that fails, sends nothing.",
 ["inputs", "fault histories"], "every set of coins, outputs, paths, rates, amounts and failure of the steps",
 "Tests build a few transactions with one asset and ample coins; a sum that wraps, an asset without change or a coin added twice needs particular combinations.",
 ["pkg/wallet/transaction.go", "internal/core/application/operator_service.go", "internal/core/application/wallet_service.go", "internal/core/application/trade_service.go"],
 [("UpdateTx, UpdateSwapTx, UpdateTxOpts.getOutputsTotalAmountsByAsset, getUnspentsUnblindedAssets, getRemainingUnspentsAmounts, selectUnspentsForFees", "pkg/wallet/transaction.go"), ("SendToMany, sendToMany, parseRequestOutputs, getChangesBlindingKeys", "internal/core/application/wallet_service.go"), ("WithdrawMarketFunds", "internal/core/application/operator_service.go"), ("mergeDerivationPaths, fillProposal, getSelectedInfo", "internal/core/application/trade_service.go")],
 note="Blinding, signing, coin selection, size estimation and explorer calls are assumed by contract (functions of their arguments or arbitrary answers); the fee stage is covered as the application uses it, without new outputs of its own.")

P("C12", "A path leads to one key, and each input is signed with its own",
 "A derivation path is read as written: one step per element, each the number it tells, hardened exactly when marked so, and anything that is not a number in range is refused; only paths of account, chain and index with a hardened account lead to keys. A wallet's master key is its mnemonic's, derived along m/84'/0', and the key of a path is reached from it by exactly the path's steps in order; the blinding key of a script is derived from the blinding master key for that very script, and the address of a path pays to the key of that path under that blinding key. The same path always leads to the same key, and an invalid mnemonic makes no wallet. To sign a transaction is to sign every input once, in order, with the key of its script's path, and an input is signed for itself: the hash of the transaction for that input, with the script and the value it spends, everything signed, the signature checked before it is attached together with the key's own public key.",
 ["inputs"], "every path, mnemonic, script, transaction and failure of the derivation and of the signature",
 "Tests derive a few known paths and sign one transaction; a step lost, an index taken for another or a value of another input needs particular paths and transactions.",
 ["pkg/wallet/derivation_path.go", "pkg/wallet/keys.go", "pkg/wallet/sign.go", "pkg/wallet/wallet.go", "pkg/wallet/util.go"],
 [("ParseDerivationPath, checkDerivationPath", "pkg/wallet/derivation_path.go"), ("DeriveSigningKeyPair, DeriveBlindingKeyPair, DeriveConfidentialAddress", "pkg/wallet/keys.go"), ("NewWalletFromMnemonic", "pkg/wallet/wallet.go"), ("generateSigningMasterKey", "pkg/wallet/util.go"), ("SignTransaction, SignInput, signInput", "pkg/wallet/sign.go")],
 note="The curve, the hashes, BIP32, BIP39, SLIP77 and the address encodings are external: functions with any answer or error; number parsing is math/big's.")
