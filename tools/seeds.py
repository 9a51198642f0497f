TRADE = "internal/core/domain/trade_service.go"
S("trade-accept-failed", "C05", TRADE,
  [("	if t.Status != ProposalStatus {\n		return false, ErrTradeMustBeProposal", "	if !t.IsProposal() {\n		return false, ErrTradeMustBeProposal")],
  "a proposal that has failed (request rejected) and is then accepted", "a failed proposal can be accepted",
  '''
package domain
import "testing"
type demoParser struct{}
func (demoParser) SerializeRequest(r SwapRequest) ([]byte, *SwapError) { return nil, nil }
func (demoParser) SerializeAccept(a AcceptArgs) (string, []byte, *SwapError) { return "id", []byte("m"), nil }
func (demoParser) SerializeComplete(a []byte, tx string) (string, []byte, *SwapError) { return "id", nil, nil }
func (demoParser) SerializeFail(id string, code int, msg string) (string, []byte) { return "f", nil }
func (demoParser) DeserializeRequest(msg []byte) (SwapRequest, error)   { return nil, nil }
func (demoParser) DeserializeAccept(msg []byte) (SwapAccept, error)     { return nil, nil }
func (demoParser) DeserializeComplete(msg []byte) (SwapComplete, error) { return nil, nil }
func (demoParser) DeserializeFail(msg []byte) (SwapFail, error)         { return nil, nil }
func (demoParser) GetTxID(pset string) (string, error) { return "", nil }
func (demoParser) GetTxHex(pset string) (string, error) { return "", nil }
func TestDemo(t *testing.T) {
	SwapParserManager, PsetParserManager = demoParser{}, demoParser{}
	tr := NewTrade()
	tr.Status = ProposalStatus
	tr.Fail("x", 1, "boom")
	if ok, err := tr.Accept("pset", nil, nil, 100); ok || err == nil {
		t.Fatal("accepted a failed proposal")
	}
}
''')
S("trade-settle-keeps-expiry", "C05", TRADE,
  [("	t.ExpiryTime = 0\n	t.SettlementTime = settlementTime", "	if t.Status.Failed {\n		t.ExpiryTime = 0\n	}\n	t.SettlementTime = settlementTime")],
  "a trade settled on the happy path, looked at again after its expiry date", "a settled trade is later expired",
  '''
package domain
import "testing"
func TestDemo(t *testing.T) {
	tr := NewTrade()
	tr.Status = CompletedStatus
	tr.ExpiryTime = 1000
	if ok, err := tr.Settle(900); !ok || err != nil {
		t.Fatal(ok, err)
	}
	if ok, _ := tr.Expire(); ok || tr.Status != SettledStatus {
		t.Fatal("settled trade expired", tr.Status)
	}
}
''')
S("formula-whole-reserve", "C02", "pkg/marketmaking/formula/balanced_reserves.go",
  [("	if amount >= opts.BalanceOut {\n		return 0, ErrAmountTooBig", "	if amount > opts.BalanceOut {\n		return 0, ErrAmountTooBig")],
  "a requested output that reaches exactly the whole reserve once the output-side fee is added", "asking for the whole reserve crashes instead of being refused",
  '''
package formula
import "testing"
func TestDemo(t *testing.T) {
	_, err := BalancedReserves{}.InGivenOut(BalancedReservesOpts{BalanceIn: 1000, BalanceOut: 1500, Fee: 5000}, 1000)
	if err == nil {
		t.Fatal("not refused")
	}
}
''')
S("market-pluggable-keeps-price", "C01", "internal/core/domain/market_service.go",
  [("	m.ChangeBasePrice(decimal.NewFromInt(0))\n	m.ChangeQuotePrice(decimal.NewFromInt(0))", "	if !m.IsStrategyPluggableInitialized() {\n		m.ChangeBasePrice(decimal.NewFromInt(0))\n		m.ChangeQuotePrice(decimal.NewFromInt(0))\n	}")],
  "a market that was pluggable and priced, made balanced, and made pluggable again", "the old price survives the switch, so the market reopens with a stale price",
  '''
package domain
import ("testing"; "github.com/shopspring/decimal")
func TestDemo(t *testing.T) {
	m := &Market{BaseAsset: "a", QuoteAsset: "b"}
	m.ChangeBasePrice(decimal.NewFromInt(2))
	m.ChangeQuotePrice(decimal.NewFromInt(3))
	m.MakeStrategyBalanced()
	m.MakeStrategyPluggable()
	if m.MakeTradable() == nil {
		t.Fatal("reopened with a stale price")
	}
}
''')
S("fee-reported-ceil", "C04", "pkg/mathutil/fees.go" if os.path.exists("/repo/pkg/mathutil/fees.go") else "pkg/mathutil/fee.go",
  [("	percentage := decimal.NewFromInt(1).Sub(feeDecimal)\n\n	calculatedFee = amountDecimal.Mul(feeDecimal).BigInt().Uint64()\n	withFee = amountDecimal.Mul(percentage).BigInt().Uint64()", "	percentage := decimal.NewFromInt(1).Sub(feeDecimal)\n\n	withFee = amountDecimal.Mul(percentage).BigInt().Uint64()\n	calculatedFee = amount - withFee")],
  "an amount whose fee is not a whole number of units", "the reported fee is one unit too high",
  '''
package mathutil
import "testing"
func TestDemo(t *testing.T) {
	if _, f := LessFee(1001, 25); f != 2 {
		t.Fatal(f)
	}
}
''')
S("preview-limit-itself", "C03", "internal/core/domain/market_service.go",
  [("		if amount < uint64(m.FixedFee.BaseFee) {\n", "		if amount <= uint64(m.FixedFee.BaseFee) {\n")],
  "an amount of the base asset that is exactly the fixed base fee", "an amount the market must quote is refused",
  '''
package domain
import ("testing"; "github.com/shopspring/decimal")
func TestDemo(t *testing.T) {
	m := &Market{BaseAsset: "a", QuoteAsset: "b"}
	m.FixedFee = FixedFee{BaseFee: 1000, QuoteFee: 10}
	m.MakeStrategyPluggable()
	m.ChangeBasePrice(decimal.NewFromInt(2))
	m.ChangeQuotePrice(decimal.NewFromInt(2))
	m.MakeTradable()
	if _, err := m.Preview(100000, 100000, 1000, true, true); err != nil {
		t.Fatal(err)
	}
}
''')
S("lock-by-pointer", "C07", "internal/core/domain/unspent_service.go",
  [("tradeID.String() != u.LockedBy.String()", "u.LockedBy != tradeID")],
  "a second lock of the same output by the same trade whose id was read again from the database", "a trade is refused the output it holds itself",
  '''
package domain
import ("testing"; "github.com/google/uuid")
func TestDemo(t *testing.T) {
	u := &Unspent{}
	id := uuid.New()
	again, _ := uuid.Parse(id.String())
	if err := u.Lock(&id); err != nil {
		t.Fatal(err)
	}
	if err := u.Lock(&again); err != nil {
		t.Fatal("refused to the trade that holds it:", err)
	}
}
''')
S("balance-of-spent", "C08", "internal/infrastructure/storage/db/badger/unspent_repository_impl.go",
  [("""	query := badgerhold.Where("AssetHash").Eq(assetHash).
		And("Spent").Eq(false).
""", """	query := badgerhold.Where("AssetHash").Eq(assetHash).
""")],
  "a confirmed output that has been spent, and a balance asked afterwards", "the balance counts spent outputs",
  '''
package dbbadger
import ("context"; "testing"; "github.com/tdex-network/tdex-daemon/internal/core/domain")
func TestDemo(t *testing.T) {
	rm, err := NewRepoManager("", nil)
	if err != nil {
		t.Fatal(err)
	}
	defer rm.Close()
	r, ctx := rm.UnspentRepository(), context.Background()
	u := domain.Unspent{TxID: "aa", VOut: 1, Value: 7, AssetHash: "x", Address: "a", Confirmed: true}
	if err := r.AddUnspents(ctx, []domain.Unspent{u}); err != nil {
		t.Fatal(err)
	}
	if _, err := r.SpendUnspents(ctx, []domain.UnspentKey{u.Key()}); err != nil {
		t.Fatal(err)
	}
	if b, err := r.GetBalance(ctx, []string{"a"}, "x"); b != 0 || err != nil {
		t.Fatal("balance", b, err)
	}
}
''')
S("lock-key-without-vout", "C07", "internal/infrastructure/storage/db/badger/unspent_repository_impl.go",
  [("""		err = u.lockStore.TxInsert(tx, encKey, LockedUnspent{tradeID})
	} else {
		err = u.lockStore.Insert(encKey, LockedUnspent{tradeID})
""", """		err = u.lockStore.TxUpsert(tx, encKey, LockedUnspent{tradeID})
	} else {
		err = u.lockStore.Upsert(encKey, LockedUnspent{tradeID})
""")],
  "two trades that find the same output free and lock it one after the other (both have passed the check for an existing lock)", "the second lock takes the output away from the first trade",
  '''
package dbbadger
import ("context"; "testing"; "github.com/google/uuid"; "github.com/tdex-network/tdex-daemon/internal/core/domain")
func TestDemo(t *testing.T) {
	rm, err := NewRepoManager("", nil)
	if err != nil {
		t.Fatal(err)
	}
	defer rm.Close()
	r, ctx := rm.UnspentRepository().(unspentRepositoryImpl), context.Background()
	k := domain.UnspentKey{TxID: "aa", VOut: 1}
	a, b := uuid.New(), uuid.New()
	if ok, err := r.insertLock(ctx, k, a); !ok || err != nil {
		t.Fatal(ok, err)
	}
	if ok, _ := r.insertLock(ctx, k, b); ok {
		t.Fatal("locked twice")
	}
	if id, err := r.getLock(ctx, k); err != nil || id.String() != a.String() {
		t.Fatal("the lock changed hands", id, err)
	}
}
''')
S("update-market-other-key", "C08", "internal/infrastructure/storage/db/badger/market_repository_impl.go",
  [("	updatedMarket, err := updateFn(currentMarket)\n	if err != nil {\n		return err\n	}\n", "	updatedMarket, err := updateFn(currentMarket)\n	if err != nil {\n		return err\n	}\n	if updatedMarket == currentMarket && !currentMarket.IsFunded() {\n		return nil\n	}\n")],
  "an update of a market that is not funded yet", "the update is reported as done but nothing is stored",
  '''
package dbbadger
import ("context"; "testing"; "github.com/tdex-network/tdex-daemon/internal/core/domain")
func TestDemo(t *testing.T) {
	rm, err := NewRepoManager("", nil)
	if err != nil {
		t.Fatal(err)
	}
	defer rm.Close()
	r, ctx := rm.MarketRepository(), context.Background()
	if _, err := r.GetOrCreateMarket(ctx, &domain.Market{AccountIndex: 5, Fee: 25}); err != nil {
		t.Fatal(err)
	}
	if err := r.UpdateMarket(ctx, 5, func(m *domain.Market) (*domain.Market, error) {
		m.Fee = 50
		return m, nil
	}); err != nil {
		t.Fatal(err)
	}
	if m, err := r.GetMarketByAccount(ctx, 5); err != nil || m.Fee != 50 {
		t.Fatal("not stored", m, err)
	}
}
''')
S("commit-conflict-is-success", "C08", "internal/infrastructure/storage/db/badger/db_manager.go",
  [("				if !isTransactionConflict(err) {\n					return nil, err\n				}\n				time.Sleep(50 * time.Millisecond)\n				continue\n", "				if !isTransactionConflict(err) {\n					return nil, err\n				}\n				time.Sleep(50 * time.Millisecond)\n				if err := tx.Commit(); isTransactionConflict(err) {\n					continue\n				}\n")],
  "two transactions that conflict when committed", "the second commit of the same transaction is reported as a success and its changes are lost",
  '''
package dbbadger
import ("context"; "testing"; "github.com/dgraph-io/badger/v2"; "github.com/google/uuid"; "github.com/tdex-network/tdex-daemon/internal/core/domain")
func TestDemo(t *testing.T) {
	rm, err := NewRepoManager("", nil)
	if err != nil {
		t.Fatal(err)
	}
	defer rm.Close()
	_ = badger.ErrConflict
	r, ctx := rm.TradeRepository(), context.Background()
	id := uuid.New()
	if _, err := r.GetOrCreateTrade(ctx, &id); err != nil {
		t.Fatal(err)
	}
	set := func(c context.Context, f func(*domain.Trade)) error {
		return r.UpdateTrade(c, &id, func(t *domain.Trade) (*domain.Trade, error) { f(t); return t, nil })
	}
	n := 0
	_, err = rm.RunTransaction(ctx, false, func(c context.Context) (interface{}, error) {
		n++
		if err := set(c, func(t *domain.Trade) { t.TxID = "mine" }); err != nil {
			return nil, err
		}
		if n == 1 {
			return nil, set(ctx, func(t *domain.Trade) { t.TxHex = "other" })
		}
		return nil, nil
	})
	if err != nil {
		t.Fatal(err)
	}
	if tr, err := r.GetOrCreateTrade(ctx, &id); err != nil || tr.TxID != "mine" || tr.TxHex != "other" {
		t.Fatal("lost", tr.TxID, tr.TxHex, err)
	}
}
''')
S("withdraw-same-asset-twice", "C10", "pkg/wallet/transaction.go",
  [("		totalAmountsByAsset[asset] += bufferutil.ValueFromBytes(out.Value)\n", "		if value := bufferutil.ValueFromBytes(out.Value); value > totalAmountsByAsset[asset] {\n			totalAmountsByAsset[asset] = value\n		}\n")],
  "a transaction with two recipients of the same asset", "the coins selected cover only the larger of the two outputs",
  '''
package wallet
import ("testing"; "github.com/vulpemventures/go-elements/transaction"; "github.com/vulpemventures/go-elements/network")
func TestDemo(t *testing.T) {
	a := network.Regtest.AssetID
	o1, err := newTxOutput(a, 600, []byte{1})
	if err != nil {
		t.Fatal(err)
	}
	o2, _ := newTxOutput(a, 500, []byte{2})
	opts := UpdateTxOpts{Outputs: []*transaction.TxOutput{o1, o2}}
	if n := opts.getOutputsTotalAmountsByAsset()[a]; n != 1100 {
		t.Fatal(n)
	}
}
''')
S("blinding-key-of-last-script", "C12", "pkg/wallet/keys.go",
  [("	_, blindingPubkey, err := w.DeriveBlindingKeyPair(DeriveBlindingKeyPairOpts{\n		Script: script,\n	})\n	if err != nil {\n		return \"\", nil, err\n	}\n", "	_, blindingPubkey, err := w.DeriveBlindingKeyPair(DeriveBlindingKeyPairOpts{\n		Script: script[2:],\n	})\n	if err != nil {\n		return \"\", nil, err\n	}\n")],
  "money sent to an address and looked at later with the blinding key of its script", "the address is blinded with a key nobody derives for its script, so what it receives cannot be seen",
  '''
package wallet
import ("bytes"; "testing"; "github.com/vulpemventures/go-elements/address"; "github.com/vulpemventures/go-elements/network")
func TestDemo(t *testing.T) {
	w, err := NewWallet(NewWalletOpts{})
	if err != nil {
		t.Fatal(err)
	}
	addr, script, err := w.DeriveConfidentialAddress(DeriveConfidentialAddressOpts{DerivationPath: "0'/0/0", Network: &network.Regtest})
	if err != nil {
		t.Fatal(err)
	}
	_, pub, _ := w.DeriveBlindingKeyPair(DeriveBlindingKeyPairOpts{Script: script})
	ct, err := address.FromConfidential(addr)
	if err != nil || !bytes.Equal(ct.BlindingKey, pub.SerializeCompressed()) {
		t.Fatal("address blinded with another key", err)
	}
}
''')
S("passphrase-hash-first", "C13", "internal/core/domain/vault_service.go",
  [("	mnemonic, err := EncrypterManager.Decrypt(v.EncryptedMnemonic, currentPassphrase)\n	if err != nil {\n		return err\n	}\n\n	encryptedMnemonic, err := EncrypterManager.Encrypt(mnemonic, newPassphrase)", "	mnemonic, err := EncrypterManager.Decrypt(v.EncryptedMnemonic, currentPassphrase)\n	if err != nil {\n		return err\n	}\n\n	v.PassphraseHash = btcutil.Hash160([]byte(newPassphrase))\n	encryptedMnemonic, err := EncrypterManager.Encrypt(mnemonic, newPassphrase)"),
   ("	v.EncryptedMnemonic = encryptedMnemonic\n	v.PassphraseHash = btcutil.Hash160([]byte(newPassphrase))\n", "	v.EncryptedMnemonic = encryptedMnemonic\n")],
  "a change of passphrase whose encryption fails (an empty new passphrase), then another attempt", "the refused change leaves the vault with a passphrase hash that does not match its encryption: the owner can never change it again",
  '''
package domain
import ("errors"; "testing"; "github.com/btcsuite/btcutil")
type demoCrypto struct{}
func (demoCrypto) Encrypt(m, p string) (string, error) {
	if p == "" {
		return "", errors.New("empty passphrase")
	}
	return p + ":" + m, nil
}
func (demoCrypto) Decrypt(e, p string) (string, error) { return e[len(p)+1:], nil }
type demoStore struct{}
func (demoStore) Set(string)    {}
func (demoStore) Unset()        {}
func (demoStore) IsSet() bool   { return false }
func (demoStore) Get() []string { return nil }
func TestDemo(t *testing.T) {
	EncrypterManager, MnemonicStoreManager = demoCrypto{}, demoStore{}
	v := &Vault{EncryptedMnemonic: "old:seed", PassphraseHash: btcutil.Hash160([]byte("old"))}
	if v.ChangePassphrase("old", "") == nil {
		t.Fatal("accepted")
	}
	if err := v.ChangePassphrase("old", "new"); err != nil {
		t.Fatal(err)
	}
}
''')
S("price-bound-exclusive", "C15", "internal/core/application/trade_service.go",
  [("return amountToCheck.GreaterThanOrEqual(lowerBound) &&", "return amountToCheck.GreaterThan(lowerBound) &&")],
  "a request exactly at the lower bound of the slippage", "a swap priced exactly at the bound is refused",
  '''
package application
import ("testing"; "github.com/shopspring/decimal"; "github.com/tdex-network/tdex-daemon/internal/core/domain")
type demoReq struct{ domain.SwapRequest }
func (demoReq) GetAmountP() uint64 { return 99 }
func (demoReq) GetAmountR() uint64 { return 99 }
func TestDemo(t *testing.T) {
	if !isPriceInRange(demoReq{}, TradeSell, 100, true, decimal.NewFromFloat(0.01)) {
		t.Fatal("99 is 1% below 100")
	}
}
''')
S("expired-unlock-before-check", "C16", "internal/core/application/trade_service.go",
  [("	if trade.IsExpired() {\n		t.blockchainListener.StopObserveTx(trade.TxID)\n", "	if trade.IsExpired() || trade.IsCompleted() {\n		t.blockchainListener.StopObserveTx(trade.TxID)\n")],
  "a trade completed (its transaction broadcast) but not confirmed when its expiry timer goes off", "the transaction of a completed trade is no longer watched and its outputs are unlocked",
  '''
package application
import ("context"; "testing"; "github.com/tdex-network/tdex-daemon/internal/core/domain"; "github.com/tdex-network/tdex-daemon/internal/core/ports")
type demoRM struct{ ports.RepoManager }
type demoTrades struct{ domain.TradeRepository }
type demoUnspents struct{ domain.UnspentRepository }
type demoListener struct{ BlockchainListener }
var unlocked, stopped int
func (demoRM) TradeRepository() domain.TradeRepository { return demoTrades{} }
func (demoRM) UnspentRepository() domain.UnspentRepository { return demoUnspents{} }
func (demoTrades) GetTradeByTxID(context.Context, string) (*domain.Trade, error) {
	tr := domain.NewTrade()
	tr.Status = domain.CompletedStatus
	tr.ExpiryTime = 99999999999
	return tr, nil
}
func (demoTrades) UpdateTrade(_ context.Context, _ *demoID, _ func(*domain.Trade) (*domain.Trade, error)) error { return nil }
func (demoUnspents) UnlockUnspents(_ context.Context, k []domain.UnspentKey) (int, error) { unlocked += len(k); return len(k), nil }
func (demoListener) StopObserveTx(string) { stopped++ }
func TestDemo(t *testing.T) {
	svc := &tradeService{repoManager: demoRM{}, blockchainListener: demoListener{}}
	svc.checkTradeExpiration("tx", []domain.UnspentKey{{TxID: "a"}})
	if unlocked != 0 || stopped != 0 {
		t.Fatal("a completed trade was given up", unlocked, stopped)
	}
}
'''.replace("type demoRM","type demoID = uuid.UUID\ntype demoRM").replace('"testing";','"testing"; "github.com/google/uuid";'))
S("confirm-only-confirmed", "C17", "internal/core/application/blockchain_listener.go",
  [("UnspentRepository().GetAllUnspentsForAddresses(ctx, unspentAddresses)", "UnspentRepository().GetUnspentsForAddresses(ctx, unspentAddresses)")],
  "outputs stored unconfirmed when the trade was completed, then confirmed on chain", "outputs already known stay unconfirmed for ever",
  '''
package application
import (
	"context"; "strings"; "testing"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/vulpemventures/go-elements/network"
)
type demoRM struct{ ports.RepoManager }
type demoMarkets struct{ domain.MarketRepository }
type demoVaults struct{ domain.VaultRepository }
type demoUnspents struct{ domain.UnspentRepository }
type demoTM struct{}
var confirmed int
func (demoRM) MarketRepository() domain.MarketRepository { return demoMarkets{} }
func (demoRM) VaultRepository() domain.VaultRepository { return demoVaults{} }
func (demoRM) UnspentRepository() domain.UnspentRepository { return demoUnspents{} }
func (demoMarkets) GetMarketByAsset(context.Context, string) (*domain.Market, int, error) { return &domain.Market{AccountIndex: 5}, 5, nil }
func (demoVaults) GetOrCreateVault(context.Context, []string, string, *network.Network) (*domain.Vault, error) {
	v := &domain.Vault{EncryptedMnemonic: "x", Accounts: map[int]*domain.Account{}, Network: &network.Regtest}
	v.InitAccount(0)
	v.InitAccount(5)
	return v, nil
}
type demoStore struct{}
func (demoStore) Set(string)  {}
func (demoStore) Unset()      {}
func (demoStore) IsSet() bool { return true }
func (demoStore) Get() []string {
	return strings.Split("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about", " ")
}
func (demoUnspents) GetAllUnspentsForAddresses(context.Context, []string) ([]domain.Unspent, error) { return []domain.Unspent{{TxID: "t"}}, nil }
func (demoUnspents) GetUnspentsForAddresses(context.Context, []string) ([]domain.Unspent, error) { return nil, nil }
func (demoUnspents) ConfirmUnspents(_ context.Context, k []domain.UnspentKey) (int, error) { confirmed += len(k); return len(k), nil }
func (demoUnspents) AddUnspents(context.Context, []domain.Unspent) error { return nil }
func (demoUnspents) SpendUnspents(context.Context, []domain.UnspentKey) (int, error) { return 0, nil }
func (demoTM) ExtractUnspents(string, map[string]domain.AddressInfo, *network.Network) ([]domain.Unspent, []domain.UnspentKey, error) {
	return []domain.Unspent{{TxID: "t", Address: "a"}}, nil, nil
}
func (demoTM) ExtractBlindingData(string, map[string][]byte, map[string][]byte) (map[int]BlindingData, map[int]BlindingData, error) { return nil, nil, nil }
func TestDemo(t *testing.T) {
	TransactionManager = demoTM{}
	domain.MnemonicStoreManager = demoStore{}
	b := newBlockchainListener(nil, demoRM{}, nil, "", nil)
	if err := b.confirmOrAddUnspents("hex", "t", "q"); err != nil {
		t.Fatal(err)
	}
	if confirmed != 1 {
		t.Fatal("not confirmed")
	}
}
''')
S("read-permission-opens-market", "C18", "internal/interfaces/grpc/permissions/permissions.go",
  [("""		"/Operator/DropMarket": {{
			Entity: EntityMarket,
			Action: "write",
""", """		"/Operator/DropMarket": {{
			Entity: EntityMarket,
			Action: "read",
""")],
  "a caller with the read-only macaroon that drops a market", "a read-only macaroon can delete a market",
  '''
package permissions
import "testing"
func TestDemo(t *testing.T) {
	for _, need := range AllPermissionsByMethod()["/Operator/DropMarket"] {
		for _, have := range ReadOnlyPermissions() {
			if need == have {
				t.Fatal("read-only may drop markets")
			}
		}
	}
}
''')
S("claim-vout-of-list", "C22", "internal/core/application/operator_service.go",
  [("				VOut:            uint32(v.Index),\n", "				VOut:            uint32(i),\n")],
  "a deposit claimed with an outpoint whose index differs from its place in the list", "the deposit is stored under another outpoint, which the wallet cannot spend",
  '''
package application
import (
	"context"; "testing"; "time"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
	"github.com/vulpemventures/go-elements/transaction"
)
type demoRM struct{ ports.RepoManager }
type demoUnspents struct{ domain.UnspentRepository }
type demoExplorer struct{ explorer.Service }
type demoTx struct{ explorer.Transaction }
type demoBlinder struct{}
var got = make(chan []domain.Unspent, 10)
func (demoRM) UnspentRepository() domain.UnspentRepository { return demoUnspents{} }
func (demoUnspents) AddUnspents(_ context.Context, u []domain.Unspent) error { got <- u; return nil }
func (demoUnspents) GetBalance(context.Context, []string, string) (uint64, error) { return 0, nil }
func (demoExplorer) IsTransactionConfirmed(string) (bool, error) { return true, nil }
func (demoExplorer) GetTransaction(string) (explorer.Transaction, error) { return demoTx{}, nil }
func (demoTx) Outputs() []*transaction.TxOutput {
	o := func(b byte) *transaction.TxOutput { return &transaction.TxOutput{Script: []byte{b}, Value: make([]byte, 33), Asset: make([]byte, 33)} }
	return []*transaction.TxOutput{o(1), o(2), o(3)}
}
func (demoBlinder) UnblindOutput(*transaction.TxOutput, []byte) (UnblindedResult, bool) {
	return UnblindedResult(&transactionutil.UnblindedResult{Value: 5, AssetHash: "x"}), true
}
func TestDemo(t *testing.T) {
	BlinderManager = demoBlinder{}
	o := &operatorService{repoManager: demoRM{}, explorerSvc: demoExplorer{}}
	infos := map[int]domain.AddressesInfo{0: {{AccountIndex: 0, Address: "a", Script: "03"}}}
	if err := o.claimDeposit(context.Background(), infos, []TxOutpoint{{Hash: "tx", Index: 2}}, feeDeposit); err != nil {
		t.Fatal(err)
	}
	select {
	case u := <-got:
		if u[0].VOut != 2 {
			t.Fatal("stored as output", u[0].VOut)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("nothing stored")
	}
}
''')
S("fee-report-current-fee", "C23", "internal/core/application/operator_service.go",
  [("		feeBasisPoint := trade.MarketFee\n", "		feeBasisPoint := m.Fee\n")],
  "a market whose fee was changed after some of its trades", "past trades are reported with the market's fee of today",
  '''
package application
import ("context"; "testing"; "github.com/tdex-network/tdex-daemon/internal/core/domain"; "github.com/tdex-network/tdex-daemon/internal/core/ports")
type demoRM struct{ ports.RepoManager }
type demoMarkets struct{ domain.MarketRepository }
type demoTrades struct{ domain.TradeRepository }
type demoParser struct{ domain.SwapParser }
type demoReq struct{ domain.SwapRequest }
func (demoReq) GetAssetP() string { return "b" }
func (demoReq) GetAmountP() uint64 { return 10000 }
func (demoParser) DeserializeRequest([]byte) (domain.SwapRequest, error) { return demoReq{}, nil }
func (demoRM) MarketRepository() domain.MarketRepository { return demoMarkets{} }
func (demoRM) TradeRepository() domain.TradeRepository { return demoTrades{} }
func (demoMarkets) GetMarketByAsset(context.Context, string) (*domain.Market, int, error) {
	return &domain.Market{AccountIndex: 5, BaseAsset: "b", QuoteAsset: "q", Fee: 100}, 5, nil
}
func (demoTrades) GetCompletedTradesByMarket(context.Context, string) ([]*domain.Trade, error) {
	tr := domain.NewTrade()
	tr.MarketFee = 25
	tr.Status = domain.CompletedStatus
	tr.SwapRequest.Message = []byte("m")
	return []*domain.Trade{tr}, nil
}
func TestDemo(t *testing.T) {
	domain.SwapParserManager = demoParser{}
	o := &operatorService{repoManager: demoRM{}}
	rep, err := o.GetCollectedMarketFee(context.Background(), Market{BaseAsset: "b", QuoteAsset: "q"})
	if err != nil || rep.CollectedFees[0].BasisPoint != 25 || rep.CollectedFees[0].Amount != 25 {
		t.Fatal(rep, err)
	}
}
''')
S("complete-names-request", "C06", "pkg/swap/complete.go",
  [("		AcceptId:    msgAccept.GetId(),\n", "		AcceptId:    msgAccept.GetRequestId(),\n")],
  "an accept whose id differs from that of its request, completed", "the complete message names the request instead of the accept, so its trade is not found",
  '''
package swap
import ("testing"; pb "github.com/tdex-network/tdex-protobuf/generated/go/swap"; "github.com/vulpemventures/go-elements/transaction"; "google.golang.org/protobuf/proto")
func TestDemo(t *testing.T) {
	acc, _ := proto.Marshal(&pb.SwapAccept{Id: "accept", RequestId: "request"})
	hex, err := transaction.NewTx(2).ToHex()
	if err != nil {
		t.Fatal(err)
	}
	_, msg, err := Complete(CompleteOpts{Message: acc, Transaction: hex})
	if err != nil {
		t.Fatal(err)
	}
	var c pb.SwapComplete
	if err := proto.Unmarshal(msg, &c); err != nil || c.GetAcceptId() != "accept" {
		t.Fatal(c.GetAcceptId(), err)
	}
}
''')
S("nonce-from-key", "C14", "pkg/wallet/cypher.go",
  [("	if _, err = rand.Read(nonce); err != nil {\n		return \"\", err\n	}\n", "	copy(nonce, salt)\n")],
  "looking at what is kept: the nonce repeats the salt, which no round trip shows", "the nonce is not fresh: it is a part of the salt",
  '''
package wallet
import ("bytes"; "encoding/base64"; "testing")
func TestDemo(t *testing.T) {
	c, err := Encrypt(EncryptOpts{PlainText: "some words", Passphrase: "pass"})
	if err != nil {
		t.Fatal(err)
	}
	data, _ := base64.StdEncoding.DecodeString(c)
	nonce, salt := data[:12], data[len(data)-32:]
	for i := 0; i+4 <= len(salt); i++ {
		if bytes.Contains(nonce, salt[i:i+4]) {
			t.Fatal("the nonce tells the salt")
		}
	}
}
''')
S("store-open-on-wrong-password", "C14", "pkg/securestore/bolt/store.go",
  [("			if err := encKey.DeriveKey(password); err != nil {\n				return ErrInvalidPassword\n			}\n\n			s.encKey = encKey\n			return nil", "			s.encKey = encKey\n			if err := encKey.DeriveKey(password); err != nil {\n				return ErrInvalidPassword\n			}\n\n			return nil")],
  "an attempt with a wrong password, then the use of the store", "a failed unlock leaves the store unlocked with a wrong key, under which new values are stored and lost",
  '''
package boltsecurestore
import ("io/ioutil"; "os"; "testing")
func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	s, err := NewSecureStorage(dir, "demo.db")
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	good, bad := []byte("good"), []byte("bad")
	if err := s.CreateUnlock(&good); err != nil {
		t.Fatal(err)
	}
	s.Lock()
	if s.CreateUnlock(&bad) == nil {
		t.Fatal("opened by a wrong password")
	}
	if !s.IsLocked() {
		t.Fatal("left open")
	}
}
''')
S("half-a-root-key", "C14", "pkg/macaroons/store.go",
  [("	if _, err := io.ReadFull(rand.Reader, rootKey); err != nil {", "	if _, err := io.ReadFull(rand.Reader, rootKey[:RootKeyLen/2]); err != nil {")],
  "looking at the root key itself: everything made with it works", "only half of the bytes of a root key are random, the rest are zero",
  '''
package macaroons
import ("bytes"; "context"; "io/ioutil"; "os"; "path/filepath"; "testing"; "github.com/tdex-network/tdex-daemon/pkg/securestore/kvdb")
func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	db, err := kvdb.Create(kvdb.BoltBackendName, filepath.Join(dir, "demo.db"), true, kvdb.DefaultDBTimeout)
	if err != nil {
		t.Fatal(err)
	}
	s, err := NewRootKeyStorage(db)
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	pw := []byte("pw")
	if err := s.CreateUnlock(&pw); err != nil {
		t.Fatal(err)
	}
	k, _, err := s.RootKey(ContextWithRootKeyID(context.Background(), DefaultRootKeyID))
	if err != nil || len(k) != 32 {
		t.Fatal(err, k)
	}
	if bytes.Count(k, []byte{0}) > 8 {
		t.Fatal("not random", k)
	}
}
''')
DEMOSTORE = '''
type demoStore struct {
	securestore.SecureStorage
	m map[string][]byte
}
func (s *demoStore) GetFromBucket(b, k []byte) ([]byte, error) { return s.m[string(b)+"/"+string(k)], nil }
func (s *demoStore) AddToBucket(b, k, v []byte) error {
	s.m[string(b)+"/"+string(k)] = append([]byte{}, v...)
	return nil
}
func (s *demoStore) RemoveFromBucket(b, k []byte) error {
	delete(s.m, string(b)+"/"+string(k))
	return nil
}
'''
S("all-requests-to-the-last", "C19", "internal/infrastructure/pubsub/webhook/service.go",
  [("	for i := range hooks {\n		hook := hooks[i]\n		eg.Go(func() error { return ws.doRequest(hook, message) })\n	}", "	for _, hook := range hooks {\n		hook := &hook\n		eg.Go(func() error { return ws.doRequest(*hook, message) })\n	}")],
  "two webhooks for one topic, requests that start after the loop", "every request goes to the last of the webhooks, the others are told nothing",
  '''
package webhookpubsub
import ("net/http"; "net/http/httptest"; "sync"; "testing"; "time"; "github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"; "github.com/tdex-network/tdex-daemon/pkg/securestore"; "github.com/tdex-network/tdex-daemon/pkg/circuitbreaker")
''' + DEMOSTORE + '''
func TestDemo(t *testing.T) {
	var mu sync.Mutex
	seen := map[string]int{}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		seen[r.URL.Path]++
		mu.Unlock()
		w.WriteHeader(200)
	}))
	defer srv.Close()
	ws := &webhookService{store: webhookStore{&demoStore{m: map[string][]byte{}}}, httpClient: esplora.NewHTTPClient(5 * time.Second), cb: circuitbreaker.NewCircuitBreaker()}
	for _, p := range []string{"/a", "/b", "/c"} {
		if _, err := ws.Subscribe("TRADE_SETTLED", srv.URL+p, ""); err != nil {
			t.Fatal(err)
		}
	}
	for i := 0; i < 20; i++ {
		if err := ws.Publish("TRADE_SETTLED", "{}"); err != nil {
			t.Fatal(err)
		}
	}
	mu.Lock()
	defer mu.Unlock()
	if seen["/a"] != 20 || seen["/b"] != 20 || seen["/c"] != 20 {
		t.Fatal(seen)
	}
}
''')
S("unsubscribe-by-endpoint", "C19", "internal/infrastructure/pubsub/webhook/service.go",
  [("		if hh.ID == hook.ID {", "		if hh.Endpoint == hook.Endpoint {")],
  "two webhooks of one action with the same endpoint, the second one unsubscribed", "another webhook is removed from those of the action: it is told nothing more, the one unsubscribed still is",
  '''
package webhookpubsub
import ("testing"; "github.com/tdex-network/tdex-daemon/pkg/securestore")
''' + DEMOSTORE + '''
func TestDemo(t *testing.T) {
	ws := &webhookService{store: webhookStore{&demoStore{m: map[string][]byte{}}}}
	a, err := ws.Subscribe("TRADE_SETTLED", "http://localhost/hook", "one")
	if err != nil {
		t.Fatal(err)
	}
	b, err := ws.Subscribe("TRADE_SETTLED", "http://localhost/hook", "two")
	if err != nil {
		t.Fatal(err)
	}
	if err := ws.Unsubscribe("TRADE_SETTLED", b); err != nil {
		t.Fatal(err)
	}
	l := ws.ListSubscriptionsForTopic("TRADE_SETTLED")
	if len(l) != 1 || l[0].Id() != a {
		t.Fatal("not the one unsubscribed")
	}
}
''')
