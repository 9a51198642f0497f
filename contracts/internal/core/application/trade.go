//go:build go1.22

package application

import (
	"context"
	"errors"
	"time"

	"github.com/google/uuid"
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

// ---- the world around the trade service: any repositories, any parser, any
// wallet answers. Every fake answers with arbitrary values and remembers what
// it was asked to do.

var vcAnError = errors.New("some error")

func vcE(fails bool) error {
	if fails {
		return vcAnError
	}
	return nil
}

type vcWorld struct {
	ports.RepoManager
	V *vcVaults
	M *vcMarkets
	U *vcUnspents
	T *vcTrades
}

func (w *vcWorld) VaultRepository() domain.VaultRepository     { return w.V }
func (w *vcWorld) MarketRepository() domain.MarketRepository   { return w.M }
func (w *vcWorld) UnspentRepository() domain.UnspentRepository { return w.U }
func (w *vcWorld) TradeRepository() domain.TradeRepository     { return w.T }
func (w *vcWorld) RunTransaction(ctx context.Context, readOnly bool, handler func(ctx context.Context) (interface{}, error)) (interface{}, error) {
	return handler(ctx)
}

type vcVaults struct {
	domain.VaultRepository
	Vault             *domain.Vault
	Fails             bool
	FeeInfo, MktInfo  domain.AddressesInfo
	FeeFails, MktFails bool
	Asked             int // account whose addresses were asked
	Stored            int
	StoredVault       *domain.Vault
}

func (r *vcVaults) GetOrCreateVault(ctx context.Context, m []string, p string, n *network.Network) (*domain.Vault, error) {
	if r.Fails {
		return nil, vcAnError
	}
	return r.Vault, nil
}
func (r *vcVaults) GetAllDerivedAddressesInfoForAccount(ctx context.Context, account int) (domain.AddressesInfo, error) {
	if account == domain.FeeAccount {
		return r.FeeInfo, vcE(r.FeeFails)
	}
	r.Asked = account
	return r.MktInfo, vcE(r.MktFails)
}
func (r *vcVaults) GetAllDerivedExternalAddressesInfoForAccount(ctx context.Context, account int) (domain.AddressesInfo, error) {
	return r.GetAllDerivedAddressesInfoForAccount(ctx, account)
}
func (r *vcVaults) UpdateVault(ctx context.Context, fn func(v *domain.Vault) (*domain.Vault, error)) error {
	v, err := fn(r.Vault)
	if err != nil {
		return err
	}
	r.Stored++
	r.StoredVault = v
	return nil
}

type vcMarkets struct {
	domain.MarketRepository
	Market   *domain.Market
	Account  int
	Fails    bool
	Asked    string
	Writes   int // changes made, and the last one
	WriteAt  int
	Written  *domain.Market
	WriteFails bool
	Opened, Closed string
	Prices   domain.Prices
	Latest   int
	Created  int
	CreatedM *domain.Market
	All      []domain.Market
}

func (r *vcMarkets) GetMarketByAsset(ctx context.Context, quote string) (*domain.Market, int, error) {
	r.Asked = quote
	if r.Fails {
		return nil, -1, vcAnError
	}
	return r.Market, r.Account, nil
}
func (r *vcMarkets) UpdateMarket(ctx context.Context, account int, fn func(m *domain.Market) (*domain.Market, error)) error {
	m, err := fn(r.Market)
	if err != nil {
		return err
	}
	if r.WriteFails {
		return vcAnError
	}
	r.Writes++
	r.WriteAt = account
	r.Written = m
	return nil
}
func (r *vcMarkets) OpenMarket(ctx context.Context, quote string) error {
	if r.WriteFails {
		return vcAnError
	}
	r.Writes++
	r.Opened = quote
	return nil
}
func (r *vcMarkets) CloseMarket(ctx context.Context, quote string) error {
	if r.WriteFails {
		return vcAnError
	}
	r.Writes++
	r.Closed = quote
	return nil
}
func (r *vcMarkets) UpdatePrices(ctx context.Context, account int, p domain.Prices) error {
	if r.WriteFails {
		return vcAnError
	}
	r.Writes++
	r.WriteAt = account
	r.Prices = p
	return nil
}
func (r *vcMarkets) GetLatestMarket(ctx context.Context) (*domain.Market, int, error) {
	return r.Market, r.Latest, vcE(r.Fails)
}
func (r *vcMarkets) GetOrCreateMarket(ctx context.Context, m *domain.Market) (*domain.Market, error) {
	r.Created++
	r.CreatedM = m
	return r.Market, vcE(r.WriteFails)
}
func (r *vcMarkets) GetAllMarkets(ctx context.Context) ([]domain.Market, error) {
	return r.All, vcE(r.Fails)
}
func (r *vcMarkets) GetTradableMarkets(ctx context.Context) ([]domain.Market, error) {
	return r.All, vcE(r.Fails)
}

type vcUnspents struct {
	domain.UnspentRepository
	Mkt, Fee           []domain.Unspent
	MktFails, FeeFails bool
	Calls              int
	MktFirst           bool
	Locks              int
	LockedKeys         []domain.UnspentKey
	LockedBy           uuid.UUID
	LockCount          int
	LockFails          bool
	Unlocks            int
	UnlockedKeys       []domain.UnspentKey
	UnlockFails        bool
}

// the first question is about the market's addresses, the second about the fee account's
func (r *vcUnspents) GetAvailableUnspentsForAddresses(ctx context.Context, addresses []string) ([]domain.Unspent, error) {
	r.Calls++
	if r.Calls == 1 {
		return r.Mkt, vcE(r.MktFails)
	}
	return r.Fee, vcE(r.FeeFails)
}
func (r *vcUnspents) LockUnspents(ctx context.Context, keys []domain.UnspentKey, id uuid.UUID) (int, error) {
	r.Locks++
	r.LockedKeys = keys
	r.LockedBy = id
	return r.LockCount, vcE(r.LockFails)
}
func (r *vcUnspents) UnlockUnspents(ctx context.Context, keys []domain.UnspentKey) (int, error) {
	r.Unlocks++
	r.UnlockedKeys = keys
	return len(keys), vcE(r.UnlockFails)
}

type vcTrades struct {
	domain.TradeRepository
	Trade     *domain.Trade
	Fails     bool
	Created   int
	CreatedID uuid.UUID
	Stored    int
	StoredID  uuid.UUID
	StoredT   *domain.Trade
	Asked     string
}

func (r *vcTrades) GetOrCreateTrade(ctx context.Context, id *uuid.UUID) (*domain.Trade, error) {
	r.Created++
	r.CreatedID = *id
	return r.Trade, vcE(r.Fails)
}
func (r *vcTrades) GetTradeBySwapAcceptID(ctx context.Context, id string) (*domain.Trade, error) {
	r.Asked = id
	return r.Trade, vcE(r.Fails)
}
func (r *vcTrades) GetTradeByTxID(ctx context.Context, id string) (*domain.Trade, error) {
	r.Asked = id
	if r.Fails {
		return nil, vcAnError
	}
	return r.Trade, nil
}
func (r *vcTrades) UpdateTrade(ctx context.Context, id *uuid.UUID, fn func(t *domain.Trade) (*domain.Trade, error)) error {
	t, err := fn(r.Trade)
	if err != nil {
		return err
	}
	r.Stored++
	r.StoredID = *id
	r.StoredT = t
	return nil
}

type vcListener struct {
	BlockchainListener
	Watched   int
	Unwatched int
	TxID      string
}

func (l *vcListener) StartObserveTx(txid string) { l.Watched++; l.TxID = txid }
func (l *vcListener) StopObserveTx(txid string)  { l.Unwatched++; l.TxID = txid }

type vcExplorer struct {
	explorer.Service
	Broadcasts int
	Hex        string
	Fails      bool
	TxID       string
}

func (x *vcExplorer) BroadcastTransaction(hex string) (string, error) {
	x.Broadcasts++
	x.Hex = hex
	return x.TxID, vcE(x.Fails)
}

type vcFiller struct {
	Calls int
	Opts  FillProposalOpts
	Res   *FillProposalResult
	Fails bool
}

func (f *vcFiller) FillProposal(o FillProposalOpts) (*FillProposalResult, error) {
	f.Calls++
	f.Opts = o
	if f.Fails {
		return nil, vcAnError
	}
	return f.Res, nil
}

type vcMsg struct {
	Id, Of, Tx string
	Code       uint32
	Text       string
	In, Out    map[string][]byte
}

func (m *vcMsg) GetId() string                           { return m.Id }
func (m *vcMsg) GetRequestId() string                    { return m.Of }
func (m *vcMsg) GetAcceptId() string                     { return m.Of }
func (m *vcMsg) GetMessageId() string                    { return m.Of }
func (m *vcMsg) GetTransaction() string                  { return m.Tx }
func (m *vcMsg) GetFailureCode() uint32                  { return m.Code }
func (m *vcMsg) GetFailureMessage() string               { return m.Text }
func (m *vcMsg) GetInputBlindingKey() map[string][]byte  { return m.In }
func (m *vcMsg) GetOutputBlindingKey() map[string][]byte { return m.Out }

// vcParser: any swap and transaction parser; it may reject each message.
type vcParser struct {
	ReqFails, AccFails, ComFails bool
	Code                         int
	Id, FailId, TxID, TxHex      string
	Accepted                     domain.AcceptArgs
	Accept, Fail                 *vcMsg
	PsetFails                    bool
	ComTx                        string
}

func (p *vcParser) err() *domain.SwapError { return &domain.SwapError{Err: vcAnError, Code: p.Code} }
func (p *vcParser) SerializeRequest(r domain.SwapRequest) ([]byte, *domain.SwapError) {
	if p.ReqFails {
		return nil, p.err()
	}
	return []byte("request"), nil
}
func (p *vcParser) SerializeAccept(a domain.AcceptArgs) (string, []byte, *domain.SwapError) {
	p.Accepted = a
	if p.AccFails {
		return "", nil, p.err()
	}
	return p.Id, []byte("accept"), nil
}
func (p *vcParser) SerializeComplete(m []byte, tx string) (string, []byte, *domain.SwapError) {
	p.ComTx = tx
	if p.ComFails {
		return "", nil, p.err()
	}
	return p.Id, []byte("complete"), nil
}
func (p *vcParser) SerializeFail(id string, code int, msg string) (string, []byte) {
	return p.FailId, []byte("fail")
}
func (p *vcParser) DeserializeRequest(msg []byte) (domain.SwapRequest, error) { return nil, vcAnError }
func (p *vcParser) DeserializeAccept(msg []byte) (domain.SwapAccept, error)   { return p.Accept, nil }
func (p *vcParser) DeserializeComplete(msg []byte) (domain.SwapComplete, error) {
	return nil, vcAnError
}
func (p *vcParser) DeserializeFail(msg []byte) (domain.SwapFail, error) { return p.Fail, nil }
func (p *vcParser) GetTxID(pset string) (string, error)               { return p.TxID, vcE(p.PsetFails) }
func (p *vcParser) GetTxHex(pset string) (string, error)              { return p.TxHex, vcE(p.PsetFails) }

func vcService(w *vcWorld, x *vcExplorer, l *vcListener, slippage decimal.Decimal, d time.Duration) *tradeService {
	return &tradeService{repoManager: w, explorerSvc: x, blockchainListener: l, marketBaseAsset: "base", expiryDuration: d, priceSlippage: slippage}
}

// vcPair: the request exchanges the two assets of the market, in the direction of the trade.
func vcPair(r *vcReq, tradeType int, m *domain.Market) bool {
	if tradeType == TradeBuy {
		return r.AssetP == m.QuoteAsset && r.AssetR == m.BaseAsset
	}
	return r.AssetP == m.BaseAsset && r.AssetR == m.QuoteAsset
}

func vcKeyOf(u explorer.Utxo) domain.UnspentKey {
	return domain.UnspentKey{TxID: u.Hash(), VOut: u.Index()}
}

func vcSameUtxos(a, b []explorer.Utxo) bool {
	return len(a) == len(b) && vcForall(0, len(a), func(i int) bool { return a[i] == b[i] })
}
func vcSameKeys(a, b map[string][]byte) bool { return len(a) == len(b) && (a == nil) == (b == nil) }

//@ contract C16 maypanic opaque=internal/core/application.isValidTradePrice,internal/core/application.validateAssetString,(*internal/core/domain.Vault).DeriveNextExternalAddressForAccount,(*internal/core/domain.Vault).DeriveNextInternalAddressForAccount,(*internal/core/domain.Vault).GetMnemonicSafe,(*internal/core/domain.Vault).IsLocked,(internal/core/application.Unspents).ToUtxos
func vcTradePropose(v *vcVaults, m *vcMarkets, u *vcUnspents, t *vcTrades, l *vcListener, f *vcFiller, ps *vcParser, r *vcReq, market Market, tradeType int, slippage decimal.Decimal, d time.Duration) {
	//@ requires v != nil && m != nil && u != nil && t != nil && l != nil && f != nil && ps != nil && r != nil
	//@ requires v.Vault != nil && m.Market != nil && f.Res != nil && ps.Accept != nil && ps.Fail != nil
	//@ requires tradeType == TradeBuy || tradeType == TradeSell
	//@ requires u.Calls == 0 && u.Locks == 0 && u.Unlocks == 0 && f.Calls == 0 && t.Stored == 0 && t.Created == 0 && v.Stored == 0 && l.Watched == 0
	//@ requires m.Account != domain.FeeAccount && !t.Fails
	//@ requires r.AmountP > 0 && r.AmountR > 0 && r.AmountP < 1<<63 && r.AmountR < 1<<63
	w := &vcWorld{V: v, M: m, U: u, T: t}
	domain.SwapParserManager = ps
	domain.PsetParserManager = ps
	TradeManager = f
	s := vcService(w, nil, l, slippage, d)
	mktUtxos, feeUtxos := Unspents(u.Mkt).ToUtxos(), Unspents(u.Fee).ToUtxos()
	out, _ := v.Vault.DeriveNextExternalAddressForAccount(m.Account)
	change, _ := v.Vault.DeriveNextInternalAddressForAccount(m.Account)
	feeChange, _ := v.Vault.DeriveNextInternalAddressForAccount(domain.FeeAccount)
	//@ assume out != nil && change != nil && feeChange != nil
	priced := isValidTradePrice(r, tradeType, m.Market, u.Mkt, slippage)
	//@ invariant (keys []domain.UnspentKey, unspents []explorer.Utxo, i int): len(keys) == i
	//@ invariant (keys []domain.UnspentKey, unspents []explorer.Utxo, i int): vcForall(0, i, func(j int) bool { return keys[j] == vcKeyOf(unspents[j]) })
	//@ call
	accept, fail, expiry, err := s.TradePropose(context.Background(), market, tradeType, r)
	//@ ensures answer: err == nil ==> (accept != nil) != (fail != nil)
	//@ ensures error: err != nil ==> accept == nil && fail == nil && expiry == 0 && f.Calls == 0 && u.Locks == 0
	//@ ensures market: accept != nil ==> m.Asked == market.QuoteAsset && m.Account >= 0 && v.Asked == m.Account
	//@ ensures unlocked: accept != nil ==> !v.Vault.IsLocked()
	//@ ensures pair: accept != nil ==> vcPair(r, tradeType, m.Market)
	//@ ensures priced: accept != nil ==> priced
	//@ ensures filled: accept != nil ==> f.Calls == 1 && f.Opts.SwapRequest == domain.SwapRequest(r) && vcSameUtxos(f.Opts.MarketUtxos, mktUtxos) && vcSameUtxos(f.Opts.FeeUtxos, feeUtxos)
	//@ ensures accounts: accept != nil ==> f.Opts.OutputInfo.Address == out.Address && f.Opts.ChangeInfo.Address == change.Address && f.Opts.FeeChangeInfo.Address == feeChange.Address
	//@ ensures swap: accept != nil ==> ps.Accepted.Transaction == f.Res.PsetBase64 && vcSameKeys(ps.Accepted.InputBlindingKeys, f.Res.InputBlindingKeys) && vcSameKeys(ps.Accepted.OutputBlindingKeys, f.Res.OutputBlindingKeys)
	//@ ensures locked: accept != nil ==> u.Locks == 1 && len(u.LockedKeys) == len(f.Res.SelectedUnspents) && vcForall(0, len(u.LockedKeys), func(i int) bool { return u.LockedKeys[i] == vcKeyOf(f.Res.SelectedUnspents[i]) })
	//@ ensures free: accept == nil && u.Locks > 0 ==> err == nil && u.LockFails
	//@ ensures unreserved: accept != nil ==> !u.LockFails
	//@ ensures reserved: accept != nil ==> u.LockCount == len(u.LockedKeys)
	vcRunGo(-1)
	//@ ensures stored: err == nil ==> t.Created == 1 && t.Stored == 1 && t.StoredT != nil && t.StoredT.ID == t.CreatedID && t.StoredID == t.CreatedID
	//@ ensures status: err == nil ==> t.StoredT.Status.Failed == (accept == nil) && (accept != nil ==> t.StoredT.Status.Code == domain.Accepted)
	//@ ensures owner: accept != nil ==> u.LockedBy == t.StoredT.ID && t.StoredT.ExpiryTime == expiry
	//@ ensures vault: (v.Stored == 1) == (accept != nil) && (accept != nil ==> v.StoredVault == v.Vault)
	//@ ensures watched: (l.Watched == 1) == (accept != nil) && (accept != nil ==> l.TxID == t.StoredT.TxID)
}

//@ contract C16
func vcTradeComplete(t *vcTrades, m *vcMarkets, v *vcVaults, u *vcUnspents, x *vcExplorer, ps *vcParser, c *vcMsg) {
	//@ requires t != nil && m != nil && v != nil && u != nil && x != nil && ps != nil && c != nil && ps.Fail != nil
	//@ requires t.Stored == 0 && x.Broadcasts == 0
	w := &vcWorld{V: v, M: m, U: u, T: t}
	domain.SwapParserManager = ps
	domain.PsetParserManager = ps
	s := vcService(w, x, nil, decimal.Decimal{}, 0)
	known := !t.Fails && t.Trade != nil
	code := -1
	hex0, txid0 := "", ""
	if t.Trade != nil {
		hex0, txid0 = t.Trade.TxHex, t.Trade.TxID
		code = t.Trade.Status.Code
	}
	var msg domain.SwapComplete = c
	//@ call
	txid, fail, err := s.TradeComplete(context.Background(), &msg, nil)
	//@ ensures unknown: !known ==> err != nil && x.Broadcasts == 0
	//@ ensures asked: t.Asked == c.Of
	//@ ensures accepted: x.Broadcasts > 0 ==> known && x.Broadcasts == 1 && (code >= domain.Completed && code != domain.Expired || code == domain.Accepted && !ps.ComFails)
	//@ ensures tx: x.Broadcasts > 0 && code == domain.Accepted ==> (x.Hex == ps.TxHex || x.Hex == c.Tx) && ps.ComTx == c.Tx
	//@ ensures broadcast: err == nil && fail == nil ==> x.Broadcasts == 1 && !x.Fails
	//@ ensures refused: err != nil && x.Broadcasts == 0 || fail != nil ==> txid == ""
	//@ ensures again: x.Broadcasts > 0 && code >= domain.Completed ==> x.Hex == hex0
	//@ ensures id: err == nil && fail == nil ==> txid == txid0
}

var vcTradeTx *pset.Pset
var vcTradeText string

// vcDecodeTradeTx: what the transaction of the trade is, if its text reads as one.
func vcDecodeTradeTx(b string) (*pset.Pset, error) {
	if b != vcTradeText || vcTradeTx == nil {
		return nil, errors.New("not a pset")
	}
	return vcTradeTx, nil
}

func vcSpentBy(in *transaction.TxInput, k domain.UnspentKey) bool {
	return k.TxID == bufferutil.TxIDFromBytes(in.Hash) && k.VOut == in.Index
}

//@ contract C16 opaque=pkg/bufferutil.TxIDFromBytes stub=github.com/vulpemventures/go-elements/pset.NewPsetFromBase64:vcDecodeTradeTx
func vcTradeFail(t *vcTrades, u *vcUnspents, l *vcListener, ps *vcParser, f *vcMsg, tx *pset.Pset) {
	//@ requires t != nil && u != nil && l != nil && ps != nil && f != nil
	//@ requires t.Stored == 0 && u.Unlocks == 0 && l.Unwatched == 0
	//@ requires tx == nil || tx.UnsignedTx != nil && len(tx.Inputs) == len(tx.UnsignedTx.Inputs) && vcForall(0, len(tx.Inputs), func(i int) bool { return tx.UnsignedTx.Inputs[i] != nil })
	vcTradeTx = tx
	vcTradeText = ""
	if t.Trade != nil {
		vcTradeText = t.Trade.PsetBase64
	}
	w := &vcWorld{T: t, U: u}
	domain.SwapParserManager = ps
	domain.PsetParserManager = ps
	s := vcService(w, nil, l, decimal.Decimal{}, 0)
	known := !t.Fails && t.Trade != nil
	txid := ""
	code := 0
	if t.Trade != nil {
		txid = t.Trade.TxID
		code = t.Trade.Status.Code
	}
	var msg domain.SwapFail = f
	//@ call
	id, fail, err := s.TradeComplete(context.Background(), nil, &msg)
	//@ ensures unknown: !known ==> err != nil && fail == nil && t.Stored == 0
	//@ ensures asked: t.Asked == f.Of
	//@ ensures failed: known ==> err == nil && id == "" && fail == domain.SwapFail(f) && t.Stored == 1 && t.StoredT == t.Trade && t.Trade.Status.Failed && t.Trade.Status.Code == code
	//@ invariant (unspentKeys []domain.UnspentKey, i int): len(unspentKeys) == len(tx.Inputs)
	//@ invariant (unspentKeys []domain.UnspentKey, i int): len(unspentKeys) == i
	//@ invariant (unspentKeys []domain.UnspentKey, i int): vcForall(0, i, func(j int) bool { return vcSpentBy(tx.UnsignedTx.Inputs[j], unspentKeys[j]) })
	vcRunGo(0)
	vcRunGo(1)
	//@ ensures unwatched: (l.Unwatched == 1) == known && (known ==> l.TxID == txid)
	//@ ensures unlocked: known && tx != nil ==> u.Unlocks == 1 && len(u.UnlockedKeys) == len(tx.Inputs) && vcForall(0, len(tx.Inputs), func(j int) bool { return vcSpentBy(tx.UnsignedTx.Inputs[j], u.UnlockedKeys[j]) })
	//@ ensures held: !known || tx == nil ==> u.Unlocks == 0
}

//@ contract C16
func vcExpiration(t *vcTrades, u *vcUnspents, l *vcListener, keys []domain.UnspentKey, id string) {
	//@ requires t != nil && u != nil && l != nil && (t.Fails || t.Trade != nil)
	//@ requires t.Stored == 0 && u.Unlocks == 0 && l.Unwatched == 0
	w := &vcWorld{T: t, U: u}
	s := vcService(w, nil, l, decimal.Decimal{}, 0)
	status := domain.Status{}
	settled := false
	if t.Trade != nil {
		status = t.Trade.Status
		settled = t.Trade.ExpiryTime == 0 && t.Trade.Status.Code != domain.Expired
	}
	//@ call
	s.checkTradeExpiration(id, keys)
	//@ ensures asked: t.Asked == id
	//@ ensures late: t.Fails || settled ==> u.Unlocks == 0 && t.Stored == 0 && l.Unwatched == 0 && (t.Trade != nil ==> t.Trade.Status == status)
	//@ ensures released: t.Stored == 1 ==> u.Unlocks == 1 && !u.UnlockFails && vcEqSlices(u.UnlockedKeys, keys) && t.StoredT == t.Trade && t.Trade.Status.Code == domain.Expired
	//@ ensures unlocked: u.Unlocks <= 1 && (u.Unlocks == 1 ==> vcEqSlices(u.UnlockedKeys, keys))
	//@ ensures unwatched: l.Unwatched == u.Unlocks
}

//@ contract C16 opaque=internal/core/application.previewForMarket,internal/core/application.validateAssetString
func vcMarketPrice(v *vcVaults, m *vcMarkets, u *vcUnspents, market Market, tradeType int, amount uint64, asset string) {
	//@ requires v != nil && m != nil && u != nil && m.Market != nil && u.Calls == 0
	//@ requires m.Account != domain.FeeAccount
	w := &vcWorld{V: v, M: m, U: u}
	s := vcService(w, nil, nil, decimal.Decimal{}, 0)
	want, wantErr := previewForMarket(u.Mkt, m.Market, tradeType, amount, asset)
	badBase := validateAssetString(market.BaseAsset)
	badQuote := validateAssetString(market.QuoteAsset)
	open := m.Market.IsTradable()
	//@ call
	p, err := s.GetMarketPrice(context.Background(), market, tradeType, amount, asset)
	//@ ensures assets: err == nil ==> badBase == nil && badQuote == nil && market.BaseAsset == s.marketBaseAsset && (asset == market.BaseAsset || asset == market.QuoteAsset)
	//@ ensures market: err == nil ==> m.Asked == market.QuoteAsset && !m.Fails && m.Account >= 0 && v.Asked == m.Account
	//@ ensures open: err == nil ==> open
	//@ ensures price: err == nil ==> wantErr == nil && p == want
	//@ ensures served: badBase == nil && badQuote == nil && market.BaseAsset == s.marketBaseAsset && (asset == market.BaseAsset || asset == market.QuoteAsset) && !m.Fails && m.Account >= 0 && open && !v.MktFails && !u.MktFails ==> wantErr == err || err != nil && asset != market.BaseAsset && asset != market.QuoteAsset || validateAssetString(asset) != nil
}
