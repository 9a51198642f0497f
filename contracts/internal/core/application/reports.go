//go:build go1.22

package application

import (
	"context"

	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/tdex-network/tdex-daemon/pkg/mathutil"
)

// vcDescribes: what is reported of a market.
func vcDescribes(r MarketInfo, m domain.Market) bool {
	return r.AccountIndex == uint64(m.AccountIndex) && r.Market.BaseAsset == m.BaseAsset && r.Market.QuoteAsset == m.QuoteAsset &&
		r.Tradable == m.Tradable && r.StrategyType == m.Strategy.Type && r.Fee.BasisPoint == m.Fee &&
		r.Fee.FixedBaseFee == m.FixedFee.BaseFee && r.Fee.FixedQuoteFee == m.FixedFee.QuoteFee &&
		vcQeq(vcQd(r.Price.BasePrice), vcQd(m.Price.BasePrice)) && vcQeq(vcQd(r.Price.QuotePrice), vcQd(m.Price.QuotePrice))
}

//@ contract C23
func vcListMarkets(m *vcMarkets) {
	//@ requires m != nil
	//@ invariant (marketInfo []MarketInfo, markets []domain.Market, i int): len(marketInfo) == i
	//@ invariant (marketInfo []MarketInfo, markets []domain.Market, i int): vcForall(0, i, func(j int) bool { return vcDescribes(marketInfo[j], markets[j]) })
	o := vcOperator(nil, m, nil, 0)
	//@ call
	list, err := o.ListMarket(context.Background())
	//@ ensures served: (err == nil) == !m.Fails
	//@ ensures all: err == nil ==> len(list) == len(m.All) && vcForall(0, len(list), func(i int) bool { return vcDescribes(list[i], m.All[i]) })
}

//@ contract C23 opaque=internal/core/application.validateAssetString
func vcListAddresses(v *vcVaults, m *vcMarkets, req Market) {
	//@ requires m != nil && v != nil && m.Account != domain.FeeAccount
	//@ invariant (addresses []string, info domain.AddressesInfo, i int): vcForall(0, i, func(j int) bool { return addresses[j] == info[j].Address })
	o := vcOperator(v, m, nil, 0)
	//@ call
	list, err := o.ListMarketExternalAddresses(context.Background(), req)
	//@ ensures served: (err == nil) == (vcGood(req.BaseAsset, req.QuoteAsset) && !m.Fails && m.Account >= 0 && !v.MktFails)
	//@ ensures asked: err == nil ==> m.Asked == req.QuoteAsset && v.Asked == m.Account
	//@ ensures all: err == nil ==> len(list) == len(v.MktInfo) && vcForall(0, len(list), func(i int) bool { return list[i] == v.MktInfo[i].Address })
}

//@ contract C23
func vcFeeBalance(v *vcVaults, u *vcUtxoSet) {
	//@ requires v != nil && u != nil && u.Balance < 1<<63
	//@ invariant (addresses []string, info domain.AddressesInfo, i int): vcForall(0, i, func(j int) bool { return addresses[j] == info[j].Address })
	o := &operatorService{repoManager: &vcPlace{V: v, U: u}, marketBaseAsset: "base"}
	//@ call
	b, err := o.FeeAccountBalance(context.Background())
	//@ ensures served: (err == nil) == (!v.FeeFails && !u.BalanceFails)
	//@ ensures of: err == nil ==> u.AskedAsset == "base" && len(u.AskedAddr) == len(v.FeeInfo) && vcForall(0, len(v.FeeInfo), func(i int) bool { return u.AskedAddr[i] == v.FeeInfo[i].Address })
	//@ ensures balance: err == nil ==> uint64(b) == u.Balance
}

// vcAskedIn: the request a trade keeps.
func vcAskedIn(msg []byte) *vcReq { return nil }

// vcReader: a parser that reads the requests that were stored.
type vcRequests struct {
	domain.SwapParser
	Fail *vcMsg
	Accept *vcMsg
}

func (p *vcRequests) DeserializeRequest(msg []byte) (domain.SwapRequest, error) { return vcAskedIn(msg), nil }
func (p *vcRequests) DeserializeAccept(msg []byte) (domain.SwapAccept, error)   { return p.Accept, nil }
func (p *vcRequests) DeserializeFail(msg []byte) (domain.SwapFail, error)       { return p.Fail, nil }

// vcrCollected: the fees of the first n trades in an asset.
func vcrCollected(ts []*domain.Trade, n int, asset string) int64 {
	if n <= 0 {
		return 0
	}
	c := vcrCollected(ts, n-1, asset)
	r := vcAskedIn(ts[n-1].SwapRequest.Message)
	if r.AssetP == asset {
		_, fee := mathutil.LessFee(r.AmountP, uint64(ts[n-1].MarketFee))
		return c + int64(fee)
	}
	return c
}

// vcEarned: what is reported of a trade.
func vcEarned(f FeeInfo, t *domain.Trade, m *domain.Market) bool {
	r := vcAskedIn(t.SwapRequest.Message)
	_, fee := mathutil.LessFee(r.AmountP, uint64(t.MarketFee))
	price := t.MarketPrice.QuotePrice
	if r.AssetP == m.BaseAsset {
		price = t.MarketPrice.BasePrice
	}
	return f.TradeID == t.ID.String() && f.BasisPoint == t.MarketFee && f.Asset == r.AssetP && f.Amount == fee && vcQeq(vcQd(f.MarketPrice), vcQd(price))
}

// vcLedger: the trades of a market.
type vcLedger struct {
	domain.TradeRepository
	Trades []*domain.Trade
	Fails  bool
	Asked  string
}

func (r *vcLedger) GetCompletedTradesByMarket(ctx context.Context, quote string) ([]*domain.Trade, error) {
	r.Asked = quote
	return r.Trades, vcE(r.Fails)
}

type vcOffice struct {
	vcPlace
	L *vcLedger
}

func (o *vcOffice) TradeRepository() domain.TradeRepository { return o.L }

//@ contract C23 opaque=internal/core/application.vcAskedIn!,pkg/mathutil.LessFee
func vcCollected(m *vcMarkets, l *vcLedger, req Market, asset string) {
	//@ requires m != nil && l != nil
	//@ requires vcForall(0, len(l.Trades), func(i int) bool { return l.Trades[i] != nil && !l.Trades[i].IsEmpty() })
	domain.SwapParserManager = &vcRequests{}
	//@ invariant (fees []FeeInfo, trades []*domain.Trade, i int): len(fees) == i
	//@ invariant (fees []FeeInfo, trades []*domain.Trade, i int): vcForall(0, i, func(j int) bool { return vcEarned(fees[j], trades[j], m.Market) })
	//@ invariant (total map[string]int64, i int): total[asset] == vcrCollected(l.Trades, i, asset)
	o := &operatorService{repoManager: &vcOffice{vcPlace: vcPlace{M: m}, L: l}, marketBaseAsset: "base"}
	//@ call
	r, err := o.GetCollectedMarketFee(context.Background(), req)
	//@ ensures served: (err == nil) == (!m.Fails && m.Market != nil && !l.Fails)
	//@ ensures asked: err == nil ==> m.Asked == req.QuoteAsset && l.Asked == req.QuoteAsset
	//@ ensures every: err == nil ==> len(r.CollectedFees) == len(l.Trades) && vcForall(0, len(l.Trades), func(j int) bool { return vcEarned(r.CollectedFees[j], l.Trades[j], m.Market) })
	//@ ensures total: err == nil ==> r.TotalCollectedFeesPerAsset[asset] == vcrCollected(l.Trades, len(l.Trades), asset)
}

type vcRevealer struct{ TransactionHandler }

func (vcRevealer) ExtractBlindingData(pset string, in, out map[string][]byte) (map[int]BlindingData, map[int]BlindingData, error) {
	return nil, vcAny[map[int]BlindingData](), nil
}

//@ contract C23 opaque=internal/core/application.vcAskedIn!
func vcTradeReport(t *domain.Trade, p *vcRequests, base, net string) {
	//@ requires t != nil && p != nil && p.Fail != nil && p.Accept != nil && !t.IsEmpty()
	domain.SwapParserManager = p
	TransactionManager = vcRevealer{}
	ch := make(chan TradeInfo, 1)
	//@ call
	tradeToTradeInfo(t, base, net, ch, nil)
	r := <-ch
	q := vcAskedIn(t.SwapRequest.Message)
	//@ ensures identity: r.ID == t.ID.String() && r.Status == t.Status
	//@ ensures market: r.MarketWithFee.BaseAsset == base && r.MarketWithFee.QuoteAsset == t.MarketQuoteAsset && r.MarketWithFee.BasisPoint == t.MarketFee
	//@ ensures price: vcQeq(vcQd(r.Price.BasePrice), vcQd(t.MarketPrice.BasePrice)) && vcQeq(vcQd(r.Price.QuotePrice), vcQd(t.MarketPrice.QuotePrice))
	//@ ensures swap: r.SwapInfo.AssetP == q.AssetP && r.SwapInfo.AmountP == q.AmountP && r.SwapInfo.AssetR == q.AssetR && r.SwapInfo.AmountR == q.AmountR
	//@ ensures times: r.RequestTimeUnix == t.SwapRequest.Timestamp && r.AcceptTimeUnix == t.SwapAccept.Timestamp && r.CompleteTimeUnix == t.SwapComplete.Timestamp && r.SettleTimeUnix == t.SettlementTime && r.ExpiryTimeUnix == t.ExpiryTime
	//@ ensures fail: t.IsRejected() ==> r.SwapFailInfo.Code == int(p.Fail.Code) && r.SwapFailInfo.Message == p.Fail.Text
	//@ ensures nofail: !t.IsRejected() ==> r.SwapFailInfo.Code == 0 && r.SwapFailInfo.Message == ""
	//@ ensures url: !t.IsSettled() ==> r.TxURL == ""
}

// vcWallet: who owns each address.
type vcWallet struct {
	domain.VaultRepository
	Owner map[string]int
}

func (w *vcWallet) GetAccountByAddress(ctx context.Context, addr string) (*domain.Account, int, error) {
	a, ok := w.Owner[addr]
	return nil, a, vcE(!ok)
}

type vcCoins struct {
	domain.UnspentRepository
	All []domain.Unspent
}

func (c *vcCoins) GetAllUnspents(ctx context.Context) []domain.Unspent { return c.All }

type vcCounter struct {
	ports.RepoManager
	W *vcWallet
	C *vcCoins
}

func (c *vcCounter) VaultRepository() domain.VaultRepository     { return c.W }
func (c *vcCounter) UnspentRepository() domain.UnspentRepository { return c.C }

const (
	vcUnspentOnes = iota
	vcSpentOnes
	vcLockedOnes
)

// vcList: the utxos of an account that are listed as such.
func vcList(l UtxoInfoList, kind int) []UtxoInfo {
	if kind == vcSpentOnes {
		return l.Spents
	}
	if kind == vcLockedOnes {
		return l.Locks
	}
	return l.Unspents
}

// vcIsListed: the utxo belongs in that list.
func vcIsListed(u domain.Unspent, w *vcWallet, account, kind int) bool {
	k := vcUnspentOnes
	if u.Locked {
		k = vcLockedOnes
	}
	if u.Spent {
		k = vcSpentOnes
	}
	return w.Owner[u.Address] == account && k == kind
}

func vcrListed(us []domain.Unspent, n int, w *vcWallet, account, kind int) int {
	if n <= 0 {
		return 0
	}
	c := vcrListed(us, n-1, w, account, kind)
	if vcIsListed(us[n-1], w, account, kind) {
		return c + 1
	}
	return c
}

func vcTells(r UtxoInfo, u domain.Unspent) bool {
	return r.Value == u.Value && r.Asset == u.AssetHash && r.Outpoint != nil && r.Outpoint.Hash == u.TxID && r.Outpoint.Index == int(u.VOut)
}

//@ contract C23
func vcUtxoReport(w *vcWallet, c *vcCoins, account, kind, who int) {
	//@ requires w != nil && c != nil && account >= 0 && (kind == vcUnspentOnes || kind == vcSpentOnes || kind == vcLockedOnes)
	//@ requires vcForall(0, len(c.All), func(i int) bool { return w.Owner[c.All[i].Address] >= 0 }) && 0 <= who && who < len(c.All)
	place := vcrListed(c.All, who, w, account, kind)
	//@ invariant (perAccount map[uint64]UtxoInfoList, unspents []domain.Unspent, i int): len(vcList(perAccount[uint64(account)], kind)) == vcrListed(unspents, i, w, account, kind)
	//@ invariant (perAccount map[uint64]UtxoInfoList, unspents []domain.Unspent, i int): vcForall(0, i, func(j int) bool { _, ok := w.Owner[unspents[j].Address]; return ok })
	//@ invariant (perAccount map[uint64]UtxoInfoList, unspents []domain.Unspent, i int): i > who && vcIsListed(c.All[who], w, account, kind) ==> 0 <= place && place < len(vcList(perAccount[uint64(account)], kind)) && vcTells(vcList(perAccount[uint64(account)], kind)[place], c.All[who])
	o := &operatorService{repoManager: &vcCounter{W: w, C: c}}
	//@ call
	r, err := o.ListUtxos(context.Background())
	//@ ensures served: (err == nil) == vcForall(0, len(c.All), func(i int) bool { _, ok := w.Owner[c.All[i].Address]; return ok })
	//@ ensures count: err == nil ==> len(vcList(r[uint64(account)], kind)) == vcrListed(c.All, len(c.All), w, account, kind)
	//@ ensures listed: err == nil && vcIsListed(c.All[who], w, account, kind) ==> vcTells(vcList(r[uint64(account)], kind)[place], c.All[who])
}
