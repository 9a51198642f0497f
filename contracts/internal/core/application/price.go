//go:build go1.22

package application

import (
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
)

// vcReq is any swap request.
type vcReq struct {
	Id, AssetP, AssetR, Tx string
	AmountP, AmountR       uint64
	InKeys, OutKeys        map[string][]byte
}

func (r *vcReq) GetId() string                           { return r.Id }
func (r *vcReq) GetAssetP() string                       { return r.AssetP }
func (r *vcReq) GetAmountP() uint64                      { return r.AmountP }
func (r *vcReq) GetAssetR() string                       { return r.AssetR }
func (r *vcReq) GetAmountR() uint64                      { return r.AmountR }
func (r *vcReq) GetTransaction() string                  { return r.Tx }
func (r *vcReq) GetInputBlindingKey() map[string][]byte  { return r.InKeys }
func (r *vcReq) GetOutputBlindingKey() map[string][]byte { return r.OutKeys }

// vcNear: a is within the slippage of the expected amount.
func vcNear(a, expected uint64, slippage decimal.Decimal) bool {
	s := vcQd(slippage)
	e := vcQu(expected)
	return vcQle(vcQmul(e, vcQsub(vcQi(1), s)), vcQu(a)) && vcQle(vcQu(a), vcQmul(e, vcQadd(vcQi(1), s)))
}

//@ contract C15
func vcInRange(r *vcReq, tradeType int, preview uint64, forQuote bool, slippage decimal.Decimal) {
	//@ requires r != nil && (tradeType == TradeBuy || tradeType == TradeSell)
	//@ requires r.AmountP < 1<<63 && r.AmountR < 1<<63 && preview < 1<<63
	// the amount of the quote asset is what a buyer sends and what a seller receives
	quote, base := r.AmountP, r.AmountR
	if tradeType == TradeSell {
		quote, base = r.AmountR, r.AmountP
	}
	//@ call
	ok := isPriceInRange(r, tradeType, preview, forQuote, slippage)
	//@ ensures quote: forQuote ==> ok == vcNear(quote, preview, slippage)
	//@ ensures base: !forQuote ==> ok == vcNear(base, preview, slippage)
}

//@ contract C15 opaque=internal/core/application.previewForMarket
func vcTradePrice(r *vcReq, tradeType int, m *domain.Market, us []domain.Unspent, slippage decimal.Decimal) {
	//@ requires r != nil && m != nil && (tradeType == TradeBuy || tradeType == TradeSell)
	//@ requires r.AmountP < 1<<63 && r.AmountR < 1<<63
	quote, base := r.AmountP, r.AmountR
	if tradeType == TradeSell {
		quote, base = r.AmountR, r.AmountP
	}
	pq, _ := previewForMarket(us, m, tradeType, base, m.BaseAsset)
	pb, _ := previewForMarket(us, m, tradeType, quote, m.QuoteAsset)
	//@ assume pq == nil || pq.Amount < 1<<63
	//@ assume pb == nil || pb.Amount < 1<<63
	//@ letb byBase = pq != nil && vcNear(quote, pq.Amount, slippage)
	//@ letb byQuote = pb != nil && vcNear(base, pb.Amount, slippage)
	//@ call
	ok := isValidTradePrice(r, tradeType, m, us, slippage)
	//@ ensures refused: !byBase && !byQuote ==> !ok
	//@ ensures accepted: byBase || byQuote ==> ok
}

// vcrSum is what the first n outputs hold of an asset.
func vcrSum(us []domain.Unspent, n int, asset string) uint64 {
	if n <= 0 {
		return 0
	}
	s := vcrSum(us, n-1, asset)
	if us[n-1].AssetHash == asset {
		s += us[n-1].Value
	}
	return s
}

//@ contract C15
func vcBalances(us []domain.Unspent, asset string) {
	//@ invariant (balances map[string]uint64, i int): balances[asset] == vcrSum(us, i, asset)
	//@ call
	b := getBalanceByAsset(us)
	//@ ensures sum: b[asset] == vcrSum(us, len(us), asset)
}

//@ contract C15 opaque=(*internal/core/domain.Market).Preview
func vcPreviewFor(us []domain.Unspent, m *domain.Market, tradeType int, amount uint64, asset string) {
	//@ requires m != nil && (tradeType == TradeBuy || tradeType == TradeSell)
	//@ invariant (balances map[string]uint64, i int): balances[m.BaseAsset] == vcrSum(us, i, m.BaseAsset)
	//@ invariant (balances map[string]uint64, i int): balances[m.QuoteAsset] == vcrSum(us, i, m.QuoteAsset)
	b := vcrSum(us, len(us), m.BaseAsset)
	q := vcrSum(us, len(us), m.QuoteAsset)
	want, wantErr := m.Preview(b, q, amount, asset == m.BaseAsset, tradeType == TradeBuy)
	//@ assume wantErr != nil || want != nil
	//@ call
	p, err := previewForMarket(us, m, tradeType, amount, asset)
	//@ ensures refused: (err == nil) == (wantErr == nil)
	//@ ensures none: err != nil ==> p == nil
	//@ ensures amount: err == nil ==> p.Amount == want.Amount && p.Asset == want.Asset && vcQeq(vcQd(p.Price.BasePrice), vcQd(want.Price.BasePrice)) && vcQeq(vcQd(p.Price.QuotePrice), vcQd(want.Price.QuotePrice))
	//@ ensures fee: err == nil ==> p.Fee.BasisPoint == m.Fee && p.Fee.FixedBaseFee == m.FixedFee.BaseFee && p.Fee.FixedQuoteFee == m.FixedFee.QuoteFee
	//@ ensures balance: err == nil ==> p.Balance.BaseAmount == b && p.Balance.QuoteAmount == q
}
