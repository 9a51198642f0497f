//go:build go1.22

package domain

import (
	"github.com/shopspring/decimal"
	mm "github.com/tdex-network/tdex-daemon/pkg/marketmaking"
	"github.com/tdex-network/tdex-daemon/pkg/marketmaking/formula"
)

// ---- C01: a market record is always well formed, and its configuration can
// only change while the market is closed (and funded).

// vcMarketOK is the representation invariant of a market.
func vcMarketOK(m Market) bool {
	return m.AccountIndex >= 0 &&
		m.Fee >= 0 && m.Fee <= 9999 &&
		m.FixedFee.BaseFee >= 0 && m.FixedFee.QuoteFee >= 0 &&
		(m.FixedFee.BaseFee == 0) == (m.FixedFee.QuoteFee == 0) &&
		(m.BaseAsset == "") == (m.QuoteAsset == "") &&
		(m.BaseAsset == "" || m.BaseAsset != m.QuoteAsset)
}

// vcMarketLive: an open market is funded, and priced when its strategy is pluggable.
func vcMarketLive(m Market) bool {
	return !m.Tradable || (m.BaseAsset != "" && m.QuoteAsset != "" &&
		(!vcPluggable(m) || vcPriced(m)))
}
func vcPluggable(m Market) bool { return m.Strategy.Type == 0 || m.Strategy.Type == 255 }
func vcPriced(m Market) bool {
	return !(vcQeq(vcQd(m.Price.BasePrice), vcQi(0)) && vcQeq(vcQd(m.Price.QuotePrice), vcQi(0)))
}
func vcStrategy(pluggable bool) mm.MakingStrategy {
	if pluggable {
		return mm.NewStrategyFromFormula(PluggableStrategy{})
	}
	return mm.NewStrategyFromFormula(formula.BalancedReserves{})
}
func vcSamePrice(a, b Market) bool {
	return vcQeq(vcQd(a.Price.BasePrice), vcQd(b.Price.BasePrice)) && vcQeq(vcQd(a.Price.QuotePrice), vcQd(b.Price.QuotePrice))
}

// vcSameIdentity: account and asset pair.
func vcSameIdentity(a, b Market) bool {
	return a.AccountIndex == b.AccountIndex && a.BaseAsset == b.BaseAsset && a.QuoteAsset == b.QuoteAsset
}
func vcSameFees(a, b Market) bool {
	return a.Fee == b.Fee && a.FixedFee.BaseFee == b.FixedFee.BaseFee && a.FixedFee.QuoteFee == b.FixedFee.QuoteFee
}
func vcSameMarket(a, b Market) bool {
	return vcSameIdentity(a, b) && vcSameFees(a, b) && vcSamePrice(a, b) &&
		a.Tradable == b.Tradable && a.Strategy.Type == b.Strategy.Type
}

//@ contract C01
func vcNewMarket(index int, fee int64) {
	//@ call
	m, err := NewMarket(index, fee)
	//@ ensures accepted: index >= 0 && fee >= 0 && fee <= 9999 ==> err == nil && m != nil
	//@ ensures rejected: !(index >= 0 && fee >= 0 && fee <= 9999) ==> err != nil && m == nil
	//@ ensures wellformed: err == nil ==> vcMarketOK(*m) && vcMarketLive(*m)
	//@ ensures initial: err == nil ==> m.AccountIndex == index && m.Fee == fee && !m.Tradable && m.BaseAsset == "" && m.QuoteAsset == "" &&
	//@    m.FixedFee.BaseFee == 0 && m.FixedFee.QuoteFee == 0 && !vcPluggable(*m)
}

//@ contract C01
func vcMakeTradable(m *Market, plug bool) {
	//@ requires m != nil && vcMarketOK(*m) && vcMarketLive(*m)
	m.Strategy = vcStrategy(plug)
	//@ requires vcMarketLive(*m)
	old := *m
	//@ call
	err := m.MakeTradable()
	//@ ensures iff: (err == nil) == (old.BaseAsset != "" && (!plug || vcPriced(old)))
	//@ ensures opened: err == nil ==> m.Tradable
	//@ ensures refused: err != nil ==> m.Tradable == old.Tradable
	//@ ensures wellformed: vcMarketOK(*m) && vcMarketLive(*m)
	//@ ensures frame: vcSameIdentity(*m, old) && vcSameFees(*m, old) && vcSamePrice(*m, old) && m.Strategy.Type == old.Strategy.Type
}

//@ contract C01
func vcMakeNotTradable(m *Market) {
	//@ requires m != nil && vcMarketOK(*m) && vcMarketLive(*m)
	old := *m
	//@ call
	err := m.MakeNotTradable()
	//@ ensures iff: (err == nil) == (old.BaseAsset != "")
	//@ ensures closed: !m.Tradable
	//@ ensures wellformed: vcMarketOK(*m) && vcMarketLive(*m)
	//@ ensures frame: vcSameIdentity(*m, old) && vcSameFees(*m, old) && vcSamePrice(*m, old) && m.Strategy.Type == old.Strategy.Type
}

//@ contract C01
func vcMakeStrategyPluggable(m *Market) {
	//@ requires m != nil && vcMarketOK(*m) && vcMarketLive(*m)
	old := *m
	//@ call
	err := m.MakeStrategyPluggable()
	//@ ensures iff: (err == nil) == !old.Tradable
	//@ ensures refused: err != nil ==> vcSameMarket(*m, old)
	//@ ensures changed: err == nil ==> vcPluggable(*m) && m.IsStrategyPluggable()
	//@ ensures unpriced: err == nil && old.BaseAsset != "" ==> !vcPriced(*m)
	//@ ensures wellformed: vcMarketOK(*m) && vcMarketLive(*m)
	//@ ensures frame: vcSameIdentity(*m, old) && vcSameFees(*m, old) && m.Tradable == old.Tradable
}

//@ contract C01
func vcMakeStrategyBalanced(m *Market) {
	//@ requires m != nil && vcMarketOK(*m) && vcMarketLive(*m)
	old := *m
	//@ call
	err := m.MakeStrategyBalanced()
	//@ ensures iff: (err == nil) == !old.Tradable
	//@ ensures refused: err != nil ==> vcSameMarket(*m, old)
	//@ ensures changed: err == nil ==> !vcPluggable(*m) && !m.IsStrategyPluggable()
	//@ ensures wellformed: vcMarketOK(*m) && vcMarketLive(*m)
	//@ ensures frame: vcSameIdentity(*m, old) && vcSameFees(*m, old) && vcSamePrice(*m, old) && m.Tradable == old.Tradable
}

//@ contract C01
func vcChangeFee(m *Market, fee int64) {
	//@ requires m != nil && vcMarketOK(*m) && vcMarketLive(*m)
	old := *m
	//@ call
	err := m.ChangeFeeBasisPoint(fee)
	//@ ensures iff: (err == nil) == (old.BaseAsset != "" && !old.Tradable && fee >= 0 && fee <= 9999)
	//@ ensures refused: err != nil ==> vcSameMarket(*m, old)
	//@ ensures changed: err == nil ==> m.Fee == fee && m.FixedFee.BaseFee == old.FixedFee.BaseFee && m.FixedFee.QuoteFee == old.FixedFee.QuoteFee
	//@ ensures wellformed: vcMarketOK(*m) && vcMarketLive(*m)
	//@ ensures frame: vcSameIdentity(*m, old) && vcSamePrice(*m, old) && m.Tradable == old.Tradable && m.Strategy.Type == old.Strategy.Type
}

//@ contract C01
func vcChangeFixedFee(m *Market, baseFee, quoteFee int64) {
	//@ requires m != nil && vcMarketOK(*m) && vcMarketLive(*m)
	old := *m
	//@ call
	err := m.ChangeFixedFee(baseFee, quoteFee)
	//@ ensures iff: (err == nil) == (old.BaseAsset != "" && !old.Tradable && baseFee >= 0 && quoteFee >= 0 && (baseFee == 0) == (quoteFee == 0))
	//@ ensures refused: err != nil ==> vcSameMarket(*m, old)
	//@ ensures changed: err == nil ==> m.Fee == old.Fee && m.FixedFee.BaseFee == baseFee && m.FixedFee.QuoteFee == quoteFee
	//@ ensures wellformed: vcMarketOK(*m) && vcMarketLive(*m)
	//@ ensures frame: vcSameIdentity(*m, old) && vcSamePrice(*m, old) && m.Tradable == old.Tradable && m.Strategy.Type == old.Strategy.Type
}

//@ contract C01
func vcChangePrices(m *Market, base, quote decimal.Decimal) {
	//@ requires m != nil && vcMarketOK(*m)
	old := *m
	//@ call
	err := m.ChangeBasePrice(base)
	err2 := m.ChangeQuotePrice(quote)
	//@ ensures iff: (err == nil) == (old.BaseAsset != "") && (err2 == nil) == (old.BaseAsset != "")
	//@ ensures changed: err == nil ==> vcQeq(vcQd(m.Price.BasePrice), vcQd(base)) && vcQeq(vcQd(m.Price.QuotePrice), vcQd(quote))
	//@ ensures refused: err != nil ==> vcSameMarket(*m, old)
	//@ ensures wellformed: vcMarketOK(*m)
	//@ ensures frame: vcSameIdentity(*m, old) && vcSameFees(*m, old) && m.Tradable == old.Tradable && m.Strategy.Type == old.Strategy.Type
}

//@ contract C01
func vcFundMarket(m *Market, outs []OutpointWithAsset, base string) {
	//@ requires m != nil && vcMarketOK(*m) && vcMarketLive(*m) && base != ""
	//@ requires vcForall(0, len(outs), func(i int) bool { return outs[i].Asset != "" })
	old := *m
	//@ invariant (counts map[string]int, i int): vcForallKey(counts, func(k string) bool {
	//@    return vcB(func() bool { _, ok := counts[k]; return ok }) == vcExists(0, i, func(j int) bool { return outs[j].Asset == k }) })
	//@ invariant (counts map[string]int, i int): vcForall(0, i, func(j int) bool { return vcKeys(counts)[j] == base ==> m.BaseAsset == base })
	//@ invariant (counts map[string]int, i int): (m.QuoteAsset == "" && vcForall(0, i, func(j int) bool { return vcKeys(counts)[j] == base })) ||
	//@    (m.QuoteAsset != base && vcExists(0, i, func(j int) bool { return vcKeys(counts)[j] == m.QuoteAsset }))
	//@ invariant (counts map[string]struct{}, i int): vcForallKey(counts, func(k string) bool {
	//@    return vcB(func() bool { _, ok := counts[k]; return ok }) == vcExists(0, i, func(j int) bool { return outs[j].Asset == k }) })
	//@ invariant (counts map[string]struct{}, i int): vcForall(0, i, func(j int) bool { return vcKeys(counts)[j] == base ==> m.BaseAsset == base })
	//@ invariant (counts map[string]struct{}, i int): (m.QuoteAsset == "" && vcForall(0, i, func(j int) bool { return vcKeys(counts)[j] == base })) ||
	//@    (m.QuoteAsset != base && vcExists(0, i, func(j int) bool { return vcKeys(counts)[j] == m.QuoteAsset }))
	//@ invariant (counts map[string]bool, i int): vcForallKey(counts, func(k string) bool {
	//@    return vcB(func() bool { _, ok := counts[k]; return ok }) == vcExists(0, i, func(j int) bool { return outs[j].Asset == k }) })
	//@ invariant (counts map[string]bool, i int): vcForall(0, i, func(j int) bool { return vcKeys(counts)[j] == base ==> m.BaseAsset == base })
	//@ invariant (counts map[string]bool, i int): (m.QuoteAsset == "" && vcForall(0, i, func(j int) bool { return vcKeys(counts)[j] == base })) ||
	//@    (m.QuoteAsset != base && vcExists(0, i, func(j int) bool { return vcKeys(counts)[j] == m.QuoteAsset }))
	//@ call
	err := m.FundMarket(outs, base)
	//@ letb hasBase = vcExists(0, len(outs), func(i int) bool { return outs[i].Asset == base })
	//@ ensures noop: old.BaseAsset != "" ==> err == nil && vcSameMarket(*m, old)
	//@ ensures needsbase: old.BaseAsset == "" && !hasBase ==> err != nil
	//@ ensures refused: err != nil ==> vcSameMarket(*m, old)
	//@ ensures base: old.BaseAsset == "" && err == nil ==> m.BaseAsset == base
	//@ ensures quote: old.BaseAsset == "" && err == nil ==> m.QuoteAsset != base && m.QuoteAsset != "" && vcExists(0, len(outs), func(i int) bool { return outs[i].Asset == m.QuoteAsset })
	//@ ensures only: old.BaseAsset == "" && err == nil ==> vcForall(0, len(outs), func(i int) bool { return outs[i].Asset == base || outs[i].Asset == m.QuoteAsset })
	//@ ensures wellformed: vcMarketOK(*m) && vcMarketLive(*m)
	//@ ensures frame: m.AccountIndex == old.AccountIndex && vcSameFees(*m, old) && vcSamePrice(*m, old) && m.Tradable == old.Tradable
}
