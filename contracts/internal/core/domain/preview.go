//go:build go1.22

package domain

import (
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/pkg/marketmaking/formula"
	"github.com/tdex-network/tdex-daemon/pkg/mathutil"
)

// ---- C03: what a market quotes for a trade.

const vcMax = 2100000000000000 // maximum supply of an asset

func vcNotNegative(d decimal.Decimal) bool { return vcQle(vcQi(0), vcQd(d)) }

// The pluggable strategy: amount*price less the percentage fee.
//@ contract C03
func vcPluggableOut(bi, bo, fee, amount uint64, price decimal.Decimal) {
	//@ requires bi <= vcMax && bo <= vcMax && amount <= vcMax && fee <= 9999 && vcNotNegative(price)
	value := vcQmul(vcQu(amount), vcQd(price))
	gross := vcQint(value)
	net, _ := mathutil.LessFee(gross, fee) // exact floor: C04
	//@ letb fits = vcQlt(value, vcQadd(vcQi(9223372036854775807), vcQi(1)))
	//@ call
	out, err := PluggableStrategy{}.OutGivenIn(PluggableStrategyOpts{BalanceIn: bi, BalanceOut: bo, Price: price, Fee: fee}, amount)
	//@ ensures value: err == nil ==> fits && out == net && out > 0
	//@ ensures refused: err != nil ==> out == 0
	//@ ensures answers: amount > 0 && fits && net > 0 ==> err == nil
	//@ ensures not-above: err == nil ==> vcQle(vcQu(out), value)
}

// ... and amount*price plus the percentage fee.
//@ contract C03
func vcPluggableIn(bi, bo, fee, amount uint64, price decimal.Decimal) {
	//@ requires bi <= vcMax && bo <= vcMax && amount <= vcMax && fee <= 9999 && vcNotNegative(price)
	value := vcQmul(vcQu(amount), vcQd(price))
	gross := vcQint(value)
	tot, _ := mathutil.PlusFee(gross, fee) // exact floor: C04
	//@ letb fits = vcQlt(value, vcQadd(vcQi(9223372036854775807), vcQi(1)))
	//@ call
	in, err := PluggableStrategy{}.InGivenOut(PluggableStrategyOpts{BalanceIn: bi, BalanceOut: bo, Price: price, Fee: fee}, amount)
	//@ ensures value: err == nil ==> fits && in == tot && in > 0 && amount > 0 && amount < bo
	//@ ensures refused: err != nil ==> in == 0
	//@ ensures answers: amount > 0 && amount < bo && fits && tot > 0 ==> err == nil
}

// vcQuote is the strategy's quote for a preview: the right formula, applied to
// the right reserves and price.
func vcQuote(m Market, plug bool, baseBal, quoteBal, amount uint64, isBase, isBuy bool) (uint64, error) {
	bi, bo := baseBal, quoteBal
	if isBuy {
		bi, bo = quoteBal, baseBal
	}
	price := m.Price.BasePrice
	if isBase {
		price = m.Price.QuotePrice
	}
	if plug {
		opts := PluggableStrategyOpts{BalanceIn: bi, BalanceOut: bo, Price: price, Fee: uint64(m.Fee)}
		if isBase == isBuy {
			return PluggableStrategy{}.InGivenOut(opts, amount)
		}
		return PluggableStrategy{}.OutGivenIn(opts, amount)
	}
	opts := formula.BalancedReservesOpts{BalanceIn: bi, BalanceOut: bo, Fee: uint64(m.Fee), ChargeFeeOnTheWayIn: true}
	if isBase == isBuy {
		return formula.BalancedReserves{}.InGivenOut(opts, amount)
	}
	return formula.BalancedReserves{}.OutGivenIn(opts, amount)
}

func vcSpot(in, out uint64) (decimal.Decimal, error) {
	return formula.BalancedReserves{}.SpotPrice(formula.BalancedReservesOpts{BalanceIn: in, BalanceOut: out})
}

//@ contract C03
func vcPreview(m *Market, baseBal, quoteBal, amount uint64, isBase, isBuy, plug bool) {
	//@ requires m != nil && vcMarketOK(*m) && baseBal <= vcMax && quoteBal <= vcMax && amount <= vcMax
	//@ requires vcNotNegative(m.Price.BasePrice) && vcNotNegative(m.Price.QuotePrice)
	m.Strategy = vcStrategy(plug)
	//@ requires vcMarketLive(*m)
	old := *m
	quote, qerr := vcQuote(old, plug, baseBal, quoteBal, amount, isBase, isBuy)
	given, counter, payFrom := uint64(m.FixedFee.QuoteFee), uint64(m.FixedFee.BaseFee), quoteBal
	if isBase {
		given, counter = counter, given
	}
	if isBuy {
		payFrom = baseBal
	}
	//@ letb inGivenOut = isBase == isBuy
	//@ letb fits = vcIte(inGivenOut, quote+counter >= quote, quote > counter && quote-counter < payFrom)
	basePrice, berr := vcSpot(quoteBal, baseBal)
	quotePrice, _ := vcSpot(baseBal, quoteBal)
	//@ call
	info, err := m.Preview(baseBal, quoteBal, amount, isBase, isBuy)
	//@ ensures closed: !old.Tradable ==> err != nil
	//@ ensures below-fee: amount < given ==> err != nil
	//@ ensures unquotable: qerr != nil ==> err != nil
	//@ ensures unpayable: !inGivenOut && qerr == nil && (quote <= counter || quote-counter >= payFrom) ==> err != nil
	//@ ensures answers: old.Tradable && amount >= given && qerr == nil && fits ==> err == nil
	//@ ensures none: (err == nil) == (info != nil)
	//@ ensures required: err == nil && inGivenOut ==> info.Amount == quote+counter && info.Amount >= quote && amount < payFrom
	//@ ensures paid: err == nil && !inGivenOut ==> info.Amount == quote-counter && info.Amount > 0 && info.Amount < payFrom
	//@ ensures asset: err == nil ==> info.Asset == vcIte(isBase, old.QuoteAsset, old.BaseAsset)
	//@ ensures price-pluggable: err == nil && plug ==> vcQeq(vcQd(info.Price.BasePrice), vcQd(old.Price.BasePrice)) && vcQeq(vcQd(info.Price.QuotePrice), vcQd(old.Price.QuotePrice))
	//@ ensures price-balanced: err == nil && !plug ==> berr == nil && vcQeq(vcQd(info.Price.BasePrice), vcQd(basePrice)) && vcQeq(vcQd(info.Price.QuotePrice), vcQd(quotePrice))
	//@ ensures readonly: vcSameMarket(*m, old)
}
