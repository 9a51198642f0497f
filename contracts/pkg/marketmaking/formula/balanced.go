//go:build go1.22

package formula

import (
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/pkg/mathutil"
)

// ---- C02: constant-product quotes. Reserves and amounts are bounded by the
// maximum supply of an asset (21e6 * 1e8 units).

const vcMax = 2100000000000000

// vcTol is the precision of an 8-decimal division scaled by the reserve, plus one unit.
func vcTol(reserve uint64) vcQ { return vcQadd(vcQmul(vcQu(reserve), vcQfrac(1, 200000000)), vcQi(1)) }

// vcOutFor is the exact constant-product output for a net input a: bo*(1-bi/(bi+a)).
func vcOutFor(bi, bo, a uint64) vcQ {
	return vcQmul(vcQu(bo), vcQsub(vcQi(1), vcQdiv(vcQu(bi), vcQadd(vcQu(bi), vcQu(a)))))
}

// vcInFor is the exact constant-product net input for an output a: bi*(bo/(bo-a)-1).
func vcInFor(bi, bo, a uint64) vcQ {
	return vcQmul(vcQu(bi), vcQsub(vcQdiv(vcQu(bo), vcQsub(vcQu(bo), vcQu(a))), vcQi(1)))
}

// vcRatio: x/y rounded to eight decimals.
func vcRatio(x, y uint64) vcQ {
	return vcQd(decimal.NewFromInt(int64(x)).DivRound(decimal.NewFromInt(int64(y)), 8))
}

// vcIsPct: n = floor(a*num/10000)
func vcIsPct(n, a uint64, num uint64) bool {
	q := vcQmul(vcQu(a), vcQmul(vcQu(num), vcQfrac(1, 10000)))
	return vcQle(vcQu(n), q) && vcQlt(q, vcQadd(vcQu(n), vcQi(1)))
}

func vcOpts(bi, bo, fee uint64, wayIn bool) BalancedReservesOpts {
	return BalancedReservesOpts{BalanceIn: bi, BalanceOut: bo, Fee: fee, ChargeFeeOnTheWayIn: wayIn}
}

// The quote without percentage fee.
//@ contract C02
func vcOutGivenIn(bi, bo, amountIn uint64, wayIn bool) {
	//@ requires bi <= vcMax && bo <= vcMax && amountIn <= vcMax
	//@ call
	out, err := BalancedReserves{}.OutGivenIn(vcOpts(bi, bo, 0, wayIn), amountIn)
	ideal := vcOutFor(bi, bo, amountIn)
	//@ ensures empty: bi == 0 || bo == 0 || amountIn == 0 ==> err != nil
	//@ ensures nonzero: err == nil ==> out > 0
	//@ ensures zero-on-error: err != nil ==> out == 0
	//@ ensures capped: err == nil ==> out <= bo
	//@ ensures not-above: err == nil ==> vcQle(vcQu(out), vcQadd(ideal, vcTol(bo)))
	//@ ensures not-below: err == nil ==> vcQle(ideal, vcQadd(vcQu(out), vcTol(bo)))
	//@ letb priced = bi > 0 && bo > 0 && amountIn > 0
	exact := vcQi(0)
	if priced {
		exact = vcQmul(vcQu(bo), vcQsub(vcQi(1), vcRatio(bi, bi+amountIn)))
	}
	//@ ensures rounded-down: err == nil ==> vcQle(vcQu(out), exact) && vcQlt(exact, vcQadd(vcQu(out), vcQi(1)))
	//@ ensures refused-if-none: err != nil && priced ==> vcQlt(exact, vcQi(1))
	//@ ensures answers: bi > 0 && bo > 0 && amountIn > 0 && vcQlt(vcQadd(vcTol(bo), vcQi(1)), ideal) ==> err == nil
}

// The percentage fee is taken from the input before quoting.
//@ contract C02
func vcOutGivenInFee(bi, bo, fee, amountIn uint64) {
	//@ requires bi <= vcMax && bo <= vcMax && amountIn <= vcMax && fee <= 9999
	net, _ := mathutil.LessFee(amountIn, fee) // exact floor: C04
	free, err0 := BalancedReserves{}.OutGivenIn(vcOpts(bi, bo, 0, true), net)
	//@ call
	out, err := BalancedReserves{}.OutGivenIn(vcOpts(bi, bo, fee, true), amountIn)
	//@ ensures same: (err == nil) == (err0 == nil) && out == free
}

// The percentage fee is taken from the output after quoting.
//@ contract C02
func vcOutGivenInFeeOut(bi, bo, fee, amountIn uint64) {
	//@ requires bi <= vcMax && bo <= vcMax && amountIn <= vcMax && fee <= 9999
	free, err0 := BalancedReserves{}.OutGivenIn(vcOpts(bi, bo, 0, false), amountIn)
	//@ call
	out, err := BalancedReserves{}.OutGivenIn(vcOpts(bi, bo, fee, false), amountIn)
	//@ ensures charged: err == nil ==> err0 == nil && vcIsPct(out, free, 10000-fee)
}

//@ contract C02
func vcInGivenOut(bi, bo, amountOut uint64, wayIn bool) {
	//@ requires bi <= vcMax && bo <= vcMax && amountOut <= vcMax
	//@ call
	in, err := BalancedReserves{}.InGivenOut(vcOpts(bi, bo, 0, wayIn), amountOut)
	ideal := vcInFor(bi, bo, amountOut)
	//@ ensures empty: bi == 0 || bo == 0 || amountOut == 0 ==> err != nil
	//@ ensures too-big: amountOut >= bo ==> err != nil
	//@ ensures nonzero: err == nil ==> in > 0
	//@ ensures zero-on-error: err != nil ==> in == 0
	//@ ensures not-above: err == nil ==> vcQle(vcQu(in), vcQadd(ideal, vcTol(bi)))
	//@ ensures not-below: err == nil ==> vcQle(ideal, vcQadd(vcQu(in), vcTol(bi)))
	//@ letb priced = bi > 0 && amountOut > 0 && amountOut < bo
	exact := vcQi(0)
	if priced {
		exact = vcQmul(vcQu(bi), vcQsub(vcRatio(bo, bo-amountOut), vcQi(1)))
	}
	//@ ensures rounded-down: err == nil ==> vcQle(vcQu(in), exact) && vcQlt(exact, vcQadd(vcQu(in), vcQi(1)))
	//@ ensures refused-if-none: err != nil && priced ==> vcQlt(exact, vcQi(1)) || vcQle(vcQadd(vcQi(9223372036854775807), vcQi(1)), exact)
	//@ ensures unpayable: amountOut < bo && vcQle(vcQadd(vcTol(bi), vcQi(9223372036854775807)), ideal) ==> err != nil
	//@ ensures answers: bi > 0 && amountOut > 0 && amountOut < bo && vcQlt(vcQadd(vcTol(bi), vcQi(1)), ideal) && vcQlt(ideal, vcQi(9000000000000000000)) ==> err == nil
}

// The percentage fee is added on top of the input.
//@ contract C02
func vcInGivenOutFee(bi, bo, fee, amountOut uint64) {
	//@ requires bi <= vcMax && bo <= vcMax && amountOut <= vcMax && fee <= 9999
	free, err0 := BalancedReserves{}.InGivenOut(vcOpts(bi, bo, 0, true), amountOut)
	//@ call
	in, err := BalancedReserves{}.InGivenOut(vcOpts(bi, bo, fee, true), amountOut)
	//@ ensures same-outcome: (err == nil) == (err0 == nil)
	//@ ensures charged: err == nil ==> vcIsPct(in, free, 10000+fee)
}

// The percentage fee is added to the requested output before quoting.
//@ contract C02
func vcInGivenOutFeeOut(bi, bo, fee, amountOut uint64) {
	//@ requires bi <= vcMax && bo <= vcMax && amountOut <= vcMax && fee <= 9999
	gross, _ := mathutil.PlusFee(amountOut, fee) // exact floor: C04
	free, err0 := BalancedReserves{}.InGivenOut(vcOpts(bi, bo, 0, false), gross)
	//@ call
	in, err := BalancedReserves{}.InGivenOut(vcOpts(bi, bo, fee, false), amountOut)
	//@ ensures same: (err == nil) == (err0 == nil) && in == free
}

//@ contract C02
func vcSpotPrice(bi, bo uint64) {
	//@ requires bi <= vcMax && bo <= vcMax
	//@ call
	price, err := BalancedReserves{}.SpotPrice(BalancedReservesOpts{BalanceIn: bi, BalanceOut: bo})
	//@ ensures iff: (err == nil) == (bi > 0 && bo > 0)
	exact := vcQdiv(vcQu(bo), vcQu(bi))
	//@ ensures rounded: err == nil ==> vcQeq(vcQd(price), vcRatio(bo, bi))
	//@ ensures near: err == nil ==> vcQle(vcQsub(vcQd(price), exact), vcQfrac(1, 100000000)) && vcQle(vcQsub(exact, vcQd(price)), vcQfrac(1, 100000000))
}
