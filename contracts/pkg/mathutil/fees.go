//go:build go1.22

package mathutil

import "github.com/shopspring/decimal"

// ---- C04: percentage fees are exact, rounded down, for every amount.

// vcPct is amount * num / 10000.
func vcPct(amount uint64, num int64) vcQ { return vcQmul(vcQu(amount), vcQfrac(num, 10000)) }

// vcFloorOf: n is the integer part of q.
func vcFloorOf(n uint64, q vcQ) bool {
	return vcQle(vcQu(n), q) && vcQlt(q, vcQadd(vcQu(n), vcQi(1)))
}

//@ contract C04
func vcPlusFee(amount, fee uint64) {
	//@ requires fee <= 9999 && amount <= 9000000000000000000
	//@ call
	withFee, calc := PlusFee(amount, fee)
	//@ ensures total: vcFloorOf(withFee, vcPct(amount, 10000+int64(fee)))
	//@ ensures fee: vcFloorOf(calc, vcPct(amount, int64(fee)))
	//@ ensures adds: withFee == amount+calc
	//@ ensures monotone: withFee >= amount
}

//@ contract C04
func vcLessFee(amount, fee uint64) {
	//@ requires fee <= 9999 && amount <= 9000000000000000000
	//@ call
	lessFee, calc := LessFee(amount, fee)
	//@ ensures total: vcFloorOf(lessFee, vcPct(amount, 10000-int64(fee)))
	//@ ensures fee: vcFloorOf(calc, vcPct(amount, int64(fee)))
	//@ ensures never-more: lessFee <= amount
	//@ ensures conserved: lessFee+calc == amount || lessFee+calc+1 == amount
	//@ ensures positive: amount > 1 && fee < 5000 ==> lessFee > 0
}

// The fee charged grows with the amount.
//@ contract C04
func vcFeeMonotone(a, b, fee uint64) {
	//@ requires fee <= 9999 && a <= b && b <= 9000000000000000000
	//@ call
	pa, _ := PlusFee(a, fee)
	pb, _ := PlusFee(b, fee)
	la, _ := LessFee(a, fee)
	lb, _ := LessFee(b, fee)
	//@ ensures plus: pa <= pb
	//@ ensures less: la <= lb
}

// Exact 64-bit helpers.
//@ contract C04
func vcArith(x, y uint64) {
	//@ requires y > 0
	//@ call
	add, sub, mul, div := Add(x, y), Sub(x, y), Mul(x, y), Div(x, y)
	//@ ensures add: vcQeq(vcQd(add), vcQadd(vcQu(x), vcQu(y)))
	//@ ensures sub: vcQeq(vcQd(sub), vcQsub(vcQu(x), vcQu(y)))
	//@ ensures mul: vcQeq(vcQd(mul), vcQmul(vcQu(x), vcQu(y)))
	//@ ensures div: vcQle(vcQsub(vcQd(div), vcQdiv(vcQu(x), vcQu(y))), vcQfrac(1, 200000000)) && vcQle(vcQsub(vcQdiv(vcQu(x), vcQu(y)), vcQd(div)), vcQfrac(1, 200000000))
}

//@ contract C04
func vcArithDecimal(x, y decimal.Decimal) {
	//@ requires !vcQeq(vcQd(y), vcQi(0))
	//@ call
	add, sub, mul := AddDecimal(x, y), SubDecimal(x, y), MulDecimal(x, y)
	//@ ensures add: vcQeq(vcQd(add), vcQadd(vcQd(x), vcQd(y)))
	//@ ensures sub: vcQeq(vcQd(sub), vcQsub(vcQd(x), vcQd(y)))
	//@ ensures mul: vcQeq(vcQd(mul), vcQmul(vcQd(x), vcQd(y)))
}
