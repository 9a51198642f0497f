//go:build go1.22

package domain

import (
	"errors"

	"github.com/shopspring/decimal"
)

var vcRefusal = errors.New("refused")

// ---- C05: the life cycle of a trade.

// vcReq is any swap request.
type vcReq struct {
	Id, AssetP, AssetR, Tx string
	AmountP, AmountR       uint64
}

func (r *vcReq) GetId() string                           { return r.Id }
func (r *vcReq) GetAssetP() string                       { return r.AssetP }
func (r *vcReq) GetAmountP() uint64                      { return r.AmountP }
func (r *vcReq) GetAssetR() string                       { return r.AssetR }
func (r *vcReq) GetAmountR() uint64                      { return r.AmountR }
func (r *vcReq) GetTransaction() string                  { return r.Tx }
func (r *vcReq) GetInputBlindingKey() map[string][]byte  { return nil }
func (r *vcReq) GetOutputBlindingKey() map[string][]byte { return nil }

// vcParser is any swap parser: it answers with the given values and remembers
// what it was asked.
type vcParser struct {
	Id, FailId    string
	Msg, FailMsg  []byte
	Fails         bool
	Code          int
	TxID, TxHex   string
	PsetFails     bool
	NoReq         int // calls
	NoAcc         int
	NoCompl       int
	NoFail        int
	Req           SwapRequest
	Acc           AcceptArgs
	ComplMsg      []byte
	ComplTx       string
	FailOf        string
	FailCode      int
	Pset          string
}

func (p *vcParser) err() *SwapError {
	if p.Fails {
		return &SwapError{Err: vcRefusal, Code: p.Code}
	}
	return nil
}
func (p *vcParser) SerializeRequest(r SwapRequest) ([]byte, *SwapError) {
	p.NoReq++
	p.Req = r
	return p.Msg, p.err()
}
func (p *vcParser) SerializeAccept(args AcceptArgs) (string, []byte, *SwapError) {
	p.NoAcc++
	p.Acc = args
	return p.Id, p.Msg, p.err()
}
func (p *vcParser) SerializeComplete(accMsg []byte, tx string) (string, []byte, *SwapError) {
	p.NoCompl++
	p.ComplMsg, p.ComplTx = accMsg, tx
	return p.Id, p.Msg, p.err()
}
func (p *vcParser) SerializeFail(id string, code int, msg string) (string, []byte) {
	p.NoFail++
	p.FailOf, p.FailCode = id, code
	return p.FailId, p.FailMsg
}
func (p *vcParser) DeserializeRequest(msg []byte) (SwapRequest, error)   { return nil, nil }
func (p *vcParser) DeserializeAccept(msg []byte) (SwapAccept, error)     { return nil, nil }
func (p *vcParser) DeserializeComplete(msg []byte) (SwapComplete, error) { return nil, nil }
func (p *vcParser) DeserializeFail(msg []byte) (SwapFail, error)         { return nil, nil }
func (p *vcParser) GetTxID(pset string) (string, error) {
	p.Pset = pset
	if p.PsetFails {
		return "", vcRefusal
	}
	return p.TxID, nil
}
func (p *vcParser) GetTxHex(pset string) (string, error) {
	p.Pset = pset
	if p.PsetFails {
		return "", vcRefusal
	}
	return p.TxHex, nil
}

// vcUse installs the parser and forgets its history.
func vcUse(p *vcParser) {
	p.NoReq, p.NoAcc, p.NoCompl, p.NoFail = 0, 0, 0, 0
	SwapParserManager, PsetParserManager = p, p
}

// vcTradeOK is the representation invariant of a trade.
func vcTradeOK(t Trade) bool {
	c := t.Status.Code
	return (c == Empty || c == Proposal || c == Accepted || c == Completed || c == Settled || c == Expired) &&
		(t.ExpiryTime > 0) == (c == Accepted || c == Completed || c == Expired) &&
		(c != Settled || !t.Status.Failed) && (c != Expired || t.Status.Failed) &&
		(c != Empty || !t.Status.Failed) &&
		(t.SettlementTime == 0 || c == Settled) &&
		t.ExpiryTime <= 4000000000+vcMaxDuration
}

const vcMaxDuration = 1 << 40

// vcTradeTerms: what has been agreed.
func vcTradeTerms(a, b Trade) bool {
	return a.ID == b.ID && a.MarketQuoteAsset == b.MarketQuoteAsset && vcSame(a.TraderPubkey, b.TraderPubkey) &&
		vcQeq(vcQd(a.MarketPrice.BasePrice), vcQd(b.MarketPrice.BasePrice)) && vcQeq(vcQd(a.MarketPrice.QuotePrice), vcQd(b.MarketPrice.QuotePrice)) &&
		a.MarketFee == b.MarketFee && a.MarketFixedBaseFee == b.MarketFixedBaseFee && a.MarketFixedQuoteFee == b.MarketFixedQuoteFee &&
		vcSame(a.SwapRequest, b.SwapRequest)
}
func vcTradeTx(a, b Trade) bool {
	return a.PsetBase64 == b.PsetBase64 && a.TxID == b.TxID && a.TxHex == b.TxHex
}
func vcTradeTimes(a, b Trade) bool {
	return a.ExpiryTime == b.ExpiryTime && a.SettlementTime == b.SettlementTime
}
func vcTradeMsgs(a, b Trade) bool {
	return vcSame(a.SwapAccept, b.SwapAccept) && vcSame(a.SwapComplete, b.SwapComplete)
}
func vcTradeSame(a, b Trade) bool {
	return vcTradeTerms(a, b) && vcTradeTx(a, b) && vcTradeTimes(a, b) && vcTradeMsgs(a, b) && vcSame(a.SwapFail, b.SwapFail) && a.Status == b.Status
}

// vcFailedWith: the failure (code, about the given swap) is recorded.
func vcFailedWith(t Trade, p *vcParser, about string) bool {
	return t.Status.Failed && t.SwapFail.ID == p.FailId && vcSame(t.SwapFail.Message, p.FailMsg) && p.NoFail == 1 && p.FailOf == about && p.FailCode == p.Code
}

//@ contract C05
func vcNewTrade() {
	//@ call
	t := NewTrade()
	//@ ensures empty: t != nil && t.IsEmpty() && vcTradeOK(*t)
}

//@ contract C05
func vcPropose(t *Trade, r *vcReq, p *vcParser, quoteAsset string, fee, baseFee, quoteFee int64, pubkey []byte) {
	//@ requires t != nil && r != nil && p != nil && vcTradeOK(*t)
	//@ requires r.AmountP > 0 && r.AmountR > 0 && r.AmountP <= vcMax && r.AmountR <= vcMax
	vcUse(p)
	old := *t
	//@ call
	ok, err := t.Propose(r, quoteAsset, fee, baseFee, quoteFee, pubkey)
	rp, pr := decimal.NewFromInt(int64(r.AmountR)), decimal.NewFromInt(int64(r.AmountP))
	pPerR, rPerP := pr.Div(rp).Truncate(8), rp.Div(pr).Truncate(8)
	base, quote := pPerR, rPerP
	if r.AssetP == quoteAsset {
		base, quote = rPerP, pPerR
	}
	//@ letb first = old.Status.Code < Proposal
	//@ ensures once: !first ==> ok && err == nil && vcTradeSame(*t, old) && p.NoReq == 0
	//@ ensures no-error: err == nil
	//@ ensures outcome: first ==> ok == !p.Fails && p.NoReq == 1
	//@ ensures status: first ==> t.Status.Code == Proposal && t.Status.Failed == p.Fails
	//@ ensures request: first ==> t.SwapRequest.ID == r.Id && t.PsetBase64 == r.Tx && t.MarketQuoteAsset == quoteAsset && vcSame(t.TraderPubkey, pubkey)
	//@ ensures failure: first && p.Fails ==> vcFailedWith(*t, p, r.Id)
	//@ ensures terms: first && !p.Fails ==> vcSame(t.SwapRequest.Message, p.Msg) && t.MarketFee == fee && t.MarketFixedBaseFee == baseFee && t.MarketFixedQuoteFee == quoteFee
	//@ ensures price: first && !p.Fails ==> vcQeq(vcQd(t.MarketPrice.BasePrice), vcQd(base)) && vcQeq(vcQd(t.MarketPrice.QuotePrice), vcQd(quote))
	//@ ensures valid: vcTradeOK(*t)
	//@ ensures frame: t.ID == old.ID && vcTradeTimes(*t, old) && vcTradeMsgs(*t, old) && t.TxID == old.TxID && t.TxHex == old.TxHex
}

//@ contract C05
func vcAccept(t *Trade, p *vcParser, pset string, inKeys, outKeys map[string][]byte, duration uint64) {
	//@ requires t != nil && p != nil && vcTradeOK(*t) && duration <= vcMaxDuration
	vcUse(p)
	old := *t
	//@ call
	ok, err := t.Accept(pset, inKeys, outKeys, duration)
	//@ letb proposed = old.Status.Code == Proposal && !old.Status.Failed
	//@ ensures once: old.Status.Code >= Accepted ==> ok && err == nil && vcTradeSame(*t, old) && p.NoAcc == 0
	//@ ensures only-proposed: old.Status.Code < Accepted && !proposed ==> !ok && err != nil && vcTradeSame(*t, old) && p.NoAcc == 0
	//@ ensures outcome: proposed ==> err == nil && ok == !p.Fails && p.NoAcc == 1
	//@ ensures checked: proposed ==> vcSame(p.Acc.RequestMessage, old.SwapRequest.Message) && p.Acc.Transaction == pset
	//@ ensures failure: proposed && p.Fails ==> vcFailedWith(*t, p, old.SwapRequest.ID) && t.Status.Code == Proposal && vcTradeTx(*t, old) && vcTradeTimes(*t, old) && vcTradeMsgs(*t, old)
	//@ ensures accepted: proposed && !p.Fails ==> t.Status.Code == Accepted && !t.Status.Failed && t.SwapAccept.ID == p.Id && vcSame(t.SwapAccept.Message, p.Msg) && t.PsetBase64 == pset
	//@ ensures txid: proposed && !p.Fails ==> p.Pset == pset && t.TxID == vcIte(p.PsetFails, "", p.TxID)
	//@ ensures expiry: proposed && !p.Fails ==> t.ExpiryTime == t.SwapAccept.Timestamp+duration && t.SwapAccept.Timestamp > 0
	//@ ensures valid: vcTradeOK(*t)
	//@ ensures frame: vcTradeTerms(*t, old) && t.TxHex == old.TxHex && vcSame(t.SwapComplete, old.SwapComplete) && t.SettlementTime == old.SettlementTime
}

//@ contract C05
func vcComplete(t *Trade, p *vcParser, tx string) {
	//@ requires t != nil && p != nil && vcTradeOK(*t)
	vcUse(p)
	old := *t
	late := t.IsExpired()
	//@ call
	res, err := t.Complete(tx)
	lateNow := t.IsExpired()
	//@ letb accepted = old.Status.Code == Accepted
	//@ letb done = old.Status.Code >= Completed && old.Status.Code != Expired
	//@ ensures once: done ==> err == nil && res != nil && res.OK && res.TxHex == old.TxHex && res.TxID == old.TxID && vcTradeSame(*t, old) && p.NoCompl == 0
	//@ ensures only-accepted: !done && !accepted ==> err != nil && res == nil && vcTradeSame(*t, old) && p.NoCompl == 0
	//@ ensures expired: old.Status.Code == Expired ==> err != nil && res == nil && vcTradeSame(*t, old) && p.NoCompl == 0
	//@ ensures not-late: accepted && late ==> err != nil && res == nil && t.Status.Failed && t.Status.Code == Accepted && p.NoCompl == 0
	//@ ensures refused: accepted && err != nil ==> res == nil && lateNow && t.Status.Failed && t.Status.Code == Accepted && vcTradeTx(*t, old) && vcTradeMsgs(*t, old)
	//@ ensures checked: accepted && err == nil ==> p.NoCompl == 1 && vcSame(p.ComplMsg, old.SwapAccept.Message) && p.ComplTx == tx
	//@ ensures outcome: accepted && err == nil ==> res != nil && res.OK == !p.Fails
	//@ ensures failure: accepted && err == nil && p.Fails ==> t.Status.Failed && t.Status.Code == Accepted && (old.Status.Failed || vcFailedWith(*t, p, old.SwapAccept.ID)) && vcTradeTx(*t, old) && vcTradeMsgs(*t, old)
	//@ ensures completed: accepted && err == nil && !p.Fails ==> t.Status.Code == Completed && !t.Status.Failed && t.SwapComplete.ID == p.Id && vcSame(t.SwapComplete.Message, p.Msg) && vcSame(t.SwapAccept, old.SwapAccept)
	//@ ensures result: accepted && err == nil && !p.Fails ==> res.TxHex == t.TxHex && res.TxID == t.TxID
	//@ ensures hex: accepted && err == nil && !p.Fails && isHex(tx) ==> t.TxHex == tx && t.PsetBase64 == old.PsetBase64
	//@ ensures pset: accepted && err == nil && !p.Fails && !isHex(tx) && tx != "" ==> t.PsetBase64 == tx && p.Pset == tx && t.TxHex == vcIte(p.PsetFails, "", p.TxHex)
	//@ ensures valid: vcTradeOK(*t)
	//@ ensures frame: vcTradeTerms(*t, old) && vcTradeTimes(*t, old) && t.TxID == old.TxID
}

//@ contract C05
func vcSettle(t *Trade, at uint64) {
	//@ requires t != nil && vcTradeOK(*t)
	old := *t
	//@ call
	ok, err := t.Settle(at)
	//@ letb settled = old.Status.Code == Settled
	//@ letb can = old.Status.Code == Accepted || old.Status.Code == Completed || old.Status.Failed
	//@ ensures once: settled ==> ok && err == nil && vcTradeSame(*t, old)
	//@ ensures refused: !settled && !can ==> !ok && err != nil && vcTradeSame(*t, old)
	//@ ensures settled: !settled && can ==> ok && err == nil && t.Status.Code == Settled && !t.Status.Failed && t.SettlementTime == at && t.ExpiryTime == 0
	//@ ensures valid: vcTradeOK(*t)
	//@ ensures frame: vcTradeTerms(*t, old) && vcTradeTx(*t, old) && vcTradeMsgs(*t, old) && vcSame(t.SwapFail, old.SwapFail)
}

//@ contract C05
func vcFailTrade(t *Trade, p *vcParser, id string, code int, msg string) {
	//@ requires t != nil && p != nil && vcTradeOK(*t) && (t.Status.Code == Proposal || t.Status.Code == Accepted || t.Status.Code == Completed)
	vcUse(p)
	old := *t
	//@ call
	t.Fail(id, code, msg)
	//@ ensures once: old.Status.Failed ==> vcTradeSame(*t, old) && p.NoFail == 0
	//@ ensures failed: t.Status.Failed && t.Status.Code == old.Status.Code
	//@ ensures recorded: !old.Status.Failed ==> t.SwapFail.ID == p.FailId && vcSame(t.SwapFail.Message, p.FailMsg) && p.FailOf == id && p.FailCode == code
	//@ ensures valid: vcTradeOK(*t)
	//@ ensures frame: vcTradeTerms(*t, old) && vcTradeTx(*t, old) && vcTradeMsgs(*t, old) && vcTradeTimes(*t, old)
}

//@ contract C05
func vcExpire(t *Trade) {
	//@ requires t != nil && vcTradeOK(*t)
	old := *t
	late := t.IsExpired()
	//@ call
	ok, err := t.Expire()
	lateNow := t.IsExpired()
	//@ letb expired = old.Status.Code == Expired
	//@ ensures once: expired ==> ok && err == nil && vcTradeSame(*t, old)
	//@ ensures outcome: ok == (err == nil)
	//@ ensures no-date: old.ExpiryTime == 0 ==> err != nil
	//@ ensures due: late ==> err == nil
	//@ ensures not-due: err == nil ==> lateNow && old.ExpiryTime > 0
	//@ ensures refused: err != nil ==> vcTradeSame(*t, old)
	//@ ensures expired: err == nil ==> t.Status.Code == Expired && t.Status.Failed
	//@ ensures valid: vcTradeOK(*t)
	//@ ensures frame: vcTradeTerms(*t, old) && vcTradeTx(*t, old) && vcTradeMsgs(*t, old) && vcTradeTimes(*t, old) && vcSame(t.SwapFail, old.SwapFail)
}
