//go:build go1.22

package wallet

import (
	"encoding/hex"
	"errors"

	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

// ---- C16: what the inputs and outputs of a transaction are worth is read
// from what they spend and say, with the key of their own script.

type vcUnblinding struct {
	Text    string
	Ptx     *pset.Pset
	Who     int
	Prev    *transaction.TxOutput // what the input or output looked at is worth is read from
	Keys    map[string][]byte
	Data    transactionutil.UnblindedResult
	Bad     bool // the transaction is malformed
	Wrong   bool // the key is
	Astray  bool
	Seen    bool
}

var vcUb *vcUnblinding

func vcDecodeUb(s string) (*pset.Pset, error) {
	if s != vcUb.Text {
		vcUb.Astray = true
	}
	if vcUb.Bad {
		return nil, errors.New("malformed")
	}
	return vcUb.Ptx, nil
}
func vcUnblind(out *transaction.TxOutput, key []byte) (*transactionutil.UnblindedResult, bool) {
	u := vcUb
	if out != u.Prev {
		r := vcAny[transactionutil.UnblindedResult]()
		return &r, vcAny[bool]()
	}
	u.Seen = true
	u.Astray = vcB(func() bool {
		return u.Astray || out.IsConfidential() && !vcSame(key, u.Keys[hex.EncodeToString(out.Script)]) || !out.IsConfidential() && key != nil
	})
	if u.Wrong {
		return nil, false
	}
	return &u.Data, true
}

// vcPrevOf: the output that the i-th input spends, as the transaction tells.
func vcPrevOf(p *pset.Pset, i int) *transaction.TxOutput {
	in := p.Inputs[i]
	if in.WitnessUtxo != nil {
		return in.WitnessUtxo
	}
	if in.NonWitnessUtxo == nil || int(p.UnsignedTx.Inputs[i].Index) >= len(in.NonWitnessUtxo.Outputs) {
		return nil
	}
	return in.NonWitnessUtxo.Outputs[p.UnsignedTx.Inputs[i].Index]
}

func vcTells(d BlindingData, u *vcUnblinding) bool {
	return d.Asset == u.Data.AssetHash && d.Amount == u.Data.Value && vcSame(d.AssetBlinder, u.Data.AssetBlinder) && vcSame(d.AmountBlinder, u.Data.ValueBlinder)
}

//@ contract C16 C10 stub=github.com/vulpemventures/go-elements/pset.NewPsetFromBase64:vcDecodeUb,pkg/transactionutil.UnblindOutput:vcUnblind
func vcUnblindIns(u *vcUnblinding) {
	//@ requires u != nil && u.Ptx != nil && u.Ptx.UnsignedTx != nil && !u.Astray && !u.Seen && u.Keys != nil && len(u.Ptx.Inputs) < 1<<30
	//@ requires len(u.Ptx.UnsignedTx.Inputs) == len(u.Ptx.Inputs) && vcForall(0, len(u.Ptx.Inputs), func(i int) bool { return u.Ptx.UnsignedTx.Inputs[i] != nil })
	//@ requires vcForall(0, len(u.Ptx.Inputs), func(i int) bool { return u.Ptx.Inputs[i].NonWitnessUtxo == nil || vcForall(0, len(u.Ptx.Inputs[i].NonWitnessUtxo.Outputs), func(j int) bool { return u.Ptx.Inputs[i].NonWitnessUtxo.Outputs[j] != nil }) })
	//@ requires 0 <= u.Who && u.Who < len(u.Ptx.Inputs) && u.Prev == vcPrevOf(u.Ptx, u.Who)
	vcUb = u
	_, known := u.Keys[hex.EncodeToString(u.Prev.Script)]
	//@ invariant (): !u.Astray
	//@ invariant (inBlindingData map[int]BlindingData, i int): i <= u.Who || u.Prev != nil && !u.Wrong && vcTells(inBlindingData[u.Who], u)
	//@ invariant (inBlindingData map[int]BlindingData, i int): i <= u.Who || !u.Prev.IsConfidential() || known
	//@ invariant (inBlindingData map[int]BlindingData, i int): vcForallKey(inBlindingData, func(k int) bool { _, ok := inBlindingData[k]; return !ok || 0 <= k && k < i })
	//@ call
	in, out, err := ExtractBlindingDataFromTx(u.Text, u.Keys, nil)
	//@ ensures right: !u.Astray
	//@ ensures told: err == nil ==> u.Prev != nil && vcTells(in[u.Who], u) && out == nil
	//@ ensures sure: err == nil ==> !u.Bad && !u.Wrong && (!u.Prev.IsConfidential() || known)
	//@ ensures only: err == nil ==> vcForallKey(in, func(k int) bool { _, ok := in[k]; return !ok || 0 <= k && k < len(u.Ptx.Inputs) })
	//@ cover ok: err == nil
	//@ cover twice: err == nil && u.Ptx.Inputs[u.Who].WitnessUtxo == nil
}

//@ contract C16 C10 stub=github.com/vulpemventures/go-elements/pset.NewPsetFromBase64:vcDecodeUb,pkg/transactionutil.UnblindOutput:vcUnblind
func vcUnblindOuts(u *vcUnblinding) {
	//@ requires u != nil && u.Ptx != nil && u.Ptx.UnsignedTx != nil && !u.Astray && !u.Seen && len(u.Keys) > 0 && len(u.Ptx.UnsignedTx.Outputs) < 1<<30
	//@ requires vcForall(0, len(u.Ptx.UnsignedTx.Outputs), func(i int) bool { return u.Ptx.UnsignedTx.Outputs[i] != nil })
	//@ requires 0 <= u.Who && u.Who < len(u.Ptx.UnsignedTx.Outputs) && u.Prev == u.Ptx.UnsignedTx.Outputs[u.Who]
	vcUb = u
	_, known := u.Keys[hex.EncodeToString(u.Prev.Script)]
	fee := len(u.Prev.Script) == 0
	//@ invariant (): !u.Astray
	//@ invariant (outBlindingData map[int]BlindingData, i int): i <= u.Who || fee || !u.Wrong && vcTells(outBlindingData[u.Who], u) && vcHasData(outBlindingData, u.Who)
	//@ invariant (outBlindingData map[int]BlindingData, i int): i <= u.Who || fee || !u.Prev.IsConfidential() || known
	//@ invariant (outBlindingData map[int]BlindingData, i int): vcForallKey(outBlindingData, func(k int) bool { _, ok := outBlindingData[k]; return !ok || 0 <= k && k < i && (k != u.Who || !fee) })
	//@ call
	in, out, err := ExtractBlindingDataFromTx(u.Text, nil, u.Keys)
	_, has := out[u.Who]
	//@ ensures right: !u.Astray
	//@ ensures told: err == nil && !fee ==> vcTells(out[u.Who], u) && has && in == nil
	//@ ensures fee: err == nil && fee ==> !has
	//@ ensures sure: err == nil && !fee ==> !u.Bad && !u.Wrong && (!u.Prev.IsConfidential() || known)
	//@ cover ok: err == nil && !fee
}

func vcHasData(m map[int]BlindingData, i int) bool {
	_, ok := m[i]
	return ok
}
