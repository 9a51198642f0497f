//go:build go1.22

package swap

import (
	"encoding/hex"
	"errors"

	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
	pb "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
	"google.golang.org/protobuf/proto"
)

// Ghost state: what the functions under contract handed to the libraries and
// what those answer.
var (
	vcPacket   *pset.Pset            // what the pset decodes to; nil: nothing
	vcAskedFor string                // the text that was decoded
	vcSent     proto.Message         // the message that was serialised
	vcBytes    []byte                // its serialisation
	vcMarshals bool                  // serialising succeeds
	vcRead     []byte                // the message that was read
	vcReads    bool                  // reading succeeds
	vcFresh    string                // the random id
	vcSigned   bool                  // every signature is valid
	vcSigErr   bool                  // the signatures can't be checked
	vcTxOk     bool                  // the hex text is a transaction
	vcTxAsked  string
	vcIsTx     *transaction.Transaction
)

func vcE(fails bool) error {
	if fails {
		return errors.New("fails")
	}
	return nil
}

// Contracts of the libraries.
func vcDecode(b64 string) (*pset.Pset, error) {
	vcAskedFor = b64
	if vcPacket == nil {
		return nil, errors.New("not a pset")
	}
	return vcPacket, nil
}
func vcMarshal(m proto.Message) ([]byte, error) {
	if !vcMarshals {
		return nil, errors.New("not serialisable")
	}
	vcSent = m
	return vcBytes, nil
}

// vcIdOf: the id in a serialised message.
func vcIdOf(msg []byte) string { return "" }
func vcUnmarshal(b []byte, m proto.Message) error {
	vcRead = b
	if !vcReads {
		return errors.New("not a message")
	}
	if r, ok := m.(*pb.SwapRequest); ok {
		r.Id = vcIdOf(b)
	}
	if a, ok := m.(*pb.SwapAccept); ok {
		a.Id = vcIdOf(b)
	}
	return nil
}
func vcRandom(n int) string { return vcFresh }
func vcSignatures(p *pset.Pset) (bool, error) {
	if vcSigErr {
		return false, errors.New("can't be checked")
	}
	return vcSigned, nil
}
func vcTxFromHex(s string) (*transaction.Transaction, error) {
	vcTxAsked = s
	if !vcTxOk {
		return nil, errors.New("not a transaction")
	}
	return vcIsTx, nil
}

// vcDecoded: what a decoded pset always is.
func vcDecoded(p *pset.Pset) bool {
	return p == nil || p.UnsignedTx != nil && len(p.Inputs) == len(p.UnsignedTx.Inputs) && len(p.Outputs) == len(p.UnsignedTx.Outputs) &&
		vcForall(0, len(p.UnsignedTx.Inputs), func(i int) bool { return p.UnsignedTx.Inputs[i] != nil }) &&
		vcForall(0, len(p.UnsignedTx.Outputs), func(i int) bool { return p.UnsignedTx.Outputs[i] != nil }) &&
		vcForall(0, len(p.Inputs), func(i int) bool {
			t := p.Inputs[i].NonWitnessUtxo
			return t == nil || vcForall(0, len(t.Outputs), func(j int) bool { return t.Outputs[j] != nil })
		})
}

// vcSpent: the output that input i spends, nil if the pset doesn't tell.
func vcSpent(p *pset.Pset, i int) *transaction.TxOutput {
	in := p.Inputs[i]
	if in.WitnessUtxo != nil {
		return in.WitnessUtxo
	}
	if in.NonWitnessUtxo != nil && int(p.UnsignedTx.Inputs[i].Index) < len(in.NonWitnessUtxo.Outputs) {
		return in.NonWitnessUtxo.Outputs[p.UnsignedTx.Inputs[i].Index]
	}
	return nil
}

func vcHasKey(m map[string][]byte, script []byte) bool {
	_, ok := m[hex.EncodeToString(script)]
	return ok
}

func vcSaneIn(in pset.PInput) bool {
	return !(in.NonWitnessUtxo != nil && in.WitnessUtxo != nil) && !(in.WitnessUtxo == nil && in.WitnessScript != nil) &&
		!(in.WitnessUtxo == nil && in.FinalScriptWitness != nil)
}

// vcInOk, vcOutOk: input and output i can be accounted for with the keys.
func vcInOk(p *pset.Pset, i int, keys map[string][]byte) bool {
	return vcSaneIn(p.Inputs[i]) && vcSpent(p, i) != nil && (keys == nil || vcHasKey(keys, vcSpent(p, i).Script))
}
func vcOutOk(p *pset.Pset, i int, keys map[string][]byte) bool {
	o := p.UnsignedTx.Outputs[i]
	return keys == nil || len(o.Script) == 0 || vcHasKey(keys, o.Script)
}

// vcKeyed: a pset whose inputs and outputs can all be accounted for.
func vcKeyed(p *pset.Pset, in, out map[string][]byte) bool {
	return p != nil && vcForall(0, len(p.Inputs), func(i int) bool { return vcInOk(p, i, in) }) &&
		vcForall(0, len(p.UnsignedTx.Outputs), func(i int) bool { return vcOutOk(p, i, out) })
}

//@ contract C06 opaque=encoding/hex.EncodeToString stub=github.com/vulpemventures/go-elements/pset.NewPsetFromBase64:vcDecode
func vcChecks(p *pset.Pset, b64 string, in, out map[string][]byte) {
	//@ requires vcDecoded(p)
	//@ invariant (ptx *pset.Pset, inBlindKeys map[string][]byte, i int): vcForall(0, i, func(j int) bool { return vcInOk(ptx, j, inBlindKeys) })
	//@ invariant (ptx *pset.Pset, outBlindKeys map[string][]byte, i int): vcForall(0, i, func(j int) bool { return vcOutOk(ptx, j, outBlindKeys) })
	vcPacket = p
	//@ call
	err := checkTxAndBlindKeys(b64, in, out)
	//@ ensures keyed: (err == nil) == vcKeyed(p, in, out)
	//@ ensures it: vcAskedFor == b64
}

// vcKeysOk: the contract of checkTxAndBlindKeys as its callers see it.
var vcOk bool
var vcChecked string
var vcCheckedIn, vcCheckedOut map[string][]byte

func vcKeysOk(b64 string, in, out map[string][]byte) error {
	vcChecked, vcCheckedIn, vcCheckedOut = b64, in, out
	return vcE(!vcOk)
}

//@ contract C06 stub=checkTxAndBlindKeys:vcKeysOk,google.golang.org/protobuf/proto.Marshal:vcMarshal,github.com/thanhpk/randstr.Hex:vcRandom
func vcRequest(opts RequestOpts, ok, marshals bool, fresh string, b []byte) {
	vcOk, vcMarshals, vcFresh, vcBytes = ok, marshals, fresh, b
	//@ call
	msg, err := Request(opts)
	m, _ := vcSent.(*pb.SwapRequest)
	//@ ensures served: (err == nil) == (ok && marshals)
	//@ ensures checked: vcChecked == opts.PsetBase64 && vcSame(vcCheckedIn, opts.InputBlindingKeys) && vcSame(vcCheckedOut, opts.OutputBlindingKeys)
	//@ ensures message: err == nil ==> vcSame(msg, b) && m != nil
	//@ ensures terms: err == nil ==> m.AssetP == opts.AssetToSend && m.AmountP == opts.AmountToSend && m.AssetR == opts.AssetToReceive && m.AmountR == opts.AmountToReceive
	//@ ensures transaction: err == nil ==> m.Transaction == opts.PsetBase64
	//@ ensures inkeys: err == nil ==> vcSame(m.InputBlindingKey, opts.InputBlindingKeys)
	//@ ensures outkeys: err == nil ==> vcSame(m.OutputBlindingKey, opts.OutputBlindingKeys)
	//@ ensures id: err == nil ==> m.Id == vcIte(len(opts.Id) > 0, opts.Id, fresh)
}

//@ contract C06 opaque=vcIdOf stub=checkTxAndBlindKeys:vcKeysOk,google.golang.org/protobuf/proto.Marshal:vcMarshal,google.golang.org/protobuf/proto.Unmarshal:vcUnmarshal,github.com/thanhpk/randstr.Hex:vcRandom
func vcAccept(opts AcceptOpts, ok, marshals, reads bool, fresh string, b []byte) {
	vcOk, vcMarshals, vcReads, vcFresh, vcBytes = ok, marshals, reads, fresh, b
	//@ call
	id, msg, err := Accept(opts)
	m, _ := vcSent.(*pb.SwapAccept)
	//@ ensures served: (err == nil) == (ok && marshals && reads)
	//@ ensures checked: err == nil ==> vcChecked == opts.PsetBase64 && vcSame(vcCheckedIn, opts.InputBlindingKeys) && vcSame(vcCheckedOut, opts.OutputBlindingKeys)
	//@ ensures message: err == nil ==> vcSame(msg, b) && m != nil && id == fresh && m.Id == id
	//@ ensures answers: err == nil ==> vcSame(vcRead, opts.Message) && m.RequestId == vcIdOf(opts.Message)
	//@ ensures transaction: err == nil ==> m.Transaction == opts.PsetBase64 && vcSame(m.InputBlindingKey, opts.InputBlindingKeys) && vcSame(m.OutputBlindingKey, opts.OutputBlindingKeys)
}

//@ contract C06 opaque=vcIdOf,isHex stub=github.com/vulpemventures/go-elements/pset.NewPsetFromBase64:vcDecode,(*github.com/vulpemventures/go-elements/pset.Pset).ValidateAllSignatures:vcSignatures,github.com/vulpemventures/go-elements/transaction.NewTxFromHex:vcTxFromHex,google.golang.org/protobuf/proto.Marshal:vcMarshal,google.golang.org/protobuf/proto.Unmarshal:vcUnmarshal,github.com/thanhpk/randstr.Hex:vcRandom
func vcComplete(opts CompleteOpts, p *pset.Pset, marshals, reads, signed, sigErr, txOk bool, fresh string, b []byte) {
	vcPacket, vcMarshals, vcReads, vcFresh, vcBytes = p, marshals, reads, fresh, b
	vcSigned, vcSigErr, vcTxOk = signed, sigErr, txOk
	//@ call
	id, msg, err := Complete(opts)
	m, _ := vcSent.(*pb.SwapComplete)
	good := vcB(func() bool { return vcIte(isHex(opts.Transaction), txOk, p != nil && signed && !sigErr) })
	//@ ensures served: (err == nil) == (reads && marshals && good)
	//@ ensures decoded: err == nil ==> vcIte(isHex(opts.Transaction), vcTxAsked == opts.Transaction, vcAskedFor == opts.Transaction)
	//@ ensures message: err == nil ==> vcSame(msg, b) && m != nil && id == fresh && m.Id == id
	//@ ensures answers: err == nil ==> vcSame(vcRead, opts.Message) && m.AcceptId == vcIdOf(opts.Message)
	//@ ensures transaction: err == nil ==> m.Transaction == opts.Transaction
}

//@ contract C06 stub=google.golang.org/protobuf/proto.Marshal:vcMarshal,github.com/thanhpk/randstr.Hex:vcRandom
func vcFailed(opts FailOpts, fresh string, b []byte) {
	//@ requires opts.ErrCode >= 0 && opts.ErrCode <= ErrCodeFailedToComplete
	vcMarshals, vcFresh, vcBytes = true, fresh, b
	//@ call
	id, msg, err := Fail(opts)
	m, _ := vcSent.(*pb.SwapFail)
	//@ ensures served: err == nil && vcSame(msg, b) && m != nil
	//@ ensures message: m.Id == id && id == fresh && m.MessageId == opts.MessageID && m.FailureCode == uint32(opts.ErrCode)
}

// vcPaysOut: output o states, or reveals with its key, the value and asset.
func vcPaysOut(o *transaction.TxOutput, value uint64, asset string, keys map[string][]byte) bool {
	if o.IsConfidential() {
		u, ok := transactionutil.UnblindOutput(o, keys[hex.EncodeToString(o.Script)])
		if ok && u.Value == value && u.AssetHash == asset {
			return true
		}
	}
	return bufferutil.ValueFromBytes(o.Value) == value && bufferutil.AssetHashFromBytes(o.Asset) == asset
}

// vcReadable: output o can be read with the keys.
func vcReadable(o *transaction.TxOutput, keys map[string][]byte) bool {
	if !o.IsConfidential() {
		return true
	}
	_, ok := transactionutil.UnblindOutput(o, keys[hex.EncodeToString(o.Script)])
	return vcHasKey(keys, o.Script) && ok
}

//@ contract C06 opaque=encoding/hex.EncodeToString,pkg/transactionutil.UnblindOutput!,pkg/bufferutil.ValueFromBytes,pkg/bufferutil.AssetHashFromBytes
func vcFinds(outs []*transaction.TxOutput, value uint64, asset string, keys map[string][]byte, who int) {
	//@ requires vcForall(0, len(outs), func(i int) bool { return outs[i] != nil })
	//@ requires who >= 0 && who < len(outs)
	//@ invariant (outputs []*transaction.TxOutput, value uint64, asset string, ouptutBlindKeys map[string][]byte, i int): vcForall(0, i, func(j int) bool { return vcReadable(outputs[j], ouptutBlindKeys) && !vcPaysOut(outputs[j], value, asset, ouptutBlindKeys) })
	//@ call
	found, err := outputFoundInTransaction(outs, value, asset, keys)
	//@ ensures found: found ==> err == nil && !vcForall(0, len(outs), func(i int) bool { return !vcPaysOut(outs[i], value, asset, keys) })
	//@ ensures missed: err == nil && !found ==> !vcPaysOut(outs[who], value, asset, keys)
	//@ ensures readable: err == nil && !found ==> vcReadable(outs[who], keys)
	//@ ensures unreadable: err != nil ==> !found && !vcForall(0, len(outs), func(i int) bool { return vcReadable(outs[i], keys) })
}
