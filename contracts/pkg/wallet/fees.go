//go:build go1.22

package wallet

import (
	"encoding/hex"
	"errors"

	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

var (
	vcRemain    []explorer.Utxo
	vcAskedAll  []explorer.Utxo
	vcAskedDone []explorer.Utxo
	vcFeeCoins  []explorer.Utxo
	vcFeeFrom   []explorer.Utxo
	vcFeeTx     *pset.Pset
	vcFeeIns    int
	vcFeeOuts   int
	vcFeeChange uint64
	vcFeeAmount uint64
	vcFeeBad    bool
	vcNewAsset  string
	vcNewValue  uint64
	vcNewScript []byte
	vcNews      int
	vcPset      *pset.Pset
	vcPsetBad   bool
)

// vcFee: the network fees of a transaction with some more inputs and outputs.
func vcFee(tx *pset.Pset, ins, outs, rate int) uint64 { return 0 }

// vcFeeOf: the contract of calcFeeAmount.
func vcFeeOf(tx *pset.Pset, ins, outs, rate int) uint64 { return vcFee(tx, ins, outs, rate) }

// vcPick: the contract of explorer.SelectUnspents.
func vcPick(utxos []explorer.Utxo, target uint64, asset string) ([]explorer.Utxo, uint64, error) {
	vcFeeFrom, vcNewAsset, vcAmount = utxos, asset, target
	total := vcTotal(asset, target)
	if total < target {
		return nil, 0, errors.New("not enough")
	}
	return vcCoins(asset, target), total - target, nil
}

//@ contract C10 opaque=vcCoins,vcTotal,vcFee stub=pkg/explorer.SelectUnspents:vcPick,calcFeeAmount:vcFeeOf
func vcFeeSelect(o UpdateTxOpts, tx *pset.Pset, utxos []explorer.Utxo, ins, outs int) {
	//@ requires o.Network != nil && tx != nil && ins >= 0 && outs >= 0 && ins < 1<<30
	//@ call
	coins, change, fee, err := o.selectUnspentsForFees(tx, utxos, ins, outs)
	total := vcTotal(o.Network.AssetID, vcAmount)
	//@ ensures balance: err == nil ==> fee <= total && change == total-fee
	//@ ensures fee: err == nil ==> fee == vcFee(tx, ins+len(coins), outs, o.MilliSatsPerBytes)
	//@ ensures coins: err == nil ==> vcSame(coins, vcCoins(o.Network.AssetID, vcAmount)) && vcSame(vcFeeFrom, utxos) && vcNewAsset == o.Network.AssetID
}

// vcSelectFees: the contract of selectUnspentsForFees.
func vcSelectFees(o UpdateTxOpts, tx *pset.Pset, utxos []explorer.Utxo, ins, outs int) ([]explorer.Utxo, uint64, uint64, error) {
	vcFeeTx, vcFeeFrom, vcFeeIns, vcFeeOuts = tx, utxos, ins, outs
	if vcFeeBad {
		return nil, 0, 0, errors.New("can't pay the fees")
	}
	return vcFeeCoins, vcFeeChange, vcFeeAmount, nil
}

// vcRest: the contract of getRemainingUnspents.
func vcRest(all, done []explorer.Utxo) []explorer.Utxo {
	vcAskedAll, vcAskedDone = all, done
	return vcRemain
}

func vcNewOutput(asset string, value uint64, script []byte) (*transaction.TxOutput, error) {
	vcNewAsset, vcNewValue, vcNewScript = asset, value, script
	vcNews++
	return vcChange, nil
}

// The stage of the network fees: no outputs, coins of the fee account.
//@ contract C10 opaque=vcScriptOf,vcPrvOf!,vcPubOf!,(*github.com/btcsuite/btcd/btcec.PrivateKey).Serialize,(*github.com/btcsuite/btcd/btcec.PublicKey).SerializeCompressed stub=github.com/vulpemventures/go-elements/pset.NewPsetFromBase64:vcDecodeTx,(pkg/wallet.UpdateTxOpts).selectUnspentsForFees:vcSelectFees,getRemainingUnspents:vcRest,(*pkg/wallet.Wallet).DeriveConfidentialAddress:vcAddressOf,(*pkg/wallet.Wallet).DeriveBlindingKeyPair:vcKeyPairOf,addInsAndOutsToPset:vcAdd,newTxOutput:vcNewOutput,(pkg/wallet.UpdateTxOpts).validate:vcValid,(pkg/wallet.UpdateTxOpts).getOutputsTotalAmountsByAsset:vcTotalsOf,(*pkg/wallet.Wallet).validate:vcValidWallet
func vcUpdateFees(w *Wallet, o UpdateTxOpts, tx *pset.Pset, out *transaction.TxOutput, invalid, locked, addErr, bad bool, fee, change uint64, coins, rest []explorer.Utxo, who int) {
	//@ requires w != nil && tx != nil && out != nil && o.Network != nil && o.WantChangeForFees && len(o.Unspents) > 0 && len(o.Outputs) == 0
	path := o.ChangePathsByAsset[o.Network.AssetID]
	script := vcScriptOf(path)
	//@ requires len(script) > 0
	//@ invariant (inputsToAdd []explorer.Utxo, outputsToAdd []*transaction.TxOutput, i int): len(inputsToAdd) == 0 && len(outputsToAdd) == 0
	vcTx, vcBad, vcLocked, vcAddErr = tx, invalid, locked, addErr
	vcFeeBad, vcFeeAmount, vcFeeChange, vcFeeCoins, vcRemain, vcChange, vcNews, vcTotalBy = bad, fee, change, coins, rest, out, 0, nil
	//@ call
	r, err := w.UpdateTx(o)
	//@ ensures passed: err == nil ==> !invalid && !locked && !bad && !addErr
	//@ ensures coins: err == nil ==> vcSame(vcAskedAll, o.Unspents) && len(vcAskedDone) == 0 && vcSame(vcFeeFrom, rest) && vcFeeTx == tx && vcFeeIns == 0 && vcFeeOuts == 1
	//@ ensures inputs: err == nil ==> vcAddTx == tx && len(vcAddIns) == len(coins) && vcForall(0, len(coins), func(i int) bool { return vcAddIns[i] == coins[i] })
	//@ ensures change: err == nil ==> vcNews == 1 && vcNewAsset == o.Network.AssetID && vcNewValue == change && vcSame(vcNewScript, script) && len(vcAddOuts) == 1 && vcAddOuts[0] == out
	//@ ensures fee: err == nil ==> r.FeeAmount == fee && r.PsetBase64 == "updated" && vcSame(r.SelectedUnspents, vcAddIns)
	//@ ensures pubkey: err == nil && !o.WantPrivateBlindKeys ==> vcEqSlices(r.ChangeOutputsBlindingKeys[hex.EncodeToString(script)], vcPubOf(script).SerializeCompressed())
	//@ ensures prvkey: err == nil && o.WantPrivateBlindKeys ==> vcEqSlices(r.ChangeOutputsBlindingKeys[hex.EncodeToString(script)], vcPrvOf(script).Serialize())
}

// The last stage: the given outputs are added and nothing else.
//@ contract C10 stub=github.com/vulpemventures/go-elements/pset.NewPsetFromBase64:vcDecodeTx,addInsAndOutsToPset:vcAdd,(pkg/wallet.UpdateTxOpts).validate:vcValid,(*pkg/wallet.Wallet).validate:vcValidWallet
func vcUpdateOnly(w *Wallet, o UpdateTxOpts, tx *pset.Pset, invalid, locked, addErr bool) {
	//@ requires w != nil && tx != nil && len(o.Unspents) == 0
	vcTx, vcBad, vcLocked, vcAddErr = tx, invalid, locked, addErr
	//@ call
	r, err := w.UpdateTx(o)
	//@ ensures succeeds: (err == nil) == (!invalid && !locked && !addErr)
	//@ ensures only: err == nil ==> vcAddTx == tx && len(vcAddIns) == 0 && len(vcAddOuts) == len(o.Outputs) && vcForall(0, len(vcAddOuts), func(i int) bool { return vcAddOuts[i] == o.Outputs[i] })
	//@ ensures result: err == nil ==> r.PsetBase64 == "updated" && r.FeeAmount == 0
}

// The swap transaction: the amount asked for, to the daemon; the change of what it gives.
//@ contract C10 opaque=vcCoins,vcTotal,vcScriptOf stub=github.com/vulpemventures/go-elements/pset.NewPsetFromBase64:vcDecodeTx,pkg/explorer.SelectUnspents:vcPickSwap,(*pkg/wallet.Wallet).DeriveConfidentialAddress:vcAddressOf,addInsAndOutsToPset:vcAdd,newTxOutput:vcSwapOutput,(pkg/wallet.UpdateSwapTxOpts).validate:vcValidSwap,(*pkg/wallet.Wallet).validate:vcValidWallet
func vcUpdateSwap(w *Wallet, o UpdateSwapTxOpts, tx *pset.Pset, out, change *transaction.TxOutput, invalid, locked, addErr bool) {
	//@ requires w != nil && tx != nil && out != nil && change != nil && out != change
	vcTx, vcBad, vcLocked, vcAddErr = tx, invalid, locked, addErr
	vcSwapOut, vcSwapChange, vcNews = out, change, 0
	//@ call
	p, coins, err := w.UpdateSwapTx(o)
	total := vcTotal(o.InputAsset, o.InputAmount)
	left := total - o.InputAmount
	//@ ensures passed: err == nil ==> !invalid && !locked && !addErr && total >= o.InputAmount && p == "updated"
	//@ ensures inputs: err == nil ==> vcSame(vcFeeFrom, o.Unspents) && vcSame(coins, vcCoins(o.InputAsset, o.InputAmount)) && vcSame(vcAddIns, coins) && vcAddTx == tx
	//@ ensures output: err == nil ==> len(vcAddOuts) > 0 && vcAddOuts[0] == out && vcOutAsset == o.OutputAsset && vcOutValue == o.OutputAmount && vcSame(vcOutScript, vcScriptOr(o.OutputDerivationPath))
	//@ ensures change: err == nil && left > 0 ==> len(vcAddOuts) == 2 && vcAddOuts[1] == change && vcNewAsset == o.InputAsset && vcNewValue == left && vcSame(vcNewScript, vcScriptOr(o.ChangeDerivationPath))
	//@ ensures nochange: err == nil && left == 0 ==> len(vcAddOuts) == 1
}

func vcScriptOr(path string) []byte {
	s := vcScriptOf(path)
	if len(s) == 0 {
		return nil
	}
	return s
}

var (
	vcSwapOut, vcSwapChange *transaction.TxOutput
	vcOutAsset              string
	vcOutValue              uint64
	vcOutScript             []byte
)

func vcPickSwap(utxos []explorer.Utxo, target uint64, asset string) ([]explorer.Utxo, uint64, error) {
	vcFeeFrom = utxos
	total := vcTotal(asset, target)
	if total < target {
		return nil, 0, errors.New("not enough")
	}
	return vcCoins(asset, target), total - target, nil
}

func vcValidSwap(o UpdateSwapTxOpts) error {
	if vcBad {
		return errors.New("invalid")
	}
	return nil
}

func vcSwapOutput(asset string, value uint64, script []byte) (*transaction.TxOutput, error) {
	vcNews++
	if vcNews == 1 {
		vcOutAsset, vcOutValue, vcOutScript = asset, value, script
		return vcSwapOut, nil
	}
	vcNewAsset, vcNewValue, vcNewScript = asset, value, script
	return vcSwapChange, nil
}

func vcIsOneOf(u explorer.Utxo, us []explorer.Utxo, n int) bool {
	return vcExists(0, n, func(j int) bool { return us[j].Hash() == u.Hash() && us[j].Index() == u.Index() })
}

// vcrKept: how many of the first n unspents are not among those to remove.
func vcrKept(us, done []explorer.Utxo, n int) int {
	if n <= 0 {
		return 0
	}
	k := vcrKept(us, done, n-1)
	if vcIsOneOf(us[n-1], done, len(done)) {
		return k
	}
	return k + 1
}

//@ contract C10
func vcRemaining(us, done []explorer.Utxo, who int) {
	//@ requires vcForall(0, len(us), func(i int) bool { return us[i] != nil }) && vcForall(0, len(done), func(i int) bool { return done[i] != nil }) && who >= 0 && who < len(us)
	//@ invariant (unspent explorer.Utxo, unspents []explorer.Utxo, i int): vcForall(0, i, func(j int) bool { return unspents[j].Hash() != unspent.Hash() || unspents[j].Index() != unspent.Index() })
	//@ invariant (remainingUnspents []explorer.Utxo, i int): len(remainingUnspents) == vcrKept(us, done, i)
	//@ invariant (remainingUnspents []explorer.Utxo, i int): who >= i || vcIsOneOf(us[who], done, len(done)) || vcrKept(us, done, who) >= 0 && vcrKept(us, done, who) < len(remainingUnspents) && remainingUnspents[vcrKept(us, done, who)] == us[who]
	//@ call
	rest := getRemainingUnspents(us, done)
	k := vcrKept(us, done, who)
	//@ ensures count: len(rest) == vcrKept(us, done, len(us))
	//@ ensures kept: !vcIsOneOf(us[who], done, len(done)) ==> k >= 0 && k < len(rest) && rest[k] == us[who]
}

func vcSanity(tx *pset.Pset) error {
	if vcPsetBad {
		return errors.New("insane")
	}
	return nil
}

func vcEncodeTx(tx *pset.Pset) (string, error) { return "encoded", nil }

//@ contract C10 opaque=pkg/explorer.Utxo.Parse! stub=(*github.com/vulpemventures/go-elements/pset.Pset).SanityCheck:vcSanity,(*github.com/vulpemventures/go-elements/pset.Pset).ToBase64:vcEncodeTx
func vcAdded(tx *pset.Pset, ins []explorer.Utxo, outs []*transaction.TxOutput, bad bool, who int) {
	//@ requires tx != nil && tx.UnsignedTx != nil && who >= 0 && len(tx.Inputs) == len(tx.UnsignedTx.Inputs) && len(tx.Outputs) == len(tx.UnsignedTx.Outputs)
	//@ requires vcForall(0, len(ins), func(i int) bool { return ins[i] != nil })
	vcPsetBad = bad
	un := tx.UnsignedTx
	n, m := len(un.Inputs), len(un.Outputs)
	oldIns, oldOuts := un.Inputs, un.Outputs
	//@ invariant (i int): tx.UnsignedTx == un && len(tx.Inputs) == n+i && len(un.Inputs) == n+i
	//@ invariant (i int): who >= i || vcIsInput(tx, n+who, ins[who])
	//@ invariant (i int): who >= n || un.Inputs[who] == oldIns[who]
	//@ invariant (i int): tx.UnsignedTx == un && len(tx.Outputs) == m+i && len(un.Outputs) == m+i
	//@ invariant (i int): who >= i || un.Outputs[m+who] == outs[who]
	//@ invariant (i int): who >= m || un.Outputs[who] == oldOuts[who]
	//@ call
	_, err := addInsAndOutsToPset(tx, ins, outs)
	//@ ensures shape: err == nil ==> tx.UnsignedTx == un && len(un.Inputs) == n+len(ins) && len(tx.Inputs) == n+len(ins) && len(un.Outputs) == m+len(outs) && len(tx.Outputs) == m+len(outs)
	//@ ensures kept: err == nil ==> (who >= n || un.Inputs[who] == oldIns[who]) && (who >= m || un.Outputs[who] == oldOuts[who])
	//@ ensures inputs: err == nil && who < len(ins) ==> vcIsInput(tx, n+who, ins[who])
	//@ ensures outputs: err == nil && who < len(outs) ==> un.Outputs[m+who] == outs[who]
}

func vcIsInput(tx *pset.Pset, k int, u explorer.Utxo) bool {
	in, out, _ := u.Parse()
	return tx.UnsignedTx.Inputs[k] == in && tx.Inputs[k].WitnessUtxo == out
}
