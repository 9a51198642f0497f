//go:build go1.22

package wallet

import (
	"errors"

	"github.com/btcsuite/btcd/btcec"
	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

// Ghost state: what is selected, and where it goes.
var (
	vcTx      *pset.Pset // the decoded transaction
	vcBad     bool // the options are refused
	vcLocked  bool // the wallet is refused
	vcLeft    uint64 // change of the asset
	vcSelected []explorer.Utxo
	vcChange  *transaction.TxOutput
	vcChangeValue uint64
	vcChangeScript []byte
	vcWhich   string // the asset looked at
	vcCalls   int    // selections of that asset
	vcAmount  uint64 // amount it was selected for
	vcStart   int    // its first input
	vcPos     int    // its change among the outputs
	vcIns     int    // inputs so far
	vcOuts    int    // outputs so far
	vcFrom    []explorer.Utxo
	vcFromN   int
	vcAddIns  []explorer.Utxo
	vcAddOuts []*transaction.TxOutput
	vcAddTx   *pset.Pset
	vcAddErr  bool
)

// What selecting coins of an asset for a target gives: the coins, their total.
func vcCoins(asset string, target uint64) []explorer.Utxo { return nil }
func vcTotal(asset string, target uint64) uint64          { return 0 }
func vcEnough(asset string, target uint64) bool           { return false }

// vcSelect: the contract of explorer.SelectUnspents (C09).
func vcSelect(utxos []explorer.Utxo, target uint64, asset string) ([]explorer.Utxo, uint64, error) {
	total := vcTotal(asset, target)
	if !vcEnough(asset, target) || total < target {
		return nil, 0, errors.New("not enough")
	}
	coins := vcCoins(asset, target)
	if asset == vcWhich {
		vcCalls++
		vcAmount = target
		vcStart = vcIns
		vcPos = vcOuts
		vcLeft = total - target
		vcSelected = coins
	}
	vcFrom, vcFromN = utxos, len(utxos)
	vcIns += len(coins)
	if total > target {
		vcOuts++
	}
	return coins, total - target, nil
}

func vcDecodeTx(b64 string) (*pset.Pset, error) {
	return vcTx, nil
}

func vcValid(o UpdateTxOpts) error {
	if vcBad {
		return errors.New("invalid")
	}
	return nil
}

func vcValidWallet(w *Wallet) error {
	if vcLocked {
		return errors.New("invalid wallet")
	}
	return nil
}

// The keys and scripts of the wallet.
func vcScriptOf(path string) []byte                  { return nil }
func vcPrvOf(script []byte) *btcec.PrivateKey        { return nil }
func vcPubOf(script []byte) *btcec.PublicKey         { return nil }
func vcAddressOf(w *Wallet, o DeriveConfidentialAddressOpts) (string, []byte, error) {
	s := vcScriptOf(o.DerivationPath)
	if len(s) == 0 {
		return "", nil, errors.New("bad path")
	}
	return "", s, nil
}
func vcKeyPairOf(w *Wallet, o DeriveBlindingKeyPairOpts) (*btcec.PrivateKey, *btcec.PublicKey, error) {
	if len(o.Script) == 0 {
		return nil, nil, errors.New("no script")
	}
	return vcPrvOf(o.Script), vcPubOf(o.Script), nil
}

// vcAdd: the contract of addInsAndOutsToPset.
func vcAdd(tx *pset.Pset, ins []explorer.Utxo, outs []*transaction.TxOutput) (string, error) {
	vcAddTx, vcAddIns, vcAddOuts = tx, ins, outs
	if vcAddErr {
		return "", errors.New("can't be added")
	}
	return "updated", nil
}

// vcrTotal: the total of the first n outputs in an asset.
func vcrTotal(outs []*transaction.TxOutput, n int, asset string) uint64 {
	if n <= 0 {
		return 0
	}
	t := vcrTotal(outs, n-1, asset)
	if bufferutil.AssetHashFromBytes(outs[n-1].Asset) == asset {
		return t + bufferutil.ValueFromBytes(outs[n-1].Value)
	}
	return t
}

func vcOutputs(outs []*transaction.TxOutput) bool {
	return vcForall(0, len(outs), func(i int) bool { return outs[i] != nil && len(outs[i].Asset) > 0 })
}

//@ contract C10 opaque=pkg/bufferutil.ValueFromBytes,pkg/bufferutil.AssetHashFromBytes
func vcTotals(o UpdateTxOpts, asset string) {
	//@ requires vcOutputs(o.Outputs)
	//@ invariant (totalAmountsByAsset map[string]uint64, i int): totalAmountsByAsset[asset] == vcrTotal(o.Outputs, i, asset)
	//@ call
	m := o.getOutputsTotalAmountsByAsset()
	//@ ensures total: m[asset] == vcrTotal(o.Outputs, len(o.Outputs), asset)
}

//@ contract C10
func vcAssets(o UpdateTxOpts, asset string) {
	//@ invariant (assets []string, i int): len(assets) == i
	//@ invariant (assets []string, i int): vcForall(0, i, func(j int) bool { return assets[j] == vcKeys(o.ChangePathsByAsset)[j] })
	//@ call
	a := o.getInputAssets()
	ks := vcKeys(o.ChangePathsByAsset)
	//@ ensures all: len(a) == len(ks) && vcForall(0, len(a), func(j int) bool { return a[j] == ks[j] })
}

// vcAssetsOf: the contract of getInputAssets as its caller sees it.
func vcAssetsOf(o UpdateTxOpts) []string { return vcKeys(o.ChangePathsByAsset) }

// vcTotalsOf: the contract of getOutputsTotalAmountsByAsset.
var vcTotalBy map[string]uint64
func vcTotalsOf(o UpdateTxOpts) map[string]uint64 { return vcTotalBy }

// vcNewOut: the contract of newTxOutput; it keeps the change of the asset.
func vcNewOut(asset string, value uint64, script []byte) (*transaction.TxOutput, error) {
	out := &transaction.TxOutput{Script: script}
	if asset == vcWhich {
		vcChange, vcChangeValue, vcChangeScript = out, value, script
	}
	return out, nil
}

//@ contract C10 opaque=vcCoins,vcTotal,vcEnough,vcScriptOf,vcPrvOf!,vcPubOf!,pkg/bufferutil.ValueFromBytes,pkg/bufferutil.AssetHashFromBytes,pkg/bufferutil.ValueToBytes,pkg/bufferutil.AssetHashToBytes,encoding/hex.EncodeToString stub=github.com/vulpemventures/go-elements/pset.NewPsetFromBase64:vcDecodeTx,pkg/explorer.SelectUnspents:vcSelect,(*pkg/wallet.Wallet).DeriveConfidentialAddress:vcAddressOf,(*pkg/wallet.Wallet).DeriveBlindingKeyPair:vcKeyPairOf,addInsAndOutsToPset:vcAdd,newTxOutput:vcNewOut,(pkg/wallet.UpdateTxOpts).validate:vcValid,(*pkg/wallet.Wallet).validate:vcValidWallet,(pkg/wallet.UpdateTxOpts).getInputAssets:vcAssetsOf,(pkg/wallet.UpdateTxOpts).getOutputsTotalAmountsByAsset:vcTotalsOf
func vcUpdateOuts(w *Wallet, o UpdateTxOpts, tx *pset.Pset, invalid, locked, addErr bool, totals map[string]uint64, who, at int) {
	//@ requires w != nil && tx != nil && totals != nil && !o.WantChangeForFees && len(o.Unspents) > 0 && who >= 0 && at >= 0 && at < len(vcKeys(o.ChangePathsByAsset))
	asset := vcKeys(o.ChangePathsByAsset)[at]
	//@ invariant (inputsToAdd []explorer.Utxo, outputsToAdd []*transaction.TxOutput, i int): len(inputsToAdd) == vcIns && len(outputsToAdd) == vcOuts && vcOuts >= len(o.Outputs)
	//@ invariant (inAssets []string, i int): i <= at || totals[asset] == 0 ==> vcCalls == 0
	//@ invariant (inAssets []string, i int): i > at && totals[asset] > 0 ==> vcCalls == 1
	//@ invariant (inputsToAdd []explorer.Utxo, i int): vcCalls == 0 || vcCalls == 1 && vcAmount == totals[asset] && vcStart >= 0 && vcStart <= vcIns && vcStart+len(vcSelected) <= len(inputsToAdd)
	//@ invariant (inputsToAdd []explorer.Utxo, i int): vcCalls == 0 || who >= len(vcSelected) || inputsToAdd[vcStart+who] == vcSelected[who]
	//@ invariant (outputsToAdd []*transaction.TxOutput, i int): vcCalls == 0 || vcLeft == 0 || vcPos >= len(o.Outputs) && vcPos < len(outputsToAdd) && outputsToAdd[vcPos] == vcChange
	//@ invariant (outputsToAdd []*transaction.TxOutput, i int): vcCalls == 0 || vcLeft == 0 || vcChangeValue == vcLeft && vcSame(vcChangeScript, vcScriptOf(o.ChangePathsByAsset[asset]))
	//@ invariant (outputsToAdd []*transaction.TxOutput, i int): who >= len(o.Outputs) || outputsToAdd[who] == o.Outputs[who]
	vcTx, vcBad, vcLocked, vcAddErr, vcWhich, vcTotalBy = tx, invalid, locked, addErr, asset, totals
	vcCalls, vcIns, vcOuts = 0, 0, len(o.Outputs)
	//@ call
	r, err := w.UpdateTx(o)
	//@ ensures added: err == nil ==> vcAddTx == tx && vcSame(r.SelectedUnspents, vcAddIns) && r.PsetBase64 == "updated" && r.FeeAmount == 0
	//@ ensures selected: err == nil && totals[asset] > 0 ==> vcCalls == 1
	//@ ensures nothing: err == nil && totals[asset] == 0 ==> vcCalls == 0
	//@ ensures amount: err == nil && vcCalls > 0 ==> vcCalls == 1 && vcAmount == totals[asset]
	//@ ensures inputs: err == nil && vcCalls > 0 && who < len(vcSelected) ==> vcStart >= 0 && vcStart+who < len(vcAddIns) && vcAddIns[vcStart+who] == vcSelected[who]
	//@ ensures change: err == nil && vcCalls > 0 && vcLeft > 0 ==> vcPos >= len(o.Outputs) && vcPos < len(vcAddOuts) && vcAddOuts[vcPos] == vcChange && vcChangeValue == vcLeft && vcSame(vcChangeScript, vcScriptOf(o.ChangePathsByAsset[asset]))
	//@ ensures exact: err == nil ==> len(vcAddIns) == vcIns && len(vcAddOuts) == vcOuts
	//@ ensures outputs: err == nil && who < len(o.Outputs) ==> vcAddOuts[who] == o.Outputs[who]
	//@ cover ok: err == nil && vcCalls == 1 && vcLeft > 0
}
