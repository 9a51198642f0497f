//go:build go1.22

package application

import (
	"encoding/hex"
	"errors"

	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/transaction"
)

// ---- C10, C16: the transaction of a trade, made of that of the request.

type vcFill struct {
	O          FillProposalOpts
	Req        *vcReq
	W          *wallet.Wallet
	Fail       int // which step fails, 0 for none
	Step       int
	Astray     bool // a step was given something else than it should
	SwapCoins, FeeCoins []explorer.Utxo
	FeeAmount  uint64
	FeeKeys    map[string][]byte
	N          int // inputs of the request
	Ins        map[int]wallet.BlindingData
	Infos      domain.AddressesInfo
	Signed     int
	In, Coin, Key int // witnesses: an input of the request, a coin, an index
	Some       string // and the script of an output
	FeeOut     []*transaction.TxOutput
	GaveIn, GaveCoin, GaveData bool
	GaveOut    []byte
	GaveOutOk  bool
}

var vcF *vcFill

func (f *vcFill) coin(i int) explorer.Utxo {
	if i < len(f.SwapCoins) {
		return f.SwapCoins[i]
	}
	return f.FeeCoins[i-len(f.SwapCoins)]
}
func (f *vcFill) step(n int, ok bool) error {
	f.Astray = vcB(func() bool { return f.Astray || f.Step != n-1 || !ok })
	f.Step = n
	if f.Fail == n {
		return errors.New("failed")
	}
	return nil
}

func vcWalletOf(o wallet.NewWalletFromMnemonicOpts) (*wallet.Wallet, error) {
	if err := vcF.step(1, vcB(func() bool { return vcSame(o.SigningMnemonic, vcF.O.Mnemonic) && len(o.BlindingMnemonic) == 0 })); err != nil {
		return nil, err
	}
	return vcF.W, nil
}
func vcSwapIt(w *wallet.Wallet, o wallet.UpdateSwapTxOpts) (string, []explorer.Utxo, error) {
	f, r := vcF, vcF.Req
	if err := f.step(2, vcB(func() bool { return w == f.W && o.PsetBase64 == r.Tx && vcSame(o.Unspents, f.O.MarketUtxos) && o.InputAmount == r.AmountR && o.InputAsset == r.AssetR &&
		o.OutputAmount == r.AmountP && o.OutputAsset == r.AssetP && o.OutputDerivationPath == f.O.OutputInfo.DerivationPath &&
		o.ChangeDerivationPath == f.O.ChangeInfo.DerivationPath && o.Network == f.O.Network })); err != nil {
		return "", nil, err
	}
	return "swapped", f.SwapCoins, nil
}
func vcUpdateIt(w *wallet.Wallet, o wallet.UpdateTxOpts) (*wallet.UpdateTxResult, error) {
	f := vcF
	if f.Step < 5 {
		if err := f.step(3, vcB(func() bool { return w == f.W && o.PsetBase64 == "swapped" && vcSame(o.Unspents, f.O.FeeUtxos) && len(o.Outputs) == 0 && o.MilliSatsPerBytes == domain.MinMilliSatPerByte &&
			o.Network == f.O.Network && o.WantPrivateBlindKeys && o.WantChangeForFees && len(o.ChangePathsByAsset) == 1 &&
			o.ChangePathsByAsset[f.O.Network.AssetID] == f.O.FeeChangeInfo.DerivationPath })); err != nil {
			return nil, err
		}
		return &wallet.UpdateTxResult{PsetBase64: "funded", SelectedUnspents: f.FeeCoins, ChangeOutputsBlindingKeys: f.FeeKeys, FeeAmount: f.FeeAmount}, nil
	}
	if err := f.step(6, vcB(func() bool { return w == f.W && o.PsetBase64 == "blinded" && len(o.Unspents) == 0 && vcSame(o.Outputs, f.FeeOut) && o.Network == f.O.Network })); err != nil {
		return nil, err
	}
	return &wallet.UpdateTxResult{PsetBase64: "whole"}, nil
}
func vcFeeOut(amount uint64, net *network.Network) []*transaction.TxOutput {
	f := vcF
	f.Astray = vcB(func() bool { return f.Astray || amount != f.FeeAmount || net != f.O.Network })
	return vcF.FeeOut
}
func vcExtractIt(tx string, in, out map[string][]byte) (map[int]wallet.BlindingData, map[int]wallet.BlindingData, error) {
	f := vcF
	if in == nil {
		return nil, nil, nil
	}
	if err := f.step(4, vcB(func() bool { return tx == f.Req.Tx && out == nil && (f.Req.InKeys == nil && len(in) == 0 || vcSame(in, f.Req.InKeys)) })); err != nil {
		return f.Ins, nil, err
	}
	return f.Ins, nil, nil
}
func vcBlindIt(w *wallet.Wallet, o wallet.BlindSwapTransactionWithDataOpts) (string, error) {
	f := vcF
	err := f.step(5, vcB(func() bool { return w == f.W && o.PsetBase64 == "funded" }))
	total := len(f.SwapCoins) + len(f.FeeCoins)
	f.GaveData = vcB(func() bool { return vcHasData(o.InputBlindingData, f.Key) == (f.Key >= 0 && f.Key < f.N+total) })
	f.GaveIn = vcB(func() bool { return f.In >= f.N || vcSameData(o.InputBlindingData[f.In], f.Ins[f.In]) })
	f.GaveCoin = vcB(func() bool { return vcDataOf(o.InputBlindingData[f.N+f.Coin], f.coin(f.Coin)) })
	f.GaveOut, f.GaveOutOk = o.OutputBlindingKeys[f.Some]
	return "blinded", err
}
func vcSameData(a, b wallet.BlindingData) bool {
	return a.Asset == b.Asset && a.Amount == b.Amount && vcSame(a.AssetBlinder, b.AssetBlinder) && vcSame(a.AmountBlinder, b.AmountBlinder)
}
func vcSignIt(w *wallet.Wallet, o wallet.SignInputOpts) (string, error) {
	f := vcF
	before := vcIte(f.Signed == 0, "whole", "signed")
	f.Astray = vcB(func() bool {
		return f.Astray || f.Step != 6 || w != f.W || o.PsetBase64 != before || o.InIndex != uint32(f.N+f.Signed) || f.Signed >= len(f.Infos) || o.DerivationPath != f.Infos[f.Signed].DerivationPath
	})
	if f.Fail == 7 {
		return "", errors.New("failed")
	}
	f.Signed++
	return "signed", nil
}

// vcInfoFor: the contract of getSelectedInfo (vcSelectedInfo).
func vcInfoFor(all domain.AddressesInfo, coins []explorer.Utxo) domain.AddressesInfo {
	f := vcF
	f.Astray = vcB(func() bool {
		return f.Astray || len(coins) != len(f.Infos) || f.Coin < len(coins) && coins[f.Coin] != f.coin(f.Coin) || len(all) != len(f.O.MarketInfo)+len(f.O.FeeInfo)
	})
	return f.Infos
}

//@ contract C10 C16 stub=pkg/wallet.NewWalletFromMnemonic:vcWalletOf,(*pkg/wallet.Wallet).UpdateSwapTx:vcSwapIt,(*pkg/wallet.Wallet).UpdateTx:vcUpdateIt,pkg/transactionutil.NewFeeOutput:vcFeeOut,pkg/wallet.ExtractBlindingDataFromTx:vcExtractIt,(*pkg/wallet.Wallet).BlindSwapTransactionWithData:vcBlindIt,(*pkg/wallet.Wallet).SignInput:vcSignIt,getSelectedInfo:vcInfoFor
func vcFillProposal(f *vcFill) {
	//@ requires vcFilling(f)
	//@ requires vcForall(0, len(f.SwapCoins), func(i int) bool { return f.SwapCoins[i] != nil }) && vcForall(0, len(f.FeeCoins), func(i int) bool { return f.FeeCoins[i] != nil })
	vcF = f
	in := f.Ins[f.In]
	o := f.O
	o.SwapRequest = f.Req
	total := len(f.Infos)
	u := f.coin(f.Coin)
	//@ invariant (inputBlindingData map[int]wallet.BlindingData, i int): vcHasData(inputBlindingData, f.Key) == (f.Key >= 0 && f.Key < f.N+i)
	//@ invariant (inputBlindingData map[int]wallet.BlindingData, i int): f.In < f.N ==> vcSameData(inputBlindingData[f.In], in)
	//@ invariant (inputBlindingData map[int]wallet.BlindingData, i int): i > f.Coin ==> vcDataOf(inputBlindingData[f.N+f.Coin], u)
	//@ invariant (signedPsetBase64 string): f.Signed >= 0 && !f.Astray && f.Step == 6 && (f.Signed > 0 || signedPsetBase64 == "whole") && (f.Signed == 0 || signedPsetBase64 == "signed") && (f.Signed == 0 || f.Fail != 7)
	//@ invariant (i int): f.Signed == i
	//@ invariant (i int): f.N + f.Signed == i
	//@ invariant (): f.Signed <= total
	//@ call
	r, err := fillProposal(o)
	//@ ensures right: !f.Astray
	//@ ensures failed: (err == nil) == (f.Fail < 1 || f.Fail > 7)
	//@ ensures data: err == nil ==> f.GaveData && f.GaveIn && f.GaveCoin
	//@ ensures signed: err == nil ==> f.Signed == total && r.PsetBase64 == "signed"
	//@ ensures coins: err == nil ==> len(r.SelectedUnspents) == total && r.SelectedUnspents[f.Coin] == u
	//@ ensures nothing: err != nil ==> r == nil
	//@ cover done: err == nil
}

//@ contract C10 maypanic fast=250 stub=pkg/wallet.NewWalletFromMnemonic:vcFillW,(*pkg/wallet.Wallet).UpdateSwapTx:vcFillSwap,(*pkg/wallet.Wallet).UpdateTx:vcFillTx,pkg/transactionutil.NewFeeOutput:vcFillFee,pkg/wallet.ExtractBlindingDataFromTx:vcFillData,(*pkg/wallet.Wallet).BlindSwapTransactionWithData:vcFillBlind,(*pkg/wallet.Wallet).SignInput:vcFillSign,getSelectedInfo:vcFillInfo
func vcFillOutKeys(f *vcFill, at int) {
	//@ requires vcFilling(f) && at >= 0
	vcF = f
	fee, isFee := f.FeeKeys[f.Some]
	//@ requires isFee ==> at < len(vcKeys(f.FeeKeys)) && vcKeys(f.FeeKeys)[at] == f.Some
	his, isHis := f.Req.OutKeys[f.Some]
	o := f.O
	o.SwapRequest = f.Req
	want, some := vcOutKey(f, fee, isFee, his, isHis)
	//@ invariant (outputBlindingKeys map[string][]byte, i int): (i > at || !isFee) ==> vcHas(outputBlindingKeys, f.Some) == some && (!some || vcSame(outputBlindingKeys[f.Some], want))
	//@ call
	r, err := fillProposal(o)
	//@ ensures outkeys: err == nil ==> f.GaveOutOk == some && (!some || vcSame(f.GaveOut, want))
	//@ ensures keys: err == nil ==> vcHas(r.OutputBlindingKeys, f.Some) == some && (!some || vcSame(r.OutputBlindingKeys[f.Some], want))
	//@ cover done: err == nil && isFee
}

//@ contract C10 maypanic fast=250 stub=pkg/wallet.NewWalletFromMnemonic:vcFillW,(*pkg/wallet.Wallet).UpdateSwapTx:vcFillSwap,(*pkg/wallet.Wallet).UpdateTx:vcFillTx,pkg/transactionutil.NewFeeOutput:vcFillFee,pkg/wallet.ExtractBlindingDataFromTx:vcFillData,(*pkg/wallet.Wallet).BlindSwapTransactionWithData:vcFillBlind,(*pkg/wallet.Wallet).SignInput:vcFillSign,getSelectedInfo:vcFillInfo
func vcFillInKeys(f *vcFill) {
	//@ requires vcFilling(f)
	//@ requires vcForall(0, len(f.Infos), func(i int) bool { return f.Infos[i].Script != f.Infos[f.Coin].Script || vcSame(f.Infos[i].BlindingKey, f.Infos[f.Coin].BlindingKey) })
	//@ requires vcForall(0, len(f.Infos), func(i int) bool { return f.Infos[i].Script != f.Some })
	vcF = f
	hisIn, isIn := f.Req.InKeys[f.Some]
	o := f.O
	o.SwapRequest = f.Req
	mine := f.Infos[f.Coin]
	//@ invariant (inputBlindingKeys map[string][]byte, i int): (i > f.Coin ==> vcSame(inputBlindingKeys[mine.Script], mine.BlindingKey) && vcHas(inputBlindingKeys, mine.Script)) && vcHas(inputBlindingKeys, f.Some) == isIn && (!isIn || vcSame(inputBlindingKeys[f.Some], hisIn))
	//@ call
	r, err := fillProposal(o)
	//@ ensures inkeys: err == nil ==> vcSame(r.InputBlindingKeys[mine.Script], mine.BlindingKey) && vcHas(r.InputBlindingKeys, f.Some) == isIn && (!isIn || vcSame(r.InputBlindingKeys[f.Some], hisIn))
	//@ cover done: err == nil
}

func vcFilling(f *vcFill) bool {
	return f != nil && f.Req != nil && f.W != nil && f.O.Network != nil && f.Step == 0 && !f.Astray && f.Signed == 0 && !f.GaveIn && !f.GaveCoin && !f.GaveData && f.GaveOut == nil && !f.GaveOutOk &&
		f.N >= 0 && f.N < 1<<20 && len(f.SwapCoins) < 1<<20 && len(f.FeeCoins) < 1<<20 && len(f.Infos) == len(f.SwapCoins)+len(f.FeeCoins) &&
		f.In >= 0 && f.Coin >= 0 && f.Coin < len(f.Infos) && f.Ins != nil && len(f.Ins) == f.N &&
		vcHasData(f.Ins, f.Key) == (f.Key >= 0 && f.Key < f.N) && vcHasData(f.Ins, f.In) == (f.In < f.N) &&
		(f.Req.InKeys == nil || !vcSame(f.Req.InKeys, f.Req.OutKeys) && !vcSame(f.Req.InKeys, f.FeeKeys)) && (f.Req.OutKeys == nil || !vcSame(f.Req.OutKeys, f.FeeKeys))
}
func vcHasData(m map[int]wallet.BlindingData, i int) bool {
	_, ok := m[i]
	return ok
}
func vcDataOf(d wallet.BlindingData, u explorer.Utxo) bool {
	return d.Asset == u.Asset() && d.Amount == u.Value() && vcSame(d.AssetBlinder, u.AssetBlinder()) && vcSame(d.AmountBlinder, u.ValueBlinder())
}

// The same steps, as far as the keys are concerned.
func vcFillW(o wallet.NewWalletFromMnemonicOpts) (*wallet.Wallet, error) { return vcF.W, nil }
func vcFillSwap(w *wallet.Wallet, o wallet.UpdateSwapTxOpts) (string, []explorer.Utxo, error) {
	return "swapped", vcF.SwapCoins, nil
}
func vcFillTx(w *wallet.Wallet, o wallet.UpdateTxOpts) (*wallet.UpdateTxResult, error) {
	return &wallet.UpdateTxResult{PsetBase64: "funded", SelectedUnspents: vcF.FeeCoins, ChangeOutputsBlindingKeys: vcF.FeeKeys, FeeAmount: vcF.FeeAmount}, nil
}
func vcFillFee(amount uint64, net *network.Network) []*transaction.TxOutput { return vcF.FeeOut }
func vcFillData(tx string, in, out map[string][]byte) (map[int]wallet.BlindingData, map[int]wallet.BlindingData, error) {
	return vcF.Ins, nil, nil
}
func vcFillBlind(w *wallet.Wallet, o wallet.BlindSwapTransactionWithDataOpts) (string, error) {
	vcF.GaveOut, vcF.GaveOutOk = o.OutputBlindingKeys[vcF.Some]
	return "blinded", nil
}
func vcFillSign(w *wallet.Wallet, o wallet.SignInputOpts) (string, error) { return "signed", nil }
func vcFillInfo(all domain.AddressesInfo, coins []explorer.Utxo) domain.AddressesInfo { return vcF.Infos }

// vcOutKey: the key that unblinds the output with the witness script, if any.
func vcOutKey(f *vcFill, fee []byte, isFee bool, his []byte, isHis bool) ([]byte, bool) {
	if isFee {
		return fee, true
	}
	if f.Some == f.O.ChangeInfo.Script {
		return f.O.ChangeInfo.BlindingKey, true
	}
	if f.Some == f.O.OutputInfo.Script {
		return f.O.OutputInfo.BlindingKey, true
	}
	return his, isHis
}
func vcHas(m map[string][]byte, s string) bool {
	_, ok := m[s]
	return ok
}

// vcSelectedInfo: each coin's own address, found by its script.
//
//@ contract C10 fast=250
func vcSelectedInfo(all domain.AddressesInfo, coins []explorer.Utxo, pos []int, who, first int) {
	//@ requires len(all) < 1<<30 && len(coins) < 1<<30 && who >= 0 && who < len(coins) && len(pos) == len(coins)
	//@ requires vcForall(0, len(coins), func(i int) bool { return coins[i] != nil && pos[i] >= 0 && pos[i] < len(all) && all[pos[i]].Script == hex.EncodeToString(coins[i].Script()) })
	script := hex.EncodeToString(coins[who].Script())
	//@ requires first >= 0 && first < len(all) && all[first].Script == script && vcForall(0, first, func(j int) bool { return all[j].Script != script })
	//@ invariant (selectedInfo domain.AddressesInfo, i int): len(selectedInfo) == i
	//@ invariant (selectedInfo domain.AddressesInfo, i int): (i <= who || vcSameInfo(selectedInfo[who], all[first]))
	//@ invariant (script string, j int): vcForall(0, j, func(k int) bool { return all[k].Script != script })
	//@ call
	r := getSelectedInfo(all, coins)
	//@ ensures every: len(r) == len(coins)
	//@ ensures own: vcSameInfo(r[who], all[first])
}
