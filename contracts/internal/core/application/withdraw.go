//go:build go1.22

package application

import (
	"context"
	"encoding/hex"
	"errors"

	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

// What the wallet package is asked for, one step after the other, and what it
// answers (as said by its own contracts).
type vcMaker struct {
	Wallet       *wallet.Wallet
	Mnemonic     []string
	Fails        [8]bool
	Steps        int
	Outs         wallet.UpdateTxOpts // first update: the outputs and their coins
	Fees         wallet.UpdateTxOpts // second update: the coins for the fees
	Last         wallet.UpdateTxOpts // third update: the fee output
	OutsRes      *wallet.UpdateTxResult
	FeesRes      *wallet.UpdateTxResult
	LastRes      *wallet.UpdateTxResult
	Blind        wallet.BlindTransactionWithKeysOpts
	Sign         wallet.SignTransactionOpts
	Final        string
	ChangeKeys   [][]byte
	KeysPset     string
	KeysFrom     int
	KeysOf       map[string][]byte
	KeysOfFee    map[string][]byte
	FeeOut       []*transaction.TxOutput
	FeeAmount    uint64
	Merged       map[string]string
	MergedA, MergedB map[string]string
	Other        bool // another wallet was used
}

var vcMaking *vcMaker

func vcStep(k int) error {
	m := vcMaking
	if m.Steps != k {
		m.Other = true
	}
	m.Steps++
	if m.Fails[k] {
		return errors.New("failed")
	}
	return nil
}

func vcOpenWallet(o wallet.NewWalletFromMnemonicOpts) (*wallet.Wallet, error) {
	vcMaking.Mnemonic = o.SigningMnemonic
	if err := vcStep(0); err != nil {
		return nil, err
	}
	return vcMaking.Wallet, nil
}

func vcCreateTx(w *wallet.Wallet) (string, error) {
	vcMaking.Other = vcMaking.Other || w != vcMaking.Wallet
	return "empty", vcStep(1)
}

func vcUpdateTx(w *wallet.Wallet, o wallet.UpdateTxOpts) (*wallet.UpdateTxResult, error) {
	m := vcMaking
	m.Other = m.Other || w != m.Wallet
	k := m.Steps
	if err := vcStep(k); err != nil {
		return nil, err
	}
	if k == 2 {
		m.Outs = o
		return m.OutsRes, nil
	}
	if k == 3 {
		m.Fees = o
		return m.FeesRes, nil
	}
	m.Last = o
	m.Other = m.Other || k != 5
	return m.LastRes, nil
}

func vcBlindTx(w *wallet.Wallet, o wallet.BlindTransactionWithKeysOpts) (string, error) {
	m := vcMaking
	m.Other = m.Other || w != m.Wallet
	m.Blind = o
	return "blinded", vcStep(4)
}

func vcSignTx(w *wallet.Wallet, o wallet.SignTransactionOpts) (string, error) {
	m := vcMaking
	m.Other = m.Other || w != m.Wallet
	m.Sign = o
	return "signed", vcStep(6)
}

func vcFinalTx(o wallet.FinalizeAndExtractTransactionOpts) (string, string, error) {
	vcMaking.Final = o.PsetBase64
	return "rawtx", "txid", vcStep(7)
}

func vcChangeKeysOf(p string, n int, a, b map[string][]byte) ([][]byte, error) {
	m := vcMaking
	m.KeysPset, m.KeysFrom, m.KeysOf, m.KeysOfFee = p, n, a, b
	return m.ChangeKeys, nil
}

func vcFeeOutput(amount uint64, n *network.Network) []*transaction.TxOutput {
	vcMaking.FeeAmount = amount
	return vcMaking.FeeOut
}

func vcMergePaths(ms ...map[string]string) map[string]string {
	vcMaking.MergedA, vcMaking.MergedB = ms[0], ms[1]
	return vcMaking.Merged
}

//@ contract C10 stub=pkg/wallet.NewWalletFromMnemonic:vcOpenWallet,(*pkg/wallet.Wallet).CreateTx:vcCreateTx,(*pkg/wallet.Wallet).UpdateTx:vcUpdateTx,(*pkg/wallet.Wallet).BlindTransactionWithKeys:vcBlindTx,(*pkg/wallet.Wallet).SignTransaction:vcSignTx,pkg/wallet.FinalizeAndExtractTransaction:vcFinalTx,getChangesBlindingKeys:vcChangeKeysOf,pkg/transactionutil.NewFeeOutput:vcFeeOutput,mergeDerivationPaths:vcMergePaths
func vcSendToMany(m *vcMaker, o sendToManyOpts, who int) {
	//@ requires m != nil && m.Steps == 0 && !m.Other && m.OutsRes != nil && m.FeesRes != nil && m.LastRes != nil && who >= 0
	//@ requires len(o.outputsBlindingKeys) < 1<<30 && len(m.ChangeKeys) < 1<<30
	vcMaking = m
	rate := o.milliSatPerByte
	if rate < domain.MinMilliSatPerByte {
		rate = domain.MinMilliSatPerByte
	}
	n := len(o.outputsBlindingKeys)
	//@ call
	tx, err := sendToMany(o)
	//@ ensures steps: (err == nil) == (m.Steps == 8 && !m.Fails[7]) && !m.Other
	//@ ensures mnemonic: err == nil ==> vcSame(m.Mnemonic, o.mnemonic)
	//@ ensures coins: err == nil ==> m.Outs.PsetBase64 == "empty" && vcSame(m.Outs.Unspents, o.unspents) && vcSame(m.Outs.Outputs, o.outputs) && vcSame(m.Outs.ChangePathsByAsset, o.changePathsByAsset) && !m.Outs.WantChangeForFees && !m.Outs.WantPrivateBlindKeys && m.Outs.MilliSatsPerBytes == rate && m.Outs.Network == o.network
	//@ ensures fees: err == nil ==> m.Fees.PsetBase64 == m.OutsRes.PsetBase64 && vcSame(m.Fees.Unspents, o.feeUnspents) && len(m.Fees.Outputs) == 0 && vcSame(m.Fees.ChangePathsByAsset, o.feeChangePathByAsset) && m.Fees.WantChangeForFees && !m.Fees.WantPrivateBlindKeys && m.Fees.MilliSatsPerBytes == rate && m.Fees.Network == o.network
	//@ ensures keysof: err == nil ==> m.KeysPset == m.FeesRes.PsetBase64 && m.KeysFrom == len(o.outputs) && vcSame(m.KeysOf, m.OutsRes.ChangeOutputsBlindingKeys) && vcSame(m.KeysOfFee, m.FeesRes.ChangeOutputsBlindingKeys)
	//@ ensures blinded: err == nil ==> m.Blind.PsetBase64 == m.FeesRes.PsetBase64 && len(m.Blind.OutputBlindingKeys) == n+len(m.ChangeKeys) && (who >= n || vcSame(m.Blind.OutputBlindingKeys[who], o.outputsBlindingKeys[who])) && (who >= len(m.ChangeKeys) || vcSame(m.Blind.OutputBlindingKeys[n+who], m.ChangeKeys[who]))
	//@ ensures feeout: err == nil ==> m.FeeAmount == m.FeesRes.FeeAmount && m.Last.PsetBase64 == "blinded" && vcSame(m.Last.Outputs, m.FeeOut) && len(m.Last.Unspents) == 0 && !m.Last.WantChangeForFees && m.Last.Network == o.network
	//@ ensures signed: err == nil ==> m.Sign.PsetBase64 == m.LastRes.PsetBase64 && vcSame(m.Sign.DerivationPathMap, m.Merged) && vcSame(m.MergedA, o.inputPathsByScript) && vcSame(m.MergedB, o.feeInputPathsByScript)
	//@ ensures extracted: err == nil ==> m.Final == "signed" && tx == "rawtx"
	//@ ensures nothing: err != nil ==> tx == ""
}

var vcKeyTx *pset.Pset

func vcDecodeKeyTx(b string) (*pset.Pset, error) {
	if b == "bad" {
		return nil, errors.New("not a pset")
	}
	return vcKeyTx, nil
}

// vcKeyFor: the key of a change, as one of the two maps tells.
func vcHasKeyFor(script string, a, b map[string][]byte) bool {
	_, in := a[script]
	_, too := b[script]
	return in || too
}

func vcKeyFor(script string, a, b map[string][]byte) []byte {
	if k, ok := a[script]; ok {
		return k
	}
	return b[script]
}

//@ contract C10 opaque=encoding/hex.EncodeToString stub=github.com/vulpemventures/go-elements/pset.NewPsetFromBase64:vcDecodeKeyTx
func vcChangesKeys(p string, tx *pset.Pset, n int, a, b map[string][]byte, who int) {
	//@ requires tx != nil && tx.UnsignedTx != nil && n >= 0 && n <= len(tx.UnsignedTx.Outputs) && who >= 0 && who < len(tx.UnsignedTx.Outputs)-n
	//@ requires vcForall(0, len(tx.UnsignedTx.Outputs), func(i int) bool { return tx.UnsignedTx.Outputs[i] != nil })
	vcKeyTx = tx
	outs := tx.UnsignedTx.Outputs
	script := hex.EncodeToString(outs[n+who].Script)
	//@ invariant (keys [][]byte, i int): len(keys) == i
	//@ invariant (keys [][]byte, i int): (who >= i || vcHasKeyFor(script, a, b) && vcSame(keys[who], vcKeyFor(script, a, b)))
	//@ call
	keys, err := getChangesBlindingKeys(p, n, a, b)
	//@ ensures each: err == nil ==> len(keys) == len(outs)-n && vcHasKeyFor(script, a, b) && vcSame(keys[who], vcKeyFor(script, a, b))
	//@ ensures bad: p == "bad" ==> err != nil
}

func vcAt(m map[string]string, k string, at int) bool {
	_, in := m[k]
	return !in || at >= 0 && at < len(vcKeys(m)) && vcKeys(m)[at] == k
}

// vcHolds: the value kept so far for a key.
func vcHolds(m map[string]string, k string, in bool, v string) bool {
	w, ok := m[k]
	return ok == in && (!in || w == v)
}

//@ contract C10
func vcMerge(a, b map[string]string, k string, ata, atb int) {
	//@ requires !vcSame(a, b) && vcAt(a, k, ata) && vcAt(b, k, atb)
	va, ina := a[k]
	vb, inb := b[k]
	//@ invariant (merge map[string]string, m map[string]string, i int): !vcSame(m, a) || vcHolds(merge, k, ina && i > ata, va)
	//@ invariant (merge map[string]string, m map[string]string, i int): !vcSame(m, b) || !(inb && i > atb) || vcHolds(merge, k, true, vb)
	//@ invariant (merge map[string]string, m map[string]string, i int): !vcSame(m, b) || inb && i > atb || vcHolds(merge, k, ina, va)
	//@ call
	m := mergeDerivationPaths(a, b)
	v, in := m[k]
	//@ ensures first: ina && !inb ==> in && v == va
	//@ ensures second: inb ==> in && v == vb
	//@ ensures only: !ina && !inb ==> !in
}

// vcAddress: what a confidential address says.
func vcAddrScript(a string) []byte { return nil }
func vcAddrKey(a string) []byte    { return nil }
func vcAddrGood(a string) bool     { return false }
func vcParseAddr(a string) ([]byte, []byte, error) {
	if !vcAddrGood(a) {
		return nil, nil, errors.New("bad address")
	}
	return vcAddrScript(a), vcAddrKey(a), nil
}

func vcIsOut(out *transaction.TxOutput, key []byte, req TxOut) bool {
	asset, _ := bufferutil.AssetHashToBytes(req.Asset)
	value, _ := bufferutil.ValueToBytes(uint64(req.Value))
	return out != nil && vcSame(out.Asset, asset) && vcSame(out.Value, value) && vcSame(out.Script, vcAddrScript(req.Address)) && vcSame(key, vcAddrKey(req.Address))
}

//@ contract C10 opaque=vcAddrScript,vcAddrKey,vcAddrGood,pkg/bufferutil.AssetHashToBytes,pkg/bufferutil.ValueToBytes stub=parseConfidentialAddress:vcParseAddr
func vcParseOutputs(reqs []TxOut, who int) {
	//@ requires who >= 0 && who < len(reqs)
	//@ invariant (outputs []*transaction.TxOutput, blindingKeys [][]byte, i int): len(outputs) == i
	//@ invariant (outputs []*transaction.TxOutput, blindingKeys [][]byte, i int): len(blindingKeys) == i
	//@ invariant (outputs []*transaction.TxOutput, blindingKeys [][]byte, i int): (who >= i || vcAddrGood(reqs[who].Address) && vcIsOut(outputs[who], blindingKeys[who], reqs[who]))
	//@ call
	outs, keys, err := parseRequestOutputs(reqs)
	//@ ensures each: err == nil ==> len(outs) == len(reqs) && len(keys) == len(reqs) && vcAddrGood(reqs[who].Address) && vcIsOut(outs[who], keys[who], reqs[who])
}

func vcOutAssetOf(out *transaction.TxOutput) string { return bufferutil.AssetHashFromBytes(out.Asset) }

func vcSeen(m map[string]struct{}, s string) bool {
	_, ok := m[s]
	return ok
}

//@ contract C10 opaque=pkg/bufferutil.AssetHashFromBytes
func vcOutAssets(outs []*transaction.TxOutput, who, other int) {
	//@ requires vcForall(0, len(outs), func(i int) bool { return outs[i] != nil }) && who >= 0 && who < len(outs) && other >= 0
	asset := vcOutAssetOf(outs[who])
	//@ invariant (assets []string, i int): vcForall(0, i, func(j int) bool { return assets[j] != asset })
	//@ invariant (assets []string, seen map[string]bool): seen[asset] ==> vcExists(0, len(assets), func(j int) bool { return assets[j] == asset })
	//@ invariant (assets []string, seen map[string]struct{}): vcSeen(seen, asset) ==> vcExists(0, len(assets), func(j int) bool { return assets[j] == asset })
	//@ invariant (assets []string, i int): who >= i || vcExists(0, len(assets), func(j int) bool { return assets[j] == asset })
	//@ call
	assets := getAssetsOfOutputs(outs)
	//@ ensures listed: vcExists(0, len(assets), func(j int) bool { return assets[j] == asset })
}

// The withdrawal.

// vcPurse: what can be spent of the two assets of the market.
type vcPurse struct {
	domain.UnspentRepository
	BaseAsset, QuoteAsset string
	Base, Quote           uint64
	BaseFails, QuoteFails bool
	AskedB, AskedQ        []string
	Astray                bool
}

func (r *vcPurse) GetUnlockedBalance(ctx context.Context, addresses []string, asset string) (uint64, error) {
	if asset == r.BaseAsset {
		r.AskedB = addresses
		return r.Base, vcE(r.BaseFails)
	}
	if asset != r.QuoteAsset {
		r.Astray = true
	}
	r.AskedQ = addresses
	return r.Quote, vcE(r.QuoteFails)
}

type vcTreasury struct {
	ports.RepoManager
	V *vcVaults
	M *vcMarkets
	U *vcPurse
}

func (w *vcTreasury) VaultRepository() domain.VaultRepository     { return w.V }
func (w *vcTreasury) MarketRepository() domain.MarketRepository   { return w.M }
func (w *vcTreasury) UnspentRepository() domain.UnspentRepository { return w.U }

// vcRadio: what was broadcasted.
type vcRadio struct {
	explorer.Service
	Sent  int
	Hex   string
	Fails bool
}

func (x *vcRadio) BroadcastTransaction(h string) (string, error) {
	x.Sent++
	x.Hex = h
	if x.Fails {
		return "", vcAnError
	}
	return "txid", nil
}

// vcOffers: the parts of a withdrawal, each as its own contract says.
type vcOffers struct {
	Vault      *domain.Vault
	Market     int
	Addresses  domain.AddressesInfo
	AddrFails  bool
	ListOf     int // account whose addresses were listed
	Reqs       []TxOut
	Outs       []*transaction.TxOutput
	Keys       [][]byte
	BadOuts    bool
	Coins, FeeCoins     []explorer.Utxo
	CoinsFail, FeeFail  bool
	Mnemonic   []string
	Locked     bool
	Mkt, Fee   *domain.Account
	NoMkt, NoFee bool
	Assets     []string
	Scripts    []string // scripts of the next change addresses of the account
	FeeScript  string
	Paths      []string
	FeePath    string
	Taken      int
	FeeTaken   int
	NextFails  bool
	Opts       sendToManyOpts
	Sends      int
	SendFails  bool
	Astray     bool
	Parsed     bool
}

var vcOffer *vcOffers

func vcAddressesFor(v *domain.Vault, account int) (domain.AddressesInfo, error) {
	o := vcOffer
	o.Astray = o.Astray || v != o.Vault
	o.ListOf = account
	return o.Addresses, vcE(o.AddrFails)
}

func vcParseReqs(reqs []TxOut) ([]*transaction.TxOutput, [][]byte, error) {
	o := vcOffer
	o.Reqs = reqs
	if o.BadOuts {
		return nil, nil, vcAnError
	}
	return o.Outs, o.Keys, nil
}

func vcCoinsOf(s *operatorService, ctx context.Context, account int) ([]explorer.Utxo, error) {
	o := vcOffer
	if account == domain.FeeAccount {
		return o.FeeCoins, vcE(o.FeeFail)
	}
	o.Astray = o.Astray || account != o.Market
	return o.Coins, vcE(o.CoinsFail)
}

func vcMnemonicOf(v *domain.Vault) ([]string, error) {
	o := vcOffer
	o.Astray = o.Astray || v != o.Vault
	return o.Mnemonic, vcE(o.Locked)
}

func vcAccountOf(v *domain.Vault, account int) (*domain.Account, error) {
	o := vcOffer
	o.Astray = o.Astray || v != o.Vault
	if account == domain.FeeAccount {
		if o.NoFee {
			return nil, vcAnError
		}
		return o.Fee, nil
	}
	o.Astray = o.Astray || account != o.Market
	if o.NoMkt {
		return nil, vcAnError
	}
	return o.Mkt, nil
}

func vcAssetsFor(outs []*transaction.TxOutput) []string {
	vcOffer.Astray = vcOffer.Astray || !vcSame(outs, vcOffer.Outs)
	return vcOffer.Assets
}

func vcNextChange(v *domain.Vault, account int) (*domain.AddressInfo, error) {
	o := vcOffer
	o.Astray = o.Astray || v != o.Vault
	if o.NextFails {
		return nil, vcAnError
	}
	if account == domain.FeeAccount {
		o.FeeTaken++
		return &domain.AddressInfo{AccountIndex: account, Script: o.FeeScript, DerivationPath: o.FeePath}, nil
	}
	o.Astray = o.Astray || account != o.Market
	k := o.Taken
	o.Taken++
	return &domain.AddressInfo{AccountIndex: account, Script: o.Scripts[k], DerivationPath: o.Paths[k]}, nil
}

func vcSend(opts sendToManyOpts) (string, error) {
	o := vcOffer
	o.Sends++
	o.Opts = opts
	if o.SendFails {
		return "", vcAnError
	}
	return "rawtx", nil
}

func vcIsReq(r TxOut, asset string, amount uint64, address string) bool {
	return r.Asset == asset && r.Value >= 0 && uint64(r.Value) == amount && r.Address == address
}

// vcListenerNone: nobody listens to withdrawals.
type vcQuiet struct{ BlockchainListener }

func (q *vcQuiet) PubSubService() ports.SecurePubSub { return nil }

func vcFits(o *vcOffers) bool {
	return o.Sends == 0 && o.Taken == 0 && o.FeeTaken == 0 && !o.Astray && o.Mkt != nil && o.Fee != nil && o.Market != domain.FeeAccount &&
		len(o.Scripts) == len(o.Assets) && len(o.Paths) == len(o.Assets)
}

//@ contract C10 opaque=encoding/hex.DecodeString stub=(*internal/core/domain.Vault).AllDerivedAddressesInfoForAccount:vcAddressesFor,parseRequestOutputs:vcParseReqs,(*internal/core/application.operatorService).getAllUnspentsForAccount:vcCoinsOf,(*internal/core/domain.Vault).GetMnemonicSafe:vcMnemonicOf,(*internal/core/domain.Vault).AccountByIndex:vcAccountOf,getAssetsOfOutputs:vcAssetsFor,(*internal/core/domain.Vault).DeriveNextInternalAddressForAccount:vcNextChange,sendToMany:vcSend
func vcWithdraw(v *vcVaults, m *vcMarkets, u *vcPurse, x *vcRadio, o *vcOffers, req WithdrawMarketReq, net *network.Network, who, other int) {
	//@ requires v != nil && m != nil && u != nil && x != nil && o != nil && net != nil && v.Vault != nil && m.Market != nil && v.Stored == 0 && x.Sent == 0
	//@ requires vcFits(o) && o.Vault == v.Vault && o.Market == m.Account && m.Market.AccountIndex == m.Account && u.BaseAsset == "base" && u.QuoteAsset == req.QuoteAsset && req.QuoteAsset != "base" && !u.Astray
	//@ requires u.Base < 1<<63 && u.Quote < 1<<63 && who >= 0 && who < len(o.Assets)
	//@ requires vcForall(0, len(o.Assets), func(j int) bool { return o.Assets[j] != o.Assets[who] || j == who })
	vcOffer = o
	s := &operatorService{repoManager: &vcTreasury{V: v, M: m, U: u}, marketBaseAsset: "base", explorerSvc: x, network: net, blockchainListener: &vcQuiet{}}
	base, quote := req.BalanceToWithdraw.BaseAmount, req.BalanceToWithdraw.QuoteAmount
	//@ invariant (changePathsByAsset map[string]string, i int): o.Taken == i && !o.Astray && o.FeeTaken == 0 && o.Sends == 0
	//@ invariant (changePathsByAsset map[string]string, i int): i <= who || vcHolds(changePathsByAsset, o.Assets[who], true, o.Mkt.DerivationPathByScript[o.Scripts[who]])
	//@ call
	raw, err := s.WithdrawMarketFunds(context.Background(), req)
	//@ ensures refused: err == nil ==> req.BaseAsset == "base" && !m.Fails && m.Account >= 0 && m.Asked == req.QuoteAsset && !o.Locked
	//@ ensures within: err == nil ==> base <= u.Base && quote <= u.Quote && u.Base > 0 && u.Quote > 0 && o.ListOf == m.Account
	//@ ensures nothing: o.Sends == 0 || o.SendFails ==> x.Sent == 0 && v.Stored == 0
	//@ ensures both: err == nil && base > 0 && quote > 0 ==> len(o.Reqs) == 2 && vcIsReq(o.Reqs[0], "base", base, req.Address) && vcIsReq(o.Reqs[1], req.QuoteAsset, quote, req.Address)
	//@ ensures onlybase: err == nil && base > 0 && quote == 0 ==> len(o.Reqs) == 1 && vcIsReq(o.Reqs[0], "base", base, req.Address)
	//@ ensures onlyquote: err == nil && base == 0 && quote > 0 ==> len(o.Reqs) == 1 && vcIsReq(o.Reqs[0], req.QuoteAsset, quote, req.Address)
	//@ ensures built: err == nil ==> o.Sends == 1 && !o.Astray && vcSame(o.Opts.outputs, o.Outs) && vcSame(o.Opts.outputsBlindingKeys, o.Keys) && vcSame(o.Opts.mnemonic, o.Mnemonic) && o.Opts.network == net && o.Opts.milliSatPerByte == int(req.MillisatPerByte)
	//@ ensures coins: err == nil ==> vcSame(o.Opts.unspents, o.Coins) && vcSame(o.Opts.feeUnspents, o.FeeCoins)
	//@ ensures change: err == nil ==> o.Taken == len(o.Assets) && vcHolds(o.Opts.changePathsByAsset, o.Assets[who], true, o.Mkt.DerivationPathByScript[o.Scripts[who]])
	//@ ensures feechange: err == nil ==> o.FeeTaken == 1 && vcHolds(o.Opts.feeChangePathByAsset, net.AssetID, true, o.Fee.DerivationPathByScript[o.FeeScript])
	//@ ensures signed: err == nil ==> vcSame(o.Opts.inputPathsByScript, o.Mkt.DerivationPathByScript) && vcSame(o.Opts.feeInputPathsByScript, o.Fee.DerivationPathByScript)
	//@ ensures push: err == nil ==> (req.Push ==> x.Sent == 1 && x.Hex == "rawtx" && !x.Fails) && (!req.Push ==> x.Sent == 0)
	//@ ensures stored: err == nil ==> v.Stored == 1 && v.StoredVault == v.Vault
	//@ ensures unsent: err != nil && x.Fails ==> v.Stored == 0
	want, _ := hex.DecodeString("rawtx")
	//@ ensures reply: err == nil ==> vcEqSlices(raw, want)
}

// vcLoud: somebody listens to withdrawals.
type vcLoud struct {
	BlockchainListener
	Hub *vcStation
}

func (q *vcLoud) PubSubService() ports.SecurePubSub { return q.Hub }

type vcStation struct {
	ports.SecurePubSub
	Published int
	Topic     string
	Message   string
	Fails     bool
}

type vcNamed struct{ Of int }

func (t *vcNamed) Code() int { return t.Of }
func (t *vcNamed) Label() string {
	if t.Of == AccountWithdraw {
		return "withdraw"
	}
	return "other"
}

func (h *vcStation) TopicsByCode() map[int]ports.Topic {
	return map[int]ports.Topic{AccountWithdraw: &vcNamed{AccountWithdraw}, TradeSettled: &vcNamed{TradeSettled}, AccountLowBalance: &vcNamed{AccountLowBalance}}
}
func (h *vcStation) Publish(topic, message string) error {
	h.Published++
	h.Topic, h.Message = topic, message
	return vcE(h.Fails)
}

var (
	vcTold     map[string]interface{}
	vcTolds    int
	vcExtHex   string
	vcExtOf    int
	vcExtNet   *network.Network
	vcExtCalls int
)

func vcMarshalMsg(v interface{}) ([]byte, error) {
	vcTolds++
	vcTold, _ = v.(map[string]interface{})
	return []byte("message"), nil
}

func vcExtracts(u domain.UnspentRepository, v domain.VaultRepository, n *network.Network, h string, account int) {
	vcExtCalls++
	vcExtNet, vcExtHex, vcExtOf = n, h, account
}

func vcToldString(k, want string) bool {
	s, ok := vcTold[k].(string)
	return ok && s == want
}

func vcToldNames(k, f, want string) bool {
	m, ok := vcTold[k].(map[string]string)
	return ok && m[f] == want
}

func vcToldAmount(k, f string, want uint64) bool {
	m, ok := vcTold[k].(map[string]interface{})
	if !ok {
		return false
	}
	n, ok := m[f].(uint64)
	return ok && n == want
}

func vcToldLeft(k, f string, want uint64) bool {
	m, ok := vcTold[k].(map[string]uint64)
	return ok && m[f] == want
}

//@ contract C10 C19 opaque=encoding/hex.DecodeString stub=(*internal/core/domain.Vault).AllDerivedAddressesInfoForAccount:vcAddressesFor,parseRequestOutputs:vcParseReqs,(*internal/core/application.operatorService).getAllUnspentsForAccount:vcCoinsOf,(*internal/core/domain.Vault).GetMnemonicSafe:vcMnemonicOf,(*internal/core/domain.Vault).AccountByIndex:vcAccountOf,getAssetsOfOutputs:vcAssetsFor,(*internal/core/domain.Vault).DeriveNextInternalAddressForAccount:vcNextChange,sendToMany:vcSend,encoding/json.Marshal:vcMarshalMsg,extractUnspentsFromTxAndUpdateUtxoSet:vcExtracts
func vcWithdrawTells(v *vcVaults, m *vcMarkets, u *vcPurse, x *vcRadio, o *vcOffers, h *vcStation, req WithdrawMarketReq, net *network.Network) {
	//@ requires v != nil && m != nil && u != nil && x != nil && o != nil && h != nil && net != nil && v.Vault != nil && m.Market != nil && v.Stored == 0 && x.Sent == 0 && h.Published == 0
	//@ requires vcFits(o) && o.Vault == v.Vault && o.Market == m.Account && m.Market.AccountIndex == m.Account && u.BaseAsset == "base" && u.QuoteAsset == req.QuoteAsset && req.QuoteAsset != "base" && !u.Astray
	//@ requires len(o.Assets) == 0 && u.Base < 1<<63 && u.Quote < 1<<63
	vcOffer = o
	vcTolds, vcExtCalls = 0, 0
	s := &operatorService{repoManager: &vcTreasury{V: v, M: m, U: u}, marketBaseAsset: "base", explorerSvc: x, network: net, blockchainListener: &vcLoud{Hub: h}}
	base, quote := req.BalanceToWithdraw.BaseAmount, req.BalanceToWithdraw.QuoteAmount
	//@ call
	_, err := s.WithdrawMarketFunds(context.Background(), req)
	txid := ""
	if err == nil {
		if req.Push {
			txid = "txid"
		}
		vcRunGo(0)
		vcRunGo(1)
	}
	//@ ensures quiet: err != nil ==> h.Published == 0 && vcExtCalls == 0
	//@ ensures told: err == nil ==> h.Published == 1 && h.Topic == "withdraw" && h.Message == "message" && vcTolds == 1
	//@ ensures market: err == nil ==> vcToldNames("market", "base_asset", "base") && vcToldNames("market", "quote_asset", req.QuoteAsset)
	//@ ensures amounts: err == nil ==> vcToldAmount("amount_withdraw", "base_amount", base) && vcToldAmount("amount_withdraw", "quote_amount", quote)
	//@ ensures receiver: err == nil ==> vcToldString("receiving_address", req.Address) && vcToldString("txid", txid)
	//@ ensures balance: err == nil ==> vcToldLeft("balance", "base_balance", u.Base-base) && vcToldLeft("balance", "quote_balance", u.Quote-quote)
	//@ ensures spent: err == nil ==> vcExtCalls == 1 && vcExtHex == "rawtx" && vcExtOf == m.Account && vcExtNet == net
}

// The coins of an account: those that are not locked, or all those on chain.

type vcPool struct {
	domain.UnspentRepository
	Free    []domain.Unspent
	Fails   bool
	Asked   int
	Addrs   []string
}

func (r *vcPool) GetAvailableUnspentsForAddresses(ctx context.Context, addresses []string) ([]domain.Unspent, error) {
	r.Asked++
	r.Addrs = addresses
	return r.Free, vcE(r.Fails)
}

type vcCellar struct {
	ports.RepoManager
	V *vcVaults
	U *vcPool
}

func (w *vcCellar) VaultRepository() domain.VaultRepository     { return w.V }
func (w *vcCellar) UnspentRepository() domain.UnspentRepository { return w.U }

func vcCoin(txid string, vout uint32) explorer.Utxo { return nil }
func vcCoinOf(u *domain.Unspent) explorer.Utxo     { return vcCoin(u.TxID, u.VOut) }

type vcScanner struct {
	explorer.Service
	Addrs []string
	Keys  [][]byte
	Coins []explorer.Utxo
	Fails bool
	Asked int
}

func (x *vcScanner) GetUnspentsForAddresses(a []string, k [][]byte) ([]explorer.Utxo, error) {
	x.Asked++
	x.Addrs, x.Keys = a, k
	return x.Coins, vcE(x.Fails)
}

//@ contract C10 opaque=vcCoin stub=(*internal/core/domain.Unspent).ToUtxo:vcCoinOf
func vcOperatorCoins(v *vcVaults, u *vcPool, account, who int) {
	//@ requires v != nil && u != nil && u.Asked == 0 && who >= 0 && who < len(u.Free)
	s := &operatorService{repoManager: &vcCellar{V: v, U: u}}
	info := v.MktInfo
	fails := v.MktFails
	if account == domain.FeeAccount {
		info, fails = v.FeeInfo, v.FeeFails
	}
	//@ invariant (utxos []explorer.Utxo, i int): len(utxos) == i
	//@ invariant (utxos []explorer.Utxo, i int): (who >= i || utxos[who] == vcCoin(u.Free[who].TxID, u.Free[who].VOut))
	//@ invariant (addresses []string, i int): vcForall(0, i, func(j int) bool { return addresses[j] == info[j].Address })
	//@ call
	coins, err := s.getAllUnspentsForAccount(context.Background(), account)
	//@ ensures served: (err == nil) == (!fails && !u.Fails)
	//@ ensures asked: err == nil ==> u.Asked == 1 && len(u.Addrs) == len(info) && vcForall(0, len(info), func(i int) bool { return u.Addrs[i] == info[i].Address }) && (account == domain.FeeAccount || v.Asked == account)
	//@ ensures coins: err == nil ==> len(coins) == len(u.Free) && coins[who] == vcCoin(u.Free[who].TxID, u.Free[who].VOut)
}

//@ contract C10 opaque=vcCoin stub=(*internal/core/domain.Unspent).ToUtxo:vcCoinOf
func vcWalletAccountCoins(v *vcVaults, u *vcPool, x *vcScanner, account int, useExplorer bool, who, at int) {
	//@ requires v != nil && u != nil && x != nil && u.Asked == 0 && x.Asked == 0 && who >= 0 && who < len(u.Free) && at >= 0
	s := &walletService{repoManager: &vcCellar{V: v, U: u}, explorerService: x}
	info := v.MktInfo
	fails := v.MktFails
	if account == domain.FeeAccount {
		info, fails = v.FeeInfo, v.FeeFails
	}
	//@ invariant (utxos []explorer.Utxo, i int): len(utxos) == i
	//@ invariant (utxos []explorer.Utxo, i int): (who >= i || utxos[who] == vcCoin(u.Free[who].TxID, u.Free[who].VOut))
	//@ invariant (addresses []string, i int): at >= i || addresses[at] == info[at].Address
	//@ invariant (keys [][]byte, i int): at >= i || vcSame(keys[at], info[at].BlindingKey)
	//@ call
	coins, err := s.getAllUnspentsForAccount(context.Background(), account, useExplorer)
	//@ ensures served: (err == nil) == (!fails && (useExplorer && !x.Fails || !useExplorer && !u.Fails))
	//@ ensures asked: err == nil && !useExplorer ==> u.Asked == 1 && len(u.Addrs) == len(info) && (at >= len(info) || u.Addrs[at] == info[at].Address)
	//@ ensures coins: err == nil && !useExplorer ==> len(coins) == len(u.Free) && coins[who] == vcCoin(u.Free[who].TxID, u.Free[who].VOut)
	//@ ensures scanned: err == nil && useExplorer ==> x.Asked == 1 && vcSame(coins, x.Coins) && len(x.Addrs) == len(info) && len(x.Keys) == len(info) && (at >= len(info) || x.Addrs[at] == info[at].Address && vcSame(x.Keys[at], info[at].BlindingKey))
}

// The wallet account.

func vcWalletCoinsOf(s *walletService, ctx context.Context, account int, useExplorer bool) ([]explorer.Utxo, error) {
	o := vcOffer
	if account == domain.FeeAccount {
		o.Astray = o.Astray || useExplorer
		return o.FeeCoins, vcE(o.FeeFail)
	}
	o.Astray = o.Astray || account != domain.WalletAccount || !useExplorer
	return o.Coins, vcE(o.CoinsFail)
}

type vcSpender struct {
	ports.RepoManager
	V *vcVaults
}

func (w *vcSpender) VaultRepository() domain.VaultRepository     { return w.V }
func (w *vcSpender) UnspentRepository() domain.UnspentRepository { return nil }

func vcNotSyncing(w *walletService) bool  { return w.walletIsSyncing }
func vcInitialized(w *walletService) bool { return w.walletInitialized }

//@ contract C10 opaque=encoding/hex.DecodeString stub=(*internal/core/application.walletService).isSyncing:vcNotSyncing,(*internal/core/application.walletService).isInitialized:vcInitialized,parseRequestOutputs:vcParseReqs,(*internal/core/application.walletService).getAllUnspentsForAccount:vcWalletCoinsOf,(*internal/core/domain.Vault).GetMnemonicSafe:vcMnemonicOf,(*internal/core/domain.Vault).AccountByIndex:vcAccountOf,getAssetsOfOutputs:vcAssetsFor,(*internal/core/domain.Vault).DeriveNextInternalAddressForAccount:vcNextChange,sendToMany:vcSend,extractUnspentsFromTxAndUpdateUtxoSet:vcExtracts
func vcSendWallet(v *vcVaults, x *vcRadio, o *vcOffers, req SendToManyRequest, net *network.Network, syncing, initialized bool, who int) {
	//@ requires v != nil && x != nil && o != nil && net != nil && v.Vault != nil && v.Stored == 0 && x.Sent == 0
	//@ requires vcFits(o) && o.Vault == v.Vault && o.Market == domain.WalletAccount && who >= 0 && who < len(o.Assets)
	//@ requires vcForall(0, len(o.Assets), func(j int) bool { return o.Assets[j] != o.Assets[who] || j == who })
	vcOffer = o
	vcExtCalls = 0
	s := &walletService{repoManager: &vcSpender{V: v}, explorerService: x, network: net, walletIsSyncing: syncing, walletInitialized: initialized}
	//@ invariant (changePathsByAsset map[string]string, i int): o.Taken == i && !o.Astray && o.FeeTaken == 0 && o.Sends == 0
	//@ invariant (changePathsByAsset map[string]string, i int): i <= who || vcHolds(changePathsByAsset, o.Assets[who], true, o.Paths[who])
	//@ call
	raw, err := s.SendToMany(context.Background(), req)
	if err == nil {
		vcRunGo(0)
		vcRunGo(1)
	}
	//@ ensures refused: err == nil ==> !syncing && initialized && !o.Locked && !o.BadOuts && len(o.Coins) > 0 && len(o.FeeCoins) > 0
	//@ ensures nothing: o.Sends == 0 || o.SendFails ==> err != nil && x.Sent == 0 && v.Stored == 0
	//@ ensures built: err == nil ==> o.Sends == 1 && !o.Astray && vcSame(o.Reqs, req.Outputs) && vcSame(o.Opts.outputs, o.Outs) && vcSame(o.Opts.outputsBlindingKeys, o.Keys) && vcSame(o.Opts.mnemonic, o.Mnemonic) && o.Opts.network == net && o.Opts.milliSatPerByte == int(req.MillisatPerByte)
	//@ ensures coins: err == nil ==> vcSame(o.Opts.unspents, o.Coins) && vcSame(o.Opts.feeUnspents, o.FeeCoins)
	//@ ensures change: err == nil ==> o.Taken == len(o.Assets) && vcHolds(o.Opts.changePathsByAsset, o.Assets[who], true, o.Paths[who])
	//@ ensures feechange: err == nil ==> o.FeeTaken == 1 && vcHolds(o.Opts.feeChangePathByAsset, net.AssetID, true, o.FeePath)
	//@ ensures signed: err == nil ==> vcSame(o.Opts.inputPathsByScript, o.Mkt.DerivationPathByScript) && vcSame(o.Opts.feeInputPathsByScript, o.Fee.DerivationPathByScript)
	//@ ensures push: err == nil ==> (req.Push ==> x.Sent == 1 && x.Hex == "rawtx" && !x.Fails) && (!req.Push ==> x.Sent == 0)
	//@ ensures stored: (err == nil) == (v.Stored == 1) && (err == nil ==> v.StoredVault == v.Vault)
	want, _ := hex.DecodeString("rawtx")
	//@ ensures reply: err == nil ==> vcEqSlices(raw, want)
	//@ ensures spent: err == nil ==> vcExtCalls == 1 && vcExtHex == "rawtx" && vcExtOf == domain.FeeAccount && vcExtNet == net
}
