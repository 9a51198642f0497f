//go:build go1.22

package wallet

import (
	"errors"
	"math/big"
	"strings"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcd/chaincfg"
	"github.com/btcsuite/btcutil/hdkeychain"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/payment"
	"github.com/vulpemventures/go-elements/slip77"
)

// ---- C12: a path is read as written.

type vcPath struct {
	Str   string
	Elems []string
	Nums  []int64 // the numbers the elements tell
	Bad   int     // an element that tells none, if any
	Reads int
	Astray bool
}

var vcP *vcPath

func vcSplit(s, sep string) []string {
	if s != vcP.Str || sep != "/" {
		vcP.Astray = true
	}
	return vcP.Elems
}
func vcNumOf(s string) (int64, bool) { return 0, false }

// vcSetString: what an element tells (base 10, or that of its prefix).
func vcSetString(z *big.Int, s string, base int) (*big.Int, bool) {
	if base != 0 {
		vcP.Astray = true
	}
	n, ok := vcNumOf(s)
	if !ok {
		return nil, false
	}
	z.SetInt64(n)
	return z, true
}

func vcFirst(p *vcPath) int {
	return vcIte(strings.TrimSpace(p.Elems[0]) == "m", 1, 0)
}
func vcTrim(e string) string { return strings.TrimSpace(e) }
func vcHard(e string) bool   { return strings.HasSuffix(vcTrim(e), "'") }
func vcNumber(e string) (int64, bool) {
	if vcHard(e) {
		return vcNumOf(strings.TrimSpace(strings.TrimSuffix(vcTrim(e), "'")))
	}
	return vcNumOf(vcTrim(e))
}

// vcReads: what the element stands for.
func vcReads(e string) (uint32, bool) {
	n, ok := vcNumber(e)
	if !ok || n < 0 {
		return 0, false
	}
	if vcHard(e) {
		return uint32(n + 1<<31), n < 1<<31
	}
	return uint32(n), n < 1<<32
}

//@ contract C12 opaque=vcNumOf,strings.TrimSuffix stub=strings.Split:vcSplit,(*math/big.Int).SetString:vcSetString
func vcParsePath(p *vcPath, who int) {
	//@ requires p != nil && !p.Astray && len(p.Elems) > 0 && len(p.Elems) < 1<<30 && who >= 0
	vcP = p
	start := vcFirst(p)
	//@ requires who < len(p.Elems) - start
	want, good := vcReads(p.Elems[start+who])
	//@ invariant (path DerivationPath, i int): len(path) == i
	//@ invariant (path DerivationPath, i int): !p.Astray && (i <= who || good && path[who] == want)
	//@ call
	path, err := ParseDerivationPath(p.Str)
	//@ ensures right: err == nil ==> !p.Astray && p.Str != "" && len(p.Elems) > 1
	//@ ensures length: err == nil ==> len(path) == len(p.Elems) - start
	//@ ensures steps: err == nil ==> good && path[who] == want
	//@ ensures nothing: err != nil ==> len(path) == 0
	//@ cover ok: err == nil && want >= 1<<31
}

// Every element that stands for something is accepted.
//
//@ contract C12 opaque=vcNumOf,strings.TrimSuffix stub=strings.Split:vcSplit,(*math/big.Int).SetString:vcSetString
func vcPathRead(p *vcPath, account, chain, index string) {
	//@ requires p != nil && !p.Astray && p.Str != ""
	vcP = p
	p.Elems = []string{account, chain, index}
	a, goodA := vcReads(account)
	c, goodC := vcReads(chain)
	i, goodI := vcReads(index)
	_ = a
	_ = c
	_ = i
	//@ call
	path, err := ParseDerivationPath(p.Str)
	//@ ensures read: account != "" && chain != "" && index != "" && vcTrim(account) != "m" && goodA && goodC && goodI ==> err == nil && len(path) == 3
}

//@ contract C12
func vcCheckPath(path DerivationPath) {
	//@ call
	err := checkDerivationPath(path)
	//@ ensures exact: (err == nil) == (len(path) == 3 && path[0] >= 1<<31)
}

// ---- C12: a path leads to one key.

type vcHd struct {
	W      *Wallet
	Str    string
	Path   DerivationPath
	Nodes  []*hdkeychain.ExtendedKey // the root and the nodes along the path
	At     int
	Astray bool
	Bad    int // which step fails, 0 for none
	Base   string
	Prv    *btcec.PrivateKey
	Pub    *btcec.PublicKey
	Seed   []byte
	Out    []byte
}

var vcH *vcHd

func vcParseIt(s string) (DerivationPath, error) {
	if s != vcH.Str {
		vcH.Astray = true
	}
	if vcH.Bad == 1 {
		return nil, errors.New("malformed")
	}
	return vcH.Path, nil
}
func vcEncodeIt(b []byte) string {
	if !vcSame(b, vcH.W.signingMasterKey) {
		vcH.Astray = true
	}
	return vcH.Base
}
func vcRoot(s string) (*hdkeychain.ExtendedKey, error) {
	if s != vcH.Base {
		vcH.Astray = true
	}
	if vcH.Bad == 2 {
		return nil, errors.New("malformed")
	}
	return vcH.Nodes[0], nil
}
func vcDerive(k *hdkeychain.ExtendedKey, step uint32) (*hdkeychain.ExtendedKey, error) {
	h := vcH
	if h.At >= len(h.Path) {
		h.Astray = true
		return nil, errors.New("too long")
	}
	h.Astray = vcB(func() bool { return h.Astray || k != h.Nodes[h.At] || step != h.Path[h.At] })
	if h.Bad == 3 {
		return nil, errors.New("no key")
	}
	h.At++
	return h.Nodes[h.At], nil
}
func vcPrvIt(k *hdkeychain.ExtendedKey) (*btcec.PrivateKey, error) {
	h := vcH
	h.Astray = vcB(func() bool { return h.Astray || h.At != len(h.Path) || k != h.Nodes[h.At] })
	if h.Bad == 4 {
		return nil, errors.New("no key")
	}
	return h.Prv, nil
}
func vcPubIt(k *hdkeychain.ExtendedKey) (*btcec.PublicKey, error) {
	h := vcH
	h.Astray = vcB(func() bool { return h.Astray || h.At != len(h.Path) || k != h.Nodes[h.At] })
	if h.Bad == 5 {
		return nil, errors.New("no key")
	}
	return h.Pub, nil
}
func vcSound(w *Wallet) error {
	if vcH.Bad == 6 {
		return errors.New("unsound wallet")
	}
	return nil
}

func vcHdReady(h *vcHd) bool {
	return h != nil && h.W != nil && h.At == 0 && !h.Astray && len(h.Nodes) == len(h.Path)+1 && len(h.Path) < 1<<30 && h.Prv != nil && h.Pub != nil
}

//@ contract C12 stub=ParseDerivationPath:vcParseIt,github.com/btcsuite/btcutil/base58.Encode:vcEncodeIt,github.com/btcsuite/btcutil/hdkeychain.NewKeyFromString:vcRoot,(*github.com/btcsuite/btcutil/hdkeychain.ExtendedKey).Derive:vcDerive,(*github.com/btcsuite/btcutil/hdkeychain.ExtendedKey).ECPrivKey:vcPrvIt,(*github.com/btcsuite/btcutil/hdkeychain.ExtendedKey).ECPubKey:vcPubIt,(*pkg/wallet.Wallet).validate:vcSound
func vcSigningKeys(h *vcHd) {
	//@ requires vcHdReady(h)
	vcH = h
	//@ invariant (hdNode *hdkeychain.ExtendedKey, i int): h.At == i && !h.Astray && hdNode == h.Nodes[i] && (i == 0 || h.Bad != 3) && h.Bad != 1 && h.Bad != 2 && h.Bad != 6
	//@ call
	prv, pub, err := h.W.DeriveSigningKeyPair(DeriveSigningKeyPairOpts{DerivationPath: h.Str})
	//@ ensures right: !h.Astray
	//@ ensures keys: err == nil ==> prv == h.Prv && pub == h.Pub && h.At == 3 && len(h.Path) == 3 && h.Path[0] >= 1<<31
	//@ ensures does: h.Bad == 0 && len(h.Path) == 3 && h.Path[0] >= 1<<31 ==> err == nil
	//@ ensures nothing: err != nil ==> prv == nil && pub == nil
	//@ cover ok: err == nil
}

// ---- C12: the master key of the wallet is that of its mnemonic at m/84'/0'.

func vcMaster(seed []byte, net *chaincfg.Params) (*hdkeychain.ExtendedKey, error) {
	if !vcSame(seed, vcH.Seed) || net != &chaincfg.MainNetParams {
		vcH.Astray = true
	}
	if vcH.Bad == 2 {
		return nil, errors.New("unusable seed")
	}
	return vcH.Nodes[0], nil
}
func vcStringIt(k *hdkeychain.ExtendedKey) string {
	h := vcH
	h.Astray = vcB(func() bool { return h.Astray || h.At != len(h.Path) || k != h.Nodes[h.At] })
	return h.Base
}
func vcDecodeIt(s string) []byte {
	if s != vcH.Base {
		vcH.Astray = true
	}
	return vcH.Out
}

//@ contract C12 stub=github.com/btcsuite/btcutil/hdkeychain.NewMaster:vcMaster,(*github.com/btcsuite/btcutil/hdkeychain.ExtendedKey).Derive:vcDerive,(*github.com/btcsuite/btcutil/hdkeychain.ExtendedKey).String:vcStringIt,github.com/btcsuite/btcutil/base58.Decode:vcDecodeIt
func vcMasterKey(h *vcHd) {
	//@ requires vcHdReady(h)
	vcH = h
	//@ invariant (hdNode *hdkeychain.ExtendedKey, i int): h.At == i && !h.Astray && hdNode == h.Nodes[i] && (i == 0 || h.Bad != 3) && h.Bad != 2
	//@ call
	key, err := generateSigningMasterKey(h.Seed, h.Path)
	//@ ensures right: !h.Astray
	//@ ensures key: err == nil ==> vcSame(key, h.Out) && h.At == len(h.Path)
	//@ ensures does: h.Bad == 0 ==> err == nil
	//@ ensures nothing: err != nil ==> key == nil
}

type vcWords struct {
	Sign, Blind []string
	BadSign, BadBlind, BadKey, BadBlindKey bool
	SignSeed, BlindSeed []byte
	SignKey, BlindKey []byte
	Astray bool
	Path   DerivationPath
}

var vcWd *vcWords

func vcValidWords(m []string) bool {
	if vcSame(m, vcWd.Sign) {
		return !vcWd.BadSign
	}
	if !vcSame(m, vcWd.Blind) {
		vcWd.Astray = true
	}
	return !vcWd.BadBlind
}
func vcSeedOf(m []string) []byte {
	if vcSame(m, vcWd.Sign) {
		return vcWd.SignSeed
	}
	if !vcSame(m, vcWd.Blind) {
		vcWd.Astray = true
	}
	return vcWd.BlindSeed
}
func vcSignKeyOf(seed []byte, path DerivationPath) ([]byte, error) {
	if !vcSame(seed, vcWd.SignSeed) || len(path) != 2 || path[0] != 1<<31+84 || path[1] != 1<<31 {
		vcWd.Astray = true
	}
	if vcWd.BadKey {
		return nil, errors.New("unusable seed")
	}
	return vcWd.SignKey, nil
}
func vcBlindKeyOf(seed []byte) ([]byte, error) {
	if len(vcWd.Blind) == 0 && !vcSame(seed, vcWd.SignSeed) || len(vcWd.Blind) > 0 && !vcSame(seed, vcWd.BlindSeed) {
		vcWd.Astray = true
	}
	if vcWd.BadBlindKey {
		return nil, errors.New("unusable seed")
	}
	return vcWd.BlindKey, nil
}

//@ contract C12 stub=isMnemonicValid:vcValidWords,generateSeedFromMnemonic:vcSeedOf,generateSigningMasterKey:vcSignKeyOf,generateBlindingMasterKey:vcBlindKeyOf
func vcFromMnemonic(d *vcWords) {
	//@ requires d != nil && !d.Astray && !vcSame(d.Sign, d.Blind) && !vcSame(d.SignSeed, d.BlindSeed)
	vcWd = d
	//@ requires len(DefaultBaseDerivationPath) == 2 && DefaultBaseDerivationPath[0] == 1<<31 + 84 && DefaultBaseDerivationPath[1] == 1<<31
	//@ call
	w, err := NewWalletFromMnemonic(NewWalletFromMnemonicOpts{SigningMnemonic: d.Sign, BlindingMnemonic: d.Blind})
	//@ ensures right: !d.Astray
	//@ ensures signs: err == nil ==> !d.BadSign && len(d.Sign) > 0 && vcSame(w.signingMnemonic, d.Sign) && vcSame(w.signingMasterKey, d.SignKey)
	//@ ensures blinds: err == nil ==> vcSame(w.blindingMasterKey, d.BlindKey) && (len(d.Blind) == 0 && vcSame(w.blindingMnemonic, d.Sign) || len(d.Blind) > 0 && !d.BadBlind && vcSame(w.blindingMnemonic, d.Blind))
	//@ ensures does: len(d.Sign) > 0 && !d.BadSign && !(len(d.Blind) > 0 && d.BadBlind) && !d.BadKey && !d.BadBlindKey ==> err == nil
	//@ ensures nothing: err != nil ==> w == nil
}

// ---- C12: the blinding key of a script; the address of a path.

type vcBl struct {
	W      *Wallet
	Script []byte
	Node   *slip77.Slip77
	Bad    int
	Astray bool
	Prv    *btcec.PrivateKey
	Pub    *btcec.PublicKey
	SignPub *btcec.PublicKey
	Path   string
	Net    *network.Network
	Pay    *payment.Payment
	Plain  *payment.Payment
	Addr   string
}

var vcBk *vcBl

func vcNodeOf(key []byte) (*slip77.Slip77, error) {
	if !vcSame(key, vcBk.W.blindingMasterKey) {
		vcBk.Astray = true
	}
	if vcBk.Bad == 1 {
		return nil, errors.New("malformed")
	}
	return vcBk.Node, nil
}
func vcKeyFor(n *slip77.Slip77, script []byte) (*btcec.PrivateKey, *btcec.PublicKey, error) {
	if n != vcBk.Node || !vcSame(script, vcBk.Script) {
		vcBk.Astray = true
	}
	if vcBk.Bad == 2 {
		return nil, nil, errors.New("no key")
	}
	return vcBk.Prv, vcBk.Pub, nil
}
func vcSoundB(w *Wallet) error {
	if vcBk.Bad == 3 {
		return errors.New("unsound wallet")
	}
	return nil
}

//@ contract C12 stub=github.com/vulpemventures/go-elements/slip77.FromMasterKey:vcNodeOf,(*github.com/vulpemventures/go-elements/slip77.Slip77).DeriveKey:vcKeyFor,(*pkg/wallet.Wallet).validate:vcSoundB
func vcBlindingKeys(b *vcBl) {
	//@ requires b != nil && b.W != nil && b.Node != nil && !b.Astray
	vcBk = b
	//@ call
	prv, pub, err := b.W.DeriveBlindingKeyPair(DeriveBlindingKeyPairOpts{Script: b.Script})
	//@ ensures right: !b.Astray
	//@ ensures keys: err == nil ==> prv == b.Prv && pub == b.Pub && len(b.Script) > 0 && len(b.W.blindingMasterKey) > 0
	//@ ensures does: b.Bad == 0 && len(b.Script) > 0 && len(b.W.blindingMasterKey) > 0 ==> err == nil
}

func vcSignPair(w *Wallet, o DeriveSigningKeyPairOpts) (*btcec.PrivateKey, *btcec.PublicKey, error) {
	if w != vcBk.W || o.DerivationPath != vcBk.Path {
		vcBk.Astray = true
	}
	if vcBk.Bad == 4 {
		return nil, nil, errors.New("no key")
	}
	return nil, vcBk.SignPub, nil
}
func vcBlindPair(w *Wallet, o DeriveBlindingKeyPairOpts) (*btcec.PrivateKey, *btcec.PublicKey, error) {
	if w != vcBk.W || !vcSame(o.Script, vcBk.Plain.WitnessScript) {
		vcBk.Astray = true
	}
	if vcBk.Bad == 2 {
		return nil, nil, errors.New("no key")
	}
	return vcBk.Prv, vcBk.Pub, nil
}
func vcPayTo(pub *btcec.PublicKey, net *network.Network, blinding *btcec.PublicKey) *payment.Payment {
	if pub != vcBk.SignPub || net != vcBk.Net {
		vcBk.Astray = true
	}
	if blinding == nil {
		return vcBk.Plain
	}
	if blinding != vcBk.Pub {
		vcBk.Astray = true
	}
	return vcBk.Pay
}
func vcAddrOf(p *payment.Payment) (string, error) {
	if p != vcBk.Pay {
		vcBk.Astray = true
	}
	if vcBk.Bad == 5 {
		return "", errors.New("no address")
	}
	return vcBk.Addr, nil
}
func vcPathOk(o DeriveConfidentialAddressOpts) error {
	if vcBk.Bad == 6 {
		return errors.New("bad path")
	}
	return nil
}

//@ contract C12 stub=(*pkg/wallet.Wallet).DeriveSigningKeyPair:vcSignPair,(*pkg/wallet.Wallet).DeriveBlindingKeyPair:vcBlindPair,github.com/vulpemventures/go-elements/payment.FromPublicKey:vcPayTo,(*github.com/vulpemventures/go-elements/payment.Payment).ConfidentialWitnessPubKeyHash:vcAddrOf,(*pkg/wallet.Wallet).validate:vcSoundB,(pkg/wallet.DeriveConfidentialAddressOpts).validate:vcPathOk
func vcAddressAt(b *vcBl) {
	//@ requires b != nil && b.W != nil && b.Plain != nil && b.Pay != nil && b.SignPub != nil && b.Pub != nil && !b.Astray && vcSame(b.Pay.WitnessScript, b.Plain.WitnessScript)
	vcBk = b
	//@ call
	addr, script, err := b.W.DeriveConfidentialAddress(DeriveConfidentialAddressOpts{DerivationPath: b.Path, Network: b.Net})
	//@ ensures right: !b.Astray
	//@ ensures address: err == nil ==> addr == b.Addr && vcSame(script, b.Plain.WitnessScript)
	//@ ensures does: b.Bad == 0 ==> err == nil
	//@ ensures nothing: err != nil ==> addr == "" && script == nil
}
