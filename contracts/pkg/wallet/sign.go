//go:build go1.22

package wallet

import (
	"encoding/hex"
	"errors"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcd/txscript"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/payment"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

// ---- C12: an input is signed for what it spends, with the key of its path.

type vcSigning struct {
	W     *Wallet
	Ptx   *pset.Pset
	Upd   *pset.Updater
	At    int
	Path  string
	Paths DerivationPath
	Bad   int
	Key   *btcec.PrivateKey
	Pub   *btcec.PublicKey
	Pay   *payment.Payment
	Hash  [32]byte
	Sig   *btcec.Signature
	Verified bool
	Raw   []byte
	Pk    []byte
	Signed int
	Astray bool
	Text, Out string
	Outcome int
}

var vcSg *vcSigning

func vcUpdFor(p *pset.Pset) (*pset.Updater, error) {
	if p != vcSg.Ptx {
		vcSg.Astray = true
	}
	if vcSg.Bad == 1 {
		return nil, errors.New("malformed")
	}
	return vcSg.Upd, nil
}
func vcSignerOf(w *Wallet, o DeriveSigningKeyPairOpts) (*btcec.PrivateKey, *btcec.PublicKey, error) {
	if w != vcSg.W || o.DerivationPath != vcSg.Path {
		vcSg.Astray = true
	}
	if vcSg.Bad == 2 {
		return nil, nil, errors.New("no key")
	}
	return vcSg.Key, vcSg.Pub, nil
}
func vcPaid(script []byte, net *network.Network, blinding *btcec.PublicKey) (*payment.Payment, error) {
	if !vcSame(script, vcSg.Ptx.Inputs[vcSg.At].WitnessUtxo.Script) {
		vcSg.Astray = true
	}
	if vcSg.Bad == 3 {
		return nil, errors.New("unknown script")
	}
	return vcSg.Pay, nil
}
func vcHashFor(tx *transaction.Transaction, i int, script []byte, value []byte, t txscript.SigHashType) [32]byte {
	s := vcSg
	s.Astray = vcB(func() bool {
		return s.Astray || tx != s.Ptx.UnsignedTx || i != s.At || !vcSame(script, s.Pay.Script) ||
			!vcSame(value, s.Ptx.Inputs[s.At].WitnessUtxo.Value) || t != txscript.SigHashAll
	})
	return s.Hash
}
func vcIsHash(b []byte) bool {
	return vcB(func() bool { return len(b) == 32 && vcForall(0, 32, func(i int) bool { return b[i] == vcSg.Hash[i] }) })
}
func vcSignIt(k *btcec.PrivateKey, hash []byte) (*btcec.Signature, error) {
	s := vcSg
	s.Astray = vcB(func() bool { return s.Astray || k != s.Key || !vcIsHash(hash) })
	if s.Bad == 4 {
		return nil, errors.New("no signature")
	}
	return s.Sig, nil
}
func vcVerifyIt(g *btcec.Signature, hash []byte, pub *btcec.PublicKey) bool {
	s := vcSg
	s.Astray = vcB(func() bool { return s.Astray || g != s.Sig || pub != s.Pub || !vcIsHash(hash) })
	s.Verified = s.Bad != 5
	return s.Verified
}
func vcRawOf(g *btcec.Signature) []byte {
	if g != vcSg.Sig {
		vcSg.Astray = true
	}
	return vcSg.Raw
}
func vcPkOf(p *btcec.PublicKey) []byte {
	if p != vcSg.Pub {
		vcSg.Astray = true
	}
	return vcSg.Pk
}
func vcAttach(u *pset.Updater, i int, sig, pk, redeem, witness []byte) (int, error) {
	s := vcSg
	s.Astray = vcB(func() bool {
		return s.Astray || u != s.Upd || i != s.At || !vcSame(pk, s.Pk) || redeem != nil || witness != nil || !s.Verified ||
			len(sig) != len(s.Raw)+1 || sig[len(s.Raw)] != 1 || !vcForall(0, len(s.Raw), func(j int) bool { return sig[j] == s.Raw[j] })
	})
	if s.Bad == 6 {
		return s.Outcome, errors.New("refused")
	}
	s.Signed++
	return s.Outcome, nil
}

//@ contract C12 stub=github.com/vulpemventures/go-elements/pset.NewUpdater:vcUpdFor,(*pkg/wallet.Wallet).DeriveSigningKeyPair:vcSignerOf,github.com/vulpemventures/go-elements/payment.FromScript:vcPaid,(*github.com/vulpemventures/go-elements/transaction.Transaction).HashForWitnessV0:vcHashFor,(*github.com/btcsuite/btcd/btcec.PrivateKey).Sign:vcSignIt,(*github.com/btcsuite/btcd/btcec.Signature).Verify:vcVerifyIt,(*github.com/btcsuite/btcd/btcec.Signature).Serialize:vcRawOf,(*github.com/btcsuite/btcd/btcec.PublicKey).SerializeCompressed:vcPkOf,(*github.com/vulpemventures/go-elements/pset.Updater).Sign:vcAttach
func vcSignInput(s *vcSigning) {
	//@ requires s != nil && s.W != nil && s.Ptx != nil && s.Upd != nil && s.Key != nil && s.Pub != nil && s.Pay != nil && s.Sig != nil
	//@ requires s.Signed == 0 && !s.Astray && !s.Verified && 0 <= s.At && s.At < len(s.Ptx.Inputs) && s.Ptx.Inputs[s.At].WitnessUtxo != nil && s.Ptx.UnsignedTx != nil
	vcSg = s
	//@ call
	err := s.W.signInput(s.Ptx, s.At, s.Path)
	//@ ensures right: !s.Astray
	//@ ensures signed: err == nil ==> s.Signed == 1 && s.Verified
	//@ ensures does: s.Bad == 0 ==> err == nil
	//@ ensures refused: err != nil ==> s.Signed == 0
	//@ cover ok: err == nil
}

// ---- C12: all the inputs are signed, each once, with the path of its script.

type vcSignAll struct {
	W    *Wallet
	Text string
	Ptx  *pset.Pset
	Paths map[string]string
	Done int
	Bad  int
	Who  int
	Astray bool
	Out  string
	Parsed DerivationPath
}

var vcSa *vcSignAll

func vcDecodeSa(s string) (*pset.Pset, error) {
	if s != vcSa.Text {
		vcSa.Astray = true
	}
	if vcSa.Bad == 1 {
		return nil, errors.New("malformed")
	}
	return vcSa.Ptx, nil
}
func vcParseSa(s string) (DerivationPath, error) {
	if vcSa.Bad == 2 {
		return nil, errors.New("malformed")
	}
	return vcSa.Parsed, nil
}
func vcSoundSa(w *Wallet) error {
	if w != vcSa.W {
		vcSa.Astray = true
	}
	if vcSa.Bad == 3 {
		return errors.New("unsound wallet")
	}
	return nil
}
func vcSignNext(w *Wallet, p *pset.Pset, i int, path string) error {
	s := vcSa
	s.Astray = vcB(func() bool {
		return s.Astray || w != s.W || p != s.Ptx || i != s.Done || path != s.Paths[hex.EncodeToString(p.Inputs[i].WitnessUtxo.Script)]
	})
	if s.Bad == 4 {
		return errors.New("not signed")
	}
	s.Done++
	return nil
}
func vcTextOfSa(p *pset.Pset) (string, error) {
	if p != vcSa.Ptx {
		vcSa.Astray = true
	}
	if vcSa.Bad == 5 {
		return "", errors.New("malformed")
	}
	return vcSa.Out, nil
}

//@ contract C12 stub=github.com/vulpemventures/go-elements/pset.NewPsetFromBase64:vcDecodeSa,ParseDerivationPath:vcParseSa,(*pkg/wallet.Wallet).validate:vcSoundSa,(*pkg/wallet.Wallet).signInput:vcSignNext,(*github.com/vulpemventures/go-elements/pset.Pset).ToBase64:vcTextOfSa
func vcSignTransaction(s *vcSignAll, who int) {
	//@ requires s != nil && s.W != nil && s.Ptx != nil && s.Done == 0 && !s.Astray && len(s.Ptx.Inputs) < 1<<30
	//@ requires vcForall(0, len(s.Ptx.Inputs), func(i int) bool { return s.Ptx.Inputs[i].WitnessUtxo != nil })
	//@ requires 0 <= who && who < len(s.Ptx.Inputs)
	vcSa = s
	_, known := s.Paths[hex.EncodeToString(s.Ptx.Inputs[who].WitnessUtxo.Script)]
	//@ invariant (i int): i <= who || known
	//@ invariant (i int): i <= len(s.Ptx.Inputs)
	//@ invariant (): !s.Astray
	//@ invariant (i int): i == 0 || s.Bad != 2 && len(s.Parsed) == 3 && s.Parsed[0] >= 1<<31
	//@ invariant (i int): s.Done == i && (i == 0 || s.Bad != 4)
	//@ call
	out, err := s.W.SignTransaction(SignTransactionOpts{PsetBase64: s.Text, DerivationPathMap: s.Paths})
	//@ ensures right: !s.Astray
	//@ ensures all: err == nil ==> s.Done == len(s.Ptx.Inputs) && out == s.Out && known
	//@ ensures nothing: err != nil ==> out == ""
	//@ ensures paths: err == nil && len(s.Paths) > 0 ==> len(s.Parsed) == 3 && s.Parsed[0] >= 1<<31
	//@ cover ok: err == nil
}

//@ contract C12 stub=github.com/vulpemventures/go-elements/pset.NewPsetFromBase64:vcDecodeSa,ParseDerivationPath:vcParseSa,(*pkg/wallet.Wallet).validate:vcSoundSa,(*pkg/wallet.Wallet).signInput:vcSignOne,(*github.com/vulpemventures/go-elements/pset.Pset).ToBase64:vcTextOfSa
func vcSignOneInput(s *vcSignAll, at uint32, path string) {
	//@ requires s != nil && s.W != nil && s.Ptx != nil && s.Done == 0 && !s.Astray && len(s.Ptx.Inputs) < 1<<30 && s.Who == int(at)
	vcSa = s
	vcSaPath = path
	//@ call
	out, err := s.W.SignInput(SignInputOpts{PsetBase64: s.Text, InIndex: at, DerivationPath: path})
	//@ ensures right: !s.Astray
	//@ ensures signed: err == nil ==> s.Done == 1 && out == s.Out && int(at) < len(s.Ptx.Inputs) && s.Ptx.Inputs[at].WitnessUtxo != nil
	//@ ensures nothing: err != nil ==> out == ""
	//@ ensures does: s.Bad == 0 && s.Text != "" && int(at) < len(s.Ptx.Inputs) && s.Ptx.Inputs[at].WitnessUtxo != nil && len(s.Parsed) == 3 && s.Parsed[0] >= 1<<31 ==> err == nil
	//@ cover ok: err == nil
}

var vcSaPath string

func vcSignOne(w *Wallet, p *pset.Pset, i int, path string) error {
	s := vcSa
	s.Astray = vcB(func() bool { return s.Astray || w != s.W || p != s.Ptx || i != s.Who || path != vcSaPath })
	if s.Bad == 4 {
		return errors.New("not signed")
	}
	s.Done++
	return nil
}
