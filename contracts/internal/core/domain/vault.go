//go:build go1.22

package domain

import (
	"encoding/hex"
	"fmt"

	"github.com/btcsuite/btcutil"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/network"
)

// ---- C13: the vault.

// vcMnemo is the store of the mnemonic in plain text.
type vcMnemo struct {
	Words  []string
	Open   bool
	Text   string
	NoSet  int
	NoDrop int
}

func (m *vcMnemo) Set(t string)  { m.Text, m.Open = t, true; m.NoSet++ }
func (m *vcMnemo) Unset()        { m.Open = false; m.NoDrop++ }
func (m *vcMnemo) IsSet() bool   { return m.Open }
func (m *vcMnemo) Get() []string { return m.Words }

// vcCrypto is any encrypter; it remembers what it was asked.
type vcCrypto struct {
	Enc, Plain         string
	EncFails, DecFails bool
	NoEnc, NoDec       int
	EncText, EncPass   string
	DecText, DecPass   string
}

func (c *vcCrypto) Encrypt(m, p string) (string, error) {
	c.NoEnc++
	c.EncText, c.EncPass = m, p
	if c.EncFails {
		return "", vcRefusal
	}
	return c.Enc, nil
}
func (c *vcCrypto) Decrypt(m, p string) (string, error) {
	c.NoDec++
	c.DecText, c.DecPass = m, p
	if c.DecFails {
		return "", vcRefusal
	}
	return c.Plain, nil
}

func vcVaultEnv(m *vcMnemo, c *vcCrypto) {
	m.NoSet, m.NoDrop, c.NoEnc, c.NoDec = 0, 0, 0, 0
	MnemonicStoreManager, EncrypterManager = m, c
}

func vcVaultSame(a, b Vault) bool {
	return a.EncryptedMnemonic == b.EncryptedMnemonic && vcSame(a.PassphraseHash, b.PassphraseHash) && vcSame(a.Network, b.Network)
}

//@ contract C13
func vcUnlock(v *Vault, m *vcMnemo, c *vcCrypto, pass string) {
	//@ requires v != nil && m != nil && c != nil
	vcVaultEnv(m, c)
	old, open := *v, m.Open
	locked := v.IsLocked()
	//@ call
	err := v.Unlock(pass)
	//@ ensures state: locked == (len(old.EncryptedMnemonic) == 0 || !open)
	//@ ensures already: !locked ==> err == nil && m.NoSet == 0 && m.Open
	//@ ensures asked: locked ==> c.NoDec == 1 && c.DecText == old.EncryptedMnemonic && c.DecPass == pass
	//@ ensures opened: locked && !c.DecFails ==> err == nil && m.Open && m.Text == c.Plain && m.NoSet == 1
	//@ ensures refused: locked && c.DecFails ==> err != nil && m.Open == open && m.NoSet == 0
	//@ ensures frame: vcVaultSame(*v, old) && m.NoDrop == 0 && c.NoEnc == 0
}

//@ contract C13
func vcLock(v *Vault, m *vcMnemo, c *vcCrypto) {
	//@ requires v != nil && m != nil && c != nil
	vcVaultEnv(m, c)
	old := *v
	open := m.Open
	//@ call
	v.Lock()
	words, err := v.GetMnemonicSafe()
	//@ ensures locked: len(old.EncryptedMnemonic) > 0 ==> !m.Open && v.IsLocked()
	//@ ensures kept: len(old.EncryptedMnemonic) == 0 ==> m.Open == open
	//@ ensures secret: err == ErrVaultMustBeUnlocked && words == nil
	//@ ensures frame: vcVaultSame(*v, old) && m.NoSet == 0 && c.NoDec == 0 && c.NoEnc == 0
}

//@ contract C13
func vcMnemonicSafe(v *Vault, m *vcMnemo, c *vcCrypto) {
	//@ requires v != nil && m != nil && c != nil
	vcVaultEnv(m, c)
	old := *v
	locked := v.IsLocked()
	//@ call
	words, err := v.GetMnemonicSafe()
	//@ ensures given: !locked ==> err == nil && vcSame(words, m.Words)
	//@ ensures secret: locked ==> err == ErrVaultMustBeUnlocked && words == nil
	//@ ensures frame: vcVaultSame(*v, old)
}

//@ contract C13
func vcChangePassphrase(v *Vault, m *vcMnemo, c *vcCrypto, cur, next string) {
	//@ requires v != nil && m != nil && c != nil
	vcVaultEnv(m, c)
	old, open := *v, m.Open
	locked := v.IsLocked()
	known := vcEqSlices(v.PassphraseHash, btcutil.Hash160([]byte(cur)))
	//@ call
	err := v.ChangePassphrase(cur, next)
	//@ ensures unlocked: !locked ==> err == ErrVaultMustBeLocked && c.NoDec == 0
	//@ ensures unknown: locked && !known ==> err == ErrVaultInvalidPassphrase && c.NoDec == 0
	//@ ensures done: (err == nil) == (locked && known && !c.DecFails && !c.EncFails)
	//@ ensures refused: err != nil ==> vcVaultSame(*v, old)
	//@ ensures sealed: err == nil ==> c.DecText == old.EncryptedMnemonic && c.DecPass == cur && c.EncText == c.Plain && c.EncPass == next && v.EncryptedMnemonic == c.Enc
	//@ ensures hashed: err == nil ==> vcEqSlices(v.PassphraseHash, btcutil.Hash160([]byte(next)))
	//@ ensures frame: vcSame(v.Network, old.Network) && m.Open == open && m.NoSet == 0 && m.NoDrop == 0 && c.NoDec <= 1 && c.NoEnc <= 1
}

//@ contract C13 opaque=pkg/wallet.NewWalletFromMnemonic
func vcNewVault(m *vcMnemo, c *vcCrypto, words []string, pass string, net *network.Network) {
	//@ requires m != nil && c != nil
	vcVaultEnv(m, c)
	m.Open = false
	_, bad := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: words})
	//@ call
	v, err := NewVault(words, pass, net)
	//@ ensures refused: (err == nil) == (len(words) > 0 && len(pass) > 0 && net != nil && bad == nil && !c.EncFails)
	//@ ensures failed: err != nil ==> v == nil && !m.Open
	//@ ensures sealed: err == nil ==> v != nil && c.NoEnc == 1 && c.EncPass == pass && v.EncryptedMnemonic == c.Enc && m.Text == c.EncText && m.NoSet == 1
	//@ ensures hashed: err == nil ==> vcEqSlices(v.PassphraseHash, btcutil.Hash160([]byte(pass)))
	//@ ensures fresh: err == nil ==> vcSame(v.Network, net) && v.Accounts != nil && len(v.Accounts) == 0 && v.AccountAndKeyByAddress != nil && len(v.AccountAndKeyByAddress) == 0
}

// ---- addresses

// vcVaultOK: accounts are filed under their index and keep their derivations;
// every known address belongs to one of them.
func vcVaultOK(v Vault) bool {
	return v.Accounts != nil && v.AccountAndKeyByAddress != nil &&
		vcForallKey(v.Accounts, func(i int) bool {
			a, ok := v.Accounts[i]
			return !ok || (a != nil && i >= 0 && a.AccountIndex == i && a.DerivationPathByScript != nil && a.LastExternalIndex >= 0 && a.LastInternalIndex >= 0 &&
				a.LastExternalIndex <= vcMaxIndex && a.LastInternalIndex <= vcMaxIndex)
		}) &&
		vcForallKey(v.AccountAndKeyByAddress, func(s string) bool {
			k, ok := v.AccountAndKeyByAddress[s]
			if !ok {
				return true
			}
			_, ok = v.Accounts[k.AccountIndex]
			return ok
		})
}

const vcMaxIndex = 0x7fffffff

func vcPath(acc, chain, i int) string { return fmt.Sprintf("%d'/%d/%d", acc, chain, i) }

//@ contract C13
func vcInitAccount(v *Vault, i int) {
	//@ requires v != nil && vcVaultOK(*v) && i >= 0
	old := vcCloneMap(v.Accounts)
	//@ call
	v.InitAccount(i)
	a, err := v.AccountByIndex(i)
	was, had := old[i]
	//@ ensures exists: err == nil && a != nil && a.AccountIndex == i
	//@ ensures kept: had ==> a == was
	//@ ensures new: !had ==> a.LastExternalIndex == 0 && a.LastInternalIndex == 0 && len(a.DerivationPathByScript) == 0 && a.DerivationPathByScript != nil
	//@ ensures others: vcForallKey(v.Accounts, func(k int) bool { return k == i || vcSameEntry(v.Accounts, old, k) })
	//@ ensures valid: vcVaultOK(*v)
}

func vcSameEntry(a, b map[int]*Account, k int) bool {
	x, ok := a[k]
	y, ok2 := b[k]
	return ok == ok2 && x == y
}

//@ contract C13
func vcAccountBy(v *Vault, i int, addr string) {
	//@ requires v != nil && vcVaultOK(*v)
	//@ call
	a, err := v.AccountByIndex(i)
	b, bi, errB := v.AccountByAddress(addr)
	k, known := v.AccountAndKeyByAddress[addr]
	_, has := v.Accounts[i]
	//@ ensures found: has ==> err == nil && a != nil && a == v.Accounts[i] && a.AccountIndex == i
	//@ ensures missing: !has ==> err == ErrVaultAccountNotFound && a == nil
	//@ ensures addr: known ==> errB == nil && b != nil && bi == k.AccountIndex && b.AccountIndex == bi && b == v.Accounts[bi]
	//@ ensures unknown: !known ==> errB == ErrVaultAccountNotFound && b == nil && bi == -1
	//@ ensures frame: vcVaultOK(*v)
}

//@ contract C13 opaque=pkg/wallet.NewWalletFromMnemonic,(*pkg/wallet.Wallet).DeriveConfidentialAddress,(*pkg/wallet.Wallet).DeriveBlindingKeyPair
func vcDeriveNext(v *Vault, m *vcMnemo, c *vcCrypto, i int, internal bool, other string, script string) {
	//@ requires v != nil && m != nil && c != nil && vcVaultOK(*v)
	vcVaultEnv(m, c)
	locked := v.IsLocked()
	accs, addrs := vcCloneMap(v.Accounts), vcCloneMap(v.AccountAndKeyByAddress)
	was, had := v.Accounts[i]
	chain, idx, path, path2 := 0, 0, "", ""
	ext, in := 0, 0
	had2 := false
	if had {
		ext, in = was.LastExternalIndex, was.LastInternalIndex
		path2, had2 = was.DerivationPathByScript[script]
	}
	idx = ext
	if internal {
		chain, idx = 1, in
	}
	path = vcPath(i, chain, idx)
	net := v.Network
	w, err0 := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: m.Words})
	var addr string
	var scr []byte
	err1 := err0
	if err0 == nil {
		addr, scr, err1 = w.DeriveConfidentialAddress(wallet.DeriveConfidentialAddressOpts{DerivationPath: path, Network: net})
	}
	var key []byte
	if err1 == nil {
		bk, _, _ := w.DeriveBlindingKeyPair(wallet.DeriveBlindingKeyPairOpts{Script: scr})
		key = bk.Serialize()
	}
	//@ call
	info, err := vcDerive(v, i, internal)
	acc, errAcc := v.AccountByIndex(i)
	k, known := v.AccountAndKeyByAddress[addr]
	ko, knowno := v.AccountAndKeyByAddress[other]
	wo, waso := addrs[other]
	p2, has2 := "", false
	if errAcc == nil {
		p2, has2 = acc.DerivationPathByScript[script]
	}
	//@ ensures locked: locked ==> err == ErrVaultMustBeUnlocked
	//@ ensures refused: (err == nil) == (!locked && i >= 0 && err1 == nil)
	//@ ensures failed: err != nil ==> info == nil && vcForallKey(v.AccountAndKeyByAddress, func(a string) bool { return vcSameAddr(v.AccountAndKeyByAddress, addrs, a) })
	//@ ensures address: err == nil ==> info != nil && info.Address == addr && info.AccountIndex == i && info.DerivationPath == path && info.Script == hex.EncodeToString(scr) && vcEqSlices(info.BlindingKey, key)
	//@ ensures next: err == nil && !internal ==> errAcc == nil && acc.LastExternalIndex == vcIte(ext == vcMaxIndex, 0, ext+1) && acc.LastInternalIndex == in
	//@ ensures nextin: err == nil && internal ==> errAcc == nil && acc.LastInternalIndex == vcIte(in == vcMaxIndex, 0, in+1) && acc.LastExternalIndex == ext
	//@ ensures known: err == nil ==> known && k.AccountIndex == i && vcEqSlices(k.BlindingKey, key)
	//@ ensures others: other != addr ==> knowno == waso && ko.AccountIndex == wo.AccountIndex && vcSame(ko.BlindingKey, wo.BlindingKey)
	//@ ensures path: err == nil && script == info.Script ==> has2 && p2 == vcIte(had2, path2, path)
	//@ ensures paths: script != hex.EncodeToString(scr) ==> has2 == had2 && p2 == path2
	//@ ensures stays: had ==> acc == was && (err != nil ==> acc.LastExternalIndex == ext && acc.LastInternalIndex == in)
	//@ ensures accounts: vcForallKey(v.Accounts, func(k int) bool { return k == i || vcSameEntry(v.Accounts, accs, k) })
	//@ ensures frame: vcSame(v.Network, net) && vcVaultOK(*v)
}

func vcDerive(v *Vault, i int, internal bool) (*AddressInfo, error) {
	if internal {
		return v.DeriveNextInternalAddressForAccount(i)
	}
	return v.DeriveNextExternalAddressForAccount(i)
}

func vcSameAddr(a, b map[string]AccountAndKey, k string) bool {
	x, ok := a[k]
	y, ok2 := b[k]
	return ok == ok2 && x.AccountIndex == y.AccountIndex && vcSame(x.BlindingKey, y.BlindingKey)
}

// vcInfo: what is said about the address at a position of a chain.
func vcInfo(w *wallet.Wallet, net *network.Network, x AddressInfo, acc, chain, i int) bool {
	path := vcPath(acc, chain, i)
	addr, scr, _ := w.DeriveConfidentialAddress(wallet.DeriveConfidentialAddressOpts{DerivationPath: path, Network: net})
	bk, _, _ := w.DeriveBlindingKeyPair(wallet.DeriveBlindingKeyPairOpts{Script: scr})
	return x.AccountIndex == acc && x.DerivationPath == path && x.Address == addr && x.Script == hex.EncodeToString(scr) && string(x.BlindingKey) == string(bk.Serialize())
}

//@ contract C13 opaque=pkg/wallet.NewWalletFromMnemonic,(*pkg/wallet.Wallet).DeriveConfidentialAddress,(*pkg/wallet.Wallet).DeriveBlindingKeyPair
func vcAllExternal(v *Vault, m *vcMnemo, c *vcCrypto, acc int) {
	//@ requires v != nil && m != nil && c != nil && vcVaultOK(*v)
	vcVaultEnv(m, c)
	locked := v.IsLocked()
	net := v.Network
	w, err0 := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: m.Words})
	a, has := v.Accounts[acc]
	ext := 0
	if has {
		ext = a.LastExternalIndex
	}
	//@ invariant (info AddressesInfo, i int): vcForall(0, i, func(j int) bool { return vcInfo(w, net, info[j], acc, 0, j) })
	//@ call
	list, err := vcAll(v, acc, false)
	//@ ensures locked: locked ==> err == ErrVaultMustBeUnlocked && list == nil
	//@ ensures refused: (err == nil) == (!locked && has && err0 == nil)
	//@ ensures all: err == nil ==> len(list) == ext
	//@ ensures external: err == nil ==> vcForall(0, ext, func(j int) bool { return vcInfo(w, net, list[j], acc, 0, j) })
	//@ ensures frame: vcVaultOK(*v)
}

//@ contract C13 opaque=pkg/wallet.NewWalletFromMnemonic,(*pkg/wallet.Wallet).DeriveConfidentialAddress,(*pkg/wallet.Wallet).DeriveBlindingKeyPair
func vcAllDerived(v *Vault, m *vcMnemo, c *vcCrypto, acc int, internal bool) {
	//@ requires v != nil && m != nil && c != nil && vcVaultOK(*v)
	vcVaultEnv(m, c)
	locked := v.IsLocked()
	net := v.Network
	w, err0 := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: m.Words})
	a, has := v.Accounts[acc]
	ext, in := 0, 0
	if has {
		ext = a.LastExternalIndex
		if internal {
			in = a.LastInternalIndex
		}
	}
	//@ invariant (info AddressesInfo, i int): vcForall(0, i, func(j int) bool { return vcInfo(w, net, info[j], acc, 1, j) })
	//@ call
	list, err := vcAll(v, acc, internal)
	//@ ensures locked: locked ==> err == ErrVaultMustBeUnlocked && list == nil
	//@ ensures refused: (err == nil) == (!locked && has && err0 == nil)
	//@ ensures all: err == nil ==> len(list) == ext+in
	//@ ensures internal: err == nil ==> vcForall(0, in, func(j int) bool { return vcInfo(w, net, list[ext+j], acc, 1, j) })
	//@ ensures frame: vcVaultOK(*v)
}

func vcAll(v *Vault, acc int, internal bool) (AddressesInfo, error) {
	if internal {
		return v.AllDerivedAddressesInfoForAccount(acc)
	}
	return v.AllDerivedExternalAddressesInfoForAccount(acc)
}

func vcScriptOf(addr string) string {
	s, _ := address.ToOutputScript(addr)
	return hex.EncodeToString(s)
}

func vcEntry(x AddressInfo, addr string, k AccountAndKey, v *Vault) bool {
	acc := v.Accounts[k.AccountIndex]
	return x.Address == addr && x.AccountIndex == k.AccountIndex && string(x.BlindingKey) == string(k.BlindingKey) &&
		x.Script == vcScriptOf(addr) && x.DerivationPath == acc.DerivationPathByScript[vcScriptOf(addr)]
}

//@ contract C13
func vcAllKnown(v *Vault, addr string, at int) {
	//@ requires v != nil && vcVaultOK(*v)
	keys := vcKeys(v.AccountAndKeyByAddress)
	k := v.AccountAndKeyByAddress[addr]
	//@ invariant (n int, i int): i == n
	//@ invariant (list AddressesInfo): len(list) == len(keys)
	//@ invariant (list AddressesInfo, i int): len(list) == i
	//@ invariant (list AddressesInfo, i int): vcForall(0, i, func(j int) bool { return vcEntry(list[j], keys[j], v.AccountAndKeyByAddress[keys[j]], v) })
	//@ call
	list := v.AllDerivedAddressesInfo()
	//@ ensures count: len(list) == len(v.AccountAndKeyByAddress)
	//@ ensures right: at >= 0 && at < len(list) ==> vcEntry(list[at], list[at].Address, v.AccountAndKeyByAddress[list[at].Address], v)
	//@ ensures listed: at >= 0 && at < len(list) ==> vcHas(v.AccountAndKeyByAddress, list[at].Address)
	//@ ensures frame: vcVaultOK(*v) && k.AccountIndex == v.AccountAndKeyByAddress[addr].AccountIndex
}

func vcHas(m map[string]AccountAndKey, a string) bool { _, ok := m[a]; return ok }

//@ contract C13
func vcAddressesOf(info AddressesInfo) {
	n := len(info)
	//@ invariant (addresses []string): len(addresses) == n
	//@ invariant (addresses []string, i int): len(addresses) == i
	//@ invariant (keys [][]byte): len(keys) == n
	//@ invariant (keys [][]byte, i int): len(keys) == i
	//@ invariant (addresses []string, i int): vcForall(0, i, func(j int) bool { return addresses[j] == info[j].Address })
	//@ invariant (keys [][]byte, i int): vcForall(0, i, func(j int) bool { return vcSame(keys[j], info[j].BlindingKey) })
	//@ call
	a := info.Addresses()
	b, keys := info.AddressesAndKeys()
	//@ ensures addresses: len(a) == n && vcForall(0, n, func(j int) bool { return a[j] == info[j].Address })
	//@ ensures pairs: len(b) == n && len(keys) == n && vcForall(0, n, func(j int) bool { return b[j] == info[j].Address && vcSame(keys[j], info[j].BlindingKey) })
}

// ---- C14: the vault's encrypter is the wallet's.

var vcSecret *vcCrypto

func vcWalletEncrypt(o wallet.EncryptOpts) (string, error) {
	return vcSecret.Encrypt(o.PlainText, o.Passphrase)
}
func vcWalletDecrypt(o wallet.DecryptOpts) (string, error) {
	return vcSecret.Decrypt(o.CypherText, o.Passphrase)
}

//@ contract C14 stub=pkg/wallet.Encrypt:vcWalletEncrypt,pkg/wallet.Decrypt:vcWalletDecrypt
func vcEncrypter(c *vcCrypto, text, pass string, decrypt bool) {
	//@ requires c != nil && c.NoEnc == 0 && c.NoDec == 0
	vcSecret = c
	var w walletEncrypter
	if decrypt {
		//@ call
		t, err := w.Decrypt(text, pass)
		//@ ensures decrypted: c.NoDec == 1 && c.NoEnc == 0 && c.DecText == text && c.DecPass == pass && (err == nil) == !c.DecFails && (err == nil ==> t == c.Plain)
	} else {
		t, err := w.Encrypt(text, pass)
		//@ ensures encrypted: c.NoEnc == 1 && c.NoDec == 0 && c.EncText == text && c.EncPass == pass && (err == nil) == !c.EncFails && (err == nil ==> t == c.Enc)
	}
}
