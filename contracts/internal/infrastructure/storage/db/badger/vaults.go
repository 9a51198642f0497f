//go:build go1.22

package dbbadger

import (
	"errors"

	"github.com/dgraph-io/badger/v2"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/timshannon/badgerhold/v2"
)

// ---- C08: what is asked of the vault is answered from the one stored, which
// stays as it is.

//@ contract C08 stub=(*github.com/timshannon/badgerhold/v2.Store).Get:vcTGet,(*github.com/timshannon/badgerhold/v2.Store).TxGet:vcTTxGet
func vcAccountOf(w *vcTables, index int, addr string) {
	//@ requires vcTReady(w)
	vcT = w
	kept, has := w.Vault.Accounts[index]
	info, named := w.Vault.AccountAndKeyByAddress[addr]
	his, known := w.Vault.Accounts[info.AccountIndex]
	repo := NewVaultRepositoryImpl(w.Main)
	//@ call
	a, err := repo.GetAccountByIndex(w.Ctx, index)
	b, at, errB := repo.GetAccountByAddress(w.Ctx, addr)
	//@ ensures scope: !w.Other && w.Writes == 0
	//@ ensures index: err == nil ==> w.HasVault && has && a == kept
	//@ ensures address: errB == nil ==> w.HasVault && named && known && b == his && at == info.AccountIndex
	//@ ensures finds: !w.BadGet && w.HasVault ==> (has ==> err == nil) && (named && known ==> errB == nil)
	//@ ensures nothing: (err != nil ==> a == nil) && (errB != nil ==> b == nil)
}

//@ contract C08 stub=(*github.com/timshannon/badgerhold/v2.Store).Get:vcTGet,(*github.com/timshannon/badgerhold/v2.Store).TxGet:vcTTxGet
func vcPathsOf(w *vcTables, index int, scripts []string, some string, who int) {
	//@ requires vcTReady(w) && len(scripts) < 1<<30 && who >= 0 && who < len(scripts)
	//@ requires vcForallKey(w.Vault.Accounts, func(i int) bool { return w.Vault.Accounts[i] != nil })
	vcT = w
	account, has := w.Vault.Accounts[index]
	paths := vcStored(account, has)
	path, known := paths[some]
	his, mine := paths[scripts[who]]
	//@ requires some == scripts[who] || vcForall(0, len(scripts), func(i int) bool { return scripts[i] != some })
	repo := NewVaultRepositoryImpl(w.Main)
	//@ invariant (m map[string]string, i int): vcForallKey(m, func(s string) bool { t, ok := m[s]; p, k := paths[s]; return !ok || k && t == p })
	//@ invariant (m map[string]string, i int): i > who ==> m[scripts[who]] == his && mine
	//@ invariant (m map[string]string, i int): some != scripts[who] ==> vcLacks(m, some)
	//@ call
	m, err := repo.GetDerivationPathByScript(w.Ctx, index, scripts)
	got, ok := m[some]
	//@ ensures scope: !w.Other && w.Writes == 0
	//@ ensures right: err == nil && ok ==> known && got == path
	//@ ensures every: err == nil ==> m[scripts[who]] == his && mine && w.HasVault && has
	//@ ensures only: err == nil && some != scripts[who] ==> !ok
	//@ ensures nothing: err != nil ==> m == nil
}

func vcLacks(m map[string]string, s string) bool {
	_, ok := m[s]
	return !ok
}

func vcStored(a *domain.Account, has bool) map[string]string {
	if !has {
		return nil
	}
	return a.DerivationPathByScript
}

//@ contract C08 opaque=(*internal/core/domain.Vault).AllDerivedAddressesInfoForAccount,(*internal/core/domain.Vault).AllDerivedExternalAddressesInfoForAccount stub=(*github.com/timshannon/badgerhold/v2.Store).Get:vcTGet,(*github.com/timshannon/badgerhold/v2.Store).TxGet:vcTTxGet
func vcInfosOf(w *vcTables, index int) {
	//@ requires vcTReady(w)
	vcT = w
	repo := NewVaultRepositoryImpl(w.Main)
	//@ call
	a, err := repo.GetAllDerivedAddressesInfoForAccount(w.Ctx, index)
	b, errB := repo.GetAllDerivedExternalAddressesInfoForAccount(w.Ctx, index)
	v := w.Vault
	want, wantErr := (&v).AllDerivedAddressesInfoForAccount(index)
	ext, extErr := (&v).AllDerivedExternalAddressesInfoForAccount(index)
	//@ ensures scope: !w.Other && w.Writes == 0
	//@ ensures all: err == nil ==> w.HasVault && wantErr == nil && vcSame(a, want)
	//@ ensures external: errB == nil ==> w.HasVault && extErr == nil && vcSame(b, ext)
	//@ ensures finds: !w.BadGet && w.HasVault ==> (wantErr == nil ==> err == nil) && (extErr == nil ==> errB == nil)
}

// ---- C08: a market dropped is the one named.

func vcTDrop(s *badgerhold.Store, tx *badger.Txn, key, kind interface{}) error {
	vcInMain(s, tx)
	vcT.Writes++
	if vcT.BadPut {
		return errors.New("down")
	}
	if _, ok := kind.(domain.Market); !ok {
		vcT.Other = true
	}
	if _, ok := vcT.Markets[key.(int)]; !ok {
		return badgerhold.ErrNotFound
	}
	delete(vcT.Markets, key.(int))
	return nil
}
func vcTTxDelete(s *badgerhold.Store, tx *badger.Txn, key, kind interface{}) error {
	return vcTDrop(s, tx, key, kind)
}
func vcTDelete(s *badgerhold.Store, key, kind interface{}) error { return vcTDrop(s, nil, key, kind) }

//@ contract C08 stub=(*github.com/timshannon/badgerhold/v2.Store).Delete:vcTDelete,(*github.com/timshannon/badgerhold/v2.Store).TxDelete:vcTTxDelete
func vcDropMarket(w *vcTables, account, who int) {
	//@ requires vcTReady(w)
	vcT = w
	before, had := w.Markets[who]
	repo := NewMarketRepositoryImpl(w.Main, w.PriceDb)
	//@ call
	err := repo.DeleteMarket(w.Ctx, account)
	after, has := w.Markets[who]
	//@ ensures scope: !w.Other && w.Writes == 1
	//@ ensures gone: err == nil && who == account ==> !has
	//@ ensures kept: who != account || err != nil ==> has == had && vcSame(after, before)
	//@ ensures does: !w.BadPut ==> err == nil
}
