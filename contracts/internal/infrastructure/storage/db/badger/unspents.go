//go:build go1.22

package dbbadger

import (
	"context"
	"errors"

	"github.com/dgraph-io/badger/v2"
	"github.com/google/uuid"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/timshannon/badgerhold/v2"
)

// ---- The database: what badgerhold answers, as tables.

// vcCtx: a context carrying at most one transaction of each database.
type vcCtx struct {
	context.Context
	Tx, Utx, Ptx *badger.Txn
}

func (c vcCtx) Value(key interface{}) interface{} {
	if key == "tx" && c.Tx != nil {
		return c.Tx
	}
	if key == "utx" && c.Utx != nil {
		return c.Utx
	}
	if key == "ptx" && c.Ptx != nil {
		return c.Ptx
	}
	return nil
}

type vcDb struct {
	Main, Coins *badgerhold.Store
	Ctx         vcCtx
	Unspents    map[domain.UnspentKey]domain.Unspent // as stored, without locks
	Locks       map[string]LockedUnspent
	Other       bool // something else was touched, or by other means than the caller's transaction
	Writes      int
	// the search: its criteria, what it finds, and where it finds Who
	Field                                    string
	BySpent, ByConfirmed, ByAddress, ByAsset bool
	Spent, Confirmed                         bool
	Asset                                    string
	Among                                    []interface{}
	Query                                    *badgerhold.Query
	Found                                    []domain.Unspent
	Who                                      domain.UnspentKey
	Pos                                      int
	Free                                     bool
}

var vcW *vcDb

// The database may fail, or be written by another in between; which, depends
// on what is asked.
func vcDown(op int, txid string, vout uint32) bool  { return false }
func vcRaced(txid string, vout uint32) bool         { return false }
func vcRacer(txid string, vout uint32) uuid.UUID    { return uuid.UUID{} }
func vcKeyBytes(txid string, vout uint32) string    { return "" }
func vcKeyTxid(enc string) string                   { return "" }
func vcKeyVout(enc string) uint32                   { return 0 }
func vcEncodes(txid string, vout uint32) bool       { return true }

// vcEnc: encoding a key; no two keys have the same encoding.
func vcEnc(key interface{}, prefix string) ([]byte, error) {
	k := key.(domain.UnspentKey)
	if prefix != "bh_LockedUnspent" {
		vcW.Other = true
	}
	if !vcEncodes(k.TxID, k.VOut) {
		return nil, errors.New("no encoding")
	}
	return []byte(vcLockKey(k)), nil
}

func vcLockKey(k domain.UnspentKey) string {
	e := vcKeyBytes(k.TxID, k.VOut)
	vcAssume(func() bool { return vcKeyTxid(e) == k.TxID && vcKeyVout(e) == k.VOut })
	return e
}

func vcOnCoins(s *badgerhold.Store, tx *badger.Txn) {
	if s != vcW.Coins || tx != vcW.Ctx.Utx {
		vcW.Other = true
	}
}
func vcOnMain(s *badgerhold.Store, tx *badger.Txn) {
	if s != vcW.Main || tx != vcW.Ctx.Tx {
		vcW.Other = true
	}
}

func vcRead(s *badgerhold.Store, tx *badger.Txn, key, result interface{}) error {
	if u, ok := result.(*domain.Unspent); ok {
		vcOnCoins(s, tx)
		k := key.(domain.UnspentKey)
		if vcDown(1, k.TxID, k.VOut) {
			return errors.New("down")
		}
		row, ok := vcW.Unspents[k]
		if !ok {
			return badgerhold.ErrNotFound
		}
		*u = row
		return nil
	}
	if l, ok := result.(*LockedUnspent); ok {
		vcOnMain(s, tx)
		e := string(key.([]byte))
		if vcDown(2, vcKeyTxid(e), vcKeyVout(e)) {
			return errors.New("down")
		}
		row, ok := vcW.Locks[e]
		if !ok {
			return badgerhold.ErrNotFound
		}
		*l = row
		return nil
	}
	vcW.Other = true
	return errors.New("unknown table")
}

func vcWrite(s *badgerhold.Store, tx *badger.Txn, key, data interface{}, fresh bool) error {
	vcW.Writes++
	if l, ok := data.(LockedUnspent); ok {
		vcOnMain(s, tx)
		e := string(key.([]byte))
		txid, vout := vcKeyTxid(e), vcKeyVout(e)
		if vcDown(3, txid, vout) {
			return errors.New("down")
		}
		if _, taken := vcW.Locks[e]; !taken && vcRaced(txid, vout) {
			vcW.Locks[e] = LockedUnspent{vcRacer(txid, vout)}
		}
		if _, taken := vcW.Locks[e]; taken == fresh {
			if fresh {
				return badgerhold.ErrKeyExists
			}
			return badgerhold.ErrNotFound
		}
		vcW.Locks[e] = l
		return nil
	}
	var row domain.Unspent
	if u, ok := data.(domain.Unspent); ok {
		row = u
	} else if u, ok := data.(*domain.Unspent); ok {
		row = *u
	} else {
		vcW.Other = true
		return errors.New("unknown table")
	}
	vcOnCoins(s, tx)
	k := key.(domain.UnspentKey)
	if vcDown(4, k.TxID, k.VOut) {
		return errors.New("down")
	}
	if _, taken := vcW.Unspents[k]; taken == fresh {
		if fresh {
			return badgerhold.ErrKeyExists
		}
		return badgerhold.ErrNotFound
	}
	vcW.Unspents[k] = row
	return nil
}

func vcErase(s *badgerhold.Store, tx *badger.Txn, key, kind interface{}) error {
	vcW.Writes++
	if _, ok := kind.(LockedUnspent); !ok {
		vcW.Other = true
		return errors.New("unknown table")
	}
	vcOnMain(s, tx)
	e := string(key.([]byte))
	if vcDown(5, vcKeyTxid(e), vcKeyVout(e)) {
		return errors.New("down")
	}
	if _, ok := vcW.Locks[e]; !ok {
		return badgerhold.ErrNotFound
	}
	delete(vcW.Locks, e)
	return nil
}

func vcTxGet(s *badgerhold.Store, tx *badger.Txn, key, result interface{}) error { return vcRead(s, tx, key, result) }
func vcGet(s *badgerhold.Store, key, result interface{}) error                   { return vcRead(s, nil, key, result) }
func vcTxInsert(s *badgerhold.Store, tx *badger.Txn, key, data interface{}) error {
	return vcWrite(s, tx, key, data, true)
}
func vcInsert(s *badgerhold.Store, key, data interface{}) error { return vcWrite(s, nil, key, data, true) }
func vcTxUpdate(s *badgerhold.Store, tx *badger.Txn, key, data interface{}) error {
	return vcWrite(s, tx, key, data, false)
}
func vcUpdate(s *badgerhold.Store, key, data interface{}) error { return vcWrite(s, nil, key, data, false) }
func vcTxDelete(s *badgerhold.Store, tx *badger.Txn, key, kind interface{}) error {
	return vcErase(s, tx, key, kind)
}
func vcDelete(s *badgerhold.Store, key, kind interface{}) error { return vcErase(s, nil, key, kind) }

func vcReady(w *vcDb) bool {
	return w != nil && w.Main != nil && w.Coins != nil && w.Main != w.Coins && w.Unspents != nil && w.Locks != nil && !w.Other && w.Writes == 0 && w.Query == nil && !w.BySpent && !w.ByConfirmed && !w.ByAddress && !w.ByAsset &&
		badgerhold.ErrNotFound != nil && badgerhold.ErrKeyExists != nil && badgerhold.ErrKeyExists != badgerhold.ErrNotFound
}

// vcPlain: rows are stored under their own key, and never with a lock.
func vcPlain(u domain.Unspent, k domain.UnspentKey) bool {
	return u.TxID == k.TxID && u.VOut == k.VOut && !u.Locked && u.LockedBy == nil
}

// ---- Searches.

func vcWhere(field string) *badgerhold.Criterion {
	if vcW.Query != nil {
		vcW.Other = true
	}
	vcW.Field = field
	return new(badgerhold.Criterion)
}
func vcAnd(q *badgerhold.Query, field string) *badgerhold.Criterion {
	if q != vcW.Query {
		vcW.Other = true
	}
	vcW.Field = field
	return new(badgerhold.Criterion)
}
func vcEq(c *badgerhold.Criterion, value interface{}) *badgerhold.Query {
	if vcW.Field == "Spent" && !vcW.BySpent {
		vcW.BySpent = true
		vcW.Spent = value.(bool)
	} else if vcW.Field == "Confirmed" && !vcW.ByConfirmed {
		vcW.ByConfirmed = true
		vcW.Confirmed = value.(bool)
	} else if vcW.Field == "AssetHash" && !vcW.ByAsset {
		vcW.ByAsset = true
		vcW.Asset = value.(string)
	} else {
		vcW.Other = true
	}
	vcW.Query = new(badgerhold.Query)
	return vcW.Query
}
func vcInValues(c *badgerhold.Criterion, values ...interface{}) *badgerhold.Query {
	if vcW.Field == "Address" && !vcW.ByAddress {
		vcW.ByAddress = true
		vcW.Among = values
	} else {
		vcW.Other = true
	}
	vcW.Query = new(badgerhold.Query)
	return vcW.Query
}

func vcMatches(u domain.Unspent) bool {
	return (!vcW.BySpent || u.Spent == vcW.Spent) && (!vcW.ByConfirmed || u.Confirmed == vcW.Confirmed) && (!vcW.ByAsset || u.AssetHash == vcW.Asset) &&
		(!vcW.ByAddress || vcChosen(u.Address))
}

func vcIsStr(x interface{}, s string) bool { t, ok := x.(string); return ok && t == s }

// vcChosen: the address is among those searched for (vcChoose says what that is for one).
func vcChosen(addr string) bool { return false }
func vcChoose(addr string) {
	vcAssume(func() bool {
		return vcChosen(addr) == vcExists(0, len(vcW.Among), func(k int) bool { return vcIsStr(vcW.Among[k], addr) })
	})
}

// vcHits: whether the row of an output matches what is searched for.
func vcHits(txid string, vout uint32) bool { return false }

// vcSearch: a search gives exactly the rows that match.
func vcSearch(s *badgerhold.Store, tx *badger.Txn, result interface{}, query *badgerhold.Query) error {
	r, ok := result.(*[]domain.Unspent)
	if !ok || query != vcW.Query {
		vcW.Other = true
		return errors.New("unknown table")
	}
	vcOnCoins(s, tx)
	if vcDown(6, "", 0) {
		return errors.New("down")
	}
	row, known := vcW.Unspents[vcW.Who]
	vcAssume(func() bool {
		return vcForall(0, len(vcW.Found), func(k int) bool { return vcHits(vcW.Found[k].TxID, vcW.Found[k].VOut) && !vcW.Found[k].Locked && vcW.Found[k].LockedBy == nil })
	})
	vcAssume(func() bool {
		return !known || !vcHits(row.TxID, row.VOut) || vcW.Pos >= 0 && vcW.Pos < len(vcW.Found) && vcW.Found[vcW.Pos].Key() == vcW.Who && vcW.Found[vcW.Pos].Value == row.Value && vcW.Found[vcW.Pos].AssetHash == row.AssetHash
	})
	*r = vcCloneSlice(vcW.Found)
	return nil
}
func vcFind(s *badgerhold.Store, result interface{}, q *badgerhold.Query) error { return vcSearch(s, nil, result, q) }
func vcTxFind(s *badgerhold.Store, tx *badger.Txn, result interface{}, q *badgerhold.Query) error {
	return vcSearch(s, tx, result, q)
}

func vcIsAmong(addr string, addresses []string) bool {
	return vcExists(0, len(addresses), func(k int) bool { return addresses[k] == addr })
}
func vcIsLocked(u domain.Unspent) bool { return vcHas(vcW.Locks, vcLockKey(u.Key())) }

// ---- C07, C08: locks.

//@ contract C07 C08 opaque=vcDown,vcRaced,vcRacer,vcKeyBytes,vcKeyTxid,vcKeyVout,vcEncodes stub=EncodeKey:vcEnc,(*github.com/timshannon/badgerhold/v2.Store).Get:vcGet,(*github.com/timshannon/badgerhold/v2.Store).TxGet:vcTxGet,(*github.com/timshannon/badgerhold/v2.Store).Insert:vcInsert,(*github.com/timshannon/badgerhold/v2.Store).TxInsert:vcTxInsert
func vcLockOne(w *vcDb, key domain.UnspentKey, trade uuid.UUID, who domain.UnspentKey) {
	//@ requires vcReady(w)
	vcW = w
	e := vcLockKey(who)
	before, had := w.Locks[e]
	row, known := w.Unspents[key]
	//@ requires known ==> vcPlain(row, key)
	u := unspentRepositoryImpl{w.Coins, w.Main}
	//@ call
	done, err := u.lockUnspent(w.Ctx, key, trade)
	after, has := w.Locks[e]
	//@ ensures kept: had ==> has && after.TradeID == before.TradeID
	//@ ensures others: who != key ==> had == has
	//@ ensures taken: who == key && done ==> !had && has && after.TradeID == trade && known && err == nil
	//@ ensures free: who == key && err == nil && known && !had && !vcRaced(key.TxID, key.VOut) ==> done
	//@ ensures refused: !known || err != nil ==> !done && (who != key || had == has || vcRaced(key.TxID, key.VOut))
	//@ ensures scope: !w.Other
	//@ cover done: done
	//@ cover raced: !done && err == nil && known && !had
}

//@ contract C07 C08 opaque=vcDown,vcRaced,vcRacer,vcKeyBytes,vcKeyTxid,vcKeyVout,vcEncodes stub=EncodeKey:vcEnc,(*github.com/timshannon/badgerhold/v2.Store).Get:vcGet,(*github.com/timshannon/badgerhold/v2.Store).TxGet:vcTxGet,(*github.com/timshannon/badgerhold/v2.Store).Delete:vcDelete,(*github.com/timshannon/badgerhold/v2.Store).TxDelete:vcTxDelete
func vcUnlockOne(w *vcDb, key domain.UnspentKey, who domain.UnspentKey) {
	//@ requires vcReady(w)
	vcW = w
	e := vcLockKey(who)
	before, had := w.Locks[e]
	row, known := w.Unspents[key]
	//@ requires known ==> vcPlain(row, key)
	u := unspentRepositoryImpl{w.Coins, w.Main}
	//@ call
	done, err := u.unlockUnspent(w.Ctx, key)
	after, has := w.Locks[e]
	//@ ensures others: who != key ==> had == has && (!had || after.TradeID == before.TradeID)
	//@ ensures gone: who == key && done ==> had && !has && err == nil && known
	//@ ensures unlocks: who == key && err == nil && known && had ==> done
	//@ ensures refused: !done ==> had == has && (!had || after.TradeID == before.TradeID)
	//@ ensures scope: !w.Other
	//@ cover done: done
}

//@ contract C07 C08 opaque=vcDown,vcRaced,vcRacer,vcKeyBytes,vcKeyTxid,vcKeyVout,vcEncodes stub=EncodeKey:vcEnc,(*github.com/timshannon/badgerhold/v2.Store).Get:vcGet,(*github.com/timshannon/badgerhold/v2.Store).TxGet:vcTxGet,(*github.com/timshannon/badgerhold/v2.Store).Insert:vcInsert,(*github.com/timshannon/badgerhold/v2.Store).TxInsert:vcTxInsert
func vcLockMany(w *vcDb, keys []domain.UnspentKey, trade uuid.UUID, who domain.UnspentKey, at int) {
	//@ requires vcReady(w) && len(keys) < 1<<30 && at >= 0 && at < len(keys)
	//@ requires vcForall(0, len(keys), func(k int) bool { row, ok := w.Unspents[keys[k]]; return !ok || vcPlain(row, keys[k]) })
	vcW = w
	e := vcLockKey(who)
	before, had := w.Locks[e]
	_, known := w.Unspents[who]
	var repo domain.UnspentRepository = NewUnspentRepositoryImpl(w.Coins, w.Main)
	listed := keys[at] == who
	//@ invariant (count int, i int): 0 <= count && count <= i && i <= len(keys) && !w.Other
	//@ invariant (i int): had ==> vcHas(w.Locks, e) && w.Locks[e].TradeID == before.TradeID
	//@ invariant (count int, i int): at < i && count == i && listed ==> !had && known
	//@ invariant (count int, i int): at < i && count == i && listed ==> vcHas(w.Locks, e) && w.Locks[e].TradeID == trade
	//@ call
	n, err := repo.LockUnspents(w.Ctx, keys, trade)
	after, has := w.Locks[e]
	//@ ensures kept: had ==> has && after.TradeID == before.TradeID
	//@ ensures all: err == nil && n == len(keys) && listed ==> known && !had && has && after.TradeID == trade
	//@ ensures counted: err == nil ==> 0 <= n && n <= len(keys)
	//@ ensures scope: !w.Other
	//@ cover all: err == nil && n == 2
}

func vcHas(m map[string]LockedUnspent, e string) bool { _, ok := m[e]; return ok }


//@ contract C07 C08 opaque=vcDown,vcRaced,vcRacer,vcKeyBytes,vcKeyTxid,vcKeyVout,vcEncodes stub=EncodeKey:vcEnc,(*github.com/timshannon/badgerhold/v2.Store).Get:vcGet,(*github.com/timshannon/badgerhold/v2.Store).TxGet:vcTxGet
func vcLockRead(w *vcDb, key domain.UnspentKey) {
	//@ requires vcReady(w)
	vcW = w
	lock, locked := w.Locks[vcLockKey(key)]
	u := unspentRepositoryImpl{w.Coins, w.Main}
	//@ call
	got, err := u.getLock(w.Ctx, key)
	//@ ensures scope: !w.Other && w.Writes == 0
	//@ ensures lock: err == nil ==> (got != nil) == locked && (!locked || *got == lock.TradeID)
	//@ ensures nothing: err != nil ==> got == nil
}

// vcLockFor: getLock as vcLockRead has it.
func vcLockFor(u unspentRepositoryImpl, ctx context.Context, key domain.UnspentKey) (*uuid.UUID, error) {
	if u.store != vcW.Coins || u.lockStore != vcW.Main || ctx != context.Context(vcW.Ctx) {
		vcW.Other = true
	}
	if vcDown(2, key.TxID, key.VOut) {
		return nil, errors.New("down")
	}
	lock, ok := vcW.Locks[vcLockKey(key)]
	if !ok {
		return nil, nil
	}
	id := lock.TradeID
	return &id, nil
}

//@ contract C07 C08 opaque=vcDown,vcKeyBytes,vcKeyTxid,vcKeyVout,vcHits stub=(internal/infrastructure/storage/db/badger.unspentRepositoryImpl).getLock:vcLockFor,(*github.com/timshannon/badgerhold/v2.Store).Find:vcFind,(*github.com/timshannon/badgerhold/v2.Store).TxFind:vcTxFind
func vcFindFree(w *vcDb, q *badgerhold.Query, at int) {
	//@ requires w != nil && w.Main != nil && w.Coins != nil && w.Main != w.Coins && w.Unspents != nil && w.Locks != nil && !w.Other && w.Writes == 0 && q == w.Query
	//@ requires at >= 0 && len(w.Found) < 1<<30
	vcW = w
	row, known := w.Unspents[w.Who]
	//@ requires known ==> vcPlain(row, w.Who)
	locked := vcHas(w.Locks, vcLockKey(w.Who))
	u := unspentRepositoryImpl{w.Coins, w.Main}
	//@ invariant (i int): 0 <= i && i <= len(w.Found) && !w.Other
	//@ invariant (unspents []domain.Unspent, i int): len(unspents) == len(w.Found) && vcForall(i, len(unspents), func(k int) bool { return vcSameRow(unspents[k], w.Found[k]) && !unspents[k].Locked && unspents[k].LockedBy == nil })
	//@ invariant (unlockedUnspents []domain.Unspent, i int): len(unlockedUnspents) <= i && (at >= len(unlockedUnspents) || vcHits(unlockedUnspents[at].TxID, unlockedUnspents[at].VOut) && !unlockedUnspents[at].Locked && !vcIsLocked(unlockedUnspents[at]))
	//@ invariant (unlockedUnspents []domain.Unspent, i int): w.Pos >= 0 && w.Pos < i && w.Found[w.Pos].Key() == w.Who && !locked ==> vcExists(0, len(unlockedUnspents), func(k int) bool { return unlockedUnspents[k].Key() == w.Who })
	//@ call
	got, err := u.findUnspents(w.Ctx, q, true)
	//@ ensures scope: !w.Other && w.Writes == 0
	//@ ensures sound: err == nil && at < len(got) ==> vcHits(got[at].TxID, got[at].VOut) && !got[at].Locked && !vcIsLocked(got[at])
	//@ ensures whole: err == nil && known && vcHits(row.TxID, row.VOut) && !locked ==> vcExists(0, len(got), func(k int) bool { return got[k].Key() == w.Who })
	//@ ensures nothing: err != nil ==> len(got) == 0
}

//@ contract C07 C08 opaque=vcDown,vcKeyBytes,vcKeyTxid,vcKeyVout,vcHits stub=(internal/infrastructure/storage/db/badger.unspentRepositoryImpl).getLock:vcLockFor,(*github.com/timshannon/badgerhold/v2.Store).Find:vcFind,(*github.com/timshannon/badgerhold/v2.Store).TxFind:vcTxFind
func vcFindAll(w *vcDb, q *badgerhold.Query, at int) {
	//@ requires w != nil && w.Main != nil && w.Coins != nil && w.Main != w.Coins && w.Unspents != nil && w.Locks != nil && !w.Other && w.Writes == 0 && q == w.Query
	//@ requires at >= 0 && len(w.Found) < 1<<30
	vcW = w
	row, known := w.Unspents[w.Who]
	//@ requires known ==> vcPlain(row, w.Who)
	u := unspentRepositoryImpl{w.Coins, w.Main}
	//@ invariant (i int): 0 <= i && i <= len(w.Found) && !w.Other
	//@ invariant (unspents []domain.Unspent, i int): len(unspents) == len(w.Found) && vcForall(i, len(unspents), func(k int) bool { return vcSameRow(unspents[k], w.Found[k]) && !unspents[k].Locked && unspents[k].LockedBy == nil })
	//@ invariant (unspents []domain.Unspent, i int): at < i && at < len(unspents) ==> vcSameRow(unspents[at], w.Found[at]) && unspents[at].Locked == vcIsLocked(unspents[at])
	//@ call
	got, err := u.findUnspents(w.Ctx, q, false)
	//@ ensures scope: !w.Other && w.Writes == 0
	//@ ensures every: err == nil ==> len(got) == len(w.Found) && (at >= len(got) || vcSameRow(got[at], w.Found[at]) && got[at].Locked == vcIsLocked(got[at]))
	//@ ensures nothing: err != nil ==> len(got) == 0
}

func vcSameRow(a, b domain.Unspent) bool {
	return a.TxID == b.TxID && a.VOut == b.VOut && a.Value == b.Value && a.AssetHash == b.AssetHash && a.Address == b.Address &&
		a.Spent == b.Spent && a.Confirmed == b.Confirmed && vcSame(a.ScriptPubKey, b.ScriptPubKey) && vcSame(a.ValueBlinder, b.ValueBlinder) && vcSame(a.AssetBlinder, b.AssetBlinder)
}

// vcFinds: findUnspents as vcFindCoins has it.
func vcFinds(u unspentRepositoryImpl, ctx context.Context, query *badgerhold.Query, free bool) ([]domain.Unspent, error) {
	if query != vcW.Query || u.store != vcW.Coins || u.lockStore != vcW.Main || ctx != context.Context(vcW.Ctx) {
		vcW.Other = true
	}
	vcW.Free = free
	row, known := vcW.Unspents[vcW.Who]
	vcChoose(row.Address)
	if vcDown(6, "", 0) {
		return nil, errors.New("down")
	}
	locked := vcHas(vcW.Locks, vcLockKey(vcW.Who))
	vcAssume(func() bool {
		return vcForall(0, len(vcW.Found), func(k int) bool { return vcMatches(vcW.Found[k]) && (!free || !vcW.Found[k].Locked) })
	})
	vcAssume(func() bool {
		return !known || !vcMatches(row) || free && locked || vcW.Pos >= 0 && vcW.Pos < len(vcW.Found) && vcW.Found[vcW.Pos].Key() == vcW.Who
	})
	return vcW.Found, nil
}

//@ contract C07 C08 opaque=vcDown,vcRaced,vcRacer,vcKeyBytes,vcKeyTxid,vcKeyVout,vcEncodes,vcChosen stub=(internal/infrastructure/storage/db/badger.unspentRepositoryImpl).findUnspents:vcFinds,github.com/timshannon/badgerhold/v2.Where:vcWhere,(*github.com/timshannon/badgerhold/v2.Query).And:vcAnd,(*github.com/timshannon/badgerhold/v2.Criterion).Eq:vcEq,(*github.com/timshannon/badgerhold/v2.Criterion).In:vcInValues
func vcCoinsFor(w *vcDb, addresses []string, asset string, at, which int) {
	//@ requires vcReady(w) && len(addresses) < 1<<30 && at >= 0 && len(w.Found) < 1<<30 && 0 <= which && which < 7
	vcW = w
	row, known := w.Unspents[w.Who]
	//@ requires known ==> vcPlain(row, w.Who)
	mine := vcIsAmong(row.Address, addresses)
	locked := vcHas(w.Locks, vcLockKey(w.Who))
	var repo domain.UnspentRepository = NewUnspentRepositoryImpl(w.Coins, w.Main)
	//@ invariant (iface []interface{}, i int): len(iface) == i
	//@ invariant (iface []interface{}, i int): vcForall(0, i, func(k int) bool { return vcIsStr(iface[k], addresses[k]) })
	//@ invariant (balance uint64, i int): 0 <= i && i <= len(w.Found) && balance == vcrWorth(w.Found, i)
	//@ call
	var got []domain.Unspent
	var err error
	var sum uint64
	if which == 0 {
		got, err = repo.GetAvailableUnspentsForAddresses(w.Ctx, addresses)
	} else if which == 1 {
		got, err = repo.GetAvailableUnspents(w.Ctx)
	} else if which == 2 {
		got, err = repo.GetUnspentsForAddresses(w.Ctx, addresses)
	} else if which == 3 {
		got, err = repo.GetAllUnspentsForAddresses(w.Ctx, addresses)
	} else if which == 4 {
		got = repo.GetAllUnspents(w.Ctx)
	} else if which == 5 {
		sum, err = repo.GetBalance(w.Ctx, addresses, asset)
	} else {
		sum, err = repo.GetUnlockedBalance(w.Ctx, addresses, asset)
	}
	if at < len(w.Found) {
		vcChoose(w.Found[at].Address)
	}
	unspent := which != 3 && which != 4
	owned := which != 1 && which != 4
	free := which == 0 || which == 1 || which == 6
	up := !vcDown(6, "", 0)
	//@ ensures scope: !w.Other && w.Writes == 0
	//@ ensures fails: (err == nil) == (up || which == 4)
	//@ ensures list: up && which < 5 ==> vcSame(got, w.Found)
	//@ ensures balance: up && which >= 5 ==> sum == vcrWorth(w.Found, len(w.Found))
	//@ ensures spendable: up && unspent && at < len(w.Found) ==> !w.Found[at].Spent && w.Found[at].Confirmed
	//@ ensures owned: up && owned && at < len(w.Found) ==> vcIsAmong(w.Found[at].Address, addresses)
	//@ ensures asset: up && which >= 5 && at < len(w.Found) ==> w.Found[at].AssetHash == asset
	//@ ensures free: up && free && at < len(w.Found) ==> !w.Found[at].Locked
	//@ ensures whole: up && known && (!unspent || !row.Spent && row.Confirmed) && (!owned || mine) && (which < 5 || row.AssetHash == asset) && (!free || !locked) ==> w.Pos >= 0 && w.Pos < len(w.Found) && w.Found[w.Pos].Key() == w.Who
}

// vcrWorth: the value of the first n coins.
func vcrWorth(coins []domain.Unspent, n int) uint64 {
	if n <= 0 {
		return 0
	}
	return vcrWorth(coins, n-1) + coins[n-1].Value
}

//@ contract C07 C08 opaque=vcDown,vcRaced,vcRacer,vcKeyBytes,vcKeyTxid,vcKeyVout,vcEncodes stub=EncodeKey:vcEnc,(*github.com/timshannon/badgerhold/v2.Store).Get:vcGet,(*github.com/timshannon/badgerhold/v2.Store).TxGet:vcTxGet
func vcCoinWithKey(w *vcDb, key domain.UnspentKey) {
	//@ requires vcReady(w)
	vcW = w
	row, known := w.Unspents[key]
	//@ requires known ==> vcPlain(row, key)
	lock, locked := w.Locks[vcLockKey(key)]
	var repo domain.UnspentRepository = NewUnspentRepositoryImpl(w.Coins, w.Main)
	//@ call
	got, err := repo.GetUnspentWithKey(w.Ctx, key)
	//@ ensures scope: !w.Other && w.Writes == 0
	//@ ensures found: err == nil ==> (got != nil) == known
	//@ ensures row: err == nil && known ==> vcSameRow(*got, row) && got.Locked == locked && (!locked || got.LockedBy != nil && *got.LockedBy == lock.TradeID)
	//@ ensures nothing: err != nil ==> got == nil
	//@ cover locked: err == nil && known && locked
}

//@ contract C07 C08 opaque=vcDown,vcRaced,vcRacer,vcKeyBytes,vcKeyTxid,vcKeyVout,vcEncodes stub=EncodeKey:vcEnc,(*github.com/timshannon/badgerhold/v2.Store).Get:vcGet,(*github.com/timshannon/badgerhold/v2.Store).TxGet:vcTxGet,(*github.com/timshannon/badgerhold/v2.Store).Update:vcUpdate,(*github.com/timshannon/badgerhold/v2.Store).TxUpdate:vcTxUpdate
func vcSpendMany(w *vcDb, keys []domain.UnspentKey, confirm bool, at int) {
	//@ requires vcReady(w) && len(keys) < 1<<30 && at >= 0 && at < len(keys)
	//@ requires vcForall(0, len(keys), func(k int) bool { row, ok := w.Unspents[keys[k]]; return !ok || vcPlain(row, keys[k]) })
	vcW = w
	who := w.Who
	row, known := w.Unspents[who]
	listed := keys[at] == who
	absent := vcForall(0, len(keys), func(k int) bool { return keys[k] != who })
	var repo domain.UnspentRepository = NewUnspentRepositoryImpl(w.Coins, w.Main)
	//@ invariant (i int): 0 <= i && i <= len(keys) && !w.Other && vcForall(0, len(keys), func(k int) bool { r, ok := w.Unspents[keys[k]]; return !ok || vcPlain(r, keys[k]) })
	//@ invariant (count int, i int): 0 <= count && count <= i
	//@ invariant (i int): vcKnown(w.Unspents, who) == known && (!known || vcTurned(w.Unspents[who], row, absent, confirm))
	//@ invariant (i int): at < i && listed && known ==> (w.Unspents[who].Spent || confirm) && (w.Unspents[who].Confirmed || !confirm)
	//@ call
	var n int
	var err error
	if confirm {
		n, err = repo.ConfirmUnspents(w.Ctx, keys)
	} else {
		n, err = repo.SpendUnspents(w.Ctx, keys)
	}
	after, still := w.Unspents[who]
	//@ ensures scope: !w.Other
	//@ ensures kept: still == known && (!known || vcTurned(after, row, absent, confirm))
	//@ ensures done: err == nil && listed && known ==> (after.Spent || confirm) && (after.Confirmed || !confirm)
	//@ ensures counted: err == nil ==> 0 <= n && n <= len(keys)
	//@ cover two: err == nil && n == 2
}

func vcKnown(m map[domain.UnspentKey]domain.Unspent, k domain.UnspentKey) bool { _, ok := m[k]; return ok }

// vcTurned: a is what b was, save that it may have been spent (or confirmed).
func vcTurned(a, b domain.Unspent, same, confirm bool) bool {
	return a.TxID == b.TxID && a.VOut == b.VOut && a.Value == b.Value && a.AssetHash == b.AssetHash && a.Address == b.Address &&
		(a.Spent == b.Spent || !same && !confirm && a.Spent) && (a.Confirmed == b.Confirmed || !same && confirm && a.Confirmed)
}

//@ contract C07 C08 opaque=vcDown,vcRaced,vcRacer,vcKeyBytes,vcKeyTxid,vcKeyVout,vcEncodes stub=(*github.com/timshannon/badgerhold/v2.Store).Insert:vcInsert,(*github.com/timshannon/badgerhold/v2.Store).TxInsert:vcTxInsert
func vcAddCoins(w *vcDb, coins []domain.Unspent, at int) {
	//@ requires vcReady(w) && len(coins) < 1<<30 && at >= 0 && at < len(coins)
	vcW = w
	who := w.Who
	row, known := w.Unspents[who]
	listed := coins[at].Key() == who
	absent := vcForall(0, len(coins), func(k int) bool { return !(coins[k].TxID == who.TxID && coins[k].VOut == who.VOut) })
	only := vcForall(0, len(coins), func(k int) bool { return k == at || !(coins[k].TxID == who.TxID && coins[k].VOut == who.VOut) })
	var repo domain.UnspentRepository = NewUnspentRepositoryImpl(w.Coins, w.Main)
	//@ invariant (i int): 0 <= i && i <= len(coins) && !w.Other
	//@ invariant (i int): known ==> vcKnown(w.Unspents, who) && vcSameRow(w.Unspents[who], row)
	//@ invariant (i int): absent && !known ==> !vcKnown(w.Unspents, who)
	//@ invariant (i int): at < i && listed ==> vcKnown(w.Unspents, who) && (known || !only || vcSameRow(w.Unspents[who], coins[at]))
	//@ invariant (i int): i <= at && only && !known ==> !vcKnown(w.Unspents, who)
	//@ call
	err := repo.AddUnspents(w.Ctx, coins)
	after, has := w.Unspents[who]
	//@ ensures scope: !w.Other
	//@ ensures kept: known ==> has && vcSameRow(after, row)
	//@ ensures added: err == nil && listed ==> has && (known || !only || vcSameRow(after, coins[at]))
	//@ ensures others: absent && !known ==> !has
	//@ cover ok: err == nil && len(coins) == 2
}
