//go:build go1.22

package dbbadger

import (
	"context"

	"github.com/dgraph-io/badger/v2"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/timshannon/badgerhold/v2"
)

// ---- C08: transactions: what a handler did is committed when it succeeds,
// dropped when it fails; a conflict starts the whole again, in a new
// transaction.

type vcTxs struct {
	Begun, Ended, Run, Committed, Dropped int
	Clashes  int // how many attempts clash with another transaction
	AtRun    bool // whether clashes show in the handler or at commit
	Fails    error
	BadCommit error
	Foreign  bool
	Result   interface{}
	Last     *vcTxn
	Of       *badger.DB
	Stores   [3]*badgerhold.Store
	Which    int
	Name     string
	Real     *badger.Txn
	ReadOnly bool
}

type vcTxn struct{ T *vcTxs }

func (t *vcTxn) Commit() error {
	if t != t.T.Last {
		t.T.Foreign = true
	}
	t.T.Ended++
	if t.T.Clashes > 0 && !t.T.AtRun {
		t.T.Clashes--
		return badger.ErrConflict
	}
	if t.T.BadCommit != nil {
		return t.T.BadCommit
	}
	t.T.Committed++
	return nil
}
func (t *vcTxn) Discard() { t.T.Dropped++ }

//@ contract C08
func vcRunTx(w *vcTxs, readOnly bool, ctx vcCtx) {
	//@ requires w != nil && w.Begun == 0 && w.Run == 0 && w.Committed == 0 && w.Ended == 0 && w.Dropped == 0 && !w.Foreign && w.Last == nil && w.Clashes >= 0 && w.Clashes < 1<<30
	//@ requires badger.ErrConflict != nil && w.Fails != badger.ErrConflict && w.BadCommit != badger.ErrConflict && (readOnly || !w.AtRun)
	clashes := w.Clashes
	d := &repoManager{}
	//@ invariant (): w.Clashes >= 0 && w.Clashes <= clashes && w.Begun == clashes - w.Clashes && w.Run == w.Begun && !w.Foreign && w.Committed == 0
	//@ invariant (): readOnly ==> w.Ended == 0
	//@ invariant (): !w.AtRun && w.Fails != nil ==> w.Begun == 0
	//@ invariant (): readOnly && !w.AtRun ==> w.Begun == 0
	//@ invariant (): !readOnly ==> w.Ended == w.Begun
	//@ call
	res, err := d.runTransaction(runTransactionArgs{
		ctxMaker: func() (ports.Transaction, context.Context) {
			w.Begun++
			tx := &vcTxn{T: w}
			w.Last = tx
			return tx, ctx
		},
		readOnly: readOnly,
		handler: func(c context.Context) (interface{}, error) {
			w.Run++
			if c != context.Context(ctx) {
				w.Foreign = true
			}
			if w.AtRun && w.Clashes > 0 {
				w.Clashes--
				return nil, badger.ErrConflict
			}
			if w.Fails != nil {
				return w.Result, w.Fails
			}
			return w.Result, nil
		},
	})
	//@ ensures own: !w.Foreign && w.Begun == w.Run
	//@ ensures failed: w.Fails != nil ==> res == nil && err == w.Fails && w.Ended == 0 && w.Committed == 0
	//@ ensures reads: readOnly ==> w.Ended == 0
	//@ ensures done: w.Fails == nil && !readOnly && w.BadCommit == nil ==> err == nil && w.Committed == 1 && w.Ended == w.Begun && w.Begun == clashes + 1
	//@ ensures refused: w.Fails == nil && !readOnly && w.BadCommit != nil ==> err == w.BadCommit && res == nil && w.Committed == 0
	//@ ensures answer: err == nil ==> res == w.Result
	//@ ensures again: readOnly && w.AtRun && w.Fails == nil ==> err == nil && w.Begun == clashes + 1
}

var vcTxW *vcTxs

func vcBadgerOf(s *badgerhold.Store) *badger.DB {
	for i := 0; i < 3; i++ {
		if vcTxW.Stores[i] == s {
			vcTxW.Which = i
			return vcTxW.Of
		}
	}
	vcTxW.Which = -1
	return nil
}
func vcBegin(db *badger.DB, write bool) *badger.Txn {
	if db != vcTxW.Of || !write {
		vcTxW.Foreign = true
	}
	vcTxW.Begun++
	return vcTxW.Real
}
func vcWithValue(ctx context.Context, key, val interface{}) context.Context {
	k, ok := key.(string)
	if !ok || val != interface{}(vcTxW.Real) {
		vcTxW.Foreign = true
	}
	vcTxW.Name = k
	return ctx
}
func vcRunning(d *repoManager, args runTransactionArgs) (interface{}, error) {
	tx, ctx := args.ctxMaker()
	if tx != ports.Transaction(vcTxW.Real) || args.readOnly != vcTxW.ReadOnly {
		vcTxW.Foreign = true
	}
	return args.handler(ctx)
}

//@ contract C08 stub=(*github.com/timshannon/badgerhold/v2.Store).Badger:vcBadgerOf,(*github.com/dgraph-io/badger/v2.DB).NewTransaction:vcBegin,context.WithValue:vcWithValue,(*internal/infrastructure/storage/db/badger.repoManager).runTransaction:vcRunning
func vcTxOf(w *vcTxs, which int, readOnly bool, ctx vcCtx) {
	//@ requires w != nil && w.Begun == 0 && w.Run == 0 && !w.Foreign && w.Of != nil && w.Real != nil && w.ReadOnly == readOnly && which >= 0 && which < 3
	//@ requires w.Stores[0] != nil && w.Stores[1] != nil && w.Stores[2] != nil && w.Stores[0] != w.Stores[1] && w.Stores[0] != w.Stores[2] && w.Stores[1] != w.Stores[2]
	vcTxW = w
	d := &repoManager{store: w.Stores[0], priceStore: w.Stores[1], unspentStore: w.Stores[2]}
	handler := func(c context.Context) (interface{}, error) {
		w.Run++
		if c != context.Context(ctx) {
			w.Foreign = true
		}
		return w.Result, w.Fails
	}
	//@ call
	var res interface{}
	var err error
	if which == 0 {
		res, err = d.RunTransaction(ctx, readOnly, handler)
	} else if which == 1 {
		res, err = d.RunPricesTransaction(ctx, readOnly, handler)
	} else {
		res, err = d.RunUnspentsTransaction(ctx, readOnly, handler)
	}
	//@ ensures own: !w.Foreign && w.Begun == 1 && w.Run == 1
	//@ ensures database: w.Which == which
	//@ ensures name: w.Name == vcTxName(which)
	//@ ensures answer: res == w.Result && err == w.Fails
}

func vcTxName(which int) string {
	if which == 0 {
		return "tx"
	}
	if which == 1 {
		return "ptx"
	}
	return "utx"
}
