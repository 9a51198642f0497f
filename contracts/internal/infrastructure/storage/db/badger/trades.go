//go:build go1.22

package dbbadger

import (
	"context"
	"errors"

	"github.com/dgraph-io/badger/v2"
	"github.com/google/uuid"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/timshannon/badgerhold/v2"
)

// ---- The tables of the main database, and that of prices.

type vcTables struct {
	Main, PriceDb *badgerhold.Store
	Ctx           vcCtx
	Trades        map[uuid.UUID]domain.Trade
	Markets       map[int]domain.Market
	Prices        map[int]domain.Prices
	HasVault      bool
	Vault         domain.Vault
	Other         bool
	Writes        int
	Conflicts     int // how many updates conflict before one goes through
	Fails         bool
	BadGet, BadPut, BadPrice bool
	// the search
	Query   *badgerhold.Query
	Field   string
	ByAsset, ByTx, ByAccept, ByCode, ByFailed, ByQuote, ByAccount, ByTradable bool
	Asset, Tx, Accept, Quote string
	Code    int
	Failed, Tradable  bool
	From    int
	Sorted, Reversed bool
	Trds    []domain.Trade
	Mkts    []domain.Market
}

var vcT *vcTables

func vcTReady(w *vcTables) bool {
	return w != nil && w.Main != nil && w.PriceDb != nil && w.Main != w.PriceDb && w.Trades != nil && w.Markets != nil && w.Prices != nil && !w.Other && w.Writes == 0 && w.Query == nil &&
		!w.ByAsset && !w.ByTx && !w.ByAccept && !w.ByCode && !w.ByFailed && !w.ByQuote && !w.ByAccount && !w.ByTradable && !w.Sorted && !w.Reversed &&
		badgerhold.ErrNotFound != nil && badgerhold.ErrKeyExists != nil && badgerhold.ErrKeyExists != badgerhold.ErrNotFound && badger.ErrConflict != nil
}

func vcInMain(s *badgerhold.Store, tx *badger.Txn) {
	if s != vcT.Main || tx != vcT.Ctx.Tx {
		vcT.Other = true
	}
}

// vcInPrices: a transaction decides which database is written, whatever the store.
func vcInPrices(s *badgerhold.Store, tx *badger.Txn) {
	if tx != vcT.Ctx.Ptx || tx == nil && s != vcT.PriceDb {
		vcT.Other = true
	}
}

func vcTRead(s *badgerhold.Store, tx *badger.Txn, key, result interface{}) error {
	if r, ok := result.(**domain.Prices); ok {
		vcInPrices(s, tx)
		if vcT.BadPrice {
			return errors.New("down")
		}
		p, ok := vcT.Prices[key.(int)]
		if !ok {
			return badgerhold.ErrNotFound
		}
		*r = &p
		return nil
	}
	vcInMain(s, tx)
	if vcT.BadGet {
		return errors.New("down")
	}
	if r, ok := result.(*domain.Trade); ok {
		row, ok := vcT.Trades[key.(uuid.UUID)]
		if !ok {
			return badgerhold.ErrNotFound
		}
		*r = row
		return nil
	}
	if r, ok := result.(*domain.Market); ok {
		row, ok := vcT.Markets[key.(int)]
		if !ok {
			return badgerhold.ErrNotFound
		}
		*r = row
		return nil
	}
	if r, ok := result.(*domain.Vault); ok && key == "vault" {
		if !vcT.HasVault {
			return badgerhold.ErrNotFound
		}
		*r = vcT.Vault
		return nil
	}
	vcT.Other = true
	return errors.New("unknown table")
}

// vcTWrite: mode 0 inserts, 1 updates, 2 does either.
func vcTWrite(s *badgerhold.Store, tx *badger.Txn, key, data interface{}, mode int) error {
	vcT.Writes++
	if p, ok := data.(domain.Prices); ok && mode == 2 {
		vcInPrices(s, tx)
		if vcT.BadPrice {
			return errors.New("down")
		}
		vcT.Prices[key.(int)] = p
		return nil
	}
	vcInMain(s, tx)
	if vcT.BadPut {
		return errors.New("down")
	}
	if vcT.Conflicts > 0 {
		vcT.Conflicts--
		return badger.ErrConflict
	}
	if t, ok := data.(domain.Trade); ok {
		return vcPutTrade(key.(uuid.UUID), t, mode)
	}
	if t, ok := data.(*domain.Trade); ok {
		return vcPutTrade(key.(uuid.UUID), *t, mode)
	}
	if m, ok := data.(domain.Market); ok {
		return vcPutMarket(key.(int), m, mode)
	}
	if m, ok := data.(*domain.Market); ok {
		return vcPutMarket(key.(int), *m, mode)
	}
	if v, ok := data.(domain.Vault); ok && key == "vault" {
		return vcPutVault(v, mode)
	}
	if v, ok := data.(*domain.Vault); ok && key == "vault" {
		return vcPutVault(*v, mode)
	}
	vcT.Other = true
	return errors.New("unknown table")
}

func vcPutTrade(id uuid.UUID, t domain.Trade, mode int) error {
	_, ok := vcT.Trades[id]
	if ok && mode == 0 {
		return badgerhold.ErrKeyExists
	}
	if !ok && mode == 1 {
		return badgerhold.ErrNotFound
	}
	vcT.Trades[id] = t
	return nil
}
func vcPutMarket(account int, m domain.Market, mode int) error {
	_, ok := vcT.Markets[account]
	if ok && mode == 0 {
		return badgerhold.ErrKeyExists
	}
	if !ok && mode == 1 {
		return badgerhold.ErrNotFound
	}
	vcT.Markets[account] = m
	return nil
}
func vcPutVault(v domain.Vault, mode int) error {
	if vcT.HasVault && mode == 0 {
		return badgerhold.ErrKeyExists
	}
	if !vcT.HasVault && mode == 1 {
		return badgerhold.ErrNotFound
	}
	vcT.HasVault = true
	vcT.Vault = v
	return nil
}

func vcTTxGet(s *badgerhold.Store, tx *badger.Txn, key, result interface{}) error {
	return vcTRead(s, tx, key, result)
}
func vcTGet(s *badgerhold.Store, key, result interface{}) error { return vcTRead(s, nil, key, result) }
func vcTTxInsert(s *badgerhold.Store, tx *badger.Txn, key, data interface{}) error {
	return vcTWrite(s, tx, key, data, 0)
}
func vcTInsert(s *badgerhold.Store, key, data interface{}) error { return vcTWrite(s, nil, key, data, 0) }
func vcTTxUpdate(s *badgerhold.Store, tx *badger.Txn, key, data interface{}) error {
	return vcTWrite(s, tx, key, data, 1)
}
func vcTUpdate(s *badgerhold.Store, key, data interface{}) error { return vcTWrite(s, nil, key, data, 1) }
func vcTTxUpsert(s *badgerhold.Store, tx *badger.Txn, key, data interface{}) error {
	return vcTWrite(s, tx, key, data, 2)
}
func vcTUpsert(s *badgerhold.Store, key, data interface{}) error { return vcTWrite(s, nil, key, data, 2) }

// ---- Searches.

func vcTWhere(field string) *badgerhold.Criterion {
	if vcT.Query != nil {
		vcT.Other = true
	}
	vcT.Field = field
	return new(badgerhold.Criterion)
}
func vcTAnd(q *badgerhold.Query, field string) *badgerhold.Criterion {
	if q != vcT.Query {
		vcT.Other = true
	}
	vcT.Field = field
	return new(badgerhold.Criterion)
}
func vcTEq(c *badgerhold.Criterion, value interface{}) *badgerhold.Query {
	if vcT.Field == "MarketQuoteAsset" && !vcT.ByAsset {
		vcT.ByAsset = true
		vcT.Asset = value.(string)
	} else if vcT.Field == "Status.Failed" && !vcT.ByFailed {
		vcT.ByFailed = true
		vcT.Failed = value.(bool)
	} else if vcT.Field == "SwapAccept.ID" && !vcT.ByAccept {
		vcT.ByAccept = true
		vcT.Accept = value.(string)
	} else if vcT.Field == "TxID" && !vcT.ByTx {
		vcT.ByTx = true
		vcT.Tx = value.(string)
	} else if vcT.Field == "QuoteAsset" && !vcT.ByQuote {
		vcT.ByQuote = true
		vcT.Quote = value.(string)
	} else if vcT.Field == "Tradable" && !vcT.ByTradable {
		vcT.ByTradable = true
		vcT.Tradable = value.(bool)
	} else {
		vcT.Other = true
	}
	vcT.Query = new(badgerhold.Query)
	return vcT.Query
}
func vcTGe(c *badgerhold.Criterion, value interface{}) *badgerhold.Query {
	if vcT.Field == "Status.Code" && !vcT.ByCode {
		vcT.ByCode = true
		vcT.Code = value.(int)
	} else if vcT.Field == "AccountIndex" && !vcT.ByAccount {
		vcT.ByAccount = true
		vcT.From = value.(int)
	} else {
		vcT.Other = true
	}
	vcT.Query = new(badgerhold.Query)
	return vcT.Query
}
func vcTSort(q *badgerhold.Query, fields ...string) *badgerhold.Query {
	if q != vcT.Query || len(fields) != 1 || fields[0] != "AccountIndex" {
		vcT.Other = true
	}
	vcT.Sorted = true
	return q
}
func vcTReverse(q *badgerhold.Query) *badgerhold.Query {
	if q != vcT.Query {
		vcT.Other = true
	}
	vcT.Reversed = !vcT.Reversed
	return q
}

// vcAsked: the search is for trades (or markets) as told, no more and no less.
func vcTradeHit(t domain.Trade) bool {
	return (!vcT.ByAsset || t.MarketQuoteAsset == vcT.Asset) && (!vcT.ByFailed || t.Status.Failed == vcT.Failed) && (!vcT.ByCode || t.Status.Code >= vcT.Code) &&
		(!vcT.ByTx || t.TxID == vcT.Tx) && (!vcT.ByAccept || t.SwapAccept.ID == vcT.Accept)
}
func vcMarketHit(m domain.Market) bool {
	return (!vcT.ByQuote || m.QuoteAsset == vcT.Quote) && (!vcT.ByTradable || m.Tradable == vcT.Tradable) && (!vcT.ByAccount || m.AccountIndex >= vcT.From)
}

func vcTSearch(s *badgerhold.Store, tx *badger.Txn, result interface{}, query *badgerhold.Query) error {
	vcInMain(s, tx)
	if query != vcT.Query {
		vcT.Other = true
	}
	if vcT.BadGet {
		return errors.New("down")
	}
	if r, ok := result.(*[]domain.Trade); ok && !vcT.ByQuote && !vcT.ByTradable && !vcT.ByAccount && !vcT.Sorted {
		*r = vcCloneSlice(vcT.Trds)
		return nil
	}
	if r, ok := result.(*[]domain.Market); ok && !vcT.ByAsset && !vcT.ByTx && !vcT.ByAccept && !vcT.ByCode && !vcT.ByFailed {
		*r = vcCloneSlice(vcT.Mkts)
		return nil
	}
	vcT.Other = true
	return errors.New("unknown table")
}
func vcTFind(s *badgerhold.Store, result interface{}, q *badgerhold.Query) error { return vcTSearch(s, nil, result, q) }
func vcTTxFind(s *badgerhold.Store, tx *badger.Txn, result interface{}, q *badgerhold.Query) error {
	return vcTSearch(s, tx, result, q)
}

func vcSameTrade(a, b domain.Trade) bool {
	return a.ID == b.ID && a.MarketQuoteAsset == b.MarketQuoteAsset && a.MarketFee == b.MarketFee && a.MarketFixedBaseFee == b.MarketFixedBaseFee && a.MarketFixedQuoteFee == b.MarketFixedQuoteFee &&
		a.Status == b.Status && a.PsetBase64 == b.PsetBase64 && a.TxID == b.TxID && a.TxHex == b.TxHex && a.ExpiryTime == b.ExpiryTime && a.SettlementTime == b.SettlementTime && vcSame(a.TraderPubkey, b.TraderPubkey) &&
		vcSameSwap(a.SwapRequest, b.SwapRequest) && vcSameSwap(a.SwapAccept, b.SwapAccept) && vcSameSwap(a.SwapComplete, b.SwapComplete) && vcSameSwap(a.SwapFail, b.SwapFail)
}
func vcSameSwap(a, b domain.Swap) bool { return a.ID == b.ID && a.Timestamp == b.Timestamp && vcSame(a.Message, b.Message) }

// ---- C05, C08: trades.

// vcTradeStep: what the caller of UpdateTrade does with the trade.
type vcTradeStep struct {
	Fails  bool
	Given  domain.Trade
	InPlace bool
	Answer *domain.Trade
	Calls  int
}

//@ contract C05 C08 stub=(*github.com/timshannon/badgerhold/v2.Store).Get:vcTGet,(*github.com/timshannon/badgerhold/v2.Store).TxGet:vcTTxGet,(*github.com/timshannon/badgerhold/v2.Store).Update:vcTUpdate,(*github.com/timshannon/badgerhold/v2.Store).TxUpdate:vcTTxUpdate
func vcUpdateTrade(w *vcTables, st *vcTradeStep, id, who uuid.UUID) {
	//@ requires vcTReady(w) && st != nil && st.Calls == 0 && st.Answer != nil && w.Conflicts >= 0
	vcT = w
	row, known := w.Trades[id]
	//@ requires known && row.ID == id && st.Answer.ID == id
	before, had := w.Trades[who]
	answer := *st.Answer
	inTx := w.Ctx.Tx != nil
	conflicts := w.Conflicts
	repo := NewTradeRepositoryImpl(w.Main)
	//@ invariant (): !w.Other && 0 <= w.Conflicts && w.Conflicts <= conflicts && st.Calls == 1 && vcSameTrade(st.Given, row) && vcHasTrade(w.Trades, id)
	//@ invariant (): !inTx || w.Conflicts == conflicts
	//@ invariant (): vcHasTrade(w.Trades, who) == had && vcSameTrade(w.Trades[who], before)
	//@ invariant (err error): err != nil ==> vcHasTrade(w.Trades, who) == had && vcSameTrade(w.Trades[who], before)
	//@ invariant (err error): who != id ==> vcHasTrade(w.Trades, who) == had && vcSameTrade(w.Trades[who], before)
	//@ invariant (err error): err == nil ==> !w.BadPut && !st.Fails && vcHasTrade(w.Trades, id) && vcSameTrade(w.Trades[id], answer)
	//@ invariant (err error): err == nil || w.BadPut || err == badger.ErrConflict
	//@ invariant (err error): err == nil ==> !inTx || conflicts == 0
	//@ call
	err := repo.UpdateTrade(w.Ctx, &id, func(t *domain.Trade) (*domain.Trade, error) {
		st.Calls++
		st.Given = *t
		if st.Fails {
			return nil, errors.New("refused")
		}
		if st.InPlace {
			*t = answer
			return t, nil
		}
		return st.Answer, nil
	})
	after, has := w.Trades[who]
	//@ ensures scope: !w.Other
	//@ ensures given: st.Calls == 1 ==> vcSameTrade(st.Given, row)
	//@ ensures once: (st.Calls == 1) == !w.BadGet && st.Calls <= 1
	//@ ensures stored: err == nil && who == id ==> has && vcSameTrade(after, answer) && !st.Fails
	//@ ensures others: who != id ==> has == had && vcSameTrade(after, before)
	//@ ensures refused: err != nil ==> has == had && vcSameTrade(after, before)
	//@ ensures done: err == nil ==> !w.BadGet && !st.Fails && !w.BadPut && (!inTx || conflicts == 0)
	//@ ensures does: !w.BadGet && !st.Fails && !w.BadPut && (!inTx || conflicts == 0) ==> err == nil
	//@ cover retried: err == nil && conflicts == 2
}

func vcHasTrade(m map[uuid.UUID]domain.Trade, k uuid.UUID) bool { _, ok := m[k]; return ok }

//@ contract C05 C08 stub=(*github.com/timshannon/badgerhold/v2.Store).Get:vcTGet,(*github.com/timshannon/badgerhold/v2.Store).TxGet:vcTTxGet,(*github.com/timshannon/badgerhold/v2.Store).Insert:vcTInsert,(*github.com/timshannon/badgerhold/v2.Store).TxInsert:vcTTxInsert
func vcGetOrCreate(w *vcTables, id *uuid.UUID, who uuid.UUID) {
	//@ requires vcTReady(w) && w.Conflicts == 0
	vcT = w
	before, had := w.Trades[who]
	known := false
	var row domain.Trade
	if id != nil {
		row, known = w.Trades[*id]
	}
	repo := NewTradeRepositoryImpl(w.Main)
	//@ call
	t, err := repo.GetOrCreateTrade(w.Ctx, id)
	after, has := w.Trades[who]
	//@ ensures scope: !w.Other
	//@ ensures found: err == nil && known ==> t != nil && vcSameTrade(*t, row) && w.Writes == 0
	//@ ensures made: err == nil && !known ==> t != nil && t.Status == domain.EmptyStatus && t.TxID == "" && t.ExpiryTime == 0 && (id == nil || t.ID == *id)
	//@ ensures added: err == nil && !known && id != nil && who == *id ==> has && vcSameTrade(after, *t)
	//@ ensures kept: had ==> has && vcSameTrade(after, before)
	//@ ensures others: id != nil && who != *id ==> has == had
	//@ ensures nothing: err != nil ==> t == nil && has == had
}

//@ contract C05 C08 stub=(*github.com/timshannon/badgerhold/v2.Store).Find:vcTFind,(*github.com/timshannon/badgerhold/v2.Store).TxFind:vcTTxFind,github.com/timshannon/badgerhold/v2.Where:vcTWhere,(*github.com/timshannon/badgerhold/v2.Query).And:vcTAnd,(*github.com/timshannon/badgerhold/v2.Criterion).Eq:vcTEq,(*github.com/timshannon/badgerhold/v2.Criterion).Ge:vcTGe
func vcFindTrades(w *vcTables, which int, key string, at int, some domain.Trade) {
	//@ requires vcTReady(w) && 0 <= which && which < 5 && len(w.Trds) < 1<<30 && at >= 0
	vcT = w
	repo := NewTradeRepositoryImpl(w.Main)
	//@ invariant (trades []*domain.Trade, i int): 0 <= i && i <= len(w.Trds)
	//@ invariant (trades []*domain.Trade, i int): len(trades) == len(w.Trds)
	//@ invariant (trades []*domain.Trade, i int): len(trades) == i
	//@ invariant (trades []*domain.Trade, i int): (at >= i || trades[at] != nil && vcSameTrade(*trades[at], w.Trds[at]))
	//@ call
	var list []*domain.Trade
	var one *domain.Trade
	var err error
	want := true
	if which == 0 {
		list, err = repo.GetAllTrades(w.Ctx)
	} else if which == 1 {
		list, err = repo.GetAllTradesByMarket(w.Ctx, key)
		want = some.MarketQuoteAsset == key
	} else if which == 2 {
		list, err = repo.GetCompletedTradesByMarket(w.Ctx, key)
		want = some.MarketQuoteAsset == key && some.Status.Code >= domain.Completed && !some.Status.Failed
	} else if which == 3 {
		one, err = repo.GetTradeBySwapAcceptID(w.Ctx, key)
		want = some.SwapAccept.ID == key
	} else {
		one, err = repo.GetTradeByTxID(w.Ctx, key)
		want = some.TxID == key
	}
	//@ ensures scope: !w.Other && w.Writes == 0
	//@ ensures asked: vcTradeHit(some) == want
	//@ ensures list: !w.BadGet && which < 3 ==> err == nil && len(list) == len(w.Trds) && (at >= len(list) || list[at] != nil && vcSameTrade(*list[at], w.Trds[at]))
	//@ ensures one: !w.BadGet && which >= 3 && len(w.Trds) > 0 && at == 0 ==> err == nil && one != nil && vcSameTrade(*one, w.Trds[0])
	//@ ensures none: !w.BadGet && which >= 3 && len(w.Trds) == 0 ==> one == nil && (err == nil) == (which == 3)
	//@ ensures down: w.BadGet ==> (err != nil || which == 0) && one == nil && len(list) == 0
}

var _ = context.Background
