//go:build go1.22

package dbbadger

import (
	"context"
	"errors"

	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/pkg/marketmaking"
	"github.com/tdex-network/tdex-daemon/pkg/marketmaking/formula"
	"github.com/timshannon/badgerhold/v2"
	"github.com/vulpemventures/go-elements/network"
)

// ---- C01, C08: markets, kept in one database and their prices in another.

func vcSameMarket(a, b domain.Market) bool {
	return a.AccountIndex == b.AccountIndex && a.BaseAsset == b.BaseAsset && a.QuoteAsset == b.QuoteAsset && a.Fee == b.Fee && a.FixedFee == b.FixedFee && a.Tradable == b.Tradable
}
func vcSamePrices(a, b domain.Prices) bool {
	return a.BasePrice.Equal(b.BasePrice) && a.QuotePrice.Equal(b.QuotePrice)
}

// vcStrategies: a market read has the strategy its row tells; that of
// balanced reserves gets its formula back.
func vcStrategies(m, row domain.Market) bool {
	if row.Strategy.Type != 1 {
		return vcSame(m.Strategy, row.Strategy)
	}
	_, ok := m.Strategy.Formula().(formula.BalancedReserves)
	return m.Strategy.Type == row.Strategy.Type && ok
}

//@ contract C08 stub=(*github.com/timshannon/badgerhold/v2.Store).Get:vcTGet,(*github.com/timshannon/badgerhold/v2.Store).TxGet:vcTTxGet
func vcMarketOf(w *vcTables, account int) {
	//@ requires vcTReady(w)
	vcT = w
	row, known := w.Markets[account]
	prices, priced := w.Prices[account]
	repo := NewMarketRepositoryImpl(w.Main, w.PriceDb)
	//@ call
	m, err := repo.GetMarketByAccount(w.Ctx, account)
	//@ ensures scope: !w.Other && w.Writes == 0
	//@ ensures found: err == nil ==> (m != nil) == known
	//@ ensures row: err == nil && known ==> vcSameMarket(*m, row) && priced && vcSame(m.Price, prices)
	//@ ensures strategy: err == nil && known ==> vcStrategies(*m, row)
	//@ ensures does: !w.BadGet && !w.BadPrice && (!known || priced) ==> err == nil
	//@ ensures nothing: err != nil ==> m == nil
}

// vcMarketStep: what the caller of UpdateMarket does with the market.
type vcMarketStep struct {
	Fails  bool
	InPlace bool
	Given  domain.Market
	Answer *domain.Market
	Calls  int
}

//@ contract C08 stub=(*github.com/timshannon/badgerhold/v2.Store).Get:vcTGet,(*github.com/timshannon/badgerhold/v2.Store).TxGet:vcTTxGet,(*github.com/timshannon/badgerhold/v2.Store).Update:vcTUpdate,(*github.com/timshannon/badgerhold/v2.Store).TxUpdate:vcTTxUpdate
func vcUpdateMarket(w *vcTables, st *vcMarketStep, account, who int) {
	//@ requires vcTReady(w) && st != nil && st.Calls == 0 && st.Answer != nil && w.Conflicts == 0
	vcT = w
	row, known := w.Markets[account]
	prices, priced := w.Prices[account]
	before, had := w.Markets[who]
	theirs, theirsToo := w.Prices[who]
	answer := *st.Answer
	repo := NewMarketRepositoryImpl(w.Main, w.PriceDb)
	//@ call
	err := repo.UpdateMarket(w.Ctx, account, func(m *domain.Market) (*domain.Market, error) {
		st.Calls++
		st.Given = *m
		if st.Fails {
			return nil, errors.New("refused")
		}
		if st.InPlace {
			*m = answer
			return m, nil
		}
		return st.Answer, nil
	})
	after, has := w.Markets[who]
	now, still := w.Prices[who]
	//@ ensures scope: !w.Other
	//@ ensures given: st.Calls == 1 ==> vcSameMarket(st.Given, row) && priced && vcSame(st.Given.Price, prices) && st.Given.Strategy.Type == row.Strategy.Type
	//@ ensures stored: err == nil && who == account ==> has && vcSameMarket(after, answer) && after.Strategy.Type == answer.Strategy.Type && st.Calls == 1 && !st.Fails
	//@ ensures others: who != account || err != nil ==> has == had && vcSameMarket(after, before) && after.Strategy.Type == before.Strategy.Type
	//@ ensures prices: still == theirsToo && vcSame(now, theirs)
	//@ ensures done: (err == nil) == (known && priced && !w.BadGet && !w.BadPrice && !st.Fails && !w.BadPut)
}

//@ contract C08 stub=(*github.com/timshannon/badgerhold/v2.Store).Upsert:vcTUpsert,(*github.com/timshannon/badgerhold/v2.Store).TxUpsert:vcTTxUpsert
func vcPutPrices(w *vcTables, account, who int, p domain.Prices) {
	//@ requires vcTReady(w)
	vcT = w
	before, had := w.Prices[who]
	repo := NewMarketRepositoryImpl(w.Main, w.PriceDb)
	//@ call
	err := repo.UpdatePrices(w.Ctx, account, p)
	after, has := w.Prices[who]
	//@ ensures scope: !w.Other
	//@ ensures stored: err == nil && who == account ==> has && vcSame(after, p)
	//@ ensures others: who != account || err != nil ==> has == had && vcSame(after, before)
	//@ ensures done: (err == nil) == !w.BadPrice
}

//@ contract C08 stub=(*github.com/timshannon/badgerhold/v2.Store).Get:vcTGet,(*github.com/timshannon/badgerhold/v2.Store).TxGet:vcTTxGet,(*github.com/timshannon/badgerhold/v2.Store).Insert:vcTInsert,(*github.com/timshannon/badgerhold/v2.Store).TxInsert:vcTTxInsert,(*github.com/timshannon/badgerhold/v2.Store).Upsert:vcTUpsert,(*github.com/timshannon/badgerhold/v2.Store).TxUpsert:vcTTxUpsert
func vcOpenAccount(w *vcTables, asked *domain.Market, who int) {
	//@ requires vcTReady(w) && w.Conflicts == 0
	vcT = w
	before, had := w.Markets[who]
	theirs, theirsToo := w.Prices[who]
	account, fee := 0, int64(0)
	if asked != nil {
		account, fee = asked.AccountIndex, asked.Fee
	}
	row, known := w.Markets[account]
	repo := NewMarketRepositoryImpl(w.Main, w.PriceDb)
	//@ call
	m, err := repo.GetOrCreateMarket(w.Ctx, asked)
	after, has := w.Markets[who]
	now, still := w.Prices[who]
	//@ ensures scope: !w.Other
	//@ ensures found: err == nil && known ==> m != nil && vcSameMarket(*m, row) && w.Writes == 0
	//@ ensures made: err == nil && !known ==> m != nil && m.AccountIndex == account && m.Fee == fee && !m.Tradable && m.BaseAsset == "" && m.QuoteAsset == ""
	//@ ensures stored: err == nil && !known && who == account ==> has && vcSameMarket(after, *m) && still
	//@ ensures kept: had ==> has && vcSameMarket(after, before) && still == theirsToo && vcSame(now, theirs)
	//@ ensures others: who != account ==> has == had && still == theirsToo && vcSame(now, theirs)
	//@ ensures refused: asked == nil ==> err != nil
	//@ ensures nothing: err != nil ==> m == nil
}

//@ contract C08 stub=(*github.com/timshannon/badgerhold/v2.Store).Get:vcTGet,(*github.com/timshannon/badgerhold/v2.Store).TxGet:vcTTxGet,(*github.com/timshannon/badgerhold/v2.Store).Find:vcTFind,(*github.com/timshannon/badgerhold/v2.Store).TxFind:vcTTxFind,github.com/timshannon/badgerhold/v2.Where:vcTWhere,(*github.com/timshannon/badgerhold/v2.Query).And:vcTAnd,(*github.com/timshannon/badgerhold/v2.Criterion).Eq:vcTEq,(*github.com/timshannon/badgerhold/v2.Criterion).Ge:vcTGe,(*github.com/timshannon/badgerhold/v2.Query).SortBy:vcTSort,(*github.com/timshannon/badgerhold/v2.Query).Reverse:vcTReverse
func vcFindMarkets(w *vcTables, which int, key string, at int, some domain.Market) {
	//@ requires vcTReady(w) && 0 <= which && which < 4 && len(w.Mkts) < 1<<30 && at >= 0
	//@ requires vcForall(0, len(w.Mkts), func(k int) bool { _, ok := w.Prices[w.Mkts[k].AccountIndex]; return ok })
	vcT = w
	repo := NewMarketRepositoryImpl(w.Main, w.PriceDb)
	//@ invariant (markets []domain.Market, i int): 0 <= i && i <= len(w.Mkts) && len(markets) == len(w.Mkts) && vcForall(i, len(markets), func(k int) bool { return vcSameMarket(markets[k], w.Mkts[k]) && markets[k].Strategy.Type == w.Mkts[k].Strategy.Type })
	//@ invariant (markets []domain.Market, i int): at < i && at < len(markets) ==> vcSameMarket(markets[at], w.Mkts[at]) && markets[at].Strategy.Type == w.Mkts[at].Strategy.Type && vcSame(markets[at].Price, w.Prices[w.Mkts[at].AccountIndex])
	//@ call
	var list []domain.Market
	var one *domain.Market
	var account int
	var err error
	want := true
	if which == 0 {
		list, err = repo.GetAllMarkets(w.Ctx)
		want = some.AccountIndex >= 5
	} else if which == 1 {
		list, err = repo.GetTradableMarkets(w.Ctx)
		want = some.AccountIndex >= 5 && some.Tradable
	} else if which == 2 {
		one, account, err = repo.GetLatestMarket(w.Ctx)
		want = some.AccountIndex >= 5
	} else {
		one, account, err = repo.GetMarketByAsset(w.Ctx, key)
		want = some.QuoteAsset == key
	}
	up := !w.BadGet && !w.BadPrice
	//@ ensures scope: !w.Other && w.Writes == 0
	//@ ensures asked: vcMarketHit(some) == want
	//@ ensures ordered: which == 2 ==> w.Sorted && w.Reversed
	//@ ensures list: up && which < 2 ==> err == nil && len(list) == len(w.Mkts) && (at >= len(list) || vcSameMarket(list[at], w.Mkts[at]) && vcSame(list[at].Price, w.Prices[w.Mkts[at].AccountIndex]) && list[at].Strategy.Type == w.Mkts[at].Strategy.Type)
	//@ ensures one: up && which >= 2 && len(w.Mkts) > 0 && at == 0 ==> err == nil && one != nil && vcSameMarket(*one, w.Mkts[0]) && account == w.Mkts[0].AccountIndex && vcSame(one.Price, w.Prices[account])
	//@ ensures none: up && which >= 2 && len(w.Mkts) == 0 ==> err == nil && one == nil && (which == 3 && account == -1 || which == 2 && account == 4)
	//@ ensures down: w.BadGet ==> err != nil && one == nil && len(list) == 0
}

//@ contract C08 stub=(internal/infrastructure/storage/db/badger.marketRepositoryImpl).findMarkets:vcFindsMarkets,github.com/timshannon/badgerhold/v2.Where:vcTWhere,(*github.com/timshannon/badgerhold/v2.Criterion).Eq:vcTEq,(*github.com/timshannon/badgerhold/v2.Store).Update:vcTUpdate,(*github.com/timshannon/badgerhold/v2.Store).TxUpdate:vcTTxUpdate
func vcOpenClose(w *vcTables, asset string, open bool, who int, some domain.Market) {
	//@ requires vcTReady(w) && w.Conflicts == 0 && len(w.Mkts) < 1<<30
	vcT = w
	//@ requires len(w.Mkts) > 0 ==> vcRowOf(w.Mkts[0])
	account := -1
	if len(w.Mkts) > 0 {
		account = w.Mkts[0].AccountIndex
	}
	before, had := w.Markets[who]
	repo := NewMarketRepositoryImpl(w.Main, w.PriceDb)
	//@ call
	var err error
	if open {
		err = repo.OpenMarket(w.Ctx, asset)
	} else {
		err = repo.CloseMarket(w.Ctx, asset)
	}
	after, has := w.Markets[who]
	//@ ensures scope: !w.Other
	//@ ensures asked: vcMarketHit(some) == (some.QuoteAsset == asset)
	//@ ensures kept: has == had && vcSameMarket(vcWith(after, before.Tradable), before) && after.Strategy.Type == before.Strategy.Type
	//@ ensures done: err == nil && len(w.Mkts) > 0 && who == account ==> after.Tradable == open
	//@ ensures others: who != account || len(w.Mkts) == 0 || err != nil ==> after.Tradable == before.Tradable
}

func vcWith(m domain.Market, tradable bool) domain.Market {
	m.Tradable = tradable
	return m
}

// vcRowOf: what was found is what is stored.
func vcRowOf(m domain.Market) bool {
	row, ok := vcT.Markets[m.AccountIndex]
	return ok && vcSameMarket(row, m) && row.Strategy.Type == m.Strategy.Type
}

func vcFindsMarkets(m marketRepositoryImpl, ctx context.Context, query *badgerhold.Query) ([]domain.Market, error) {
	if query != vcT.Query || m.store != vcT.Main || m.priceStore != vcT.PriceDb || ctx != context.Context(vcT.Ctx) {
		vcT.Other = true
	}
	if vcT.BadGet {
		return nil, errors.New("down")
	}
	return vcT.Mkts, nil
}

// ---- C13, C08: the vault.

func vcSameVault(a, b domain.Vault) bool {
	return a.EncryptedMnemonic == b.EncryptedMnemonic && vcSame(a.PassphraseHash, b.PassphraseHash) && vcSame(a.Accounts, b.Accounts) && vcSame(a.AccountAndKeyByAddress, b.AccountAndKeyByAddress)
}

type vcVaultStep struct {
	Fails  bool
	InPlace bool
	Given  domain.Vault
	Answer *domain.Vault
	Calls  int
}

//@ contract C08 stub=(*github.com/timshannon/badgerhold/v2.Store).Get:vcTGet,(*github.com/timshannon/badgerhold/v2.Store).TxGet:vcTTxGet,(*github.com/timshannon/badgerhold/v2.Store).Update:vcTUpdate,(*github.com/timshannon/badgerhold/v2.Store).TxUpdate:vcTTxUpdate
func vcUpdateVault(w *vcTables, st *vcVaultStep) {
	//@ requires vcTReady(w) && st != nil && st.Calls == 0 && st.Answer != nil && w.Conflicts == 0
	vcT = w
	before, had := w.Vault, w.HasVault
	answer := *st.Answer
	repo := NewVaultRepositoryImpl(w.Main)
	//@ call
	err := repo.UpdateVault(w.Ctx, func(v *domain.Vault) (*domain.Vault, error) {
		st.Calls++
		st.Given = *v
		if st.Fails {
			return nil, errors.New("refused")
		}
		if st.InPlace {
			*v = answer
			return v, nil
		}
		return st.Answer, nil
	})
	//@ ensures scope: !w.Other
	//@ ensures given: st.Calls == 1 ==> had && vcSameVault(st.Given, before)
	//@ ensures stored: err == nil ==> w.HasVault && vcSameVault(w.Vault, answer)
	//@ ensures refused: err != nil ==> w.HasVault == had && vcSameVault(w.Vault, before)
	//@ ensures done: (err == nil) == (had && !w.BadGet && !st.Fails && !w.BadPut)
}

func vcNewVault(mnemonic []string, passphrase string, net *network.Network) (*domain.Vault, error) {
	if vcT.Fails {
		return nil, errors.New("refused")
	}
	return &domain.Vault{EncryptedMnemonic: "made for " + passphrase}, nil
}

//@ contract C08 stub=(*github.com/timshannon/badgerhold/v2.Store).Get:vcTGet,(*github.com/timshannon/badgerhold/v2.Store).TxGet:vcTTxGet,(*github.com/timshannon/badgerhold/v2.Store).Insert:vcTInsert,(*github.com/timshannon/badgerhold/v2.Store).TxInsert:vcTTxInsert,internal/core/domain.NewVault:vcNewVault
func vcGetVault(w *vcTables, words []string, pass string, net *network.Network) {
	//@ requires vcTReady(w) && w.Conflicts == 0
	vcT = w
	before, had := w.Vault, w.HasVault
	repo := NewVaultRepositoryImpl(w.Main)
	//@ call
	v, err := repo.GetOrCreateVault(w.Ctx, words, pass, net)
	//@ ensures scope: !w.Other
	//@ ensures found: err == nil && had ==> v != nil && vcSameVault(*v, before) && vcSameVault(w.Vault, before) && w.HasVault && w.Writes == 0
	//@ ensures made: err == nil && !had ==> v != nil && w.HasVault && vcSameVault(w.Vault, *v) && v.EncryptedMnemonic == "made for "+pass
	//@ ensures nothing: err != nil ==> v == nil && w.HasVault == had && (!had || vcSameVault(w.Vault, before))
}

var _ = marketmaking.MakingStrategy{}
