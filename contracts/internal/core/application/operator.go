//go:build go1.22

package application

import (
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
	"github.com/vulpemventures/go-elements/transaction"
	"context"
	"encoding/hex"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
)

func vcOperator(v *vcVaults, m *vcMarkets, t *vcTrades, fee int64) *operatorService {
	return &operatorService{repoManager: &vcWorld{V: v, M: m, T: t}, marketBaseAsset: "base", marketFee: fee}
}

// vcGood: the request names the daemon's base asset and two well formed assets.
func vcGood(base, quote string) bool {
	return validateAssetString(base) == nil && validateAssetString(quote) == nil && base == "base"
}

func vcSameMarket(a, b domain.Market) bool {
	return a.AccountIndex == b.AccountIndex && a.BaseAsset == b.BaseAsset && a.QuoteAsset == b.QuoteAsset &&
		a.Fee == b.Fee && a.FixedFee == b.FixedFee && a.Tradable == b.Tradable && a.Strategy.Type == b.Strategy.Type &&
		vcQeq(vcQd(a.Price.BasePrice), vcQd(b.Price.BasePrice)) && vcQeq(vcQd(a.Price.QuotePrice), vcQd(b.Price.QuotePrice))
}

func vcReplies(r *MarketWithFee, m domain.Market) bool {
	return r.BaseAsset == m.BaseAsset && r.QuoteAsset == m.QuoteAsset && r.BasisPoint == m.Fee &&
		r.FixedBaseFee == m.FixedFee.BaseFee && r.FixedQuoteFee == m.FixedFee.QuoteFee
}

//@ contract C22 opaque=internal/core/application.validateAssetString
func vcSetPercentageFee(m *vcMarkets, req MarketWithFee) {
	//@ requires m != nil && m.Market != nil && m.Writes == 0
	o := vcOperator(nil, m, nil, 0)
	want := *m.Market
	refused := want.ChangeFeeBasisPoint(req.BasisPoint) != nil
	//@ call
	res, err := o.UpdateMarketPercentageFee(context.Background(), req)
	//@ letb can = vcGood(req.BaseAsset, req.QuoteAsset) && !m.Fails && m.Account >= 0 && !refused && !m.WriteFails
	//@ ensures served: (err == nil) == can
	//@ ensures nothing: err != nil ==> m.Writes == 0 && res == nil
	//@ ensures stored: err == nil ==> m.Writes == 1 && m.Asked == req.QuoteAsset && m.WriteAt == m.Account && vcSameMarket(*m.Written, want) && m.Written.Fee == req.BasisPoint
	//@ ensures reply: err == nil ==> res != nil && vcReplies(res, want)
}

//@ contract C22 opaque=internal/core/application.validateAssetString
func vcSetFixedFee(m *vcMarkets, req MarketWithFee) {
	//@ requires m != nil && m.Market != nil && m.Writes == 0
	o := vcOperator(nil, m, nil, 0)
	want := *m.Market
	refused := want.ChangeFixedFee(req.FixedBaseFee, req.FixedQuoteFee) != nil
	//@ call
	res, err := o.UpdateMarketFixedFee(context.Background(), req)
	//@ letb can = vcGood(req.BaseAsset, req.QuoteAsset) && !m.Fails && m.Account >= 0 && !refused && !m.WriteFails
	//@ ensures served: (err == nil) == can
	//@ ensures nothing: err != nil ==> m.Writes == 0 && res == nil
	//@ ensures stored: err == nil ==> m.Writes == 1 && m.Asked == req.QuoteAsset && m.WriteAt == m.Account && vcSameMarket(*m.Written, want)
	//@ ensures fees: err == nil ==> m.Written.FixedFee.BaseFee == req.FixedBaseFee && m.Written.FixedFee.QuoteFee == req.FixedQuoteFee
	//@ ensures reply: err == nil ==> res != nil && vcReplies(res, want)
}

// vcPositive: a price an operator can set.
func vcPositive(d decimal.Decimal) bool {
	return vcQlt(vcQi(0), vcQd(d)) && vcQle(vcQd(d), vcQi(2099999997690000))
}

//@ contract C22 opaque=internal/core/application.validateAssetString
func vcSetPrice(m *vcMarkets, req MarketWithPrice) {
	//@ requires m != nil && m.Writes == 0
	o := vcOperator(nil, m, nil, 0)
	//@ call
	err := o.UpdateMarketPrice(context.Background(), req)
	//@ letb can = vcGood(req.BaseAsset, req.QuoteAsset) && !m.Fails && m.Account >= 0 && !m.WriteFails && vcPositive(req.BasePrice) && vcPositive(req.QuotePrice)
	//@ ensures served: (err == nil) == can
	//@ ensures nothing: err != nil ==> m.Writes == 0
	//@ ensures stored: err == nil ==> m.Writes == 1 && m.Asked == req.QuoteAsset && m.WriteAt == m.Account && vcQeq(vcQd(m.Prices.BasePrice), vcQd(req.BasePrice)) && vcQeq(vcQd(m.Prices.QuotePrice), vcQd(req.QuotePrice))
}

//@ contract C22 opaque=internal/core/application.validateAssetString
func vcSetStrategy(m *vcMarkets, req MarketStrategy) {
	//@ requires m != nil && m.Market != nil && m.Writes == 0
	o := vcOperator(nil, m, nil, 0)
	old := *m.Market
	want := old
	refused := true
	if req.Strategy == domain.StrategyTypePluggable {
		refused = want.MakeStrategyPluggable() != nil
	}
	if req.Strategy == domain.StrategyTypeBalanced {
		refused = want.MakeStrategyBalanced() != nil
	}
	//@ call
	err := o.UpdateMarketStrategy(context.Background(), req)
	//@ letb can = vcGood(req.BaseAsset, req.QuoteAsset) && !m.Fails && m.Account >= 0 && !refused && !m.WriteFails
	//@ ensures served: (err == nil) == can
	//@ ensures nothing: err != nil ==> m.Writes == 0
	//@ ensures stored: err == nil ==> m.Writes == 1 && m.Asked == req.QuoteAsset && m.WriteAt == m.Account && vcSameMarket(*m.Written, want)
}

//@ contract C22 opaque=internal/core/application.validateAssetString
func vcOpen(v *vcVaults, m *vcMarkets, base, quote string) {
	//@ requires m != nil && v != nil && m.Writes == 0
	o := vcOperator(v, m, nil, 0)
	//@ call
	err := o.OpenMarket(context.Background(), base, quote)
	//@ letb can = vcGood(base, quote) && !v.FeeFails && !m.Fails && m.Market != nil && !m.WriteFails
	//@ ensures served: (err == nil) == can
	//@ ensures nothing: err != nil ==> m.Writes == 0
	//@ ensures opened: err == nil ==> m.Writes == 1 && m.Asked == quote && m.Opened == quote
}

//@ contract C22 opaque=internal/core/application.validateAssetString
func vcClose(m *vcMarkets, base, quote string) {
	//@ requires m != nil && m.Writes == 0
	o := vcOperator(nil, m, nil, 0)
	//@ call
	err := o.CloseMarket(context.Background(), base, quote)
	//@ ensures served: (err == nil) == (vcGood(base, quote) && !m.WriteFails)
	//@ ensures nothing: err != nil ==> m.Writes == 0
	//@ ensures closed: err == nil ==> m.Writes == 1 && m.Closed == quote
}

// vcDeriver: the addresses a vault derives one after the other, as said by the
// contract of the vault (C13).
type vcDeriver struct {
	Vault   *domain.Vault
	Account int
	Addrs   []string
	Keys    [][]byte
	Scripts []string
	Limit   int // derivations that succeed
	Count   int
	Astray  bool // another vault or account was used
}

var vcAddresses *vcDeriver

func vcNextAddress(v *domain.Vault, account int) (*domain.AddressInfo, error) {
	d := vcAddresses
	if v != d.Vault || account != d.Account {
		d.Astray = true
	}
	if d.Count >= d.Limit {
		return nil, vcAnError
	}
	k := d.Count
	d.Count++
	return &domain.AddressInfo{AccountIndex: account, Address: d.Addrs[k], BlindingKey: d.Keys[k], Script: d.Scripts[k]}, nil
}

func vcGives(d *vcDeriver, k int, a AddressAndBlindingKey) bool {
	return a.Address == d.Addrs[k] && a.BlindingKey == hex.EncodeToString(d.Keys[k])
}

//@ contract C22 opaque=internal/core/application.validateAssetString stub=(*internal/core/domain.Vault).DeriveNextExternalAddressForAccount:vcNextAddress
func vcDepositMarket(v *vcVaults, m *vcMarkets, d *vcDeriver, base, quote string, n int, fee int64) {
	//@ requires m != nil && v != nil && v.Vault != nil && m.Created == 0 && v.Stored == 0
	//@ requires d != nil && d.Vault == v.Vault && d.Count == 0 && !d.Astray && d.Limit >= 0
	//@ requires len(d.Addrs) == d.Limit && len(d.Keys) == d.Limit && len(d.Scripts) == d.Limit && n < 1<<20
	//@ requires m.Latest < 1<<40
	vcAddresses = d
	o := vcOperator(v, m, nil, fee)
	named := base != "" || quote != ""
	account := m.Latest + 1
	if named {
		account = m.Account
	}
	//@ assume d.Account == account
	want := n
	if n <= 0 {
		want = 1
	}
	//@ invariant (list []AddressAndBlindingKey, i int): d.Count == i && !d.Astray && i <= d.Limit && vcForall(0, i, func(j int) bool { return vcGives(d, j, list[j]) })
	//@ call
	list, err := o.DepositMarket(context.Background(), base, quote, n)
	//@ letb known = named ==> vcGood(base, quote) && m.Account != -1
	//@ letb can = known && !m.Fails && !v.Fails && want <= d.Limit
	//@ ensures served: (err == nil) == can
	//@ ensures asked: err == nil && named ==> m.Asked == quote
	//@ ensures all: err == nil ==> len(list) == want
	//@ ensures addresses: err == nil ==> !d.Astray && vcForall(0, want, func(j int) bool { return vcGives(d, j, list[j]) })
	//@ ensures nothing: err != nil ==> list == nil
	if err == nil {
		vcRunGo(0)
		vcRunGo(1)
	}
	//@ ensures stored: err == nil && !m.WriteFails ==> m.Created == 1 && m.CreatedM.AccountIndex == account && m.CreatedM.Fee == fee && v.Stored == 1 && v.StoredVault == v.Vault
	//@ ensures kept: err != nil ==> v.Stored == 0 && m.Created == 0
}

//@ contract C22 stub=(*internal/core/domain.Vault).DeriveNextExternalAddressForAccount:vcNextAddress
func vcDepositFee(v *vcVaults, d *vcDeriver, n int) {
	//@ requires v != nil && v.Vault != nil && v.Stored == 0 && n < 1<<20
	//@ requires d != nil && d.Vault == v.Vault && d.Account == domain.FeeAccount && d.Count == 0 && !d.Astray && d.Limit >= 0
	//@ requires len(d.Addrs) == d.Limit && len(d.Keys) == d.Limit && len(d.Scripts) == d.Limit
	vcAddresses = d
	o := vcOperator(v, nil, nil, 0)
	want := n
	if n <= 0 {
		want = 1
	}
	//@ invariant (list []AddressAndBlindingKey, i int): d.Count == i && !d.Astray && i <= d.Limit && vcForall(0, i, func(j int) bool { return vcGives(d, j, list[j]) })
	//@ call
	list, err := o.DepositFeeAccount(context.Background(), n)
	//@ ensures served: (err == nil) == (!v.Fails && want <= d.Limit)
	//@ ensures addresses: err == nil ==> len(list) == want && !d.Astray && vcForall(0, want, func(j int) bool { return vcGives(d, j, list[j]) })
	//@ ensures nothing: err != nil ==> list == nil
	if err == nil {
		vcRunGo(0)
		vcRunGo(1)
	}
	//@ ensures stored: err == nil ==> v.Stored == 1 && v.StoredVault == v.Vault
	//@ ensures kept: err != nil ==> v.Stored == 0
}

// ---- deposits

type vcTx struct {
	explorer.Transaction
	Outs []*transaction.TxOutput
}

func (t *vcTx) Outputs() []*transaction.TxOutput { return t.Outs }

// vcChain: an explorer that knows some transactions.
type vcChain struct {
	explorer.Service
	Txs       map[string]*vcTx
	Confirmed map[string]bool
}

func (x *vcChain) IsTransactionConfirmed(id string) (bool, error) {
	if _, ok := x.Txs[id]; !ok {
		return false, vcAnError
	}
	return x.Confirmed[id], nil
}
func (x *vcChain) GetTransaction(id string) (explorer.Transaction, error) {
	t, ok := x.Txs[id]
	if !ok {
		return nil, vcAnError
	}
	return t, nil
}

// vcPaid: the outpoint is an output of a confirmed transaction.
func vcPaid(x *vcChain, o TxOutpoint) bool {
	t, ok := x.Txs[o.Hash]
	return ok && x.Confirmed[o.Hash] && 0 <= o.Index && o.Index < len(t.Outs)
}

// vcPays: and it pays an address of the account.
func vcPays(x *vcChain, o TxOutpoint, owner map[string]int, account int) bool {
	if !vcPaid(x, o) {
		return false
	}
	a, ok := owner[hex.EncodeToString(x.Txs[o.Hash].Outs[o.Index].Script)]
	return ok && a == account
}

func vcDeposited(u domain.Unspent, o TxOutpoint, r UnblindedResult, in domain.AddressInfo) bool {
	return u.TxID == o.Hash && u.VOut == uint32(o.Index) && u.Value == r.Value && u.AssetHash == r.AssetHash && u.Address == in.Address && u.Confirmed && !u.Spent && !u.Locked
}

// vcOpener: what is in each output, for who has the key of its script.
type vcOpener struct {
	Plain map[*transaction.TxOutput]UnblindedResult
	Wrong bool // another key was used
}

func (b *vcOpener) UnblindOutput(out *transaction.TxOutput, key []byte) (UnblindedResult, bool) {
	if !vcSame(vcScripts.Info[hex.EncodeToString(out.Script)].BlindingKey, key) {
		b.Wrong = true
	}
	r, ok := b.Plain[out]
	return r, ok
}

// vcKnown: the account of each script, and all that is known of it.
type vcKnown struct {
	Owner map[string]int
	Info  map[string]domain.AddressInfo
}

var vcScripts *vcKnown

func vcKnows(k *vcKnown, in domain.AddressInfo) bool {
	o, has := k.Owner[in.Script]
	b, is := k.Info[in.Script]
	return has && is && o == in.AccountIndex && vcSameInfo(b, in)
}

func vcAgrees(g map[string]domain.AddressInfo, k *vcKnown) bool {
	return vcForallKey(g, func(s string) bool {
		in, ok := g[s]
		return !ok || in.Script == s && vcKnows(k, in)
	})
}

// The scripts of addresses that are all known are grouped as they are known.
//
//@ contract C22
func vcGroupKnown(info domain.AddressesInfo, k *vcKnown) {
	//@ requires k != nil && vcForall(0, len(info), func(i int) bool { return vcKnows(k, info[i]) })
	//@ invariant (group map[string]domain.AddressInfo, info domain.AddressesInfo, i int): vcAgrees(group, k)
	//@ call
	g := groupAddressesInfoByScript(info)
	//@ ensures known: g != nil && vcAgrees(g, k)
}

// vcGroups: that contract, for the addresses of any account (all known).
func vcGroups(info domain.AddressesInfo) map[string]domain.AddressInfo {
	g := vcAny[map[string]domain.AddressInfo]()
	vcAssume(func() bool { return g != nil && vcAgrees(g, vcScripts) })
	return g
}

// vcBrings: the unspent is the outpoint, worth what its owner sees in it.
func vcBrings(x *vcChain, b *vcOpener, o TxOutpoint, u domain.Unspent) bool {
	out := x.Txs[o.Hash].Outs[o.Index]
	in := vcScripts.Info[hex.EncodeToString(out.Script)]
	return vcDeposited(u, o, b.Plain[out], in)
}

// The market that is funded, and with what.
type vcFunding struct {
	Calls   int
	Account int
	Outs    []domain.Unspent
	Fails   bool
}

var vcFunds *vcFunding

func vcFund(o *operatorService, account int, outs []domain.Unspent) error {
	if vcFunds.Fails {
		return vcAnError
	}
	vcFunds.Calls++
	vcFunds.Account = account
	vcFunds.Outs = outs
	return nil
}

func vcWatchBalance(o *operatorService, info domain.AddressesInfo) error {
	return vcE(vcAny[bool]())
}

//@ contract C22 opaque=pkg/bufferutil.CommitmentFromBytes stub=internal/core/application.groupAddressesInfoByScript:vcGroups,(*internal/core/application.operatorService).fundMarket:vcFund,(*internal/core/application.operatorService).checkAccountBalance:vcWatchBalance
func vcClaim(x *vcChain, b *vcOpener, u *vcUtxoSet, f *vcFunding, infos map[int]domain.AddressesInfo, outpoints []TxOutpoint, depositType int, k *vcKnown) {
	//@ requires k != nil && x != nil && b != nil && !b.Wrong && u != nil && f != nil && f.Calls == 0 && u.Adds == 0
	//@ requires depositType == marketDeposit || depositType == feeDeposit
	//@ requires vcForallKey(x.Txs, func(h string) bool { t, ok := x.Txs[h]; return !ok || t != nil && vcForall(0, len(t.Outs), func(i int) bool { return t.Outs[i] != nil }) })
	//@ requires vcForallKey(b.Plain, func(t *transaction.TxOutput) bool { r, ok := b.Plain[t]; return !ok || r != nil })
	vcScripts = k
	vcFunds = f
	owner := k.Owner
	o := &operatorService{repoManager: &vcPlace{U: u}, explorerSvc: x, marketBaseAsset: "base"}
	BlinderManager = b
	//@ invariant (infoByScript map[string]domain.AddressInfo): vcAgrees(infoByScript, k)
	//@ invariant (counter map[int]int, i int): vcForall(0, i, func(j int) bool { return vcPaid(x, outpoints[j]) })
	//@ invariant (counter map[int]int, unspents []domain.Unspent, i int): vcForallKey(counter, func(a int) bool { c, ok := counter[a]; return (c == 0 || ok) && (!ok || c >= 1) && c >= 0 && c <= i && (c < i || vcForall(0, i, func(j int) bool { return vcPays(x, outpoints[j], owner, a) && vcBrings(x, b, outpoints[j], unspents[j]) })) })
	//@ invariant (unspents []domain.Unspent, i int): !b.Wrong
	//@ call
	err := o.claimDeposit(context.Background(), infos, outpoints, depositType)
	//@ ensures confirmed: err == nil ==> len(outpoints) > 0 && vcForall(0, len(outpoints), func(j int) bool { return vcPaid(x, outpoints[j]) })
	//@ ensures key: !b.Wrong
	//@ ensures refused: err != nil ==> f.Calls == 0
	//@ ensures market: err == nil && depositType == marketDeposit ==> f.Calls == 1 && len(f.Outs) == len(outpoints) && vcForall(0, len(outpoints), func(j int) bool { return vcPays(x, outpoints[j], owner, f.Account) })
	//@ ensures fee: depositType == feeDeposit ==> f.Calls == 0
	if err == nil {
		vcRunGo(0)
		vcRunGo(1)
	}
	//@ ensures added: err == nil ==> u.Adds == 1 && len(u.Added) == len(outpoints)
	//@ ensures worth: err == nil ==> vcForall(0, len(outpoints), func(j int) bool { return vcBrings(x, b, outpoints[j], u.Added[j]) })
	//@ ensures none: err != nil ==> u.Adds == 0
}

// vcAttached: what a market was last funded with (C01 says what that does to it).
type vcAttached struct {
	Calls int
	To    *domain.Market
	Outs  []domain.OutpointWithAsset
	Base  string
	Fails bool
}

var vcAttaching *vcAttached

func vcAttach(m *domain.Market, outs []domain.OutpointWithAsset, base string) error {
	a := vcAttaching
	a.Calls++
	a.To, a.Outs, a.Base = m, outs, base
	return vcE(a.Fails)
}

//@ contract C22 stub=(*internal/core/domain.Market).FundMarket:vcAttach
func vcFundDeposit(m *vcMarkets, a *vcAttached, account int, outs []domain.Unspent) {
	//@ requires m != nil && m.Market != nil && m.Writes == 0 && len(outs) < 1<<30 && a != nil && a.Calls == 0
	//@ invariant (outpoints []domain.OutpointWithAsset, unspents []domain.Unspent, i int): len(outpoints) == i
	//@ invariant (outpoints []domain.OutpointWithAsset, unspents []domain.Unspent, i int): vcForall(0, i, func(j int) bool { return outpoints[j].Asset == unspents[j].AssetHash && outpoints[j].Txid == unspents[j].TxID && outpoints[j].Vout == int(unspents[j].VOut) })
	vcAttaching = a
	o := &operatorService{repoManager: &vcPlace{M: m}, marketBaseAsset: "base"}
	//@ call
	err := o.fundMarket(account, outs)
	//@ ensures served: (err == nil) == (!a.Fails && !m.WriteFails)
	//@ ensures refused: err != nil ==> m.Writes == 0
	//@ ensures stored: err == nil ==> m.Writes == 1 && m.WriteAt == account && m.Written == m.Market
	//@ ensures funded: a.Calls == 1 && a.To == m.Market && a.Base == "base" && len(a.Outs) == len(outs)
	//@ ensures with: vcForall(0, len(outs), func(j int) bool { return a.Outs[j].Asset == outs[j].AssetHash && a.Outs[j].Txid == outs[j].TxID && a.Outs[j].Vout == int(outs[j].VOut) })
}

// vcClaiming: the claim that was made.
type vcClaiming struct {
	Calls   int
	Infos   map[int]domain.AddressesInfo
	Outs    []TxOutpoint
	Type    int
	Refused bool
}

var vcClaimed *vcClaiming

func vcClaimOf(o *operatorService, ctx context.Context, infos map[int]domain.AddressesInfo, outs []TxOutpoint, t int) error {
	c := vcClaimed
	c.Calls++
	c.Infos, c.Outs, c.Type = infos, outs, t
	return vcE(c.Refused)
}

// vcBook: what the vault knows of each account.
type vcBook struct {
	Info  map[int]domain.AddressesInfo
	Vault *domain.Vault
	Astray bool
}

var vcAccounts *vcBook

func vcReceiving(v *domain.Vault, account int) (domain.AddressesInfo, error) {
	if v != vcAccounts.Vault {
		vcAccounts.Astray = true
	}
	info, ok := vcAccounts.Info[account]
	return info, vcE(!ok)
}

//@ contract C22 stub=(*internal/core/application.operatorService).claimDeposit:vcClaimOf
func vcClaimFee(v *vcVaults, c *vcClaiming, outs []TxOutpoint) {
	//@ requires v != nil && c != nil && c.Calls == 0
	vcClaimed = c
	o := vcOperator(v, nil, nil, 0)
	//@ call
	err := o.ClaimFeeDeposit(context.Background(), outs)
	//@ ensures served: (err == nil) == (!v.FeeFails && !c.Refused)
	//@ ensures claimed: err == nil ==> c.Calls == 1 && c.Type == feeDeposit && vcSame(c.Outs, outs) && len(c.Infos) == 1 && vcSame(c.Infos[domain.FeeAccount], v.FeeInfo)
}

//@ contract C22 opaque=internal/core/application.validateAssetString stub=(*internal/core/application.operatorService).claimDeposit:vcClaimOf,(*internal/core/domain.Vault).AllDerivedExternalAddressesInfoForAccount:vcReceiving
func vcClaimMarket(v *vcVaults, m *vcMarkets, c *vcClaiming, b *vcBook, req Market, outs []TxOutpoint) {
	//@ requires m != nil && m.Account != domain.FeeAccount
	//@ requires v != nil && m != nil && c != nil && c.Calls == 0 && b != nil && v.Vault == b.Vault && !b.Astray
	//@ requires vcForall(0, len(m.All), func(i int) bool { return vcForall(0, i, func(j int) bool { return m.All[i].AccountIndex != m.All[j].AccountIndex }) })
	vcClaimed = c
	vcAccounts = b
	o := vcOperator(v, m, nil, 0)
	//@ invariant (nonFunded []domain.Market, i int): vcForall(0, i, func(j int) bool { return m.All[j].IsFunded() || vcExists(0, len(nonFunded), func(k int) bool { return nonFunded[k].AccountIndex == m.All[j].AccountIndex }) })
	//@ invariant (nonFunded []domain.Market, i int): vcForall(0, len(nonFunded), func(k int) bool { return vcExists(0, i, func(j int) bool { return nonFunded[k].AccountIndex == m.All[j].AccountIndex && !m.All[j].IsFunded() }) })
	//@ invariant (infos map[int]domain.AddressesInfo, markets []domain.Market, i int): vcForall(0, i, func(k int) bool { in, ok := infos[markets[k].AccountIndex]; return ok && vcSame(in, b.Info[markets[k].AccountIndex]) })
	//@ invariant (infos map[int]domain.AddressesInfo, markets []domain.Market, i int): vcForallKey(infos, func(a int) bool { _, ok := infos[a]; return !ok || vcExists(0, i, func(k int) bool { return markets[k].AccountIndex == a }) }) && !b.Astray
	//@ call
	err := o.ClaimMarketDeposit(context.Background(), req, outs)
	//@ letb known = vcGood(req.BaseAsset, req.QuoteAsset) && !m.Fails && m.Market != nil
	//@ ensures claimed: err == nil ==> vcGood(req.BaseAsset, req.QuoteAsset) && m.Asked == req.QuoteAsset && c.Calls == 1 && c.Type == marketDeposit && vcSame(c.Outs, outs) && !b.Astray
	//@ ensures market: err == nil && m.Market != nil ==> len(c.Infos) == 1 && vcSame(c.Infos[m.Account], v.MktInfo) && v.Asked == m.Account
	//@ ensures every: err == nil && m.Market == nil ==> vcForall(0, len(m.All), func(j int) bool { in, ok := c.Infos[m.All[j].AccountIndex]; return m.All[j].IsFunded() || ok && vcSame(in, b.Info[m.All[j].AccountIndex]) })
	//@ ensures only: err == nil && m.Market == nil ==> vcForallKey(c.Infos, func(a int) bool { _, ok := c.Infos[a]; return !ok || vcExists(0, len(m.All), func(j int) bool { return m.All[j].AccountIndex == a && !m.All[j].IsFunded() }) })
	//@ ensures served: known && !v.MktFails && !c.Refused ==> err == nil
}
