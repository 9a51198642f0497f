//go:build go1.22

package application

import (
	"context"
	"encoding/hex"

	"github.com/btcsuite/btcd/btcec"
	"github.com/google/uuid"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/tdex-network/tdex-daemon/pkg/crawler"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/payment"
	"github.com/vulpemventures/go-elements/transaction"
)

// ---- the world around the listener

type vcCrawler struct {
	crawler.Service
	Events  chan crawler.Event
	Removed int
	Key     string
	Added   int
	AddedOf crawler.Observable
}

func (c *vcCrawler) GetEventChannel() chan crawler.Event { return c.Events }
func (c *vcCrawler) RemoveObservable(o crawler.Observable) {
	c.Removed++
	c.Key = o.Key()
}
func (c *vcCrawler) AddObservable(o crawler.Observable) {
	c.Added++
	c.AddedOf = o
}

type vcUtxoSet struct {
	domain.UnspentRepository
	Known        []domain.Unspent // what is known about the addresses asked for
	KnownFails   bool
	Asked        int
	AskedAddr    []string
	Confirms     int
	ConfirmKeys  []domain.UnspentKey
	ConfirmFails bool
	Adds         int
	Added        []domain.Unspent
	AddFails     bool
	Spends       int
	SpendKeys    []domain.UnspentKey
	SpendFails   bool
	Balance      uint64
	AskedAsset   string
	All          []domain.Unspent
	BalanceFails bool
}

func (r *vcUtxoSet) GetAllUnspentsForAddresses(ctx context.Context, addresses []string) ([]domain.Unspent, error) {
	r.Asked++
	r.AskedAddr = addresses
	return r.Known, vcE(r.KnownFails)
}
func (r *vcUtxoSet) ConfirmUnspents(ctx context.Context, keys []domain.UnspentKey) (int, error) {
	r.Confirms++
	r.ConfirmKeys = keys
	return len(keys), vcE(r.ConfirmFails)
}
func (r *vcUtxoSet) AddUnspents(ctx context.Context, u []domain.Unspent) error {
	r.Adds++
	r.Added = u
	return vcE(r.AddFails)
}
func (r *vcUtxoSet) SpendUnspents(ctx context.Context, keys []domain.UnspentKey) (int, error) {
	r.Spends++
	r.SpendKeys = keys
	return len(keys), vcE(r.SpendFails)
}
func (r *vcUtxoSet) GetBalance(ctx context.Context, addresses []string, asset string) (uint64, error) {
	r.AskedAddr = addresses
	r.AskedAsset = asset
	return r.Balance, vcE(r.BalanceFails)
}

type vcPlace struct {
	ports.RepoManager
	V *vcVaults
	M *vcMarkets
	U *vcUtxoSet
	T *vcTrades
}

func (w *vcPlace) VaultRepository() domain.VaultRepository     { return w.V }
func (w *vcPlace) MarketRepository() domain.MarketRepository   { return w.M }
func (w *vcPlace) UnspentRepository() domain.UnspentRepository { return w.U }
func (w *vcPlace) TradeRepository() domain.TradeRepository     { return w.T }

type vcExtractor struct {
	TransactionHandler
	Calls int
	Hex   string
	Info  map[string]domain.AddressInfo
	ToAdd []domain.Unspent
	Spent []domain.UnspentKey
	Fails bool
}

func (x *vcExtractor) ExtractUnspents(h string, info map[string]domain.AddressInfo, n *network.Network) ([]domain.Unspent, []domain.UnspentKey, error) {
	x.Calls++
	x.Hex = h
	x.Info = info
	if x.Fails {
		return nil, nil, vcAnError
	}
	return x.ToAdd, x.Spent, nil
}

// vcReader: the parser reads back a request from the stored message.
type vcReader struct {
	vcParser
	Req *vcReq
}

func (p *vcReader) DeserializeRequest(msg []byte) (domain.SwapRequest, error) { return p.Req, nil }

type vcTopic struct{ Of int }

func (t *vcTopic) Code() int     { return t.Of }
func (t *vcTopic) Label() string { return "topic" }

type vcHub struct {
	ports.SecurePubSub
	Published int
	Topic     string
	Fails     bool
}

func (h *vcHub) TopicsByCode() map[int]ports.Topic {
	return map[int]ports.Topic{TradeSettled: &vcTopic{TradeSettled}}
}
func (h *vcHub) Publish(topic, message string) error {
	h.Published++
	h.Topic = topic
	return vcE(h.Fails)
}

func vcOutputs(u []domain.Unspent, keys []domain.UnspentKey) bool {
	return len(keys) == len(u) && vcForall(0, len(u), func(i int) bool { return keys[i] == domain.UnspentKey{TxID: u[i].TxID, VOut: u[i].VOut} })
}

//@ contract C17 opaque=(*internal/core/domain.Vault).AllDerivedAddressesInfoForAccount
func vcConfirmOrAdd(v *vcVaults, m *vcMarkets, u *vcUtxoSet, x *vcExtractor, txHex, txID, asset string) {
	//@ requires v != nil && m != nil && u != nil && x != nil && v.Vault != nil
	//@ requires u.Asked == 0 && u.Confirms == 0 && u.Adds == 0 && u.Spends == 0 && x.Calls == 0
	b := &blockchainListener{repoManager: &vcPlace{V: v, M: m, U: u}}
	TransactionManager = x
	before := vcCloneSlice(x.ToAdd)
	//@ invariant (unspentAddresses []string, unspentsToAdd []domain.Unspent, i int): len(unspentAddresses) == len(unspentsToAdd)
	//@ invariant (unspentAddresses []string, unspentsToAdd []domain.Unspent, i int): len(unspentAddresses) == i
	//@ invariant (unspentAddresses []string, unspentsToAdd []domain.Unspent, i int): vcForall(0, i, func(j int) bool { return unspentAddresses[j] == unspentsToAdd[j].Address })
	//@ invariant (unspentKeys []domain.UnspentKey, unspentsToAdd []domain.Unspent, i int): len(unspentKeys) == len(unspentsToAdd)
	//@ invariant (unspentKeys []domain.UnspentKey, unspentsToAdd []domain.Unspent, i int): len(unspentKeys) == i
	//@ invariant (unspentKeys []domain.UnspentKey, unspentsToAdd []domain.Unspent, i int): vcForall(0, i, func(j int) bool { return unspentKeys[j] == domain.UnspentKey{TxID: unspentsToAdd[j].TxID, VOut: unspentsToAdd[j].VOut} })
	//@ call
	err := b.confirmOrAddUnspents(txHex, txID, asset)
	//@ ensures market: err == nil ==> m.Asked == asset && !m.Fails
	//@ ensures extracted: err == nil ==> x.Calls == 1 && x.Hex == txHex && !x.Fails
	//@ ensures asked: err == nil ==> u.Asked == 1 && len(u.AskedAddr) == len(before) && vcForall(0, len(before), func(i int) bool { return u.AskedAddr[i] == before[i].Address })
	//@ ensures confirmed: err == nil && len(u.Known) > 0 ==> u.Confirms == 1 && vcOutputs(before, u.ConfirmKeys)
	//@ ensures failed: u.KnownFails || m.Fails || x.Fails || v.Fails ==> err != nil
	//@ ensures unconfirmed: u.Confirms == 1 && u.ConfirmFails ==> err != nil
	//@ invariant (unspentsToAdd []domain.Unspent, i int): len(unspentsToAdd) == len(before) && vcForall(0, i, func(j int) bool { return unspentsToAdd[j].Confirmed && vcSameCoin(unspentsToAdd[j], before[j]) }) && vcForall(i, len(before), func(j int) bool { return vcSameCoin(unspentsToAdd[j], before[j]) })
	vcRunGo(0)
	vcRunGo(1)
	//@ ensures added: err == nil && len(u.Known) == 0 ==> u.Adds == 1 && len(u.Added) == len(before) && vcForall(0, len(before), func(i int) bool { return u.Added[i].Confirmed && vcSameCoin(u.Added[i], before[i]) })
	//@ ensures spent: err == nil && len(u.Known) == 0 ==> u.Spends == 1 && vcEqSlices(u.SpendKeys, x.Spent)
	//@ ensures once: u.Confirms+u.Adds <= 1 && (err != nil ==> u.Adds == 0 && u.Spends == 0)
}

func vcSameCoin(a, b domain.Unspent) bool {
	return a.TxID == b.TxID && a.VOut == b.VOut && a.Value == b.Value && a.AssetHash == b.AssetHash && a.Address == b.Address && a.Spent == b.Spent && a.Locked == b.Locked
}

//@ contract C17
func vcSettleTrade(t *vcTrades, e crawler.TransactionEvent, id uuid.UUID) {
	//@ requires t != nil && t.Trade != nil && t.Stored == 0 && t.Trade.Status.Code >= domain.Empty && t.Trade.Status.Code <= domain.Expired
	//@ requires e.BlockTime >= 0 && e.BlockTime < 1<<62
	b := &blockchainListener{repoManager: &vcPlace{T: t}}
	old := *t.Trade
	//@ call
	err := b.settleTrade(&id, e)
	//@ ensures stored: (err == nil) == (t.Stored == 1) && (err == nil ==> t.StoredID == id && t.StoredT == t.Trade)
	//@ ensures settled: err == nil ==> t.StoredT.Status.Code == domain.Settled
	//@ ensures time: err == nil && old.Status.Code != domain.Settled ==> t.StoredT.SettlementTime == uint64(e.BlockTime)
	//@ ensures hex: err == nil && old.Status.Code == domain.Accepted ==> t.StoredT.TxHex == e.TxHex
	//@ ensures kept: err == nil && old.Status.Code != domain.Accepted ==> t.StoredT.TxHex == old.TxHex
}

//@ contract C17 opaque=(*internal/core/domain.Vault).AllDerivedAddressesInfoForAccount
func vcListen(c *vcCrawler, v *vcVaults, m *vcMarkets, u *vcUtxoSet, t *vcTrades, x *vcExtractor, h *vcHub, r *vcReq, e crawler.TransactionEvent) {
	//@ requires c != nil && r != nil && v != nil && m != nil && u != nil && t != nil && x != nil && h != nil && v.Vault != nil && m.Market != nil && t.Trade != nil
	//@ requires u.Asked == 0 && u.Confirms == 0 && u.Adds == 0 && u.Spends == 0 && x.Calls == 0 && t.Stored == 0 && c.Removed == 0 && c.Added == 0 && h.Published == 0
	//@ requires e.BlockTime >= 0 && e.BlockTime < 1<<62
	//@ requires t.Trade.Status.Code > domain.Empty && t.Trade.Status.Code <= domain.Expired
	//@ requires e.EventType != crawler.CloseSignal
	domain.SwapParserManager = &vcReader{Req: r}
	TransactionManager = x
	c.Events = make(chan crawler.Event, 2)
	c.Events <- e
	c.Events <- crawler.CloseEvent{}
	b := &blockchainListener{crawlerSvc: c, repoManager: &vcPlace{V: v, M: m, U: u, T: t}, pubsubSvc: h}
	old := *t.Trade
	confirmed := e.EventType == crawler.TransactionConfirmed
	before := vcCloneSlice(x.ToAdd)
	//@ invariant (unspentAddresses []string, unspentsToAdd []domain.Unspent, i int): len(unspentAddresses) == len(unspentsToAdd)
	//@ invariant (unspentAddresses []string, unspentsToAdd []domain.Unspent, i int): len(unspentAddresses) == i
	//@ invariant (unspentAddresses []string, unspentsToAdd []domain.Unspent, i int): vcForall(0, i, func(j int) bool { return unspentAddresses[j] == unspentsToAdd[j].Address })
	//@ invariant (unspentKeys []domain.UnspentKey, unspentsToAdd []domain.Unspent, i int): len(unspentKeys) == len(unspentsToAdd)
	//@ invariant (unspentKeys []domain.UnspentKey, unspentsToAdd []domain.Unspent, i int): len(unspentKeys) == i
	//@ invariant (unspentKeys []domain.UnspentKey, unspentsToAdd []domain.Unspent, i int): vcForall(0, i, func(j int) bool { return unspentKeys[j] == domain.UnspentKey{TxID: unspentsToAdd[j].TxID, VOut: unspentsToAdd[j].VOut} })
	//@ call
	b.listenToEventChannel()
	known := t.Asked == e.TxID && !t.Fails
	settled := confirmed && !t.Fails && t.Stored == 1
	good := settled && c.Removed == 1
	//@ ensures ignored: !confirmed ==> t.Stored == 0 && c.Removed == 0 && u.Asked == 0 && u.Confirms == 0
	//@ ensures trade: confirmed ==> t.Asked == e.TxID
	//@ ensures unknown: confirmed && t.Fails ==> t.Stored == 0 && c.Removed == 0 && u.Asked == 0
	//@ ensures id: settled ==> t.StoredID == old.ID && t.StoredT.Status.Code == domain.Settled
	//@ ensures settles: confirmed && known && (old.Status.Code == domain.Accepted || old.Status.Code == domain.Completed) ==> t.Stored == 1 && t.StoredT.SettlementTime == uint64(e.BlockTime) && t.StoredT.ExpiryTime == 0
	//@ ensures unwatched: c.Removed <= 1 && (c.Removed == 1 ==> c.Key == e.TxID && settled)
	//@ ensures account: good ==> m.Asked == old.MarketQuoteAsset && x.Calls == 1 && x.Hex == e.TxHex && u.Asked == 1
	//@ ensures watched: settled && (m.Fails || v.Fails || x.Fails || u.KnownFails || (u.Confirms == 1 && u.ConfirmFails)) ==> c.Removed == 0
	//@ ensures done: settled && !m.Fails && !v.Fails && !x.Fails && !u.KnownFails && u.Confirms == 1 && !u.ConfirmFails ==> c.Removed == 1
	//@ ensures confirm: good && len(u.Known) > 0 ==> u.Confirms == 1 && vcOutputs(before, u.ConfirmKeys)
	vcRunGo(0)
	vcRunGo(1)
	//@ ensures publish: good && !u.BalanceFails && !v.MktFails && !v.FeeFails ==> h.Published == 1 && h.Topic == "topic"
	//@ ensures quiet: !good ==> h.Published == 0
}

func vcIsOurs(o *transaction.TxOutput, info map[string]domain.AddressInfo) bool {
	_, ok := info[hex.EncodeToString(o.Script)]
	return ok
}

// vcUnspentOf: u is output i of the transaction, revealed with the blinding key of its address.
func vcUnspentOf(u domain.Unspent, o *transaction.TxOutput, txid string, info map[string]domain.AddressInfo) bool {
	in := info[hex.EncodeToString(o.Script)]
	r, ok := transactionutil.UnblindOutput(o, in.BlindingKey)
	return ok && u.TxID == txid && u.Value == r.Value && u.AssetHash == r.AssetHash &&
		u.Address == in.Address && !u.Confirmed && !u.Spent && !u.Locked
}

// vcSpends: the input is signed by a key of one of our scripts.
func vcSpends(in *transaction.TxInput, info map[string]domain.AddressInfo, net *network.Network) bool {
	if len(in.Witness) < 2 {
		return false
	}
	pub, err := btcec.ParsePubKey(in.Witness[1], btcec.S256())
	if err != nil {
		return false
	}
	_, ok := info[hex.EncodeToString(payment.FromPublicKey(pub, net, nil).WitnessScript)]
	return ok
}

func vcOutpoint(k domain.UnspentKey, in *transaction.TxInput) bool {
	return k.VOut == in.Index && k.TxID == bufferutil.TxIDFromBytes(in.Hash)
}

//@ contract C17 hard=20000 opaque=github.com/vulpemventures/go-elements/transaction.NewTxFromHex!,github.com/btcsuite/btcd/btcec.ParsePubKey,github.com/vulpemventures/go-elements/payment.FromPublicKey!,pkg/transactionutil.UnblindOutput!,pkg/bufferutil.TxIDFromBytes,pkg/bufferutil.CommitmentFromBytes,(*github.com/vulpemventures/go-elements/transaction.Transaction).TxHash,(github.com/btcsuite/btcd/chaincfg/chainhash.Hash).String
func vcExtract(h string, info map[string]domain.AddressInfo, net *network.Network) {
	tx, bad := transaction.NewTxFromHex(h)
	//@ assume bad != nil || vcForall(0, len(tx.Outputs), func(i int) bool { return tx.Outputs[i] != nil })
	//@ assume bad != nil || vcForall(0, len(tx.Inputs), func(i int) bool { return tx.Inputs[i] != nil })
	//@ assume bad != nil || len(tx.Outputs) < 1<<31
	//@ invariant (tx *transaction.Transaction, unspentsToAdd []domain.Unspent, i int): vcForall(0, len(unspentsToAdd), func(k int) bool { return int(unspentsToAdd[k].VOut) < i })
	//@ invariant (tx *transaction.Transaction, unspentsToAdd []domain.Unspent, i int): vcForall(0, len(unspentsToAdd), func(k int) bool { return vcForall(0, k, func(l int) bool { return unspentsToAdd[l].VOut < unspentsToAdd[k].VOut }) })
	//@ invariant (tx *transaction.Transaction, unspentsToAdd []domain.Unspent, i int): vcForall(0, len(unspentsToAdd), func(k int) bool { return int(unspentsToAdd[k].VOut) < len(tx.Outputs) && vcIsOurs(tx.Outputs[unspentsToAdd[k].VOut], info) && vcUnspentOf(unspentsToAdd[k], tx.Outputs[unspentsToAdd[k].VOut], tx.TxHash().String(), info) })
	//@ invariant (tx *transaction.Transaction, unspentsToAdd []domain.Unspent, i int): vcForall(0, i, func(j int) bool { return vcIsOurs(tx.Outputs[j], info) ==> vcExists(0, len(unspentsToAdd), func(k int) bool { return int(unspentsToAdd[k].VOut) == j }) })
	//@ invariant (tx *transaction.Transaction, unspentsToSpend []domain.UnspentKey, i int): vcForall(0, len(unspentsToSpend), func(k int) bool { return vcExists(0, i, func(j int) bool { return vcSpends(tx.Inputs[j], info, net) && vcOutpoint(unspentsToSpend[k], tx.Inputs[j]) }) })
	//@ invariant (tx *transaction.Transaction, unspentsToSpend []domain.UnspentKey, i int): vcForall(0, i, func(j int) bool { return vcSpends(tx.Inputs[j], info, net) ==> vcExists(0, len(unspentsToSpend), func(k int) bool { return vcOutpoint(unspentsToSpend[k], tx.Inputs[j]) }) })
	//@ call
	add, spent, err := transactionManager{}.ExtractUnspents(h, info, net)
	//@ ensures bad: bad != nil ==> err != nil
	//@ ensures none: err != nil ==> len(add) == 0 && len(spent) == 0
	//@ ensures once: err == nil ==> vcForall(0, len(add), func(k int) bool { return vcForall(0, k, func(l int) bool { return add[l].VOut != add[k].VOut }) })
	//@ ensures ours: err == nil ==> vcForall(0, len(add), func(k int) bool { return int(add[k].VOut) < len(tx.Outputs) && vcIsOurs(tx.Outputs[add[k].VOut], info) && vcUnspentOf(add[k], tx.Outputs[add[k].VOut], tx.TxHash().String(), info) })
	//@ ensures all: err == nil ==> vcForall(0, len(tx.Outputs), func(j int) bool { return vcIsOurs(tx.Outputs[j], info) ==> vcExists(0, len(add), func(k int) bool { return int(add[k].VOut) == j }) })
	//@ ensures spends: err == nil ==> vcForall(0, len(spent), func(k int) bool { return vcExists(0, len(tx.Inputs), func(j int) bool { return vcSpends(tx.Inputs[j], info, net) && vcOutpoint(spent[k], tx.Inputs[j]) }) })
	//@ ensures spentall: err == nil ==> vcForall(0, len(tx.Inputs), func(j int) bool { return vcSpends(tx.Inputs[j], info, net) ==> vcExists(0, len(spent), func(k int) bool { return vcOutpoint(spent[k], tx.Inputs[j]) }) })
}

// vcScripts: the scripts of all addresses of the account, with their last info.
func vcHasScript(m map[string]domain.AddressInfo, infos domain.AddressesInfo) bool {
	return vcForall(0, len(infos), func(i int) bool { _, ok := m[infos[i].Script]; return ok })
}

//@ contract C17
func vcGroup(infos domain.AddressesInfo) {
	//@ invariant (group map[string]domain.AddressInfo, info domain.AddressesInfo, i int): vcForall(0, i, func(j int) bool { _, ok := group[info[j].Script]; return ok })
	//@ invariant (group map[string]domain.AddressInfo, info domain.AddressesInfo, i int): vcForallKey(group, func(k string) bool { _, ok := group[k]; return ok ==> vcExists(0, i, func(j int) bool { return info[j].Script == k && vcSameInfo(group[k], info[j]) }) })
	//@ call
	g := groupAddressesInfoByScript(infos)
	//@ ensures all: vcHasScript(g, infos)
	//@ ensures only: vcForallKey(g, func(k string) bool { _, ok := g[k]; return ok ==> vcExists(0, len(infos), func(j int) bool { return infos[j].Script == k && vcSameInfo(g[k], infos[j]) }) })
}

func vcSameInfo(a, b domain.AddressInfo) bool {
	return a.AccountIndex == b.AccountIndex && a.Address == b.Address && vcSame(a.BlindingKey, b.BlindingKey) && a.DerivationPath == b.DerivationPath && a.Script == b.Script
}

//@ contract C17 opaque=(*internal/core/domain.Vault).AllDerivedAddressesInfoForAccount
func vcExtractFrom(v *vcVaults, x *vcExtractor, h string, account int) {
	//@ requires v != nil && v.Vault != nil && x != nil && x.Calls == 0
	TransactionManager = x
	own, bad := v.Vault.AllDerivedAddressesInfoForAccount(account)
	fees, _ := v.Vault.AllDerivedAddressesInfoForAccount(domain.FeeAccount)
	//@ invariant (group map[string]domain.AddressInfo, info domain.AddressesInfo, i int): vcForall(0, i, func(j int) bool { _, ok := group[info[j].Script]; return ok })
	//@ invariant (infoByScript map[string]domain.AddressInfo): vcHasScript(infoByScript, own)
	//@ invariant (infoByScript map[string]domain.AddressInfo, more map[string]domain.AddressInfo, i int): vcForall(0, i, func(j int) bool { _, ok := infoByScript[vcKeys(more)[j]]; return ok })
	//@ call
	add, spend, err := extractUnspentsFromTx(v, nil, h, account)
	//@ ensures failed: v.Fails || bad != nil || x.Fails ==> err != nil
	//@ ensures ok: !v.Fails && bad == nil && !x.Fails ==> err == nil && vcEqSlices(spend, x.Spent) && len(add) == len(x.ToAdd)
	//@ ensures asked: err == nil ==> x.Calls == 1 && x.Hex == h
	//@ ensures own: err == nil ==> vcHasScript(x.Info, own)
	//@ ensures fees: err == nil ==> vcHasScript(x.Info, fees)
}

type vcWatcher struct {
	BlockchainListener
	N int
	IDs map[string]bool
}

func (l *vcWatcher) StartObserveTx(txid string) { l.N++; l.IDs[txid] = true }

//@ contract C17
func vcObserveUnconfirmed(us []domain.Unspent, l *vcWatcher) {
	//@ requires l != nil && l.N == 0
	l.IDs = map[string]bool{}
	//@ invariant (i int): vcForall(0, i, func(j int) bool { return !us[j].Confirmed ==> l.IDs[us[j].TxID] })
	//@ call
	startObserveUnconfirmedUnspents(l, us)
	//@ ensures watched: vcForall(0, len(us), func(j int) bool { return !us[j].Confirmed ==> l.IDs[us[j].TxID] })
}

var _ explorer.Service
var _ = bufferutil.TxIDFromBytes
