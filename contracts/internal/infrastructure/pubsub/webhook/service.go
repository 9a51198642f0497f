//go:build go1.22

package webhookpubsub

import (
	"errors"

	"github.com/dgrijalva/jwt-go"
	"github.com/sony/gobreaker"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	"github.com/tdex-network/tdex-daemon/pkg/securestore"
	"golang.org/x/sync/errgroup"
)

// ---- C19: whoever subscribes to a topic is told of it, until unsubscribed.

// vcHooks is the store: one entry among the hooks, the hooks of one action and
// of all of them. Lists are kept joined; joining and splitting are each
// other's inverse.
type vcHooks struct {
	securestore.SecureStorage
	ID        []byte // the entry
	Entry     []byte
	GetFails  bool
	Action    byte
	Joined    []byte // the hooks of the action as they are kept, none if empty
	Hooks     [][]byte
	ReadFails bool
	AllJoined []byte // the hooks of all actions
	All       [][]byte
	AllFails  bool
	// what is written
	Adds, Sets, Rems, Dels         int
	AddKey, AddVal, SetVal, RemKey []byte
	SetKey, DelKey                 byte
	AddFails, SetFails             bool
	RemFails, DelFails             bool
	Strays                         int
	Parts                          [][]byte // what was joined
	Glue                           []byte
	Join                           []byte
	// the hooks made and read
	Mine   *Webhook
	Bad    bool
	Saved  *Webhook
	SavedB []byte
}

var vcHk *vcHooks
var vcHookErr = errors.New("some error")

func (s *vcHooks) GetFromBucket(bucket, key []byte) ([]byte, error) {
	if vcSame(bucket, hooksBucket) {
		if s.GetFails {
			return nil, vcHookErr
		}
		if s.ID != nil && string(key) != string(s.ID) {
			return nil, nil
		}
		return s.Entry, nil
	}
	if !vcSame(bucket, hooksByActionBucket) || len(key) != 1 {
		s.Strays++
		return nil, vcHookErr
	}
	if key[0] == s.Action {
		if s.ReadFails {
			return nil, vcHookErr
		}
		return s.Joined, nil
	}
	if key[0] == byte(AllActions) {
		if s.AllFails {
			return nil, vcHookErr
		}
		return s.AllJoined, nil
	}
	s.Strays++
	return nil, vcHookErr
}
func (s *vcHooks) AddToBucket(bucket, key, value []byte) error {
	if vcSame(bucket, hooksBucket) {
		s.Adds++
		s.AddKey, s.AddVal = key, value
		if s.AddFails {
			return vcHookErr
		}
		return nil
	}
	if !vcSame(bucket, hooksByActionBucket) || len(key) != 1 {
		s.Strays++
		return vcHookErr
	}
	s.Sets++
	s.SetKey, s.SetVal = key[0], value
	if s.SetFails {
		return vcHookErr
	}
	return nil
}
func (s *vcHooks) RemoveFromBucket(bucket, key []byte) error {
	if vcSame(bucket, hooksBucket) {
		s.Rems++
		s.RemKey = key
		if s.RemFails {
			return vcHookErr
		}
		return nil
	}
	if !vcSame(bucket, hooksByActionBucket) || len(key) != 1 {
		s.Strays++
		return vcHookErr
	}
	s.Dels++
	s.DelKey = key[0]
	if s.DelFails {
		return vcHookErr
	}
	return nil
}

func vcSplitHooks(b, sep []byte) [][]byte {
	s := vcHk
	if !vcSame(sep, separator) {
		s.Strays++
	}
	if vcSame(b, s.Joined) {
		return s.Hooks
	}
	if vcSame(b, s.AllJoined) {
		return s.All
	}
	s.Strays++
	return nil
}
func vcJoinHooks(parts [][]byte, sep []byte) []byte {
	s := vcHk
	if !vcSame(sep, separator) {
		s.Strays++
	}
	s.Parts = parts
	return s.Join
}
func vcSaveHook(h *Webhook) []byte {
	s := vcHk
	if s.Saved == nil {
		s.Saved = h
	}
	if h != s.Saved {
		s.Strays++
	}
	return s.SavedB
}

func vcStill(s *vcHooks) bool {
	return s != nil && s.Adds == 0 && s.Sets == 0 && s.Rems == 0 && s.Dels == 0 && s.Strays == 0 && s.Saved == nil && s.Parts == nil && !vcSame(hooksBucket, hooksByActionBucket)
}

// vcCount: how many hooks are kept for the action.
func vcCount(s *vcHooks) int {
	if len(s.Joined) == 0 {
		return 0
	}
	return len(s.Hooks)
}

//@ contract C19 stub=bytes.Split:vcSplitHooks,bytes.Join:vcJoinHooks,(*Webhook).Serialize:vcSaveHook,(*internal/infrastructure/pubsub/webhook.Webhook).Serialize:vcSaveHook
func vcSubscribe(s *vcHooks, topic, endpoint, secret string) {
	//@ requires vcStill(s) && s.ID == nil
	act, known := stringToAction[topic]
	//@ requires !known || s.Action == byte(act)
	vcHk = s
	n := vcCount(s)
	old := vcCloneSlice(s.Hooks)
	ws := &webhookService{store: webhookStore{s}}
	//@ call
	id, err := ws.Subscribe(topic, endpoint, secret)
	fresh := s.Entry == nil
	//@ ensures refused: !known || act < TradeSettled || act > AllActions || s.GetFails ==> err != nil && s.Adds == 0 && s.Sets == 0
	//@ ensures failed: fresh && (s.AddFails || s.ReadFails || s.SetFails) ==> err != nil
	//@ ensures kept: s.Rems == 0 && s.Dels == 0 && s.Strays == 0
	//@ ensures hook: err == nil && fresh ==> s.Adds == 1 && s.Saved != nil && string(s.AddKey) == id && s.Saved.ID == id && vcSame(s.AddVal, s.SavedB)
	//@ ensures said: err == nil && fresh ==> s.Saved.ActionType == act && s.Saved.Endpoint == endpoint && s.Saved.Secret == secret
	//@ ensures listed: err == nil && fresh ==> s.Sets == 1 && s.SetKey == byte(act) && vcSame(s.SetVal, s.Join) && len(s.Parts) == n+1 && vcSame(s.Parts[n], s.SavedB) && vcForall(0, n, func(j int) bool { return vcSame(s.Parts[j], old[j]) })
	//@ ensures once: err == nil && !fresh ==> s.Adds == 0 && s.Sets == 0
	//@ ensures nothing: err != nil ==> id == ""
	//@ cover ok: err == nil && n == 2
}

//@ contract C19
func vcSubscribeArgs(s *vcHooks, topic string, a, b string, n int) {
	//@ requires vcStill(s) && n >= 0 && n <= 3
	vcHk = s
	ws := &webhookService{store: webhookStore{s}}
	args := []interface{}{a, b}
	if n == 0 {
		args = []interface{}{a}
	}
	if n == 1 {
		args = []interface{}{a, b, a}
	}
	if n == 2 {
		args = []interface{}{1, b}
	}
	if n == 3 {
		args = []interface{}{a, []byte(b)}
	}
	//@ call
	id, err := ws.Subscribe(topic, args...)
	//@ ensures refused: err != nil && id == "" && s.Adds == 0 && s.Sets == 0
}

// vcReadKept: the entry is the hook with its id; among the hooks of the action
// it is the one looked at, if any, the others have other ids.
func vcReadKept(b []byte) (*Webhook, error) {
	s := vcHk
	if vcSame(b, s.Entry) {
		if s.Bad {
			return nil, vcHookErr
		}
		return s.Mine, nil
	}
	h := vcAny[Webhook]()
	if vcSame(b, s.SavedB) {
		h.ID = string(s.ID)
	} else if h.ID == string(s.ID) {
		h.ID = ""
	}
	return &h, nil
}

//@ contract C19 fast=500 stub=bytes.Split:vcSplitHooks,bytes.Join:vcJoinHooks,NewWebhookFromBytes:vcReadKept
func vcUnsubscribe(s *vcHooks, topic, id string, who int) {
	//@ requires vcStill(s) && s.ID != nil && string(s.ID) == id && id != "" && s.Mine != nil && s.Mine.ID == id && byte(s.Mine.ActionType) == s.Action
	n := vcCount(s)
	old := vcCloneSlice(s.Hooks)
	//@ requires who >= 0 && who <= n && vcForall(0, who, func(j int) bool { return !vcSame(old[j], s.SavedB) && !vcSame(old[j], s.Entry) })
	//@ requires who == n || vcSame(old[who], s.SavedB) && !vcSame(old[who], s.Entry)
	vcHk = s
	ws := &webhookService{store: webhookStore{s}}
	//@ invariant (i int): i <= who
	//@ call
	err := ws.Unsubscribe(topic, id)
	//@ letb there = s.Entry != nil && !s.GetFails
	//@ ensures absent: !there ==> s.Rems == 0 && s.Dels == 0 && s.Sets == 0
	//@ ensures failed: s.GetFails || there && (s.Bad || s.ReadFails) ==> err != nil && s.Rems == 0
	//@ ensures unwritten: s.Rems > 0 && s.RemFails || s.Sets > 0 && s.SetFails || s.Dels > 0 && s.DelFails ==> err != nil
	//@ ensures kept: s.Adds == 0 && s.Strays == 0
	//@ ensures removed: err == nil && there ==> s.Rems == 1 && string(s.RemKey) == id
	//@ ensures none: err == nil && there && who == n ==> s.Sets == 0 && s.Dels == 0
	//@ ensures last: err == nil && there && who < n && n == 1 ==> s.Dels == 1 && s.DelKey == s.Action && s.Sets == 0
	//@ ensures rest: err == nil && there && who < n && n > 1 ==> s.Sets == 1 && s.Dels == 0 && s.SetKey == s.Action && vcSame(s.SetVal, s.Join) && len(s.Parts) == n-1
	//@ ensures order: err == nil && there && who < n && n > 1 ==> vcForall(0, who, func(j int) bool { return vcSame(s.Parts[j], old[j]) }) && vcForall(who, n-1, func(j int) bool { return vcSame(s.Parts[j], old[j+1]) })
	//@ cover some: err == nil && there && who == 1 && n == 3
}

// vcReadHook: hooks are read as written; the one looked at stands for any.
func vcReadHook(b []byte) (*Webhook, error) {
	if vcSame(b, vcHk.SavedB) {
		return vcHk.Saved, nil
	}
	h := vcAny[Webhook]()
	return &h, nil
}

// vcLooks: the hook looked at is one of the action's own, or of all actions'.
func vcLooks(s *vcHooks, own bool, who int) bool {
	if s == nil || who < 0 || s.Saved == nil {
		return false
	}
	if own {
		return who < len(s.Hooks) && vcSame(s.Hooks[who], s.SavedB)
	}
	return who < len(s.All) && vcSame(s.All[who], s.SavedB)
}

// vcLists: the hooks told are those of the action, then those of all actions.
func vcShare(s *vcHooks, act WebhookAction) (int, int) {
	n, m := 0, 0
	if len(s.Joined) > 0 && !s.ReadFails {
		n = len(s.Hooks)
	}
	if act != AllActions && len(s.AllJoined) > 0 && !s.AllFails {
		m = len(s.All)
	}
	return n, m
}

//@ contract C19 fast=500 stub=bytes.Split:vcSplitHooks,NewWebhookFromBytes:vcReadHook
func vcListHooks(s *vcHooks, topic string, own bool, who int) {
	//@ requires vcLooks(s, own, who) && s.Strays == 0 && s.Adds == 0 && s.Sets == 0 && s.Rems == 0 && s.Dels == 0 && !vcSame(hooksBucket, hooksByActionBucket) && !vcSame(s.Joined, s.AllJoined)
	act, known := stringToAction[topic]
	//@ requires s.Action == byte(act) && 0 <= act && act <= AllActions
	vcHk = s
	n, m := vcShare(s, act)
	ws := &webhookService{store: webhookStore{s}}
	//@ invariant (hooks []*Webhook, rawHooks [][]byte, i int): len(hooks) == i
	//@ invariant (hooks []*Webhook, rawHooks [][]byte, i int): i <= who || !vcSame(rawHooks[who], s.SavedB) || hooks[who] == s.Saved
	//@ invariant (subs []ports.Subscription, hooks []*Webhook, i int): len(subs) == len(hooks)
	//@ invariant (subs []ports.Subscription, hooks []*Webhook, i int): vcForall(0, i, func(j int) bool { return subs[j] == ports.Subscription(hooks[j]) })
	//@ call
	subs := ws.ListSubscriptionsForTopic(topic)
	//@ ensures unknown: !known ==> subs == nil
	//@ ensures all: known ==> len(subs) == n+m
	//@ ensures own: known && own && who < n ==> subs[who] == ports.Subscription(s.Saved)
	//@ ensures too: known && !own && who < m ==> subs[n+who] == ports.Subscription(s.Saved)
	//@ cover both: known && n > 0 && m > 0
	//@ ensures kept: s.Adds == 0 && s.Sets == 0 && s.Rems == 0 && s.Dels == 0
}

// vcCalls: what is posted.
type vcCalls struct {
	Count   int
	Hook    *Webhook // the hook that the who-th call was made for
	Message string
	Wrong   bool
	Fails   bool
	Who     int
	Waits   int
	Errs    bool
}

var vcCa *vcCalls

func vcGo(g *errgroup.Group, f func() error) {
	if f() != nil {
		vcCa.Errs = true
	}
}
func vcWait(g *errgroup.Group) error {
	vcCa.Waits++
	if vcCa.Errs {
		return vcHookErr
	}
	return nil
}
func vcDo(ws *webhookService, h *Webhook, payload string) error {
	c := vcCa
	if c.Count == c.Who {
		c.Hook = h
	}
	if payload != c.Message {
		c.Wrong = true
	}
	c.Count++
	if vcAny[bool]() {
		c.Fails = true
		return vcHookErr
	}
	return nil
}

//@ contract C19 fast=500 stub=bytes.Split:vcSplitHooks,NewWebhookFromBytes:vcReadHook,(*golang.org/x/sync/errgroup.Group).Go:vcGo,(*golang.org/x/sync/errgroup.Group).Wait:vcWait,(*internal/infrastructure/pubsub/webhook.webhookService).doRequest:vcDo
func vcPublish(s *vcHooks, c *vcCalls, topic, message string, own bool, who int) {
	//@ requires vcLooks(s, own, who) && s.Strays == 0 && !vcSame(hooksBucket, hooksByActionBucket) && !vcSame(s.Joined, s.AllJoined)
	//@ requires c != nil && c.Count == 0 && !c.Wrong && !c.Fails && c.Waits == 0 && !c.Errs && c.Message == message && c.Who >= 0
	act, known := stringToAction[topic]
	//@ requires s.Action == byte(act) && 0 <= act && act <= AllActions
	vcHk, vcCa = s, c
	n, m := vcShare(s, act)
	ws := &webhookService{store: webhookStore{s}}
	//@ invariant (hooks []*Webhook, rawHooks [][]byte, i int): len(hooks) == i
	//@ invariant (hooks []*Webhook, rawHooks [][]byte, i int): i <= who || !vcSame(rawHooks[who], s.SavedB) || hooks[who] == s.Saved
	//@ invariant (hooks []*Webhook, i int): c.Count == i && !c.Wrong && c.Waits == 0 && c.Fails == c.Errs
	//@ invariant (hooks []*Webhook, i int): i <= c.Who || c.Hook == hooks[c.Who]
	//@ call
	err := ws.Publish(topic, message)
	//@ ensures unknown: !known ==> err != nil && c.Count == 0
	//@ ensures all: known ==> c.Count == n+m && !c.Wrong
	//@ ensures own: known && own && who < n && c.Who == who ==> c.Hook == s.Saved
	//@ ensures too: known && !own && who < m && c.Who == n+who ==> c.Hook == s.Saved
	//@ ensures told: known ==> (err == nil) == !c.Fails && c.Waits == 1
}

// Requests started together run only once all are started: with three hooks.
type vcLate struct {
	N          int
	F0, F1, F2 func() error
	H0, H1, H2 *Webhook
	Did        int
	Message    string
	Wrong      bool
}

var vcLa *vcLate

func vcGoLate(g *errgroup.Group, f func() error) {
	l := vcLa
	if l.N == 0 {
		l.F0 = f
	}
	if l.N == 1 {
		l.F1 = f
	}
	if l.N == 2 {
		l.F2 = f
	}
	l.N++
}
func vcWaitLate(g *errgroup.Group) error {
	l := vcLa
	if l.N == 3 {
		l.F0()
		l.F1()
		l.F2()
	}
	return nil
}
func vcDoLate(ws *webhookService, h *Webhook, payload string) error {
	l := vcLa
	if l.Did == 0 {
		l.H0 = h
	}
	if l.Did == 1 {
		l.H1 = h
	}
	if l.Did == 2 {
		l.H2 = h
	}
	l.Did++
	if payload != l.Message {
		l.Wrong = true
	}
	return nil
}

var vcThree [3]*Webhook

func vcReadThree(b []byte) (*Webhook, error) {
	if vcSame(b, vcHk.Hooks[0]) {
		return vcThree[0], nil
	}
	if vcSame(b, vcHk.Hooks[1]) {
		return vcThree[1], nil
	}
	return vcThree[2], nil
}

//@ contract C19 fast=500 stub=bytes.Split:vcSplitHooks,NewWebhookFromBytes:vcReadThree,(*golang.org/x/sync/errgroup.Group).Go:vcGoLate,(*golang.org/x/sync/errgroup.Group).Wait:vcWaitLate,(*internal/infrastructure/pubsub/webhook.webhookService).doRequest:vcDoLate
func vcPublishLate(s *vcHooks, l *vcLate, x, y, z []byte, a, b, c *Webhook, topic, message string) {
	//@ requires s != nil && l != nil && l.N == 0 && l.Did == 0 && !l.Wrong && l.Message == message && !vcSame(x, y) && len(s.Joined) > 0 && len(s.AllJoined) > 0 && !vcSame(s.Joined, s.AllJoined)
	//@ requires !s.ReadFails && !s.AllFails && s.Strays == 0 && !vcSame(hooksBucket, hooksByActionBucket) && !vcSame(x, z) && !vcSame(y, z)
	act, known := stringToAction[topic]
	//@ requires known && s.Action == byte(act) && 0 <= act && act < AllActions
	s.Hooks = [][]byte{x, y}
	s.All = [][]byte{z}
	vcThree = [3]*Webhook{a, b, c}
	vcHk, vcLa = s, l
	ws := &webhookService{store: webhookStore{s}}
	//@ call
	err := ws.Publish(topic, message)
	//@ ensures each: err == nil ==> l.N == 3 && l.Did == 3 && l.H0 == a && l.H1 == b && l.H2 == c && !l.Wrong
	//@ cover ok: err == nil
}

// vcPost: a request and its answer.
type vcPost struct {
	Posts               int
	Method, URL, Body   string
	Type, Auth          string
	HasAuth             bool
	Headers             int
	Status              int
	Fails, Broken       bool
	Token               string
	Secret              string
	Signs               int
}

var vcPo *vcPost

func vcBreaker(cb *gobreaker.CircuitBreaker, f func() (interface{}, error)) (interface{}, error) {
	if vcPo.Broken {
		return nil, vcHookErr
	}
	return f()
}
func vcRequest(c *esplora.Client, method, url, body string, header map[string]string) (int, string, error) {
	p := vcPo
	p.Posts++
	p.Method, p.URL, p.Body = method, url, body
	p.Type = header["Content-Type"]
	p.Auth, p.HasAuth = header["Authorization"]
	p.Headers = len(header)
	if p.Fails {
		return 0, "", vcHookErr
	}
	return p.Status, vcAny[string](), nil
}
func vcToken(m jwt.SigningMethod) *jwt.Token { return &jwt.Token{} }
func vcSign(t *jwt.Token, key interface{}) (string, error) {
	vcPo.Signs++
	vcPo.Secret = string(key.([]byte))
	return vcPo.Token, nil
}

//@ contract C19 stub=(*github.com/sony/gobreaker.CircuitBreaker).Execute:vcBreaker,(*pkg/explorer/esplora.Client).NewHTTPRequest:vcRequest,github.com/dgrijalva/jwt-go.New:vcToken,(*github.com/dgrijalva/jwt-go.Token).SignedString:vcSign
func vcCall(p *vcPost, h *Webhook, message string) {
	//@ requires p != nil && h != nil && p.Posts == 0 && p.Signs == 0 && p.Token != ""
	vcPo = p
	ws := &webhookService{}
	//@ call
	err := ws.doRequest(h, message)
	//@ ensures posted: !p.Broken ==> p.Posts == 1 && p.Method == "POST" && p.URL == h.Endpoint && p.Body == message && p.Type == "application/json"
	//@ ensures secured: !p.Broken ==> p.HasAuth == (h.Secret != "") && (h.Secret != "" ==> p.Signs == 1 && p.Secret == h.Secret && p.Auth == "Bearer "+p.Token)
	//@ ensures told: (err == nil) == (!p.Broken && !p.Fails && p.Status == 200)
}

// vcSafe is any secure store.
type vcSafe struct {
	securestore.SecureStorage
	Locked              bool
	Pass                string
	Old, New            string
	Wrong, NoBucket     bool
	NoOther, Stuck      bool
	Hooks, Acts, Others int
	Changes             int
}

func (s *vcSafe) IsLocked() bool { return s.Locked }
func (s *vcSafe) Lock()          { s.Locked = true }
func (s *vcSafe) CreateUnlock(password *[]byte) error {
	s.Pass = string(*password)
	if s.Wrong {
		return vcHookErr
	}
	s.Locked = false
	return nil
}
func (s *vcSafe) ChangePassword(o, n []byte) error {
	s.Changes++
	s.Old, s.New = string(o), string(n)
	if s.Stuck {
		return vcHookErr
	}
	return nil
}
func (s *vcSafe) CreateBucket(key []byte) error {
	if s.Locked {
		return vcHookErr
	}
	if vcSame(key, hooksBucket) {
		s.Hooks++
		if s.NoBucket {
			return vcHookErr
		}
		return nil
	}
	if vcSame(key, hooksByActionBucket) {
		s.Acts++
		if s.NoOther {
			return vcHookErr
		}
		return nil
	}
	s.Others++
	return nil
}

//@ contract C19
func vcHookStore(s *vcSafe, a, b string, what int) {
	//@ requires s != nil && s.Locked && s.Hooks == 0 && s.Acts == 0 && s.Others == 0 && s.Changes == 0 && what >= 0 && what <= 2 && !vcSame(hooksBucket, hooksByActionBucket)
	ws := webhookStore{s}
	if what == 0 {
		//@ call
		err := ws.Init(a)
		//@ ensures made: (err == nil) == (!s.Wrong && !s.NoBucket && !s.NoOther)
		//@ ensures buckets: err == nil ==> s.Hooks == 1 && s.Acts == 1 && s.Others == 0 && s.Pass == a
		//@ ensures locked: ws.IsLocked()
	} else if what == 1 {
		err := ws.Unlock(a)
		//@ ensures unlocked: (err == nil) == !s.Wrong && ws.IsLocked() == (err != nil) && s.Pass == a
		ws.Lock()
		//@ ensures again: ws.IsLocked()
	} else {
		err := ws.ChangePassword(a, b)
		//@ ensures changed: (err == nil) == !s.Stuck && s.Changes == 1 && s.Old == a && s.New == b
	}
}
