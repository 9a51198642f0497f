//go:build go1.22

package macaroons

import (
	"bytes"
	"context"
	"errors"
	"io"

	"github.com/btcsuite/btcwallet/snacl"
	"github.com/tdex-network/tdex-daemon/pkg/securestore/kvdb"
)

// ---- C14: the root keys of the macaroons are kept encrypted under the key
// that the password opens.

// vcRing is the database of the root keys: one bucket, with the parameters of
// the encryption key, the default root key and any other one.
type vcRing struct {
	kvdb.RwBucket
	Fails, Lost  bool
	Enc, Root    []byte
	ID, Other    []byte // another root key, if any
	Updates      int
	Views        int
	EncPuts      int
	EncPut       []byte
	RootPuts     int
	RootPut      []byte
	OtherPuts    int
	OtherPut     []byte
	Strays       int // anything else written
	Dels         int
	DelKey       []byte
	EncBad       bool
	RootBad      bool
	OtherBad     bool
	DelBad       bool
	// the cipher
	Open, Sealed        []byte // what decryption and encryption give
	OpenBad, SealBad    bool
	Opens, Seals        int
	OpenIn, SealIn      []byte
	OpenKey, SealKey    *snacl.SecretKey
	Bad, Wrong, NoKey   bool
	Raw                 []byte
	Read                []byte
	OldPass, NewPass    []byte
	OldNil, NewNil      bool
	Old, New            *snacl.SecretKey
	Soft                bool
	Draws               int
	DrawBad             bool
	Drawn               []byte
}

var vcRi *vcRing
var vcRingErr = errors.New("some error")

type vcRingTx struct{ kvdb.RwTx }

func (t *vcRingTx) ReadWriteBucket(key []byte) kvdb.RwBucket {
	if vcRi.Lost || !vcSame(key, rootKeyBucketName) {
		return nil
	}
	return vcRi
}

type vcRingRtx struct{ kvdb.RTx }

func (t *vcRingRtx) ReadBucket(key []byte) kvdb.RBucket {
	if vcRi.Lost || !vcSame(key, rootKeyBucketName) {
		return nil
	}
	return vcRi
}

func (b *vcRing) Get(key []byte) []byte {
	if bytes.Equal(key, encryptionKeyID) {
		return b.Enc
	}
	if bytes.Equal(key, DefaultRootKeyID) {
		return b.Root
	}
	if bytes.Equal(key, b.ID) {
		return b.Other
	}
	return nil
}
func (b *vcRing) Put(key, value []byte) error {
	if bytes.Equal(key, encryptionKeyID) {
		b.EncPuts++
		b.EncPut = value
		if b.EncBad {
			return vcRingErr
		}
		return nil
	}
	if bytes.Equal(key, DefaultRootKeyID) {
		b.RootPuts++
		b.RootPut = value
		if b.RootBad {
			return vcRingErr
		}
		return nil
	}
	if bytes.Equal(key, b.ID) {
		b.OtherPuts++
		b.OtherPut = value
		if b.OtherBad {
			return vcRingErr
		}
		return nil
	}
	b.Strays++
	return nil
}
func (b *vcRing) Delete(key []byte) error {
	b.Dels++
	b.DelKey = key
	if b.DelBad {
		return vcRingErr
	}
	return nil
}

func vcRingUpdate(db kvdb.Backend, f func(tx kvdb.RwTx) error, reset func()) error {
	vcRi.Updates++
	reset()
	if vcRi.Fails {
		return vcRingErr
	}
	return f(&vcRingTx{})
}
func vcRingView(db kvdb.Backend, f func(tx kvdb.RTx) error, reset func()) error {
	vcRi.Views++
	reset()
	if vcRi.Fails {
		return vcRingErr
	}
	return f(&vcRingRtx{})
}
func vcRingSeal(k *snacl.SecretKey, in []byte) ([]byte, error) {
	vcRi.Seals++
	vcRi.SealIn, vcRi.SealKey = in, k
	if vcRi.SealBad {
		return nil, vcRingErr
	}
	return vcRi.Sealed, nil
}
func vcRingOpen(k *snacl.SecretKey, in []byte) ([]byte, error) {
	vcRi.Opens++
	vcRi.OpenIn, vcRi.OpenKey = in, k
	if vcRi.OpenBad {
		return nil, vcRingErr
	}
	return vcRi.Open, nil
}
func vcRingUnmarshal(k *snacl.SecretKey, raw []byte) error {
	vcRi.Read = raw
	if vcRi.Bad {
		return vcRingErr
	}
	return nil
}
func vcRingDerive(k *snacl.SecretKey, password *[]byte) error {
	vcRi.OldPass = *password
	if vcRi.Wrong {
		return vcRingErr
	}
	vcRi.Old = k
	return nil
}
func vcRingKey(password *[]byte, n, r, p int) (*snacl.SecretKey, error) {
	vcRi.NewPass = *password
	vcRi.Soft = n < snacl.DefaultN || r < snacl.DefaultR || p < snacl.DefaultP
	if vcRi.NoKey {
		return nil, vcRingErr
	}
	return vcRi.New, nil
}
func vcRingMarshal(k *snacl.SecretKey) []byte {
	if k != vcRi.New {
		return nil
	}
	return vcRi.Raw
}

// vcDraw: 32 bytes of the random source.
func vcRingDraw(r io.Reader, buf []byte) (int, error) {
	vcRi.Draws++
	vcRi.Drawn = buf
	if vcRi.DrawBad {
		return 0, vcRingErr
	}
	return len(buf), nil
}

func vcRingNew(b *vcRing) bool {
	return b != nil && b.Updates == 0 && b.Views == 0 && b.EncPuts == 0 && b.RootPuts == 0 && b.OtherPuts == 0 && b.Strays == 0 && b.Dels == 0 &&
		b.Opens == 0 && b.Seals == 0 && b.Draws == 0 && b.New != nil && b.Old == nil &&
		!bytes.Equal(encryptionKeyID, DefaultRootKeyID) && !bytes.Equal(encryptionKeyID, b.ID) && !bytes.Equal(DefaultRootKeyID, b.ID)
}
func vcRingWrites(b *vcRing) int {
	return b.EncPuts + b.RootPuts + b.OtherPuts + b.Strays + b.Dels
}

//@ contract C14 stub=pkg/securestore/kvdb.Update:vcRingUpdate,(*github.com/btcsuite/btcwallet/snacl.SecretKey).Unmarshal:vcRingUnmarshal,(*github.com/btcsuite/btcwallet/snacl.SecretKey).DeriveKey:vcRingDerive,github.com/btcsuite/btcwallet/snacl.NewSecretKey:vcRingKey,(*github.com/btcsuite/btcwallet/snacl.SecretKey).Marshal:vcRingMarshal
func vcRingUnlock(b *vcRing, key *snacl.SecretKey, pass *[]byte) {
	//@ requires vcRingNew(b)
	vcRi = b
	s := &RootKeyStorage{encKey: key}
	has := len(b.Enc) > 0
	//@ call
	err := s.CreateUnlock(pass)
	//@ ensures again: key != nil ==> err != nil && s.encKey == key && vcRingWrites(b) == 0
	//@ ensures password: pass == nil || b.Lost || b.Fails ==> err != nil
	//@ ensures wrong: has && (b.Bad || b.Wrong) ==> err != nil
	//@ ensures locked: key == nil && err != nil ==> s.encKey == nil
	//@ ensures unlocked: err == nil && has ==> s.encKey != nil && s.encKey == b.Old && vcSame(b.OldPass, *pass) && vcSame(b.Read, b.Enc) && vcRingWrites(b) == 0
	//@ ensures created: err == nil && !has ==> s.encKey == b.New && vcSame(b.NewPass, *pass) && !b.Soft && !b.NoKey && vcRingWrites(b) == 1 && b.EncPuts == 1 && vcSame(b.EncPut, b.Raw) && !b.EncBad
	//@ ensures done: key == nil && pass != nil && !b.Lost && !b.Fails && !b.Bad && !b.Wrong && !b.NoKey && !b.EncBad ==> err == nil
}

//@ contract C14 stub=pkg/securestore/kvdb.Update:vcRingUpdate,(*github.com/btcsuite/btcwallet/snacl.SecretKey).Encrypt:vcRingSeal,(*github.com/btcsuite/btcwallet/snacl.SecretKey).Decrypt:vcRingOpen,(*github.com/btcsuite/btcwallet/snacl.SecretKey).Unmarshal:vcRingUnmarshal,(*github.com/btcsuite/btcwallet/snacl.SecretKey).DeriveKey:vcRingDerive,github.com/btcsuite/btcwallet/snacl.NewSecretKey:vcRingKey,(*github.com/btcsuite/btcwallet/snacl.SecretKey).Marshal:vcRingMarshal
func vcRingChange(b *vcRing, key *snacl.SecretKey, oldPw, newPw []byte) {
	//@ requires vcRingNew(b)
	vcRi = b
	s := &RootKeyStorage{encKey: key}
	//@ call
	err := s.ChangePassword(oldPw, newPw)
	//@ ensures refused: key == nil || oldPw == nil || newPw == nil || b.Lost || b.Fails || b.Bad || b.Wrong || len(b.Enc) == 0 || len(b.Root) == 0 ==> err != nil && vcRingWrites(b) == 0
	//@ ensures failed: b.OpenBad || b.SealBad || b.NoKey ==> err != nil && vcRingWrites(b) == 0
	//@ ensures kept: err != nil ==> s.encKey == key
	//@ ensures old: err == nil ==> vcSame(b.OldPass, oldPw) && vcSame(b.Read, b.Enc) && b.Opens == 1 && b.OpenKey == b.Old && vcSame(b.OpenIn, b.Root)
	//@ ensures fresh: err == nil ==> vcSame(b.NewPass, newPw) && !b.Soft && b.Seals == 1 && b.SealKey == b.New && bytes.Equal(b.SealIn, b.Open)
	//@ ensures stored: err == nil ==> vcRingWrites(b) == 2 && b.EncPuts == 1 && vcSame(b.EncPut, b.Raw) && b.RootPuts == 1 && vcSame(b.RootPut, b.Sealed) && !b.EncBad && !b.RootBad && s.encKey == b.New
	//@ ensures done: key != nil && oldPw != nil && newPw != nil && !b.Lost && !b.Fails && !b.Bad && !b.Wrong && len(b.Enc) > 0 && len(b.Root) > 0 && !b.OpenBad && !b.SealBad && !b.NoKey && !b.EncBad && !b.RootBad ==> err == nil
}

//@ contract C14 stub=pkg/securestore/kvdb.View:vcRingView,(*github.com/btcsuite/btcwallet/snacl.SecretKey).Decrypt:vcRingOpen
func vcRingGet(b *vcRing, key *snacl.SecretKey, id []byte) {
	//@ requires vcRingNew(b)
	vcRi = b
	s := &RootKeyStorage{encKey: key}
	stored := b.Get(id)
	//@ call
	k, err := s.Get(context.Background(), id)
	//@ ensures refused: key == nil || b.Lost || b.Fails || b.OpenBad || len(stored) == 0 ==> err != nil
	//@ ensures read: err == nil ==> b.Opens == 1 && b.OpenKey == key && vcSame(b.OpenIn, stored) && bytes.Equal(k, b.Open)
	//@ ensures nothing: err != nil ==> k == nil
	//@ ensures done: key != nil && !b.Lost && !b.Fails && !b.OpenBad && len(stored) > 0 ==> err == nil
}

var vcRootIDErr error

func vcRootID(ctx context.Context) ([]byte, error) {
	return vcRootIDIs, vcRootIDErr
}

var vcRootIDIs []byte

//@ contract C14 stub=pkg/securestore/kvdb.Update:vcRingUpdate,(*github.com/btcsuite/btcwallet/snacl.SecretKey).Decrypt:vcRingOpen,(*github.com/btcsuite/btcwallet/snacl.SecretKey).Encrypt:vcRingSeal,io.ReadFull:vcRingDraw,RootKeyIDFromContext:vcRootID
func vcRingRootKey(b *vcRing, key *snacl.SecretKey, noID bool) {
	//@ requires vcRingNew(b) && len(b.ID) > 0
	vcRi = b
	vcRootIDIs, vcRootIDErr = b.ID, nil
	if noID {
		vcRootIDErr = vcRingErr
	}
	has := len(b.Other) > 0
	s := &RootKeyStorage{encKey: key}
	//@ call
	k, id, err := s.RootKey(context.Background())
	//@ ensures refused: key == nil || noID || b.Lost || b.Fails ==> err != nil && vcRingWrites(b) == 0
	//@ ensures read: err == nil && has ==> b.Opens == 1 && b.OpenKey == key && vcSame(b.OpenIn, b.Other) && bytes.Equal(k, b.Open) && vcRingWrites(b) == 0
	//@ ensures made: err == nil && !has ==> b.Draws == 1 && !b.DrawBad && len(b.Drawn) == RootKeyLen && b.Seals == 1 && b.SealKey == key && vcSame(b.SealIn, b.Drawn) && vcSame(k, b.Drawn)
	//@ ensures stored: err == nil && !has ==> vcRingWrites(b) == 1 && b.OtherPuts == 1 && vcSame(b.OtherPut, b.Sealed) && !b.OtherBad && !b.SealBad
	//@ ensures id: err == nil ==> vcSame(id, b.ID)
	//@ ensures nothing: err != nil ==> k == nil && id == nil
}

//@ contract C14 stub=pkg/securestore/kvdb.Update:vcRingUpdate,RootKeyIDFromContext:vcRootID
func vcRingForbidden(b *vcRing, key *snacl.SecretKey) {
	//@ requires vcRingNew(b)
	vcRi = b
	vcRootIDIs, vcRootIDErr = encryptionKeyID, nil
	s := &RootKeyStorage{encKey: key}
	//@ call
	k, id, err := s.RootKey(context.Background())
	//@ ensures refused: err != nil && k == nil && id == nil && b.Updates == 0
}

//@ contract C14 stub=pkg/securestore/kvdb.Update:vcRingUpdate,(*github.com/btcsuite/btcwallet/snacl.SecretKey).Encrypt:vcRingSeal,io.ReadFull:vcRingDraw
func vcRingGenerate(b *vcRing, key *snacl.SecretKey) {
	//@ requires vcRingNew(b)
	vcRi = b
	s := &RootKeyStorage{encKey: key}
	//@ call
	err := s.GenerateNewRootKey()
	//@ ensures refused: key == nil || b.Lost || b.Fails || b.DrawBad || b.SealBad ==> err != nil && vcRingWrites(b) == 0
	//@ ensures made: err == nil ==> b.Draws == 1 && len(b.Drawn) == RootKeyLen && b.Seals == 1 && b.SealKey == key && vcSame(b.SealIn, b.Drawn)
	//@ ensures stored: err == nil ==> vcRingWrites(b) == 1 && b.RootPuts == 1 && vcSame(b.RootPut, b.Sealed) && !b.RootBad
}

//@ contract C14 stub=pkg/securestore/kvdb.Update:vcRingUpdate
func vcRingDelete(b *vcRing, key *snacl.SecretKey, id []byte) {
	//@ requires vcRingNew(b) && !b.Lost && ErrMissingRootKeyID != nil && ErrDeletionForbidden != nil
	vcRi = b
	s := &RootKeyStorage{encKey: key}
	stored := b.Get(id)
	reserved := bytes.Equal(id, encryptionKeyID) || bytes.Equal(id, DefaultRootKeyID)
	//@ call
	gone, err := s.DeleteMacaroonID(context.Background(), id)
	//@ ensures refused: key == nil || len(id) == 0 || reserved || b.Fails ==> err != nil && vcRingWrites(b) == 0
	//@ ensures deleted: err == nil && stored != nil ==> b.Dels == 1 && vcSame(b.DelKey, id) && vcRingWrites(b) == 1 && vcSame(gone, id) && !b.DelBad
	//@ ensures missing: err == nil && stored == nil ==> vcRingWrites(b) == 0 && gone == nil
	//@ ensures nothing: err != nil ==> gone == nil
}
