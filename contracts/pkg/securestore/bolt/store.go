//go:build go1.22

package boltsecurestore

import (
	"bytes"
	"errors"

	"github.com/btcsuite/btcwallet/snacl"
	"github.com/tdex-network/tdex-daemon/pkg/securestore/kvdb"
)

// ---- C14: the values of the secure store are kept encrypted under the key
// that the password opens, and are reached only while it is unlocked.

// vcDisk is any database: a transaction is rolled back when it fails.
type vcDisk struct {
	kvdb.ExtendedBackend
	Fails, Lost bool // the transaction can't be opened, the root bucket isn't there
	Root        *vcBucket
	Views       int
	Updates     int
	Done        bool // the last transaction was committed
}

var vcDiskErr = errors.New("some error")

func (d *vcDisk) View(f func(tx kvdb.RTx) error, reset func()) error {
	d.Views++
	reset()
	if d.Fails {
		return vcDiskErr
	}
	return f(&vcRtx{D: d})
}
func (d *vcDisk) Update(f func(tx kvdb.RwTx) error, reset func()) error {
	d.Updates++
	reset()
	if d.Fails {
		return vcDiskErr
	}
	err := f(&vcRwtx{D: d})
	d.Done = err == nil
	return err
}

type vcRtx struct {
	kvdb.RTx
	D *vcDisk
}

func (t *vcRtx) ReadBucket(key []byte) kvdb.RBucket {
	if t.D.Lost || !vcSame(key, RootKeyBucketName) {
		return nil
	}
	return t.D.Root
}

type vcRwtx struct {
	kvdb.RwTx
	D *vcDisk
}

func (t *vcRwtx) ReadWriteBucket(key []byte) kvdb.RwBucket {
	if t.D.Lost || !vcSame(key, RootKeyBucketName) {
		return nil
	}
	return t.D.Root
}

type vcBucket struct {
	kvdb.RwBucket
	Name    []byte
	Inner   *vcBucket // the nested bucket of this name, if any
	Key     []byte    // an entry of the bucket, if any
	Value   []byte
	Keys    [][]byte // all of them, for a visit (buckets have no value)
	Values  [][]byte
	Puts    int
	PutKey  []byte
	PutVal  []byte
	PutBad  bool
	Dels    int
	DelKey  []byte
	DelBad  bool
	Drops   int
	DropKey []byte
	DropBad bool
	Makes   int
	MakeKey []byte
	MakeBad bool
}

func (b *vcBucket) NestedReadBucket(key []byte) kvdb.RBucket {
	if b.Inner == nil || !bytes.Equal(key, b.Inner.Name) {
		return nil
	}
	return b.Inner
}
func (b *vcBucket) NestedReadWriteBucket(key []byte) kvdb.RwBucket {
	if b.Inner == nil || !bytes.Equal(key, b.Inner.Name) {
		return nil
	}
	return b.Inner
}
func (b *vcBucket) Get(key []byte) []byte {
	if !bytes.Equal(key, b.Key) {
		return nil
	}
	return b.Value
}
func (b *vcBucket) Put(key, value []byte) error {
	b.Puts++
	b.PutKey, b.PutVal = key, value
	if b.PutBad {
		return vcDiskErr
	}
	return nil
}
func (b *vcBucket) Delete(key []byte) error {
	b.Dels++
	b.DelKey = key
	if b.DelBad {
		return vcDiskErr
	}
	return nil
}
func (b *vcBucket) DeleteNestedBucket(key []byte) error {
	b.Drops++
	b.DropKey = key
	if b.DropBad {
		return vcDiskErr
	}
	return nil
}
func (b *vcBucket) CreateBucketIfNotExists(key []byte) (kvdb.RwBucket, error) {
	b.Makes++
	b.MakeKey = key
	if b.MakeBad {
		return nil, vcDiskErr
	}
	return b.Inner, nil
}
func (b *vcBucket) ForEach(f func(k, v []byte) error) error {
	for i := 0; i < len(b.Keys); i++ {
		if err := f(b.Keys[i], b.Values[i]); err != nil {
			return err
		}
	}
	return nil
}

// vcSeal is any cipher.
type vcSeal struct {
	Enc, Dec           []byte
	EncFails, DecFails bool
	Encs, Decs         int
	EncIn, DecIn       []byte
	EncKey, DecKey     *snacl.SecretKey
	// keys
	Bad, Wrong, NoKey bool
	Raw               []byte // the key in its stored form
	Read              []byte
	Pass              *[]byte
	New               *snacl.SecretKey
	Soft              bool
	Known             *snacl.SecretKey // a key that was derived from the password
}

var vcSe *vcSeal

func vcEnc(k *snacl.SecretKey, in []byte) ([]byte, error) {
	vcSe.Encs++
	vcSe.EncIn, vcSe.EncKey = in, k
	if vcSe.EncFails {
		return nil, vcDiskErr
	}
	return vcSe.Enc, nil
}
func vcDec(k *snacl.SecretKey, in []byte) ([]byte, error) {
	vcSe.Decs++
	vcSe.DecIn, vcSe.DecKey = in, k
	if vcSe.DecFails {
		return nil, vcDiskErr
	}
	return vcSe.Dec, nil
}
func vcUnmarshal(k *snacl.SecretKey, raw []byte) error {
	vcSe.Read = raw
	if vcSe.Bad {
		return vcDiskErr
	}
	return nil
}
func vcDerive(k *snacl.SecretKey, password *[]byte) error {
	vcSe.Pass = password
	if vcSe.Wrong {
		return vcDiskErr
	}
	vcSe.Known = k
	return nil
}
func vcNewKey(password *[]byte, n, r, p int) (*snacl.SecretKey, error) {
	vcSe.Pass = password
	vcSe.Soft = n < snacl.DefaultN || r < snacl.DefaultR || p < snacl.DefaultP
	if vcSe.NoKey {
		return nil, vcDiskErr
	}
	return vcSe.New, nil
}
func vcMarshal(k *snacl.SecretKey) []byte {
	if k != vcSe.New {
		return nil
	}
	return vcSe.Raw
}

func vcClean(d *vcDisk) bool {
	r := d.Root
	return r != nil && d.Views == 0 && d.Updates == 0 && vcFresh(r) && (r.Inner == nil || r.Inner != r && vcFresh(r.Inner) && r.Inner.Inner == nil)
}
func vcFresh(b *vcBucket) bool {
	return b.Puts == 0 && b.Dels == 0 && b.Drops == 0 && b.Makes == 0 && len(b.Keys) == len(b.Values)
}

// vcBucketOf: the bucket that a name leads to.
func vcBucketOf(d *vcDisk, name []byte) *vcBucket {
	if d.Lost {
		return nil
	}
	if len(name) == 0 {
		return d.Root
	}
	if d.Root.Inner == nil || !bytes.Equal(name, d.Root.Inner.Name) {
		return nil
	}
	return d.Root.Inner
}

func vcWrites(d *vcDisk) int {
	n := d.Root.Puts + d.Root.Dels + d.Root.Drops + d.Root.Makes
	if d.Root.Inner != nil {
		n += d.Root.Inner.Puts + d.Root.Inner.Dels + d.Root.Inner.Drops + d.Root.Inner.Makes
	}
	return n
}

//@ contract C14 stub=(*github.com/btcsuite/btcwallet/snacl.SecretKey).Encrypt:vcEnc
func vcAddTo(d *vcDisk, c *vcSeal, key *snacl.SecretKey, name, k, v []byte) {
	//@ requires d != nil && c != nil && vcClean(d) && c.Encs == 0 && ErrBucketNotFound != nil
	vcSe = c
	s := &boltSecureStorage{db: d, encKey: key}
	b := vcBucketOf(d, name)
	reserved := bytes.Equal(k, encryptionKeyID)
	//@ call
	err := s.AddToBucket(name, k, v)
	//@ ensures refused: key == nil || len(k) == 0 || len(v) == 0 || reserved ==> err != nil
	//@ ensures missing: b == nil || d.Fails || c.EncFails ==> err != nil
	//@ ensures stored: err == nil ==> b.Puts == 1 && vcWrites(d) == 1 && bytes.Equal(b.PutKey, k) && vcSame(b.PutVal, c.Enc) && d.Done
	//@ ensures sealed: err == nil ==> c.Encs == 1 && c.EncKey == key && vcSame(c.EncIn, v) && !b.PutBad
	//@ ensures nothing: key == nil || reserved || c.EncFails ==> vcWrites(d) == 0
	//@ ensures done: key != nil && len(k) > 0 && len(v) > 0 && !reserved && b != nil && !d.Fails && !c.EncFails && !b.PutBad ==> err == nil
}

//@ contract C14 stub=(*github.com/btcsuite/btcwallet/snacl.SecretKey).Decrypt:vcDec
func vcGetFrom(d *vcDisk, c *vcSeal, key *snacl.SecretKey, name, k []byte) {
	//@ requires d != nil && c != nil && vcClean(d) && c.Decs == 0 && ErrBucketNotFound != nil
	vcSe = c
	s := &boltSecureStorage{db: d, encKey: key}
	b := vcBucketOf(d, name)
	reserved := bytes.Equal(k, encryptionKeyID)
	has := b != nil && bytes.Equal(k, b.Key) && len(b.Value) > 0
	//@ call
	v, err := s.GetFromBucket(name, k)
	//@ ensures refused: key == nil || len(k) == 0 || reserved ==> err != nil
	//@ ensures missing: b == nil || d.Fails ==> err != nil
	//@ ensures read: err == nil && has ==> c.Decs == 1 && c.DecKey == key && vcSame(c.DecIn, b.Value) && !c.DecFails && bytes.Equal(v, c.Dec)
	//@ ensures absent: err == nil && !has ==> v == nil
	//@ ensures nothing: err != nil ==> v == nil
	//@ ensures kept: vcWrites(d) == 0
	//@ ensures done: key != nil && len(k) > 0 && !reserved && b != nil && !d.Fails && (!has || !c.DecFails) ==> err == nil
}

//@ contract C14
func vcRemoveFrom(d *vcDisk, key *snacl.SecretKey, name, k []byte) {
	//@ requires d != nil && vcClean(d) && ErrBucketNotFound != nil
	s := &boltSecureStorage{db: d, encKey: key}
	b := vcBucketOf(d, name)
	reserved := bytes.Equal(k, encryptionKeyID)
	//@ call
	err := s.RemoveFromBucket(name, k)
	//@ ensures refused: key == nil || len(k) == 0 || reserved || b == nil || d.Fails ==> err != nil && vcWrites(d) == 0
	//@ ensures removed: err == nil ==> b.Dels == 1 && vcWrites(d) == 1 && bytes.Equal(b.DelKey, k) && !b.DelBad && d.Done
	//@ ensures done: key != nil && len(k) > 0 && !reserved && b != nil && !d.Fails && !b.DelBad ==> err == nil
}

//@ contract C14
func vcMakeBucket(d *vcDisk, key *snacl.SecretKey, k []byte) {
	//@ requires d != nil && vcClean(d)
	s := &boltSecureStorage{db: d, encKey: key}
	reserved := bytes.Equal(k, encryptionKeyID)
	//@ call
	err := s.CreateBucket(k)
	//@ ensures refused: key == nil || len(k) == 0 || reserved || d.Lost || d.Fails ==> err != nil && vcWrites(d) == 0
	//@ ensures made: err == nil ==> d.Root.Makes == 1 && vcWrites(d) == 1 && bytes.Equal(d.Root.MakeKey, k) && !d.Root.MakeBad && d.Done
	//@ ensures done: key != nil && len(k) > 0 && !reserved && !d.Lost && !d.Fails && !d.Root.MakeBad ==> err == nil
}

//@ contract C14
func vcDropBucket(d *vcDisk, key *snacl.SecretKey, k []byte) {
	//@ requires d != nil && vcClean(d)
	s := &boltSecureStorage{db: d, encKey: key}
	reserved := bytes.Equal(k, encryptionKeyID)
	//@ call
	err := s.RemoveBucket(k)
	//@ ensures refused: key == nil || len(k) == 0 || reserved || d.Lost || d.Fails ==> err != nil && vcWrites(d) == 0
	//@ ensures dropped: err == nil ==> d.Root.Drops == 1 && vcWrites(d) == 1 && bytes.Equal(d.Root.DropKey, k) && !d.Root.DropBad && d.Done
	//@ ensures done: key != nil && len(k) > 0 && !reserved && !d.Lost && !d.Fails && !d.Root.DropBad ==> err == nil
}

//@ contract C14 stub=(*github.com/btcsuite/btcwallet/snacl.SecretKey).Unmarshal:vcUnmarshal,(*github.com/btcsuite/btcwallet/snacl.SecretKey).DeriveKey:vcDerive,github.com/btcsuite/btcwallet/snacl.NewSecretKey:vcNewKey,(*github.com/btcsuite/btcwallet/snacl.SecretKey).Marshal:vcMarshal
func vcCreateUnlock(d *vcDisk, c *vcSeal, key *snacl.SecretKey, pass *[]byte) {
	//@ requires d != nil && c != nil && vcClean(d) && c.New != nil && c.Pass == nil && c.Known == nil
	vcSe = c
	s := &boltSecureStorage{db: d, encKey: key}
	has := !d.Lost && bytes.Equal(encryptionKeyID, d.Root.Key) && len(d.Root.Value) > 0
	//@ call
	err := s.CreateUnlock(pass)
	//@ ensures open: key != nil ==> err == nil && s.encKey == key && d.Updates == 0
	//@ ensures password: key == nil && (pass == nil || d.Lost || d.Fails) ==> err != nil
	//@ ensures wrong: key == nil && has && (c.Bad || c.Wrong) ==> err != nil
	//@ ensures locked: key == nil && err != nil ==> s.encKey == nil
	//@ ensures unlocked: key == nil && err == nil && has ==> s.encKey != nil && s.encKey == c.Known && c.Pass == pass && vcSame(c.Read, d.Root.Value) && vcWrites(d) == 0
	//@ ensures created: key == nil && err == nil && !has ==> s.encKey == c.New && c.Pass == pass && !c.Soft && !c.NoKey && vcWrites(d) == 1 && d.Root.Puts == 1 && bytes.Equal(d.Root.PutKey, encryptionKeyID) && vcSame(d.Root.PutVal, c.Raw) && !d.Root.PutBad
	//@ ensures done: key == nil && pass != nil && !d.Lost && !d.Fails && !c.Bad && !c.Wrong && !c.NoKey && !d.Root.PutBad ==> err == nil
}

//@ contract C14
func vcLockStore(key *snacl.SecretKey) {
	s := &boltSecureStorage{encKey: key}
	//@ call
	s.Lock()
	//@ ensures locked: s.IsLocked() && s.encKey == nil
}
