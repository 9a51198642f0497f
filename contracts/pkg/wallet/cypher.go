//go:build go1.22

package wallet

import (
	"crypto/cipher"
	"encoding/base64"
	"errors"
)

// ---- C14: what is encrypted is read back with the same passphrase, and with
// no other. The primitives (scrypt, AES, GCM, the random source, base64) are
// fakes that record what they are given; the cipher opens what was sealed.

type vcCiph struct {
	// a sealed text: what was sealed, under which nonce and key, and what came out
	Pass   string
	Salt   []byte
	Key    []byte // what the passphrase and the salt make
	Other  []byte // what other ones make
	Nonce  []byte
	Plain  string
	Sealed []byte
	Data   []byte // what the text of the ciphertext stands for
	Text   string
	At     int // any position of it
	// a text given to be read, and what it stands for
	Given     string
	Malformed bool
	Read      []byte
	Opened    bool
	// how the primitives do
	RandFails, KdfFails, AesFails, GcmFails bool
	Salts, Nonces                           int
	Kdfs                                    int
	Seals                                   int
	Opens                                   int
	Weak                                    bool // some primitive was not used as it must be
}

var vcCi *vcCiph

var vcCiphErr = errors.New("some error")

func vcSameBytes(a, b []byte) bool {
	return len(a) == len(b) && vcForall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

// vcDraw: the salt has 32 bytes, the nonce those of the cipher.
func vcDraw(b []byte) (int, error) {
	c := vcCi
	if c.RandFails {
		return 0, vcCiphErr
	}
	if len(b) == 32 {
		c.Salts++
		copy(b, c.Salt)
	} else if len(b) == 12 {
		c.Nonces++
		copy(b, c.Nonce)
	} else {
		c.Weak = true
	}
	return len(b), nil
}

func vcKdf(pass, salt []byte, n, r, p, size int) ([]byte, error) {
	c := vcCi
	c.Kdfs++
	if n < 1<<20 || r < 8 || p < 1 || size != 32 {
		c.Weak = true
	}
	if c.KdfFails {
		return nil, vcCiphErr
	}
	if vcB(func() bool { return string(pass) == c.Pass && vcSameBytes(salt, c.Salt) }) {
		return c.Key, nil
	}
	return c.Other, nil
}

type vcBlock struct {
	cipher.Block
	Key []byte
}

func vcAes(key []byte) (cipher.Block, error) {
	if vcCi.AesFails {
		return nil, vcCiphErr
	}
	return &vcBlock{Key: key}, nil
}

type vcAead struct{ Key []byte }

func vcGcm(b cipher.Block) (cipher.AEAD, error) {
	if vcCi.GcmFails {
		return nil, vcCiphErr
	}
	return &vcAead{Key: b.(*vcBlock).Key}, nil
}
func (a *vcAead) NonceSize() int { return 12 }
func (a *vcAead) Overhead() int  { return 16 }
func (a *vcAead) Seal(dst, nonce, plaintext, additional []byte) []byte {
	c := vcCi
	c.Seals++
	if vcB(func() bool {
		return !vcSameBytes(a.Key, c.Key) || !vcSameBytes(nonce, c.Nonce) || string(plaintext) != c.Plain || len(additional) > 0
	}) {
		c.Weak = true
	}
	return append(dst, c.Sealed...)
}
func (a *vcAead) Open(dst, nonce, text, additional []byte) ([]byte, error) {
	c := vcCi
	c.Opens++
	if vcB(func() bool {
		return vcSameBytes(a.Key, c.Key) && vcSameBytes(nonce, c.Nonce) && vcSameBytes(text, c.Sealed) && len(additional) == 0
	}) {
		c.Opened = true
		if len(dst) == 0 {
			return []byte(c.Plain), nil
		}
		return append(dst, []byte(c.Plain)...), nil
	}
	return nil, vcCiphErr
}

func vcTextOf(b []byte) string {
	c := vcCi
	if len(b) != len(c.Data) {
		c.Weak = true
	} else if b[c.At] != vcPart(c, c.At) {
		c.Weak = true
	}
	return vcCi.Text
}

// vcWhole: the ciphertext is the nonce, what was sealed and the salt, in a row.
func vcWhole(c *vcCiph) bool {
	return len(c.Data) == len(c.Nonce)+len(c.Sealed)+len(c.Salt) &&
		vcForall(0, len(c.Nonce), func(i int) bool { return c.Data[i] == c.Nonce[i] }) &&
		vcForall(0, len(c.Sealed), func(i int) bool { return c.Data[len(c.Nonce)+i] == c.Sealed[i] }) &&
		vcForall(0, len(c.Salt), func(i int) bool { return c.Data[len(c.Nonce)+len(c.Sealed)+i] == c.Salt[i] })
}

// vcPart: the byte at a position of the nonce, what was sealed and the salt, in a row.
func vcPart(c *vcCiph, i int) byte {
	if i < len(c.Nonce) {
		return c.Nonce[i]
	}
	if i < len(c.Nonce)+len(c.Sealed) {
		return c.Sealed[i-len(c.Nonce)]
	}
	return c.Salt[i-len(c.Nonce)-len(c.Sealed)]
}

//@ contract C14 stub=crypto/rand.Read:vcDraw,golang.org/x/crypto/scrypt.Key:vcKdf,crypto/aes.NewCipher:vcAes,crypto/cipher.NewGCM:vcGcm,(*encoding/base64.Encoding).EncodeToString:vcEncodeText
func vcEncrypt(c *vcCiph, o EncryptOpts) {
	//@ requires c != nil && c.Pass == o.Passphrase && c.Plain == o.PlainText && len(c.Salt) == 32 && len(c.Nonce) == 12
	//@ requires len(c.Data) == len(c.Nonce)+len(c.Sealed)+len(c.Salt) && 0 <= c.At && c.At < len(c.Data)
	//@ requires !c.Weak && c.Salts == 0 && c.Nonces == 0 && c.Kdfs == 0 && c.Seals == 0
	vcCi = c
	//@ call
	text, err := Encrypt(o)
	//@ ensures refused: o.PlainText == "" || o.Passphrase == "" ==> err != nil
	//@ ensures sealed: err == nil ==> text == c.Text && c.Seals == 1 && !c.Weak
	//@ ensures fresh: err == nil ==> c.Salts == 1 && c.Nonces == 1 && c.Kdfs == 1
	//@ ensures failed: c.RandFails || c.KdfFails || c.AesFails || c.GcmFails ==> err != nil
	//@ ensures nothing: err != nil ==> text == ""
	//@ ensures done: o.PlainText != "" && o.Passphrase != "" && !c.RandFails && !c.KdfFails && !c.AesFails && !c.GcmFails ==> err == nil
}

func vcEncodeText(e *base64.Encoding, b []byte) string { return vcTextOf(b) }

func vcDecodeText(e *base64.Encoding, s string) ([]byte, error) {
	c := vcCi
	if s != c.Given {
		return nil, vcCiphErr
	}
	if c.Malformed {
		return nil, vcCiphErr
	}
	return c.Read, nil
}

// vcHolds: the text given is what was sealed, with its nonce and its salt.
func vcHonest(c *vcCiph) bool {
	return vcSameBytes(c.Read, c.Data)
}

//@ contract C14 stub=golang.org/x/crypto/scrypt.Key:vcKdf,crypto/aes.NewCipher:vcAes,crypto/cipher.NewGCM:vcGcm,(*encoding/base64.Encoding).DecodeString:vcDecodeText
func vcDecrypt(c *vcCiph, o DecryptOpts) {
	//@ requires c != nil && c.Given == o.CypherText && len(c.Salt) == 32 && len(c.Nonce) == 12 && len(c.Sealed) >= 16 && vcWhole(c) && !vcSameBytes(c.Key, c.Other)
	//@ requires !c.Weak && c.Kdfs == 0 && c.Opens == 0
	vcCi = c
	//@ call
	text, err := Decrypt(o)
	//@ ensures refused: o.CypherText == "" || o.Passphrase == "" || c.Malformed ==> err != nil
	//@ ensures short: len(c.Read) < 44 ==> err != nil
	//@ ensures opened: vcHonest(c) && o.Passphrase == c.Pass && err == nil ==> text == c.Plain
	//@ ensures opens: vcHonest(c) && o.Passphrase == c.Pass && o.CypherText != "" && o.Passphrase != "" && !c.Malformed && !c.KdfFails && !c.AesFails && !c.GcmFails ==> err == nil
	//@ ensures strong: !c.Weak && c.Kdfs <= 1 && c.Opens <= 1
	//@ ensures sealed: err == nil ==> c.Opens == 1 && c.Opened && text == c.Plain
	//@ ensures wrong: err == nil ==> o.Passphrase == c.Pass
	//@ ensures failed: c.KdfFails || c.AesFails || c.GcmFails ==> err != nil
	//@ ensures nothing: err != nil ==> text == ""
}
