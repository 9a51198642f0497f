//go:build go1.22

package domain

import "github.com/google/uuid"

// ---- C07: an output is locked by at most one trade.

func vcUnspentOK(u Unspent) bool { return u.Locked == (u.LockedBy != nil) }

// vcCoin: what the output is, as opposed to what happened to it.
func vcCoin(a, b Unspent) bool {
	return a.TxID == b.TxID && a.VOut == b.VOut && a.Value == b.Value && a.AssetHash == b.AssetHash &&
		a.ValueCommitment == b.ValueCommitment && a.AssetCommitment == b.AssetCommitment && a.Address == b.Address &&
		vcSame(a.ValueBlinder, b.ValueBlinder) && vcSame(a.AssetBlinder, b.AssetBlinder) && vcSame(a.ScriptPubKey, b.ScriptPubKey) &&
		vcSame(a.Nonce, b.Nonce) && vcSame(a.RangeProof, b.RangeProof) && vcSame(a.SurjectionProof, b.SurjectionProof)
}
func vcSameLock(a, b Unspent) bool { return a.Locked == b.Locked && a.LockedBy == b.LockedBy }

//@ contract C07
func vcLockUnspent(u *Unspent, trade *uuid.UUID) {
	//@ requires u != nil && trade != nil && vcUnspentOK(*u)
	old := *u
	other := false
	if old.LockedBy != nil {
		other = *old.LockedBy != *trade
	}
	//@ call
	err := u.Lock(trade)
	//@ ensures other: other ==> err == ErrUnspentAlreadyLocked && vcSameLock(*u, old)
	//@ ensures again: old.Locked && !other ==> err == nil && vcSameLock(*u, old)
	//@ ensures locked: !old.Locked ==> err == nil && u.Locked && u.LockedBy != nil && *u.LockedBy == *trade
	//@ ensures valid: vcUnspentOK(*u)
	//@ ensures frame: vcCoin(*u, old) && u.Spent == old.Spent && u.Confirmed == old.Confirmed
}

//@ contract C07
func vcUnlockUnspent(u *Unspent) {
	//@ requires u != nil
	old := *u
	//@ call
	u.Unlock()
	//@ ensures unlocked: !u.Locked && u.LockedBy == nil && !u.IsLocked()
	//@ ensures frame: vcCoin(*u, old) && u.Spent == old.Spent && u.Confirmed == old.Confirmed
}

//@ contract C07
func vcSpendUnspent(u *Unspent) {
	//@ requires u != nil
	old := *u
	//@ call
	u.Spend()
	//@ ensures spent: u.Spent && u.IsSpent()
	//@ ensures frame: vcCoin(*u, old) && vcSameLock(*u, old) && u.Confirmed == old.Confirmed
}

//@ contract C07
func vcConfirmUnspent(u *Unspent) {
	//@ requires u != nil
	old := *u
	//@ call
	u.Confirm()
	//@ ensures confirmed: u.Confirmed && u.IsConfirmed()
	//@ ensures frame: vcCoin(*u, old) && vcSameLock(*u, old) && u.Spent == old.Spent
}

//@ contract C07
func vcUnspentKey(u *Unspent, k UnspentKey) {
	//@ requires u != nil
	old := *u
	//@ call
	key := u.Key()
	same := u.IsKeyEqual(k)
	o := u.ToOutpointWithAsset()
	//@ ensures key: key.TxID == u.TxID && key.VOut == u.VOut
	//@ ensures equal: same == (k == key)
	//@ ensures outpoint: o.Asset == u.AssetHash && o.Txid == u.TxID && o.Vout == int(u.VOut)
	//@ ensures flags: u.IsSpent() == old.Spent && u.IsConfirmed() == old.Confirmed && u.IsLocked() == old.Locked
	//@ ensures frame: vcCoin(*u, old) && vcSameLock(*u, old) && u.Spent == old.Spent && u.Confirmed == old.Confirmed
}

//@ contract C07
func vcToUtxo(u *Unspent) {
	//@ requires u != nil
	//@ call
	x := u.ToUtxo()
	//@ ensures outpoint: x.Hash() == u.TxID && x.Index() == u.VOut
	//@ ensures amount: x.Value() == u.Value && x.Asset() == u.AssetHash && x.ValueCommitment() == u.ValueCommitment && x.AssetCommitment() == u.AssetCommitment
	//@ ensures blinders: vcSame(x.ValueBlinder(), u.ValueBlinder) && vcSame(x.AssetBlinder(), u.AssetBlinder) && vcSame(x.Nonce(), u.Nonce)
	//@ ensures rest: vcSame(x.Script(), u.ScriptPubKey) && vcSame(x.RangeProof(), u.RangeProof) && vcSame(x.SurjectionProof(), u.SurjectionProof) && x.IsConfirmed() == u.Confirmed
}
