//go:build go1.22

package macaroons

import (
	"context"
	"encoding/hex"

	"google.golang.org/grpc/metadata"
	"gopkg.in/macaroon-bakery.v2/bakery"
	macaroon "gopkg.in/macaroon.v2"
)

// The bakery decides which operations a macaroon grants; metadata, decoding
// and the bakery's verdict are functions of their arguments.

//@ contract C18 opaque=google.golang.org/grpc/metadata.FromIncomingContext,encoding/hex.DecodeString,(*gopkg.in/macaroon.v2.Macaroon).UnmarshalBinary,(*gopkg.in/macaroon-bakery.v2/bakery.Checker).Auth,(*gopkg.in/macaroon-bakery.v2/bakery.AuthChecker).Allow
func vcValidate(svc *Service, ops []bakery.Op, method string) {
	//@ requires svc != nil && svc.Checker != nil
	ctx := context.Background()
	md, ok := metadata.FromIncomingContext(ctx)
	one := ok && len(md["macaroon"]) == 1
	decoded, valid := false, false
	if one {
		b, err := hex.DecodeString(md["macaroon"][0])
		decoded = err == nil
		valid = (&macaroon.Macaroon{}).UnmarshalBinary(b) == nil
	}
	checker := svc.Checker.Auth(macaroon.Slice{&macaroon.Macaroon{}})
	//@ assume checker != nil
	_, broad := checker.Allow(ctx, ops...)
	_, exact := checker.Allow(ctx, bakery.Op{Entity: PermissionEntityCustomURI, Action: method})
	//@ call
	err := svc.ValidateMacaroon(ctx, ops, method)
	//@ ensures one: err == nil ==> one && decoded && valid
	//@ ensures allowed: err == nil ==> broad == nil || exact == nil
	//@ ensures served: one && decoded && valid && (broad == nil || exact == nil) ==> err == nil
}
