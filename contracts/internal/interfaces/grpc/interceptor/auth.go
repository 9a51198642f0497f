//go:build go1.22

package interceptor

import (
	"context"
	"errors"

	"github.com/tdex-network/tdex-daemon/internal/interfaces/grpc/permissions"
	"github.com/tdex-network/tdex-daemon/pkg/macaroons"
	"google.golang.org/grpc"
	"gopkg.in/macaroon-bakery.v2/bakery"
)

// vcValidator is a validator registered for a method.
type vcValidator struct {
	Fails  bool
	Calls  int
	Ops    []bakery.Op
	Method string
}

var vcDenied = errors.New("denied")

func (v *vcValidator) ValidateMacaroon(ctx context.Context, ops []bakery.Op, method string) error {
	v.Calls++
	v.Ops = ops
	v.Method = method
	if v.Fails {
		return vcDenied
	}
	return nil
}

type vcHandler struct {
	Calls int
	Fails bool
}

func vcSameOps(a, b []bakery.Op) bool {
	return len(a) == len(b) && vcForall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

//@ contract C18
func vcUnary(v *vcValidator, off bool, method string, h *vcHandler) {
	//@ requires v != nil && h != nil && v.Calls == 0 && h.Calls == 0
	svc := &macaroons.Service{ExternalValidators: map[string]macaroons.MacaroonValidator{method: v}}
	if off {
		svc = nil
	}
	//@ call
	f := unaryMacaroonAuthHandler(svc)
	res, err := f(context.Background(), 1, &grpc.UnaryServerInfo{FullMethod: method}, func(ctx context.Context, req interface{}) (interface{}, error) {
		h.Calls++
		return 7, nil
	})
	_, open := permissions.Whitelist()[method]
	required, known := permissions.AllPermissionsByMethod()[method]
	//@ ensures refused: (err == nil) == (h.Calls == 1) && (err != nil ==> h.Calls == 0 && res == nil)
	//@ ensures open: off || open ==> err == nil && v.Calls == 0
	//@ ensures unknown: !off && !open && !known ==> err != nil && v.Calls == 0
	//@ ensures guarded: !off && !open && known ==> (err != nil) == v.Fails && v.Calls == 1 && v.Method == method && vcSameOps(v.Ops, required)
}

type vcStream struct {
	grpc.ServerStream
}

func (vcStream) Context() context.Context { return context.Background() }

//@ contract C18
func vcStreamed(v *vcValidator, off bool, method string, h *vcHandler) {
	//@ requires v != nil && h != nil && v.Calls == 0 && h.Calls == 0
	svc := &macaroons.Service{ExternalValidators: map[string]macaroons.MacaroonValidator{method: v}}
	if off {
		svc = nil
	}
	//@ call
	f := streamMacaroonAuthHandler(svc)
	err := f(1, vcStream{}, &grpc.StreamServerInfo{FullMethod: method}, func(srv interface{}, ss grpc.ServerStream) error {
		h.Calls++
		return nil
	})
	_, open := permissions.Whitelist()[method]
	required, known := permissions.AllPermissionsByMethod()[method]
	//@ ensures refused: (err == nil) == (h.Calls == 1) && (err != nil ==> h.Calls == 0)
	//@ ensures open: off || open ==> err == nil && v.Calls == 0
	//@ ensures unknown: !off && !open && !known ==> err != nil && v.Calls == 0
	//@ ensures guarded: !off && !open && known ==> (err != nil) == v.Fails && v.Calls == 1 && v.Method == method && vcSameOps(v.Ops, required)
}

//@ contract C18 opaque=(*pkg/macaroons.Service).ValidateMacaroon
func vcInternal(stateless bool, method string) {
	svc := &macaroons.Service{StatelessInit: stateless}
	ctx := context.Background()
	_, open := permissions.Whitelist()[method]
	required, known := permissions.AllPermissionsByMethod()[method]
	valid := svc.ValidateMacaroon(ctx, required, method)
	//@ call
	err := checkMacaroon(ctx, method, svc)
	//@ ensures open: open ==> err == nil
	//@ ensures unknown: !open && !known ==> err != nil
	//@ ensures guarded: !open && known ==> err == valid
}
