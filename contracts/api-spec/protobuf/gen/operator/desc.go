//go:build go1.22

package operator

import "google.golang.org/grpc"

// VcDesc names every method the operator service serves.
func VcDesc() grpc.ServiceDesc { return _Operator_serviceDesc }
