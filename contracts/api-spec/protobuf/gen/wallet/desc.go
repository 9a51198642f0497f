//go:build go1.22

package wallet

import "google.golang.org/grpc"

// VcDesc names every method the wallet service serves.
func VcDesc() grpc.ServiceDesc { return _Wallet_serviceDesc }
