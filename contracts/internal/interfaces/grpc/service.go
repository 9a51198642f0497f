//go:build go1.22

package grpcinterface

import (
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/pkg/macaroons"
)

type vcWallet struct {
	application.WalletService
}

func (vcWallet) PassphraseChan() chan application.PassphraseMsg { return nil }

//@ contract C18 opaque=pkg/macaroons.NewService,(internal/interfaces/grpc.ServiceOpts).validate,internal/interfaces/grpc.generateOperatorTLSKeyCert
func vcNewService(o ServiceOpts) {
	o.WalletSvc = vcWallet{}
	mac, macErr := macaroons.NewService(o.dbDatadir(), Location, DBFile, false, macaroons.IPLockChecker)
	//@ assume macErr != nil || mac != nil
	//@ call
	res, err := NewService(o)
	//@ ensures auth: err == nil && !o.NoMacaroons ==> macErr == nil && res.(*service).macaroonSvc == mac && mac != nil
	//@ ensures refused: err != nil ==> res == nil
}
