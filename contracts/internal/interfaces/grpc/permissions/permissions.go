//go:build go1.22

package permissions

import (
	"github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	"github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"google.golang.org/grpc"
	"gopkg.in/macaroon-bakery.v2/bakery"
)

// vcHas: the macaroon's permissions include the operation.
func vcHas(ops []bakery.Op, entity, action string) bool {
	return vcExists(0, len(ops), func(i int) bool { return ops[i].Entity == entity && ops[i].Action == action })
}

// vcMay: somebody holding these permissions can call the method.
func vcMay(ops []bakery.Op, method string) bool {
	req, ok := AllPermissionsByMethod()[method]
	return ok && vcForall(0, len(req), func(i int) bool { return vcHas(ops, req[i].Entity, req[i].Action) })
}

// vcOpen: the method can be called without a macaroon.
func vcOpen(method string) bool {
	_, ok := Whitelist()[method]
	return ok
}

// vcOnly: the methods of the list are the only ones of the service that ok holds for
func vcOnly(svc grpc.ServiceDesc, names []string, ok func(method string) bool) bool {
	return vcForall(0, len(svc.Methods), func(i int) bool {
		return ok("/"+svc.ServiceName+"/"+svc.Methods[i].MethodName) ==
			vcExists(0, len(names), func(j int) bool { return names[j] == svc.Methods[i].MethodName })
	})
}

// the methods that only read
func vcReads() []string {
	return []string{"ListDepositMarket", "BalanceFeeAccount", "ListMarket", "ListTrades", "ReportMarketFee", "ListUtxos", "ListWebhooks"}
}

// the methods a market macaroon may call: everything about markets and their price, but moving funds
func vcMarket() []string {
	return []string{"DepositMarket", "ListDepositMarket", "DepositFeeAccount", "BalanceFeeAccount", "ClaimMarketDeposit", "ClaimFeeDeposit",
		"OpenMarket", "CloseMarket", "ListMarket", "UpdateMarketPercentageFee", "UpdateMarketFixedFee", "UpdateMarketPrice", "UpdateMarketStrategy",
		"ReportMarketFee", "DropMarket"}
}

//@ contract C18
func vcPermissions() {
	//@ call
	all := AllPermissionsByMethod()
	op, wal := operator.VcDesc(), wallet.VcDesc()
	none := []string{}
	//@ ensures trader: vcOpen("/Trade/Markets") && vcOpen("/Trade/Balances") && vcOpen("/Trade/MarketPrice") && vcOpen("/Trade/TradePropose") && vcOpen("/Trade/TradeComplete")
	//@ ensures guarded: vcOnly(op, none, vcOpen)
	//@ ensures wallet: vcOnly(wal, []string{"GenSeed", "InitWallet", "UnlockWallet", "ChangePassword"}, vcOpen)
	//@ ensures required: vcForallKey(all, func(m string) bool { ops, ok := all[m]; return !ok || len(ops) > 0 })
	//@ ensures served: vcForall(0, len(op.Methods), func(i int) bool { return vcMay(AdminPermissions(), "/"+op.ServiceName+"/"+op.Methods[i].MethodName) })
	//@ ensures admin: vcForall(0, len(wal.Methods), func(i int) bool { return vcOpen("/"+wal.ServiceName+"/"+wal.Methods[i].MethodName) || vcMay(AdminPermissions(), "/"+wal.ServiceName+"/"+wal.Methods[i].MethodName) })
	//@ ensures readonly: vcOnly(op, vcReads(), func(m string) bool { return vcMay(ReadOnlyPermissions(), m) })
	//@ ensures balance: vcOnly(wal, []string{"WalletBalance"}, func(m string) bool { return vcMay(ReadOnlyPermissions(), m) })
	//@ ensures market: vcOnly(op, vcMarket(), func(m string) bool { return vcMay(MarketPermissions(), m) }) && vcOnly(wal, none, func(m string) bool { return vcMay(MarketPermissions(), m) })
	//@ ensures price: vcOnly(op, []string{"UpdateMarketPrice"}, func(m string) bool { return vcMay(PricePermissions(), m) }) && vcOnly(wal, none, func(m string) bool { return vcMay(PricePermissions(), m) })
	//@ ensures send: vcOnly(wal, []string{"WalletAddress", "SendToMany", "WalletBalance"}, func(m string) bool { return vcMay(WalletPermissions(), m) }) && vcOnly(op, none, func(m string) bool { return vcMay(WalletPermissions(), m) })
	//@ ensures webhook: vcOnly(op, []string{"AddWebhook", "RemoveWebhook", "ListWebhooks"}, func(m string) bool { return vcMay(WebhookPermissions(), m) }) && vcOnly(wal, none, func(m string) bool { return vcMay(WebhookPermissions(), m) })
}
