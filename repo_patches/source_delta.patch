From 0acb6ebd69a446cd688d1571ab05b39ec3b86ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 01/20] fix: refuse quotes that do not fit in 64 bits

The amount to be paid for a requested output was converted to uint64 with
wrap-around, so that a request for almost the whole reserve could be quoted
at a fraction of its price.
---
 internal/core/domain/market_service.go        | 12 ++++++++++--
 internal/core/domain/pluggable_strategy.go    | 14 ++++++++++++--
 pkg/marketmaking/formula/balanced_reserves.go |  7 ++++++-
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/internal/core/domain/market_service.go b/internal/core/domain/market_service.go
index 20604b5..9a9ed2c 100644
--- a/internal/core/domain/market_service.go
+++ b/internal/core/domain/market_service.go
@@ -379,7 +379,7 @@ func (m *Market) chargeFixedFees(
 ) (uint64, error) {
 	if isBuy {
 		if isBaseAsset {
-			return amount + uint64(m.FixedFee.QuoteFee), nil
+			return safeAddFeesToAmount(amount, uint64(m.FixedFee.QuoteFee))
 		}
 		return safeSubtractFeesFromAmount(
 			amount, uint64(m.FixedFee.BaseFee), baseBalance,
@@ -391,7 +391,7 @@ func (m *Market) chargeFixedFees(
 			amount, uint64(m.FixedFee.QuoteFee), quoteBalance,
 		)
 	}
-	return amount + uint64(m.FixedFee.BaseFee), nil
+	return safeAddFeesToAmount(amount, uint64(m.FixedFee.BaseFee))
 }
 
 // getStrategySafe is a backward compatible method that returns the current
@@ -433,6 +433,14 @@ func getLatestPrice(pt Prices) (decimal.Decimal, decimal.Decimal) {
 	return pt.BasePrice, pt.QuotePrice
 }
 
+func safeAddFeesToAmount(amount, fee uint64) (uint64, error) {
+	amountPlusFees := amount + fee
+	if amountPlusFees < amount {
+		return 0, ErrMarketPreviewAmountTooBig
+	}
+	return amountPlusFees, nil
+}
+
 func safeSubtractFeesFromAmount(amount, fee, balance uint64) (uint64, error) {
 	amountLessFees := amount
 	if amountLessFees <= uint64(fee) {
diff --git a/internal/core/domain/pluggable_strategy.go b/internal/core/domain/pluggable_strategy.go
index 9aba40b..0c9d9f8 100644
--- a/internal/core/domain/pluggable_strategy.go
+++ b/internal/core/domain/pluggable_strategy.go
@@ -31,7 +31,12 @@ func (s PluggableStrategy) OutGivenIn(_opts interface{}, amountIn uint64) (uint6
 		return 0, ErrMarketPreviewAmountTooLow
 	}
 
-	amountR := decimal.NewFromInt(int64(amountIn)).Mul(opts.Price).BigInt().Uint64()
+	// The conversion to integer must not wrap around.
+	amountBig := decimal.NewFromInt(int64(amountIn)).Mul(opts.Price).BigInt()
+	if !amountBig.IsInt64() {
+		return 0, ErrMarketPreviewAmountTooBig
+	}
+	amountR := amountBig.Uint64()
 	amountR, _ = mathutil.LessFee(amountR, opts.Fee)
 	if amountR == 0 {
 		return 0, ErrMarketPreviewAmountTooLow
@@ -51,7 +56,12 @@ func (s PluggableStrategy) InGivenOut(_opts interface{}, amountOut uint64) (uint
 		return 0, ErrMarketPreviewAmountTooBig
 	}
 
-	amountP := decimal.NewFromInt(int64(amountOut)).Mul(opts.Price).BigInt().Uint64()
+	// The conversion to integer must not wrap around, with the fee added on top.
+	amountBig := decimal.NewFromInt(int64(amountOut)).Mul(opts.Price).BigInt()
+	if !amountBig.IsInt64() {
+		return 0, ErrMarketPreviewAmountTooBig
+	}
+	amountP := amountBig.Uint64()
 	amountP, _ = mathutil.PlusFee(amountP, opts.Fee)
 	if amountP == 0 {
 		return 0, ErrMarketPreviewAmountTooLow
diff --git a/pkg/marketmaking/formula/balanced_reserves.go b/pkg/marketmaking/formula/balanced_reserves.go
index 1bafafb..4e05cb5 100644
--- a/pkg/marketmaking/formula/balanced_reserves.go
+++ b/pkg/marketmaking/formula/balanced_reserves.go
@@ -142,7 +142,12 @@ func (BalancedReserves) InGivenOut(_opts interface{}, amountOut uint64) (uint64,
 		).Sub(decimal.NewFromInt(1)),
 	)
 
-	amountIn := amountInDecimal.BigInt().Uint64()
+	// The conversion to integer must not wrap around, with the fee added on top.
+	amountInBig := amountInDecimal.BigInt()
+	if !amountInBig.IsInt64() {
+		return 0, ErrAmountTooBig
+	}
+	amountIn := amountInBig.Uint64()
 	if opts.ChargeFeeOnTheWayIn {
 		amountIn, _ = mathutil.PlusFee(amountIn, opts.Fee)
 	}
-- 
2.43.0


From 2e0c05e2fc02038b89040e3cc7289678311a0688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 02/20] fix: reject swaps whose assets are not those of the
 market

---
 internal/core/application/trade_service.go | 25 ++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index f912673..b496c90 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -349,6 +349,16 @@ func (t *tradeService) TradePropose(
 		goto end
 	}
 
+	if !isValidTradeAssets(swapRequest, tradeType, mkt) {
+		trade.Fail(
+			swapRequest.GetId(),
+			int(pkgswap.ErrCodeInvalidSwapRequest),
+			"assets do not match those of the market",
+		)
+		swapFail = trade.SwapFailMessage()
+		goto end
+	}
+
 	if !isValidTradePrice(swapRequest, tradeType, mkt, marketUnspents, t.priceSlippage) {
 		trade.Fail(
 			swapRequest.GetId(),
@@ -881,6 +891,21 @@ func getBalanceByAsset(unspents []domain.Unspent) map[string]uint64 {
 	return balances
 }
 
+// isValidTradeAssets checks that the proposer sends and receives the assets of
+// the market, in the direction of the trade.
+func isValidTradeAssets(
+	swapRequest domain.SwapRequest,
+	tradeType int,
+	market *domain.Market,
+) bool {
+	if tradeType == TradeBuy {
+		return swapRequest.GetAssetP() == market.QuoteAsset &&
+			swapRequest.GetAssetR() == market.BaseAsset
+	}
+	return swapRequest.GetAssetP() == market.BaseAsset &&
+		swapRequest.GetAssetR() == market.QuoteAsset
+}
+
 // isValidPrice checks that the amounts of the trade are valid by
 // making a preview of each counter amounts of the swap given the
 // current price of the market.
-- 
2.43.0


From 44fa4024229aea8a7f622c7e7930bab48c5f65a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 03/20] fix: do not crash on a swap fail message for an unknown
 trade

---
 internal/core/application/trade_service.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index b496c90..6c7e828 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -563,6 +563,9 @@ func (t *tradeService) tradeFail(
 	if err != nil {
 		return nil, err
 	}
+	if trade == nil {
+		return nil, fmt.Errorf("trade with swap id %s not found", swapID)
+	}
 
 	tradeID := trade.ID
 	if err := t.repoManager.TradeRepository().UpdateTrade(
-- 
2.43.0


From 2c803392e08005a7064246dfac0389dfbf2e54a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 04/20] fix: do not crash when the trade to expire is not found

---
 internal/core/application/trade_service.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 6c7e828..215d146 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -645,7 +645,13 @@ func (t *tradeService) checkTradeExpiration(
 
 	// if the trade is expired it's required to unlock the unspents used as input
 	// and to bring the trade to failed status
-	trade, _ := t.repoManager.TradeRepository().GetTradeByTxID(ctx, tradeTxID)
+	trade, err := t.repoManager.TradeRepository().GetTradeByTxID(ctx, tradeTxID)
+	if err != nil {
+		log.WithError(err).Warnf(
+			"unable to check the expiration of the trade with tx id %s", tradeTxID,
+		)
+		return
+	}
 
 	if trade.IsExpired() {
 		t.blockchainListener.StopObserveTx(trade.TxID)
-- 
2.43.0


From 6edcd45a3a6d55767ba2581694ea8eca33aace1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 05/20] fix: do not accept a trade whose unspents cannot be
 locked

---
 internal/core/application/trade_service.go | 48 +++++++++++++++++-----
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 215d146..b5229f6 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -335,6 +335,7 @@ func (t *tradeService) TradePropose(
 	var changeInfo *domain.AddressInfo
 	var feeChangeInfo *domain.AddressInfo
 	var mnemonic []string
+	var selectedUnspentKeys []domain.UnspentKey
 
 	trade := domain.NewTrade()
 	if ok, _ := trade.Propose(
@@ -407,23 +408,25 @@ func (t *tradeService) TradePropose(
 		goto end
 	}
 
+	selectedUnspentKeys = getUnspentKeys(fillProposalResult.SelectedUnspents)
+	if err := t.lockUnspentsForTrade(selectedUnspentKeys, trade); err != nil {
+		log.WithError(err).Warnf("unable to lock unspents for trade with id %s", trade.ID)
+		trade.Fail(
+			swapRequest.GetId(),
+			int(pkgswap.ErrCodeRejectedSwapRequest),
+			"unable to reserve the unspents of the trade",
+		)
+		swapFail = trade.SwapFailMessage()
+		goto end
+	}
+
 	swapAccept = trade.SwapAcceptMessage()
 	swapExpiryTime = trade.ExpiryTime
 
 end:
-	var selectedUnspentKeys []domain.UnspentKey
-
 	if swapAccept != nil {
 		log.Infof("trade with id %s accepted", trade.ID)
 
-		selectedUnspentKeys = getUnspentKeys(fillProposalResult.SelectedUnspents)
-		lockedUnspents, _ := t.repoManager.UnspentRepository().LockUnspents(
-			ctx,
-			selectedUnspentKeys,
-			trade.ID,
-		)
-		log.Debugf("locked %d unspents", lockedUnspents)
-
 		// set timer for trade expiration
 		go func() {
 			// admit a tollerance of 1 minute past the expiration time.
@@ -610,6 +613,31 @@ func (t *tradeService) getInfoAndUnspentsForAccount(
 	return info, Unspents(unspents), nil
 }
 
+// lockUnspentsForTrade reserves the given unspents for the trade, or none of
+// them if an error occurs.
+func (t *tradeService) lockUnspentsForTrade(
+	unspentKeys []domain.UnspentKey,
+	trade *domain.Trade,
+) error {
+	_, err := t.repoManager.RunTransaction(
+		context.Background(),
+		false,
+		func(ctx context.Context) (interface{}, error) {
+			count, err := t.repoManager.UnspentRepository().LockUnspents(
+				ctx,
+				unspentKeys,
+				trade.ID,
+			)
+			if err != nil {
+				return nil, err
+			}
+			log.Debugf("locked %d unspents", count)
+			return nil, nil
+		},
+	)
+	return err
+}
+
 func (t *tradeService) unlockUnspentsForTrade(trade *domain.Trade) {
 	p, _ := pset.NewPsetFromBase64(trade.PsetBase64)
 	keyLen := len(p.Inputs)
-- 
2.43.0


From fabe30bc01f096974af82c9f0ab1a9d833dfd951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 06/20] fix: let macaroons authorize the report of market fees

---
 internal/interfaces/grpc/permissions/permissions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/interfaces/grpc/permissions/permissions.go b/internal/interfaces/grpc/permissions/permissions.go
index ac9b9fa..3a502ec 100644
--- a/internal/interfaces/grpc/permissions/permissions.go
+++ b/internal/interfaces/grpc/permissions/permissions.go
@@ -263,6 +263,10 @@ func AllPermissionsByMethod() map[string][]bakery.Op {
 			Entity: EntityOperator,
 			Action: "write",
 		}},
+		"/Operator/ReportMarketFee": {{
+			Entity: EntityMarket,
+			Action: "read",
+		}},
 		"/Operator/ListTrades": {{
 			Entity: EntityOperator,
 			Action: "read",
-- 
2.43.0


From c5b3da2d15b2590a26867d3f83a6a60b7dd41c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 07/20] fix: do not serve without authentication if macaroons
 fail to start

---
 internal/interfaces/grpc/service.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/interfaces/grpc/service.go b/internal/interfaces/grpc/service.go
index 24e7206..62dde23 100644
--- a/internal/interfaces/grpc/service.go
+++ b/internal/interfaces/grpc/service.go
@@ -179,9 +179,13 @@ func NewService(opts ServiceOpts) (interfaces.Service, error) {
 
 	var macaroonSvc *macaroons.Service
 	if !opts.NoMacaroons {
-		macaroonSvc, _ = macaroons.NewService(
+		svc, err := macaroons.NewService(
 			opts.dbDatadir(), Location, DBFile, false, macaroons.IPLockChecker,
 		)
+		if err != nil {
+			return nil, fmt.Errorf("failed to start macaroon service: %s", err)
+		}
+		macaroonSvc = svc
 		if err := generateOperatorTLSKeyCert(
 			opts.tlsDatadir(), opts.OperatorExtraIPs, opts.OperatorExtraDomains,
 		); err != nil {
-- 
2.43.0


From 0499ac14697808f3439ce33ddaa9cf4d421bf43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 08/20] fix: do not crash on transactions with inputs that are
 not p2wpkh

---
 internal/core/application/types.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/core/application/types.go b/internal/core/application/types.go
index e31cb5a..db5971c 100644
--- a/internal/core/application/types.go
+++ b/internal/core/application/types.go
@@ -261,8 +261,11 @@ func (t transactionManager) ExtractUnspents(
 
 	for _, in := range tx.Inputs {
 		// our unspents are native-segiwt only
-		if len(in.Witness) > 0 {
-			pubkey, _ := btcec.ParsePubKey(in.Witness[1], btcec.S256())
+		if len(in.Witness) > 1 {
+			pubkey, err := btcec.ParsePubKey(in.Witness[1], btcec.S256())
+			if err != nil {
+				continue
+			}
 			p := payment.FromPublicKey(pubkey, network, nil)
 
 			script := hex.EncodeToString(p.WitnessScript)
-- 
2.43.0


From d733afd2423d33bdc7cb77cb4977d8e92edc69d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 09/20] fix: a deposit request for a negative number of
 addresses crashed the daemon

---
 internal/core/application/operator_service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index e6e9192..dc75be2 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -177,7 +177,7 @@ func (o *operatorService) DepositMarket(
 		nextAccountIndex := latestAccountIndex + 1
 		accountIndex = nextAccountIndex
 	}
-	if numOfAddresses == 0 {
+	if numOfAddresses <= 0 {
 		numOfAddresses = 1
 	}
 
@@ -233,7 +233,7 @@ func (o *operatorService) DepositFeeAccount(
 	ctx context.Context,
 	numOfAddresses int,
 ) ([]AddressAndBlindingKey, error) {
-	if numOfAddresses == 0 {
+	if numOfAddresses <= 0 {
 		numOfAddresses = 1
 	}
 
-- 
2.43.0


From f647144bdd2a62353398a78d87ad045d0d7f1e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:34 +0000
Subject: [PATCH 10/20] fix: claiming a deposit with a negative output index
 crashed the daemon

---
 internal/core/application/operator_service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index dc75be2..f59ba5e 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -1157,7 +1157,7 @@ func (o *operatorService) claimDeposit(
 			return err
 		}
 
-		if len(tx.Outputs()) <= v.Index {
+		if v.Index < 0 || len(tx.Outputs()) <= v.Index {
 			return ErrInvalidOutpoint
 		}
 
-- 
2.43.0


From 0872c6cbc1ac7e29d27187036c3ad4e25de916d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 11/20] fix: a swap message whose pset doesn't tell the outputs
 it spends is refused instead of crashing

---
 pkg/swap/request.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/swap/request.go b/pkg/swap/request.go
index 9f40cd1..249a1ea 100644
--- a/pkg/swap/request.go
+++ b/pkg/swap/request.go
@@ -76,9 +76,14 @@ func checkTxAndBlindKeys(
 		var prevout *transaction.TxOutput
 		if in.WitnessUtxo != nil {
 			prevout = in.WitnessUtxo
-		} else {
+		} else if in.NonWitnessUtxo != nil {
 			txinIndex := ptx.UnsignedTx.Inputs[i].Index
-			prevout = in.NonWitnessUtxo.Outputs[txinIndex]
+			if int(txinIndex) < len(in.NonWitnessUtxo.Outputs) {
+				prevout = in.NonWitnessUtxo.Outputs[txinIndex]
+			}
+		}
+		if prevout == nil {
+			return fmt.Errorf("missing prevout for input %d", i)
 		}
 		if checkInputKeys {
 			script := hex.EncodeToString(prevout.Script)
-- 
2.43.0


From 9697171909632dd2e04d5913007cc488d8068702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 12/20] fix: the network fees of a transaction could exceed the
 selected coins and wrap the change around

---
 pkg/wallet/transaction.go | 47 +++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/pkg/wallet/transaction.go b/pkg/wallet/transaction.go
index 328bca4..438f9ba 100644
--- a/pkg/wallet/transaction.go
+++ b/pkg/wallet/transaction.go
@@ -280,6 +280,33 @@ func (o UpdateTxOpts) getInputAssets() []string {
 	return assets
 }
 
+// selectUnspentsForFees selects the unspents to pay the network fees of a tx
+// that counts the given number of inputs, other than the selected ones, and
+// outputs. It returns the selected unspents, the change and the fee amount.
+// DummyFeeAmount is the amount to cover, unless the fee amount is higher than
+// what's been selected.
+func (o UpdateTxOpts) selectUnspentsForFees(
+	ptx *pset.Pset, unspents []explorer.Utxo, numInputs, numOutputs int,
+) ([]explorer.Utxo, uint64, uint64, error) {
+	amount := DummyFeeAmount
+	for {
+		selectedUnspents, change, err := explorer.SelectUnspents(
+			unspents, amount, o.Network.AssetID,
+		)
+		if err != nil {
+			return nil, 0, 0, err
+		}
+
+		feeAmount := calcFeeAmount(
+			ptx, numInputs+len(selectedUnspents), numOutputs, o.MilliSatsPerBytes,
+		)
+		if feeAmount <= amount+change {
+			return selectedUnspents, amount + change - feeAmount, feeAmount, nil
+		}
+		amount = feeAmount
+	}
+}
+
 // UpdateTxResult is the struct returned by UpdateTx method.
 // PsetBase64: the updated partial transaction with new inputs and outputs
 // SelectedUnspents: the list of unspents added as inputs to the pset
@@ -396,18 +423,14 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 					outputsToAdd[changeOutputIndex].Value, _ = bufferutil.ValueToBytes(changeAmount - feeAmount)
 				} else {
 					unspents := getRemainingUnspents(opts.Unspents, inputsToAdd)
-					selectedUnspents, change, err := explorer.SelectUnspents(
-						unspents,
-						DummyFeeAmount,
-						opts.Network.AssetID,
+					selectedUnspents, change, fee, err := opts.selectUnspentsForFees(
+						ptx, unspents, len(inputsToAdd), len(outputsToAdd),
 					)
 					if err != nil {
 						return nil, err
 					}
 					inputsToAdd = append(inputsToAdd, selectedUnspents...)
-
-					feeAmount = calcFeeAmount(ptx, len(inputsToAdd), len(outputsToAdd), opts.MilliSatsPerBytes)
-					change += DummyFeeAmount - feeAmount
+					feeAmount = fee
 					outputsToAdd[changeOutputIndex].Value, _ = bufferutil.ValueToBytes(changeAmount + change)
 
 				}
@@ -417,18 +440,14 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 				// inputs to add to the tx and add another output for the eventual change
 				// returned by the coin selection
 				unspents := getRemainingUnspents(opts.Unspents, inputsToAdd)
-				selectedUnspents, change, err := explorer.SelectUnspents(
-					unspents,
-					DummyFeeAmount,
-					opts.Network.AssetID,
+				selectedUnspents, change, fee, err := opts.selectUnspentsForFees(
+					ptx, unspents, len(inputsToAdd), len(outputsToAdd)+1,
 				)
 				if err != nil {
 					return nil, err
 				}
 				inputsToAdd = append(inputsToAdd, selectedUnspents...)
-
-				feeAmount = calcFeeAmount(ptx, len(inputsToAdd), len(outputsToAdd)+1, opts.MilliSatsPerBytes)
-				change += DummyFeeAmount - feeAmount
+				feeAmount = fee
 
 				lbtcChangeOutput, _ := newTxOutput(
 					opts.Network.AssetID,
-- 
2.43.0


From 2df3da551bb224e3178f52f1e35fbc75d5c56d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 13/20] fix: the change outputs of a withdrawal were blinded
 with each other's keys

---
 internal/core/application/wallet_service.go | 47 +++++++++++++++++----
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 27e69d5..a195ea4 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -20,6 +20,7 @@ import (
 	"github.com/tdex-network/tdex-daemon/pkg/wallet"
 	"github.com/vulpemventures/go-elements/address"
 	"github.com/vulpemventures/go-elements/network"
+	"github.com/vulpemventures/go-elements/pset"
 	"github.com/vulpemventures/go-elements/transaction"
 )
 
@@ -1028,12 +1029,6 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 		return "", err
 	}
 
-	// update the list of output blinding keys with those of the eventual changes
-	outputsBlindingKeys := opts.outputsBlindingKeys
-	for _, v := range updateResult.ChangeOutputsBlindingKeys {
-		outputsBlindingKeys = append(outputsBlindingKeys, v)
-	}
-
 	// add inputs for paying network fees
 	feeUpdateResult, err := w.UpdateTx(wallet.UpdateTxOpts{
 		PsetBase64:         updateResult.PsetBase64,
@@ -1047,10 +1042,18 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 		return "", err
 	}
 
-	// again, add changes' blinding keys to the list of those of the outputs
-	for _, v := range feeUpdateResult.ChangeOutputsBlindingKeys {
-		outputsBlindingKeys = append(outputsBlindingKeys, v)
+	// add the blinding keys of the eventual changes to the list of those of the
+	// outputs, in the same order as the changes in the transaction
+	changesBlindingKeys, err := getChangesBlindingKeys(
+		feeUpdateResult.PsetBase64,
+		len(opts.outputs),
+		updateResult.ChangeOutputsBlindingKeys,
+		feeUpdateResult.ChangeOutputsBlindingKeys,
+	)
+	if err != nil {
+		return "", err
 	}
+	outputsBlindingKeys := append(opts.outputsBlindingKeys, changesBlindingKeys...)
 
 	// blind the transaction
 	blindedPset, err := w.BlindTransactionWithKeys(wallet.BlindTransactionWithKeysOpts{
@@ -1094,6 +1097,32 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 	return txHex, nil
 }
 
+// getChangesBlindingKeys returns the blinding keys of the change outputs of the
+// given partial transaction, those that follow the first numOutputs.
+func getChangesBlindingKeys(
+	psetBase64 string, numOutputs int,
+	blindingKeysByScript, feeBlindingKeysByScript map[string][]byte,
+) ([][]byte, error) {
+	ptx, err := pset.NewPsetFromBase64(psetBase64)
+	if err != nil {
+		return nil, err
+	}
+
+	keys := make([][]byte, 0)
+	for _, out := range ptx.UnsignedTx.Outputs[numOutputs:] {
+		script := hex.EncodeToString(out.Script)
+		key, ok := blindingKeysByScript[script]
+		if !ok {
+			key, ok = feeBlindingKeysByScript[script]
+		}
+		if !ok {
+			return nil, fmt.Errorf("missing blinding key for change script '%s'", script)
+		}
+		keys = append(keys, key)
+	}
+	return keys, nil
+}
+
 func getDerivationPathsForUnspents(
 	account *domain.Account,
 	unspents []explorer.Utxo,
-- 
2.43.0


From 1ed0ceb372566a3a55c5ebd6aaf4dbe7b4de2213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:05 +0000
Subject: [PATCH 14/20] fix: an unspent locked by another trade in the
 meanwhile is not counted as locked

---
 .../db/badger/unspent_repository_impl.go      | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/internal/infrastructure/storage/db/badger/unspent_repository_impl.go b/internal/infrastructure/storage/db/badger/unspent_repository_impl.go
index 7d418e1..e532aba 100644
--- a/internal/infrastructure/storage/db/badger/unspent_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/unspent_repository_impl.go
@@ -314,11 +314,7 @@ func (u unspentRepositoryImpl) lockUnspent(
 		return false, nil
 	}
 
-	if err := u.insertLock(ctx, key, tradeID); err != nil {
-		return false, err
-	}
-
-	return true, nil
+	return u.insertLock(ctx, key, tradeID)
 }
 
 func (u unspentRepositoryImpl) unlockUnspents(
@@ -497,16 +493,18 @@ func (u unspentRepositoryImpl) getLock(
 	return &lockedUnspent.TradeID, nil
 }
 
+// insertLock returns whether the lock has been inserted, ie. false if the
+// unspent is already locked.
 func (u unspentRepositoryImpl) insertLock(
 	ctx context.Context,
 	key domain.UnspentKey,
 	tradeID uuid.UUID,
-) error {
+) (bool, error) {
 	var err error
 
 	encKey, err := EncodeKey(key, LockedUnspentBadgerholdKeyPrefix)
 	if err != nil {
-		return err
+		return false, err
 	}
 
 	if ctx.Value("tx") != nil {
@@ -516,11 +514,13 @@ func (u unspentRepositoryImpl) insertLock(
 		err = u.lockStore.Insert(encKey, LockedUnspent{tradeID})
 	}
 	if err != nil {
-		if err != badgerhold.ErrKeyExists {
-			return err
+		// the unspent got locked by another trade in the meanwhile.
+		if err == badgerhold.ErrKeyExists {
+			return false, nil
 		}
+		return false, err
 	}
-	return nil
+	return true, nil
 }
 
 func (u unspentRepositoryImpl) deleteLock(
-- 
2.43.0


From db32fa4a80e7370c2da3120f1d69acc39fd5b2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 15/20] fix: the fees of a pset with a missing or malformed
 script are estimated without crashing

---
 pkg/wallet/util.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/wallet/util.go b/pkg/wallet/util.go
index 61a0086..e6bc475 100644
--- a/pkg/wallet/util.go
+++ b/pkg/wallet/util.go
@@ -166,12 +166,16 @@ func extractScriptTypesFromPset(ptx *pset.Pset) ([]int, []int, []int, []int, []i
 	inAuxiliaryRedeemScriptSize := make([]int, 0)
 	inAuxiliaryWitnessSize := make([]int, 0)
 	for i, in := range ptx.Inputs {
-		var prevout *transaction.TxOutput
-		if in.WitnessUtxo != nil {
-			prevout = in.WitnessUtxo
-		} else {
+		prevout := in.WitnessUtxo
+		if prevout == nil && in.NonWitnessUtxo != nil {
 			prevoutIndex := ptx.UnsignedTx.Inputs[i].Index
-			prevout = in.NonWitnessUtxo.Outputs[prevoutIndex]
+			if int(prevoutIndex) < len(in.NonWitnessUtxo.Outputs) {
+				prevout = in.NonWitnessUtxo.Outputs[prevoutIndex]
+			}
+		}
+		// the type of a missing or malformed script can't be told
+		if prevout == nil || len(prevout.Script) < 2 {
+			continue
 		}
 
 		sType := address.GetScriptType(prevout.Script)
@@ -214,6 +218,9 @@ func extractScriptTypesFromPset(ptx *pset.Pset) ([]int, []int, []int, []int, []i
 	outScriptTypes := make([]int, len(ptx.Outputs), len(ptx.Outputs))
 	outAuxiliaryRedeemScriptSize := make([]int, 0)
 	for i, out := range ptx.UnsignedTx.Outputs {
+		if len(out.Script) < 2 {
+			continue
+		}
 		sType := address.GetScriptType(out.Script)
 		switch sType {
 		case address.P2PkhScript:
-- 
2.43.0


From 132908b202de98d3b45528ee5d9a25887024bada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 16/20] fix: a proposal is filled for a request with no
 blinding keys and refused if its inputs cannot be unblinded

---
 internal/core/application/trade_service.go | 16 +++++++++++++---
 pkg/wallet/blind.go                        | 12 +++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index b5229f6..092fdee 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -760,11 +760,19 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	// swap in order to get the full list of selected inputs
 	selectedUnspents := append(selectedUnspentsForSwap, psetWithFeesResult.SelectedUnspents...)
 
-	inputBlindingData, _, _ := wallet.ExtractBlindingDataFromTx(
+	// the request comes with no keys if all its inputs are unconfidential
+	inputBlindingKeys := opts.SwapRequest.GetInputBlindingKey()
+	if inputBlindingKeys == nil {
+		inputBlindingKeys = make(map[string][]byte)
+	}
+	inputBlindingData, _, err := wallet.ExtractBlindingDataFromTx(
 		opts.SwapRequest.GetTransaction(),
-		opts.SwapRequest.GetInputBlindingKey(),
+		inputBlindingKeys,
 		nil,
 	)
+	if err != nil {
+		return nil, fmt.Errorf("failed to unblind inputs: %s", err)
+	}
 
 	// get the indexes of the inputs of the tx to sign
 	existingInputs := len(inputBlindingData)
@@ -780,6 +788,9 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	}
 
 	outputBlindingKeys := opts.SwapRequest.GetOutputBlindingKey()
+	if outputBlindingKeys == nil {
+		outputBlindingKeys = make(map[string][]byte)
+	}
 	outputBlindingKeys[opts.OutputInfo.Script] = opts.OutputInfo.BlindingKey
 	outputBlindingKeys[opts.ChangeInfo.Script] = opts.ChangeInfo.BlindingKey
 	for script, blindKey := range psetWithFeesResult.ChangeOutputsBlindingKeys {
@@ -824,7 +835,6 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	}
 
 	// get blinding private keys for selected inputs
-	inputBlindingKeys := opts.SwapRequest.GetInputBlindingKey()
 	for _, info := range selectedInfo {
 		inputBlindingKeys[info.Script] = info.BlindingKey
 	}
diff --git a/pkg/wallet/blind.go b/pkg/wallet/blind.go
index 4d038ae..9bc1257 100644
--- a/pkg/wallet/blind.go
+++ b/pkg/wallet/blind.go
@@ -443,13 +443,19 @@ func ExtractBlindingDataFromTx(
 		return
 	}
 
-	if len(inBlindingKeys) > 0 {
+	if inBlindingKeys != nil {
 		inBlindingData = make(map[int]BlindingData)
 		for i, in := range ptx.Inputs {
 			prevout := in.WitnessUtxo
-			if in.WitnessUtxo == nil {
+			if prevout == nil && in.NonWitnessUtxo != nil {
 				prevoutIndex := ptx.UnsignedTx.Inputs[i].Index
-				prevout = in.NonWitnessUtxo.Outputs[prevoutIndex]
+				if int(prevoutIndex) < len(in.NonWitnessUtxo.Outputs) {
+					prevout = in.NonWitnessUtxo.Outputs[prevoutIndex]
+				}
+			}
+			if prevout == nil {
+				err = ErrNullInputWitnessUtxo
+				return
 			}
 			script := hex.EncodeToString(prevout.Script)
 			var blindKey []byte
-- 
2.43.0


From bb8818ccd09b789ced86c24e2fc95e97c34dd7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:54 +0000
Subject: [PATCH 17/20] fix: don't crash on unlocking the unspents of a trade
 whose transaction can't be read

---
 internal/core/application/trade_service.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 092fdee..a6e015b 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -639,7 +639,13 @@ func (t *tradeService) lockUnspentsForTrade(
 }
 
 func (t *tradeService) unlockUnspentsForTrade(trade *domain.Trade) {
-	p, _ := pset.NewPsetFromBase64(trade.PsetBase64)
+	p, err := pset.NewPsetFromBase64(trade.PsetBase64)
+	if err != nil {
+		log.WithError(err).Warnf(
+			"unable to unlock unspents for trade with id %s", trade.ID,
+		)
+		return
+	}
 	keyLen := len(p.Inputs)
 	unspentKeys := make([]domain.UnspentKey, keyLen, keyLen)
 
-- 
2.43.0


From 1b4cd641415f46d59f44c72696520b9fc2ec317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:54 +0000
Subject: [PATCH 18/20] fix: refuse to decrypt a text too short to hold a salt
 and a nonce

---
 pkg/wallet/cypher.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/wallet/cypher.go b/pkg/wallet/cypher.go
index 4a21eb2..362b870 100644
--- a/pkg/wallet/cypher.go
+++ b/pkg/wallet/cypher.go
@@ -81,6 +81,9 @@ func Decrypt(opts DecryptOpts) (string, error) {
 	}
 
 	data, _ := base64.StdEncoding.DecodeString(opts.CypherText)
+	if len(data) < 32 {
+		return "", ErrInvalidCypherText
+	}
 	salt, data := data[len(data)-32:], data[:len(data)-32]
 
 	key, _, err := DeriveKey([]byte(opts.Passphrase), salt)
@@ -96,6 +99,9 @@ func Decrypt(opts DecryptOpts) (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if len(data) < gcm.NonceSize() {
+		return "", ErrInvalidCypherText
+	}
 	nonce, text := data[:gcm.NonceSize()], data[gcm.NonceSize():]
 	plaintext, err := gcm.Open(nil, nonce, text, nil)
 	if err != nil {
-- 
2.43.0


From 22faf949dd45759441e58ebcf5ec07295637f7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:35 +0000
Subject: [PATCH 19/20] fix: report when a webhook can't be added to or removed
 from those of its action and never remove another one

---
 .../infrastructure/pubsub/webhook/service.go  | 55 ++++++++++++-------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/internal/infrastructure/pubsub/webhook/service.go b/internal/infrastructure/pubsub/webhook/service.go
index c3f30d5..52fe3fc 100644
--- a/internal/infrastructure/pubsub/webhook/service.go
+++ b/internal/infrastructure/pubsub/webhook/service.go
@@ -122,7 +122,9 @@ func (ws *webhookService) addWebhook(hook *Webhook) (string, error) {
 	if err := ws.store.db().AddToBucket(hooksBucket, hookID, hook.Serialize()); err != nil {
 		return "", err
 	}
-	ws.addHookByAction(hook)
+	if err := ws.addHookByAction(hook); err != nil {
+		return "", err
+	}
 	return hook.ID, nil
 }
 
@@ -138,13 +140,15 @@ func (ws *webhookService) removeWebhook(hookID string) error {
 		return nil
 	}
 
-	if err := ws.store.db().RemoveFromBucket(hooksBucket, []byte(hookID)); err != nil {
+	hook, err := NewWebhookFromBytes(buf)
+	if err != nil {
+		return err
+	}
+	if err := ws.removeHookByAction(hook); err != nil {
 		return err
 	}
 
-	hook, _ := NewWebhookFromBytes(buf)
-	ws.removeHookByAction(hook)
-	return nil
+	return ws.store.db().RemoveFromBucket(hooksBucket, []byte(hookID))
 }
 
 func (ws *webhookService) listWebhooksForAction(actionType WebhookAction) []ports.Subscription {
@@ -179,18 +183,24 @@ func (ws *webhookService) invokeWebhooksForAction(actionType WebhookAction, mess
 	return eg.Wait()
 }
 
-func (ws *webhookService) addHookByAction(hook *Webhook) {
+func (ws *webhookService) addHookByAction(hook *Webhook) error {
 	key := []byte{byte(hook.ActionType)}
-	hooks := ws.getSerializedHooks(hook.ActionType)
+	hooks, err := ws.getSerializedHooks(hook.ActionType)
+	if err != nil {
+		return err
+	}
 	hooks = append(hooks, hook.Serialize())
 	updatedHooks := bytes.Join(hooks, separator)
-	ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
+	return ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
 }
 
-func (ws *webhookService) removeHookByAction(hook *Webhook) {
-	rawHooks := ws.getSerializedHooks(hook.ActionType)
+func (ws *webhookService) removeHookByAction(hook *Webhook) error {
+	rawHooks, err := ws.getSerializedHooks(hook.ActionType)
+	if err != nil {
+		return err
+	}
 
-	var index int
+	index := -1
 	for i, buf := range rawHooks {
 		hh, _ := NewWebhookFromBytes(buf)
 		if hh.ID == hook.ID {
@@ -199,20 +209,24 @@ func (ws *webhookService) removeHookByAction(hook *Webhook) {
 		}
 	}
 
+	// the webhook is not registered for its action, there's nothing to remove.
+	if index < 0 {
+		return nil
+	}
+
 	key := []byte{byte(hook.ActionType)}
 	rawHooks = append(rawHooks[:index], rawHooks[index+1:]...)
 
 	if len(rawHooks) <= 0 {
-		ws.store.db().RemoveFromBucket(hooksByActionBucket, key)
-		return
+		return ws.store.db().RemoveFromBucket(hooksByActionBucket, key)
 	}
 
 	updatedHooks := bytes.Join(rawHooks, separator)
-	ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
+	return ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
 }
 
 func (ws *webhookService) getHooksByAction(actionType WebhookAction) []*Webhook {
-	rawHooks := ws.getSerializedHooks(actionType)
+	rawHooks, _ := ws.getSerializedHooks(actionType)
 	hooks := make([]*Webhook, 0, len(rawHooks))
 	for _, buf := range rawHooks {
 		hook, _ := NewWebhookFromBytes(buf)
@@ -221,13 +235,16 @@ func (ws *webhookService) getHooksByAction(actionType WebhookAction) []*Webhook
 	return hooks
 }
 
-func (ws *webhookService) getSerializedHooks(actionType WebhookAction) [][]byte {
+func (ws *webhookService) getSerializedHooks(actionType WebhookAction) ([][]byte, error) {
 	key := []byte{byte(actionType)}
-	hooks, _ := ws.store.db().GetFromBucket(hooksByActionBucket, key)
+	hooks, err := ws.store.db().GetFromBucket(hooksByActionBucket, key)
+	if err != nil {
+		return nil, err
+	}
 	if len(hooks) <= 0 {
-		return nil
+		return nil, nil
 	}
-	return bytes.Split(hooks, separator)
+	return bytes.Split(hooks, separator), nil
 }
 
 func (ws *webhookService) doRequest(hook *Webhook, payload string) error {
-- 
2.43.0


From 5a37a101dbefac8bad5c94e8f53a0f55f80c8cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:56 +0000
Subject: [PATCH 20/20] fix: completing an expired trade fails instead of
 reporting success with an empty transaction

---
 internal/core/domain/trade_service.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/core/domain/trade_service.go b/internal/core/domain/trade_service.go
index 4a488a0..9091c47 100644
--- a/internal/core/domain/trade_service.go
+++ b/internal/core/domain/trade_service.go
@@ -104,6 +104,10 @@ type CompleteResult struct {
 // be called before the trade expires, otherwise it won't be possible to
 // actually complete an accepted trade.
 func (t *Trade) Complete(tx string) (*CompleteResult, error) {
+	if t.Status.Code == Expired {
+		return nil, ErrTradeExpired
+	}
+
 	if t.Status.Code >= Completed {
 		return &CompleteResult{OK: true, TxHex: t.TxHex, TxID: t.TxID}, nil
 	}
-- 
2.43.0

