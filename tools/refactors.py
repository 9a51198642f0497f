# Behaviour-preserving edits: the checks of the named properties must stay quiet.
# R(id, props, file, [(old, new), ...])
DM="internal/core/domain/"
R("market-fund-split", "C01", DM+"market_service.go", [("""	assetCount := make(map[string]int)
	for _, o := range fundingTxs {
		assetCount[o.Asset]++
	}

	if _, ok := assetCount[baseAssetHash]; !ok {
		return ErrMarketMissingBaseAsset
	}
	if len(assetCount) < 2 {
		return ErrMarketMissingQuoteAsset
	}

	if len(assetCount) > 2 {
		return ErrMarketTooManyAssets
	}

	for asset := range assetCount {
		if asset == baseAssetHash {
			m.BaseAsset = baseAssetHash
		} else {
			m.QuoteAsset = asset
		}
	}

	return nil
}
""","""	assets := assetsOf(fundingTxs)
	_, hasBase := assets[baseAssetHash]
	switch n := len(assets); {
	case !hasBase:
		return ErrMarketMissingBaseAsset
	case n < 2:
		return ErrMarketMissingQuoteAsset
	case n > 2:
		return ErrMarketTooManyAssets
	}

	m.BaseAsset = baseAssetHash
	for asset := range assets {
		if asset != baseAssetHash {
			m.QuoteAsset = asset
		}
	}

	return nil
}

func assetsOf(outs []OutpointWithAsset) map[string]struct{} {
	assets := make(map[string]struct{})
	for i := 0; i < len(outs); i++ {
		assets[outs[i].Asset] = struct{}{}
	}
	return assets
}
""")])
R("market-guards", "C01", DM+"market_service.go", [("""func (m *Market) ChangeFixedFee(baseFee, quoteFee int64) error {
	if !m.IsFunded() {
		return ErrMarketNotFunded
	}

	if m.IsTradable() {
		return ErrMarketMustBeClosed
	}

	if err := validateFixedFee(baseFee, quoteFee); err != nil {
		return err
	}

	m.FixedFee.BaseFee = baseFee
	m.FixedFee.QuoteFee = quoteFee
	return nil
}""","""func (m *Market) ChangeFixedFee(baseFee, quoteFee int64) error {
	if err := m.reconfigurable(); err != nil {
		return err
	}
	fees := FixedFee{QuoteFee: quoteFee, BaseFee: baseFee}
	if err := fees.validate(); err != nil {
		return err
	}
	m.FixedFee = fees
	return nil
}

func (m *Market) reconfigurable() error {
	if !m.IsFunded() {
		return ErrMarketNotFunded
	}
	if m.IsTradable() {
		return ErrMarketMustBeClosed
	}
	return nil
}"""),("""	m.Strategy = mm.NewStrategyFromFormula(PluggableStrategy{})
	m.ChangeBasePrice(decimal.NewFromInt(0))
	m.ChangeQuotePrice(decimal.NewFromInt(0))
""","""	zero := decimal.NewFromInt(0)
	m.ChangeQuotePrice(zero)
	m.ChangeBasePrice(zero)
	m.Strategy = mm.NewStrategyFromFormula(PluggableStrategy{})
""")])
R("preview-reorder", "C03 C15", DM+"market_service.go", [("""	formula := m.formula(isBaseAsset, isBuy)
	var args interface{}
	if m.IsStrategyPluggable() {
		args = m.formulaOptsForPluggable(baseBalance, quoteBalance, isBaseAsset, isBuy)
	} else {
		args = m.formulaOptsForBalanced(baseBalance, quoteBalance, isBaseAsset, isBuy)
	}

	price, err := m.priceForStrategy(baseBalance, quoteBalance)
	if err != nil {
		return nil, err
	}
""","""	price, err := m.priceForStrategy(baseBalance, quoteBalance)
	if err != nil {
		return nil, err
	}

	args := m.formulaOpts(baseBalance, quoteBalance, isBaseAsset, isBuy)
	formula := m.formula(isBaseAsset, isBuy)
"""),("""func (m *Market) formula(
	isBaseAsset, isBuy bool,
) func(interface{}, uint64) (uint64, error) {
	formula := m.getStrategySafe().Formula()
	if isBuy {
		if isBaseAsset {
			return formula.InGivenOut
		}
		return formula.OutGivenIn
	}

	if isBaseAsset {
		return formula.OutGivenIn
	}
	return formula.InGivenOut
}
""","""func (m *Market) formulaOpts(base, quote uint64, isBaseAsset, isBuy bool) interface{} {
	if !m.IsStrategyPluggable() {
		return m.formulaOptsForBalanced(base, quote, isBaseAsset, isBuy)
	}
	return m.formulaOptsForPluggable(base, quote, isBaseAsset, isBuy)
}

func (m *Market) formula(
	isBaseAsset, isBuy bool,
) func(interface{}, uint64) (uint64, error) {
	formula := m.getStrategySafe().Formula()
	if isBuy == isBaseAsset {
		return formula.InGivenOut
	}
	return formula.OutGivenIn
}
"""),("""	if isBaseAsset {
		if amount < uint64(m.FixedFee.BaseFee) {
			return nil, ErrMarketPreviewAmountTooLow
		}
	} else {
		if amount < uint64(m.FixedFee.QuoteFee) {
			return nil, ErrMarketPreviewAmountTooLow
		}
	}
""","""	minAmount := m.FixedFee.QuoteFee
	if isBaseAsset {
		minAmount = m.FixedFee.BaseFee
	}
	if uint64(minAmount) > amount {
		return nil, ErrMarketPreviewAmountTooLow
	}
""")])
R("trade-reorder", "C05", DM+"trade_service.go", [("""	now := uint64(time.Now().Unix())
	t.ExpiryTime = now + expiryDuration
	t.Status = AcceptedStatus
	t.SwapAccept.ID = swapAcceptID
	t.SwapAccept.Message = swapAcceptMsg
	t.SwapAccept.Timestamp = now
	t.PsetBase64 = psetBase64
	t.TxID, _ = PsetParserManager.GetTxID(psetBase64)
""","""	txid, _ := PsetParserManager.GetTxID(psetBase64)
	t.accepted(swapAcceptID, swapAcceptMsg, psetBase64, txid, expiryDuration)
"""),("""// CompleteResult is return type of Complete method.""","""func (t *Trade) accepted(id string, msg []byte, pset, txid string, duration uint64) {
	now := uint64(time.Now().Unix())
	t.SwapAccept = Swap{ID: id, Message: msg, Timestamp: now}
	t.TxID = txid
	t.PsetBase64 = pset
	t.ExpiryTime = duration + now
	t.Status = AcceptedStatus
}

// CompleteResult is return type of Complete method."""),("""	if !(t.IsCompleted() || t.IsAccepted() || t.Status.Failed) {
		return false, ErrTradeMustBeCompletedOrAccepted
	}

	t.ExpiryTime = 0
	t.SettlementTime = settlementTime
	t.Status = SettledStatus
	return true, nil""","""	if t.IsCompleted() || t.IsAccepted() || t.IsRejected() {
		t.Status = SettledStatus
		t.SettlementTime = settlementTime
		t.ExpiryTime = 0
		return true, nil
	}

	return false, ErrTradeMustBeCompletedOrAccepted"""),("""		if !t.Status.Failed {
			t.Status.Failed = true
		}
		return nil, ErrTradeExpired""","""		t.Status.Failed = true
		return nil, ErrTradeExpired""")])
R("trade-price", "C05", DM+"trade_service.go", [("""	pricePR := decimal.NewFromInt(int64(swapRequest.GetAmountP())).Div(
		decimal.NewFromInt(int64(swapRequest.GetAmountR())),
	).Truncate(8)
	priceRP := decimal.NewFromInt(int64(swapRequest.GetAmountR())).Div(
		decimal.NewFromInt(int64(swapRequest.GetAmountP())),
	).Truncate(8)

	if swapRequest.GetAssetP() == marketQuoteAsset {
		price = Prices{
			BasePrice:  priceRP,
			QuotePrice: pricePR,
		}
	} else {
		price = Prices{
			BasePrice:  pricePR,
			QuotePrice: priceRP,
		}
	}
	return
}""","""	amountP := decimal.NewFromInt(int64(swapRequest.GetAmountP()))
	amountR := decimal.NewFromInt(int64(swapRequest.GetAmountR()))
	base, quote := amountP, amountR
	if swapRequest.GetAssetP() == marketQuoteAsset {
		base, quote = amountR, amountP
	}
	price.BasePrice = base.Div(quote).Truncate(8)
	price.QuotePrice = quote.Div(base).Truncate(8)
	return price
}""")])
R("unspent-lock", "C07", DM+"unspent_service.go", [("""	if u.IsLocked() {
		if tradeID.String() != u.LockedBy.String() {
			return ErrUnspentAlreadyLocked
		}
		return nil
	}

	u.Locked = true
	u.LockedBy = tradeID
	return nil""","""	if !u.Locked {
		u.LockedBy, u.Locked = tradeID, true
		return nil
	}
	if u.LockedBy.String() == tradeID.String() {
		return nil
	}
	return ErrUnspentAlreadyLocked""")])
R("vault-range", "C13", DM+"vault_service.go", [("""	infoLen := lastAddressIndex - firstAddressIndex + 1
	info := make(AddressesInfo, infoLen, infoLen)

	for i := firstAddressIndex; i <= lastAddressIndex; i++ {
		derivationPath := fmt.Sprintf("%d'/%d/%d", accountIndex, chainIndex, i)
		addr, script, _ := w.DeriveConfidentialAddress(wallet.DeriveConfidentialAddressOpts{
			DerivationPath: derivationPath,
			Network:        net,
		})
		key, _, _ := w.DeriveBlindingKeyPair(wallet.DeriveBlindingKeyPairOpts{
			Script: script,
		})
		info[i] = AddressInfo{
			AccountIndex:   accountIndex,
			Address:        addr,
			BlindingKey:    key.Serialize(),
			DerivationPath: derivationPath,
			Script:         hex.EncodeToString(script),
		}
	}
	return info
}""","""	info := make(AddressesInfo, 0, lastAddressIndex-firstAddressIndex+1)
	for i := firstAddressIndex; i <= lastAddressIndex; i++ {
		info = append(info, addressInfoAt(w, net, accountIndex, chainIndex, i))
	}
	return info
}

func addressInfoAt(w *wallet.Wallet, net *network.Network, account, chain, index int) AddressInfo {
	path := fmt.Sprintf("%d'/%d/%d", account, chain, index)
	addr, script, _ := w.DeriveConfidentialAddress(wallet.DeriveConfidentialAddressOpts{
		Network:        net,
		DerivationPath: path,
	})
	key, _, _ := w.DeriveBlindingKeyPair(wallet.DeriveBlindingKeyPairOpts{Script: script})
	return AddressInfo{
		AccountIndex:   account,
		Address:        addr,
		BlindingKey:    key.Serialize(),
		DerivationPath: path,
		Script:         hex.EncodeToString(script),
	}
}""")])
R("vault-derive", "C13", DM+"vault_service.go", [("""	account.addDerivationPath(hex.EncodeToString(script), derivationPath)
	if chainIndex == InternalChain {
		account.nextInternalIndex()
	} else {
		account.nextExternalIndex()
	}
	v.AccountAndKeyByAddress[addr] = AccountAndKey{
		AccountIndex: account.AccountIndex,
		BlindingKey:  blindingKey.Serialize(),
	}

	return &AddressInfo{
		AccountIndex:   accountIndex,
		Address:        addr,
		Script:         hex.EncodeToString(script),
		BlindingKey:    blindingKey.Serialize(),
		DerivationPath: derivationPath,
	}, nil""","""	info := &AddressInfo{
		AccountIndex:   accountIndex,
		Address:        addr,
		Script:         hex.EncodeToString(script),
		BlindingKey:    blindingKey.Serialize(),
		DerivationPath: derivationPath,
	}
	v.AccountAndKeyByAddress[info.Address] = AccountAndKey{
		BlindingKey:  info.BlindingKey,
		AccountIndex: account.AccountIndex,
	}
	account.addDerivationPath(info.Script, info.DerivationPath)
	switch chainIndex {
	case InternalChain:
		account.nextInternalIndex()
	default:
		account.nextExternalIndex()
	}
	return info, nil"""),("""	list := make(AddressesInfo, listLen, listLen)
	i := 0
""","""	list := make(AddressesInfo, 0, listLen)
"""),("""		list[i] = AddressInfo{
			AccountIndex:   info.AccountIndex,
			Address:        addr,
			BlindingKey:    info.BlindingKey,
			DerivationPath: path,
			Script:         hex.EncodeToString(script),
		}
		i++
	}
""","""		list = append(list, AddressInfo{
			AccountIndex:   info.AccountIndex,
			Address:        addr,
			BlindingKey:    info.BlindingKey,
			DerivationPath: path,
			Script:         hex.EncodeToString(script),
		})
	}
""")])
R("fee-helper", "C04 C02", "pkg/mathutil/fee.go", [("""	feeDecimal := decimal.NewFromInt(int64(feeAsBasisPoint)).Div(decimal.NewFromInt(TenThousands))
	amountDecimal := decimal.NewFromBigInt(new(big.Int).SetUint64(amount), 0)
	percentage := decimal.NewFromInt(1).Add(feeDecimal)

	calculatedFee = amountDecimal.Mul(feeDecimal).BigInt().Uint64()
	withFee = amountDecimal.Mul(percentage).BigInt().Uint64()
	return
}

// LessFee""","""	fee := feeRate(feeAsBasisPoint)
	return portion(amount, fee.Add(decimal.NewFromInt(1))), portion(amount, fee)
}

func feeRate(basisPoint uint64) decimal.Decimal {
	return decimal.NewFromInt(int64(basisPoint)).Div(decimal.NewFromInt(TenThousands))
}

func portion(amount uint64, rate decimal.Decimal) uint64 {
	return rate.Mul(decimal.NewFromBigInt(new(big.Int).SetUint64(amount), 0)).BigInt().Uint64()
}

// LessFee""")])
R("formula-order", "C02", "pkg/marketmaking/formula/balanced_reserves.go", [("""	balanceIn := decimal.NewFromInt(int64(opts.BalanceIn))
	balanceOut := decimal.NewFromInt(int64(opts.BalanceOut))
	amountOutDecimal := balanceOut.Mul(
		decimal.NewFromInt(1).Sub(
			balanceIn.Div(
				balanceIn.Add(decimal.NewFromInt(int64(amount))),
			),
		),
	)

	amountOut := amountOutDecimal.BigInt().Uint64()
""","""	balanceOut := decimal.NewFromInt(int64(opts.BalanceOut))
	balanceIn := decimal.NewFromInt(int64(opts.BalanceIn))
	newBalanceIn := decimal.NewFromInt(int64(amount)).Add(balanceIn)
	ratio := balanceIn.Div(newBalanceIn)
	one := decimal.NewFromInt(1)
	amountOut := one.Sub(ratio).Mul(balanceOut).BigInt().Uint64()
"""),("""	numer := mathutil.Div(opts.BalanceOut, balancedWeightOut)
	denom := mathutil.Div(opts.BalanceIn, balancedWeightIn)
	spotPrice = mathutil.DivDecimal(numer, denom)
	return
""","""	spotPrice = mathutil.DivDecimal(
		mathutil.Div(opts.BalanceOut, balancedWeightOut),
		mathutil.Div(opts.BalanceIn, balancedWeightIn),
	)
	return spotPrice, nil
""")])
AP="internal/core/application/"
R("propose-helpers", "C16", AP+"trade_service.go", [("""	if !isValidTradeAssets(swapRequest, tradeType, mkt) {
		trade.Fail(
			swapRequest.GetId(),
			int(pkgswap.ErrCodeInvalidSwapRequest),
			"assets do not match those of the market",
		)
		swapFail = trade.SwapFailMessage()
		goto end
	}

	if !isValidTradePrice(swapRequest, tradeType, mkt, marketUnspents, t.priceSlippage) {
		trade.Fail(
			swapRequest.GetId(),
			int(pkgswap.ErrCodeInvalidSwapRequest),
			"bad pricing",
		)
		swapFail = trade.SwapFailMessage()
		goto end
	}

	// derive output and change address for market, and change address for fee account
	outInfo, _ = vault.DeriveNextExternalAddressForAccount(marketAccountIndex)
	changeInfo, _ = vault.DeriveNextInternalAddressForAccount(marketAccountIndex)
	feeChangeInfo, _ = vault.DeriveNextInternalAddressForAccount(domain.FeeAccount)

	mnemonic, _ = vault.GetMnemonicSafe()
""","""	if reason := t.reasonToReject(swapRequest, tradeType, mkt, marketUnspents); reason != "" {
		trade.Fail(swapRequest.GetId(), int(pkgswap.ErrCodeInvalidSwapRequest), reason)
		swapFail = trade.SwapFailMessage()
		goto end
	}

	// derive output and change address for market, and change address for fee account
	mnemonic, _ = vault.GetMnemonicSafe()
	feeChangeInfo, _ = vault.DeriveNextInternalAddressForAccount(domain.FeeAccount)
	changeInfo, _ = vault.DeriveNextInternalAddressForAccount(marketAccountIndex)
	outInfo, _ = vault.DeriveNextExternalAddressForAccount(marketAccountIndex)
"""),("""	go func() {
		if _, err := t.repoManager.RunTransaction(
			context.Background(),
			false,
			func(ctx context.Context) (interface{}, error) {
				if _, err := t.repoManager.TradeRepository().GetOrCreateTrade(ctx, &trade.ID); err != nil {
					return nil, err
				}
				if err := t.repoManager.TradeRepository().UpdateTrade(ctx, &trade.ID, func(_ *domain.Trade) (*domain.Trade, error) {
					return trade, nil
				}); err != nil {
					return nil, err
				}

				if swapAccept != nil {
					if err := t.repoManager.VaultRepository().UpdateVault(ctx, func(_ *domain.Vault) (*domain.Vault, error) {
						return vault, nil
					}); err != nil {
						return nil, err
					}
				}
				return nil, nil
			},
		); err != nil {
			log.WithError(err).Warn("unable to persist changes after trade is accepted")
		}

		if swapAccept != nil {
			t.blockchainListener.StartObserveTx(trade.TxID)
		}
	}()

	return swapAccept, swapFail, swapExpiryTime, nil
}
""","""	accepted := swapAccept != nil
	go func() {
		t.persistProposal(trade, vault, accepted)
		if accepted {
			t.blockchainListener.StartObserveTx(trade.TxID)
		}
	}()

	return swapAccept, swapFail, swapExpiryTime, nil
}

func (t *tradeService) reasonToReject(
	req domain.SwapRequest, tradeType int, mkt *domain.Market, unspents []domain.Unspent,
) string {
	if !isValidTradeAssets(req, tradeType, mkt) {
		return "assets do not match those of the market"
	}
	if !isValidTradePrice(req, tradeType, mkt, unspents, t.priceSlippage) {
		return "bad pricing"
	}
	return ""
}

func (t *tradeService) persistProposal(trade *domain.Trade, vault *domain.Vault, accepted bool) {
	save := func(ctx context.Context) (interface{}, error) {
		trades := t.repoManager.TradeRepository()
		if _, err := trades.GetOrCreateTrade(ctx, &trade.ID); err != nil {
			return nil, err
		}
		err := trades.UpdateTrade(ctx, &trade.ID, func(*domain.Trade) (*domain.Trade, error) {
			return trade, nil
		})
		if err == nil && accepted {
			err = t.repoManager.VaultRepository().UpdateVault(ctx, func(*domain.Vault) (*domain.Vault, error) {
				return vault, nil
			})
		}
		return nil, err
	}
	if _, err := t.repoManager.RunTransaction(context.Background(), false, save); err != nil {
		log.WithError(err).Warn("unable to persist changes after trade is accepted")
	}
}
""")])
R("propose-order", "C16", AP+"trade_service.go", [("""	if err := validateAssetString(market.BaseAsset); err != nil {
		return nil, nil, 0, domain.ErrMarketInvalidBaseAsset
	}

	if err := validateAssetString(market.QuoteAsset); err != nil {
		return nil, nil, 0, domain.ErrMarketInvalidQuoteAsset
	}

	vault, err :=""","""	baseErr, quoteErr := validateAssetString(market.BaseAsset), validateAssetString(market.QuoteAsset)
	if baseErr != nil {
		return nil, nil, 0, domain.ErrMarketInvalidBaseAsset
	}
	if quoteErr != nil {
		return nil, nil, 0, domain.ErrMarketInvalidQuoteAsset
	}

	vault, err :="""),("""	keys := make([]domain.UnspentKey, 0, len(unspents))
	for _, u := range unspents {
		keys = append(keys, domain.UnspentKey{
			TxID: u.Hash(),
			VOut: u.Index(),
		})
	}
	return keys
""","""	keys := make([]domain.UnspentKey, len(unspents))
	for i := range unspents {
		keys[i].TxID = unspents[i].Hash()
		keys[i].VOut = unspents[i].Index()
	}
	return keys
"""),("""	keyLen := len(p.Inputs)
	unspentKeys := make([]domain.UnspentKey, keyLen, keyLen)

	for i, in := range p.UnsignedTx.Inputs {
		unspentKeys[i] = domain.UnspentKey{
			TxID: bufferutil.TxIDFromBytes(in.Hash),
			VOut: in.Index,
		}
	}
""","""	unspentKeys := make([]domain.UnspentKey, 0, len(p.Inputs))
	for _, in := range p.UnsignedTx.Inputs {
		unspentKeys = append(unspentKeys, domain.UnspentKey{
			TxID: bufferutil.TxIDFromBytes(in.Hash),
			VOut: in.Index,
		})
	}
"""),("""	if trade.IsExpired() {
		t.blockchainListener.StopObserveTx(trade.TxID)

		count, err""","""	if !trade.IsExpired() {
		return
	}
	{
		t.blockchainListener.StopObserveTx(trade.TxID)

		count, err""")])
R("fill-order", "C10 C16", AP+"trade_service.go", [("""	inputBlindingKeys := opts.SwapRequest.GetInputBlindingKey()
	if inputBlindingKeys == nil {
		inputBlindingKeys = make(map[string][]byte)
	}
""","""	inputBlindingKeys := orEmpty(opts.SwapRequest.GetInputBlindingKey())
"""),("""	outputBlindingKeys := opts.SwapRequest.GetOutputBlindingKey()
	if outputBlindingKeys == nil {
		outputBlindingKeys = make(map[string][]byte)
	}
	outputBlindingKeys[opts.OutputInfo.Script] = opts.OutputInfo.BlindingKey
	outputBlindingKeys[opts.ChangeInfo.Script] = opts.ChangeInfo.BlindingKey
	for script,""","""	outputBlindingKeys := orEmpty(opts.SwapRequest.GetOutputBlindingKey())
	for _, own := range []domain.AddressInfo{opts.OutputInfo, opts.ChangeInfo} {
		outputBlindingKeys[own.Script] = own.BlindingKey
	}
	for script,"""),("""	// get the derivation paths of the selected inputs
	allInfo := append(opts.MarketInfo, opts.FeeInfo...)
	selectedInfo := getSelectedInfo(allInfo, selectedUnspents)

	signedPsetBase64 := blindedPlusFees.PsetBase64
	for i := 0; i < inputsToSign; i++ {
		inIndex := existingInputs + i
		signedPsetBase64, err = w.SignInput(wallet.SignInputOpts{
			PsetBase64:     signedPsetBase64,
			InIndex:        uint32(inIndex),
			DerivationPath: selectedInfo[i].DerivationPath,
		})
		if err != nil {
			return nil, fmt.Errorf("failed to sign input %d tx: %s", inIndex, err)
		}
	}

	// get blinding private keys for selected inputs
	for _, info := range selectedInfo {
		inputBlindingKeys[info.Script] = info.BlindingKey
	}
""","""	// get the derivation paths of the selected inputs
	selectedInfo := getSelectedInfo(append(opts.MarketInfo, opts.FeeInfo...), selectedUnspents)

	// get blinding private keys for selected inputs
	for i := range selectedInfo {
		inputBlindingKeys[selectedInfo[i].Script] = selectedInfo[i].BlindingKey
	}

	signedPsetBase64 := blindedPlusFees.PsetBase64
	for inIndex := existingInputs; inIndex < existingInputs+inputsToSign; inIndex++ {
		signedPsetBase64, err = w.SignInput(wallet.SignInputOpts{
			PsetBase64:     signedPsetBase64,
			InIndex:        uint32(inIndex),
			DerivationPath: selectedInfo[inIndex-existingInputs].DerivationPath,
		})
		if err != nil {
			return nil, fmt.Errorf("failed to sign input %d tx: %s", inIndex, err)
		}
	}
"""),("""func getSelectedInfo(""","""func orEmpty(keys map[string][]byte) map[string][]byte {
	if keys != nil {
		return keys
	}
	return map[string][]byte{}
}

func getSelectedInfo(""")])
R("quote-order", "C16 C15", AP+"trade_service.go", [("""	if market.BaseAsset != t.marketBaseAsset {
		return nil, ErrMarketNotExist
	}

	if err := validateAssetString(asset); err != nil {
		return nil, errors.New("invalid asset")
	}
	if asset != market.BaseAsset && asset != market.QuoteAsset {
		return nil, errors.New("asset must match one of those of the market")
	}
""","""	if err := validateAssetString(asset); err != nil {
		return nil, errors.New("invalid asset")
	}
	if market.BaseAsset != t.marketBaseAsset {
		return nil, ErrMarketNotExist
	}
	if isPair := asset == market.QuoteAsset || asset == market.BaseAsset; !isPair {
		return nil, errors.New("asset must match one of those of the market")
	}
""")])
R("price-range", "C15", AP+"trade_service.go", [("""	balances := map[string]uint64{}
	for _, unspent := range unspents {
		if _, ok := balances[unspent.AssetHash]; !ok {
			balances[unspent.AssetHash] = 0
		}
		balances[unspent.AssetHash] += unspent.Value
	}
	return balances
""","""	balances := make(map[string]uint64, len(unspents))
	for i := range unspents {
		u := &unspents[i]
		balances[u.AssetHash] = balances[u.AssetHash] + u.Value
	}
	return balances
"""),("""	amountToCheck := decimal.NewFromInt(int64(swapRequest.GetAmountP()))
	if tradeType == TradeSell {
		if isPreviewForQuoteAsset {
			amountToCheck = decimal.NewFromInt(int64(swapRequest.GetAmountR()))
		}
	} else {
		if !isPreviewForQuoteAsset {
			amountToCheck = decimal.NewFromInt(int64(swapRequest.GetAmountR()))
		}
	}

	expectedAmount := decimal.NewFromInt(int64(previewAmount))
	lowerBound := expectedAmount.Mul(decimal.NewFromInt(1).Sub(slippage))
	upperBound := expectedAmount.Mul(decimal.NewFromInt(1).Add(slippage))

	return amountToCheck.GreaterThanOrEqual(lowerBound) && amountToCheck.LessThanOrEqual(upperBound)
""","""	amount := swapRequest.GetAmountP()
	if (tradeType == TradeSell) == isPreviewForQuoteAsset {
		amount = swapRequest.GetAmountR()
	}
	amountToCheck := decimal.NewFromInt(int64(amount))

	expectedAmount := decimal.NewFromInt(int64(previewAmount))
	tolerance := expectedAmount.Mul(slippage)
	if amountToCheck.LessThan(expectedAmount.Sub(tolerance)) {
		return false
	}
	return !amountToCheck.GreaterThan(expectedAmount.Add(tolerance))
"""),("""	if preview != nil {
		if isPriceInRange(swapRequest, tradeType, preview.Amount, true, slippage) {
			return true
		}
	}
""","""	if preview != nil && isPriceInRange(swapRequest, tradeType, preview.Amount, true, slippage) {
		return true
	}
""")])
R("listener-split", "C17", AP+"blockchain_listener.go", [("""			trade, err := b.repoManager.TradeRepository().GetTradeByTxID(ctx, e.TxID)
			if err != nil {
				log.Warnf("unable to find trade with id %s: %v", e.TxID, err)
				break
			}

			if err := b.settleTrade(&trade.ID, e); err != nil {
				log.Warnf("trying to settle trade with id %s: %v", trade.ID, err)
				break
			}
			if err := b.confirmOrAddUnspents(e.TxHex, e.TxID, trade.MarketQuoteAsset); err != nil {
				log.Warnf("trying to confirm or add unspents: %v", err)
				break
			}
""","""			trade, err := b.tradeConfirmed(ctx, e)
			if err != nil {
				log.Warn(err)
				break
			}
"""),("""func (b *blockchainListener) startPendingObservables() {""","""func (b *blockchainListener) tradeConfirmed(
	ctx context.Context, e crawler.TransactionEvent,
) (*domain.Trade, error) {
	trade, err := b.repoManager.TradeRepository().GetTradeByTxID(ctx, e.TxID)
	if err != nil {
		return nil, err
	}
	if err := b.settleTrade(&trade.ID, e); err != nil {
		return nil, err
	}
	if err := b.confirmOrAddUnspents(e.TxHex, e.TxID, trade.MarketQuoteAsset); err != nil {
		return nil, err
	}
	return trade, nil
}

func (b *blockchainListener) startPendingObservables() {"""),("""	uLen := len(unspentsToAdd)
	unspentAddresses := make([]string, uLen, uLen)
	for i, u := range unspentsToAdd {
		unspentAddresses[i] = u.Address
	}
""","""	unspentAddresses := make([]string, 0, len(unspentsToAdd))
	for i := range unspentsToAdd {
		unspentAddresses = append(unspentAddresses, unspentsToAdd[i].Address)
	}
"""),("""		unspentKeys := make([]domain.UnspentKey, uLen, uLen)
		for i, u := range unspentsToAdd {
			unspentKeys[i] = u.Key()
		}
		count""","""		unspentKeys := make([]domain.UnspentKey, 0, len(unspentsToAdd))
		for i := 0; i < len(unspentsToAdd); i++ {
			unspentKeys = append(unspentKeys, unspentsToAdd[i].Key())
		}
		count"""),("""			mustAddTxHex := t.IsAccepted()
			if _, err := t.Settle(uint64(event.BlockTime)); err != nil {
				return nil, err
			}
			if mustAddTxHex {
				t.TxHex = event.TxHex
			}

			return t, nil""","""			wasAccepted := t.IsAccepted()
			_, err := t.Settle(uint64(event.BlockTime))
			if err != nil {
				return nil, err
			}
			if wasAccepted {
				t.TxHex = event.TxHex
			}
			return t, nil""")])
DB="internal/infrastructure/storage/db/badger/"
R("unspents-iface", "C07 C08", DB+"unspent_repository_impl.go", [("""	iface := make([]interface{}, 0, len(addresses))
	for _, v := range addresses {
		iface = append(iface, v)
	}

	query := badgerhold.Where("Address").In(iface...)
	unlockedOnly := false

	return u.findUnspents(ctx, query, unlockedOnly)
""","""	query := badgerhold.Where("Address").In(toInterfaces(addresses)...)
	return u.findUnspents(ctx, query, false)
"""),("""	iface := make([]interface{}, 0, len(addresses))
	for _, v := range addresses {
		iface = append(iface, v)
	}

	query := badgerhold.Where("Spent").Eq(false).
		And("Confirmed").Eq(true).
		And("Address").In(iface...)
	unlockedOnly := false
""","""	query := badgerhold.Where("Spent").Eq(false).
		And("Confirmed").Eq(true).
		And("Address").In(toInterfaces(addresses)...)
	unlockedOnly := false
"""),("""	iface := make([]interface{}, 0, len(addresses))
	for _, v := range addresses {
		iface = append(iface, v)
	}

	query := badgerhold.Where("Spent").Eq(false).
		And("Confirmed").Eq(true).
		And("Address").In(iface...)
	unlockedOnly := true
""","""	query := badgerhold.Where("Spent").Eq(false).
		And("Confirmed").Eq(true).
		And("Address").In(toInterfaces(addresses)...)
	unlockedOnly := true
"""),("""	iface := make([]interface{}, 0, len(addresses))
	for _, v := range addresses {
		iface = append(iface, v)
	}

	query := badgerhold.Where("AssetHash")""","""	iface := toInterfaces(addresses)
	query := badgerhold.Where("AssetHash")"""),("""	var balance uint64
	for _, v := range unspents {
		balance += v.Value
	}
""","""	balance := uint64(0)
	for i := range unspents {
		balance += unspents[i].Value
	}
"""),("""func (u unspentRepositoryImpl) spendUnspents(""","""func toInterfaces(list []string) []interface{} {
	res := make([]interface{}, len(list))
	for i, s := range list {
		res[i] = s
	}
	return res
}

func (u unspentRepositoryImpl) spendUnspents(""")])
R("unspents-foreach", "C07 C08", DB+"unspent_repository_impl.go", [("""	count := 0
	for _, key := range unspentKeys {
		done, err := u.spendUnspent(ctx, key)
		if err != nil {
			return -1, err
		}
		if done {
			count++
		}
	}
	return count, nil
""","""	return countDone(unspentKeys, func(key domain.UnspentKey) (bool, error) {
		return u.spendUnspent(ctx, key)
	})
"""),("""	count := 0
	for _, key := range unspentKeys {
		done, err := u.confirmUnspent(ctx, key)
		if err != nil {
			return -1, err
		}
		if done {
			count++
		}
	}
	return count, nil
""","""	return countDone(unspentKeys, func(key domain.UnspentKey) (bool, error) {
		return u.confirmUnspent(ctx, key)
	})
"""),("""	count := 0
	for _, key := range unspentKeys {
		done, err := u.lockUnspent(ctx, key, tradeID)
		if err != nil {
			return -1, err
		}
		if done {
			count++
		}
	}
	return count, nil
""","""	return countDone(unspentKeys, func(key domain.UnspentKey) (bool, error) {
		return u.lockUnspent(ctx, key, tradeID)
	})
"""),("""func (u unspentRepositoryImpl) spendUnspent(
""","""func countDone(
	keys []domain.UnspentKey, do func(domain.UnspentKey) (bool, error),
) (int, error) {
	count := 0
	for _, key := range keys {
		done, err := do(key)
		if err != nil {
			return -1, err
		}
		if done {
			count++
		}
	}
	return count, nil
}

func (u unspentRepositoryImpl) spendUnspent(
""")])
R("unspents-find", "C07 C08", DB+"unspent_repository_impl.go", [("""	for i, unspent := range unspents {
		tradeID, err := u.getLock(ctx, unspent.Key())
		if err != nil {
			return nil, err
		}
		if tradeID != nil {
			unspent.Lock(tradeID)
			unspents[i] = unspent
		}
		if unlockedOnly && !unspent.IsLocked() {
			unlockedUnspents = append(unlockedUnspents, unspent)
		}
	}

	if unlockedOnly {
		return unlockedUnspents, nil
	}
	return unspents, nil
""","""	for i := range unspents {
		unspent := &unspents[i]
		tradeID, err := u.getLock(ctx, unspent.Key())
		if err != nil {
			return nil, err
		}
		if tradeID != nil {
			unspent.Lock(tradeID)
			continue
		}
		if unlockedOnly {
			unlockedUnspents = append(unlockedUnspents, *unspent)
		}
	}

	if !unlockedOnly {
		return unspents, nil
	}
	return unlockedUnspents, nil
"""),("""	if unspent == nil {
		return false, nil
	}

	if unspent.IsLocked() {
		return false, nil
	}

	return u.insertLock""","""	if unspent == nil || unspent.IsLocked() {
		return false, nil
	}

	return u.insertLock"""),("""	if ctx.Value("tx") != nil {
		tx := ctx.Value("tx").(*badger.Txn)
		err = u.lockStore.TxInsert(tx, encKey, LockedUnspent{tradeID})
	} else {
		err = u.lockStore.Insert(encKey, LockedUnspent{tradeID})
	}
	if err != nil {
		// the unspent got locked by another trade in the meanwhile.
		if err == badgerhold.ErrKeyExists {
			return false, nil
		}
		return false, err
	}
	return true, nil
""","""	lock := LockedUnspent{TradeID: tradeID}
	if tx, ok := ctx.Value("tx").(*badger.Txn); ok {
		err = u.lockStore.TxInsert(tx, encKey, lock)
	} else {
		err = u.lockStore.Insert(encKey, lock)
	}
	switch err {
	case nil:
		return true, nil
	case badgerhold.ErrKeyExists:
		// the unspent got locked by another trade in the meanwhile.
		return false, nil
	default:
		return false, err
	}
""")])
R("trades-find", "C08", DB+"trade_repository_impl.go", [("""	trades := make([]*domain.Trade, len(tr), len(tr))
	for i := range tr {
		trade := tr[i]
		trades[i] = &trade
	}
""","""	trades := make([]*domain.Trade, 0, len(tr))
	for i := range tr {
		trades = append(trades, &tr[i])
	}
"""),("""	if ctx.Value("tx") != nil {
		tx := ctx.Value("tx").(*badger.Txn)
		err = t.store.TxGet(tx, ID, &trade)
	} else {
		err = t.store.Get(ID, &trade)
	}
	if err != nil {
		if err == badgerhold.ErrNotFound {
			return nil, nil
		}
		return nil, err
	}

	return &trade, nil
""","""	if tx, ok := ctx.Value("tx").(*badger.Txn); ok {
		err = t.store.TxGet(tx, ID, &trade)
	} else {
		err = t.store.Get(ID, &trade)
	}
	if err == badgerhold.ErrNotFound {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}

	return &trade, nil
"""),("""	for {
		err := t.updateTrade(ctx, updatedTrade.ID, *updatedTrade)
		if err != nil {
			if txIsNotGiven && isTransactionConflict(err) {
				continue
			}
		}
		return err
	}
""","""	err = t.updateTrade(ctx, updatedTrade.ID, *updatedTrade)
	for txIsNotGiven && err != nil && isTransactionConflict(err) {
		err = t.updateTrade(ctx, updatedTrade.ID, *updatedTrade)
	}
	return err
""")])
R("markets-get", "C08", DB+"market_repository_impl.go", [("""	for i, mkt := range markets {
		// Let's get the price from PriceStore
		price, err := m.getPriceByAccountIndex(ctx, mkt.AccountIndex)
		if err != nil {
			return nil, err
		}
		mkt.Price = *price

		restoreStrategy(&mkt)

		// Assign the restore market with price and startegy
		markets[i] = mkt
	}
""","""	for i := range markets {
		if err := m.complete(ctx, &markets[i], markets[i].AccountIndex); err != nil {
			return nil, err
		}
	}
"""),("""	// Let's get the price from PriceStore
	price, err := m.getPriceByAccountIndex(ctx, accountIndex)
	if err != nil {
		return nil, err
	}
	market.Price = *price
	// Restore strategy
	restoreStrategy(&market)

	return &market, nil
""","""	if err := m.complete(ctx, &market, accountIndex); err != nil {
		return nil, err
	}
	return &market, nil
"""),("""func restoreStrategy(""","""func (m marketRepositoryImpl) complete(
	ctx context.Context, market *domain.Market, accountIndex int,
) error {
	price, err := m.getPriceByAccountIndex(ctx, accountIndex)
	if err != nil {
		return err
	}
	market.Price = *price
	restoreStrategy(market)
	return nil
}

func restoreStrategy("""),("""		market := markets[0]
		if market.IsTradable() {
			return nil
		}

		err = market.MakeTradable()
		if err != nil {
			return err
		}

		err := m.updateMarket(ctx, market.AccountIndex, market)
		if err != nil {
			return err
		}
	}

	return nil
""","""		market := &markets[0]
		if !market.IsTradable() {
			if err := market.MakeTradable(); err != nil {
				return err
			}
			return m.updateMarket(ctx, market.AccountIndex, *market)
		}
	}

	return nil
"""),("""	err := m.updatePriceByAccountIndex(ctx, accountIndex, prices)
	if err != nil {
		return err
	}

	return nil
""","""	return m.updatePriceByAccountIndex(ctx, accountIndex, prices)
""")])
R("vaults-guard", "C08", DB+"vault_repository_impl.go", [("""	vault, err := v.getVault(ctx)
	if err != nil {
		return err
	}
	if vault == nil {
		return ErrVaultNotFound
	}
""","""	vault, err := v.mustGetVault(ctx)
	if err != nil {
		return err
	}
""")]+[("""	vault, err := v.getVault(ctx)
	if err != nil {
		return nil, err
	}
	if vault == nil {
		return nil, ErrVaultNotFound
	}
""","""	vault, err := v.mustGetVault(ctx)
	if err != nil {
		return nil, err
	}
""")]*4+[("""	m := map[string]string{}
	for _, script := range scripts {
		derivationPath, ok := account.DerivationPathByScript[script]
		if !ok {""","""	m := make(map[string]string, len(scripts))
	for i := 0; i < len(scripts); i++ {
		script := scripts[i]
		derivationPath, found := account.DerivationPathByScript[script]
		if !found {"""),("""func (v vaultRepositoryImpl) getVault(""","""func (v vaultRepositoryImpl) mustGetVault(ctx context.Context) (*domain.Vault, error) {
	vault, err := v.getVault(ctx)
	if err != nil {
		return nil, err
	}
	if vault == nil {
		return nil, ErrVaultNotFound
	}
	return vault, nil
}

func (v vaultRepositoryImpl) getVault(""")])
R("swap-request", "C06", "pkg/swap/request.go", [("""		var prevout *transaction.TxOutput
		if in.WitnessUtxo != nil {
			prevout = in.WitnessUtxo
		} else if in.NonWitnessUtxo != nil {
			txinIndex := ptx.UnsignedTx.Inputs[i].Index
			if int(txinIndex) < len(in.NonWitnessUtxo.Outputs) {
				prevout = in.NonWitnessUtxo.Outputs[txinIndex]
			}
		}
		if prevout == nil {
""","""		prevout := prevoutOf(ptx, i)
		if prevout == nil {
"""),("""	checkOutputKeys := outBlindKeys != nil
	for i, out := range ptx.UnsignedTx.Outputs {
		if len(out.Script) > 0 && checkOutputKeys {
			script := hex.EncodeToString(out.Script)
			if _, ok := outBlindKeys[script]; !ok {
				return fmt.Errorf("missing blinding key for output %d", i)
			}
		}
	}

	return nil
}
""","""	if outBlindKeys == nil {
		return nil
	}
	for i, out := range ptx.UnsignedTx.Outputs {
		if len(out.Script) == 0 {
			continue
		}
		if _, ok := outBlindKeys[hex.EncodeToString(out.Script)]; !ok {
			return fmt.Errorf("missing blinding key for output %d", i)
		}
	}

	return nil
}

func prevoutOf(ptx *pset.Pset, i int) *transaction.TxOutput {
	in := ptx.Inputs[i]
	if in.WitnessUtxo != nil {
		return in.WitnessUtxo
	}
	if in.NonWitnessUtxo == nil {
		return nil
	}
	outs := in.NonWitnessUtxo.Outputs
	if n := ptx.UnsignedTx.Inputs[i].Index; int(n) < len(outs) {
		return outs[n]
	}
	return nil
}
""")])
R("swap-complete", "C06", "pkg/swap/complete.go", [("""	if !isHex(complete.Transaction) {
		ptx, err := pset.NewPsetFromBase64(complete.Transaction)
		if err != nil {
			return "", nil, fmt.Errorf("transaction in base64 format is invalid")
		}

		ok, err := ptx.ValidateAllSignatures()
		if err != nil {
			return "", nil, err
		}
		if !ok {
			return "", nil, fmt.Errorf("transaction contains invalid signatures")
		}
	} else {
		if _, err := transaction.NewTxFromHex(complete.Transaction); err != nil {
			return "", nil, fmt.Errorf("transaction in hex format is invalid")
		}
	}
""","""	if err := checkFinal(complete.Transaction); err != nil {
		return "", nil, err
	}
"""),("""func isHex(""","""func checkFinal(tx string) error {
	if isHex(tx) {
		if _, err := transaction.NewTxFromHex(tx); err != nil {
			return fmt.Errorf("transaction in hex format is invalid")
		}
		return nil
	}
	ptx, err := pset.NewPsetFromBase64(tx)
	if err != nil {
		return fmt.Errorf("transaction in base64 format is invalid")
	}
	ok, err := ptx.ValidateAllSignatures()
	if err == nil && !ok {
		err = fmt.Errorf("transaction contains invalid signatures")
	}
	return err
}

func isHex(""")], [("pkg/swap/accept.go",[("""	var msgRequest pb.SwapRequest
	err := proto.Unmarshal(opts.Message, &msgRequest)
	if err != nil {
		return "", nil, fmt.Errorf("unmarshal swap request %w", err)
	}

	randomID := randstr.Hex(8)
	msgAccept := &pb.SwapAccept{
		Id:                randomID,
		RequestId:         msgRequest.GetId(),
		Transaction:       opts.PsetBase64,
		InputBlindingKey:  opts.InputBlindingKeys,
		OutputBlindingKey: opts.OutputBlindingKeys,
	}
""","""	msgRequest := &pb.SwapRequest{}
	if err := proto.Unmarshal(opts.Message, msgRequest); err != nil {
		return "", nil, fmt.Errorf("unmarshal swap request %w", err)
	}

	msgAccept := &pb.SwapAccept{}
	randomID := randstr.Hex(8)
	msgAccept.Id = randomID
	msgAccept.RequestId = msgRequest.Id
	msgAccept.Transaction = opts.PsetBase64
	msgAccept.OutputBlindingKey = opts.OutputBlindingKeys
	msgAccept.InputBlindingKey = opts.InputBlindingKeys
""")])])
R("updatetx-change", "C10", "pkg/wallet/transaction.go", [("""			if totalAmountsByAsset[asset] > 0 {
				selectedUnspents, change, err := explorer.SelectUnspents(
					opts.Unspents,
					totalAmountsByAsset[asset],
					asset,
				)
				if err != nil {
					return nil, err
				}
				inputsToAdd = append(inputsToAdd, selectedUnspents...)

				if change > 0 {
					_, script""","""			target := totalAmountsByAsset[asset]
			if target == 0 {
				continue
			}
			{
				selectedUnspents, change, err := explorer.SelectUnspents(
					opts.Unspents, target, asset,
				)
				if err != nil {
					return nil, err
				}
				inputsToAdd = append(inputsToAdd, selectedUnspents...)

				if change > 0 {
					_, script"""),("""					if opts.WantPrivateBlindKeys {
						changeOutputsBlindingKeys[hex.EncodeToString(script)] =
							prvBlindingKey.Serialize()
					} else {
						changeOutputsBlindingKeys[hex.EncodeToString(script)] =
							pubBlindingKey.SerializeCompressed()
					}
""","""					changeOutputsBlindingKeys[hex.EncodeToString(script)] =
						opts.pickBlindingKey(prvBlindingKey, pubBlindingKey)
"""),("""				if opts.WantPrivateBlindKeys {
					changeOutputsBlindingKeys[hex.EncodeToString(lbtcChangeScript)] =
						lbtcChangePrvBlindingKey.Serialize()
				} else {
					changeOutputsBlindingKeys[hex.EncodeToString(lbtcChangeScript)] =
						lbtcChangePubBlindingKey.SerializeCompressed()
				}
""","""				changeOutputsBlindingKeys[hex.EncodeToString(lbtcChangeScript)] =
					opts.pickBlindingKey(lbtcChangePrvBlindingKey, lbtcChangePubBlindingKey)
"""),("""func (o UpdateTxOpts) getInputAssets()""","""func (o UpdateTxOpts) pickBlindingKey(
	prv *btcec.PrivateKey, pub *btcec.PublicKey,
) []byte {
	if o.WantPrivateBlindKeys {
		return prv.Serialize()
	}
	return pub.SerializeCompressed()
}

func (o UpdateTxOpts) getInputAssets()"""),("""	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
""","""	"github.com/btcsuite/btcd/btcec"
	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
"""),("""	totalAmountsByAsset := map[string]uint64{}
	for _, out := range o.Outputs {
		asset := bufferutil.AssetHashFromBytes(out.Asset)
		totalAmountsByAsset[asset] += bufferutil.ValueFromBytes(out.Value)
	}
""","""	totalAmountsByAsset := make(map[string]uint64)
	for i := range o.Outputs {
		out := o.Outputs[i]
		asset := bufferutil.AssetHashFromBytes(out.Asset)
		value := bufferutil.ValueFromBytes(out.Value)
		totalAmountsByAsset[asset] = totalAmountsByAsset[asset] + value
	}
"""),("""			if anyOutputWithScript(outputsToAdd, lbtcChangeScript) {
				changeOutputIndex := outputIndexByScript(outputsToAdd, lbtcChangeScript)
""","""			changeOutputIndex := outputIndexByScript(outputsToAdd, lbtcChangeScript)
			if changeOutputIndex >= 0 {
"""),])
R("extract", "C10 C06", "pkg/wallet/transaction.go", [("""	if err := opts.validate(); err != nil {
		return "", "", err
	}

	ptx, _ := pset.NewPsetFromBase64(opts.PsetBase64)

	ok, err := ptx.ValidateAllSignatures()
	if err != nil {
		return "", "", err
	}
	if !ok {
		return "", "", ErrInvalidSignatures
	}
""","""	ptx, err := pset.NewPsetFromBase64(opts.PsetBase64)
	if err != nil {
		return "", "", err
	}

	if ok, err := ptx.ValidateAllSignatures(); err != nil {
		return "", "", err
	} else if !ok {
		return "", "", ErrInvalidSignatures
	}
""")])
R("sign-loop", "C12", "pkg/wallet/sign.go", [("""	for i, in := range ptx.Inputs {
		path := opts.DerivationPathMap[hex.EncodeToString(in.WitnessUtxo.Script)]
		err := w.signInput(ptx, i, path)
		if err != nil {
			return "", err
		}
	}
""","""	for i := 0; i < len(ptx.Inputs); i++ {
		script := hex.EncodeToString(ptx.Inputs[i].WitnessUtxo.Script)
		if err := w.signInput(ptx, i, opts.DerivationPathMap[script]); err != nil {
			return "", err
		}
	}
"""),("""	pay, err := payment.FromScript(ptx.Inputs[inIndex].WitnessUtxo.Script, nil, nil)
	if err != nil {
		return err
	}

	script := pay.Script
	hashForSignature := ptx.UnsignedTx.HashForWitnessV0(
		inIndex,
		script,
		ptx.Inputs[inIndex].WitnessUtxo.Value,
		txscript.SigHashAll,
	)
""","""	prevout := ptx.Inputs[inIndex].WitnessUtxo
	pay, err := payment.FromScript(prevout.Script, nil, nil)
	if err != nil {
		return err
	}

	hashForSignature := ptx.UnsignedTx.HashForWitnessV0(
		inIndex, pay.Script, prevout.Value, txscript.SigHashAll,
	)
"""),("""	for i, in := range ptx.Inputs {
		script := in.WitnessUtxo.Script
		_, ok := o.DerivationPathMap[hex.EncodeToString(script)]
		if !ok {
			return fmt.Errorf(
				"derivation path not found in list for input %d with script '%s'",
				i,
				hex.EncodeToString(script),
			)
		}
	}
""","""	for i, in := range ptx.Inputs {
		script := hex.EncodeToString(in.WitnessUtxo.Script)
		if _, ok := o.DerivationPathMap[script]; !ok {
			return fmt.Errorf(
				"derivation path not found in list for input %d with script '%s'", i, script,
			)
		}
	}
"""),("""	_, err = updater.Sign(
		inIndex,
		sigWithSigHashType,
		pubkey.SerializeCompressed(),
		nil,
		nil,
	)
	if err != nil {
		return err
	}
	return nil
""","""	_, err = updater.Sign(
		inIndex, sigWithSigHashType, pubkey.SerializeCompressed(), nil, nil,
	)
	return err
""")])
R("keys-derive", "C12", "pkg/wallet/keys.go", [("""	hdNode, err := hdkeychain.NewKeyFromString(
		base58.Encode(w.signingMasterKey),
	)
	if err != nil {
		return nil, nil, err
	}

	derivationPath, _ := ParseDerivationPath(opts.DerivationPath)
	for _, step := range derivationPath {
		hdNode, err = hdNode.Derive(step)
		if err != nil {
			return nil, nil, err
		}
	}
""","""	derivationPath, _ := ParseDerivationPath(opts.DerivationPath)
	hdNode, err := w.nodeAt(derivationPath)
	if err != nil {
		return nil, nil, err
	}
"""),("""// DeriveBlindingKeyPairOpts is""","""func (w *Wallet) nodeAt(path DerivationPath) (*hdkeychain.ExtendedKey, error) {
	node, err := hdkeychain.NewKeyFromString(base58.Encode(w.signingMasterKey))
	if err != nil {
		return nil, err
	}
	for i := range path {
		if node, err = node.Derive(path[i]); err != nil {
			return nil, err
		}
	}
	return node, nil
}

// DeriveBlindingKeyPairOpts is"""),("""	_, pubkey, err := w.DeriveSigningKeyPair(DeriveSigningKeyPairOpts{
		DerivationPath: opts.DerivationPath,
	})
	if err != nil {
		return "", nil, err
	}

	script := payment""","""	signOpts := DeriveSigningKeyPairOpts{DerivationPath: opts.DerivationPath}
	_, pubkey, err := w.DeriveSigningKeyPair(signOpts)
	if err != nil {
		return "", nil, err
	}

	script := payment""")])
R("withdraw-order", "C10", AP+"operator_service.go", [("""	baseBalance, err := o.repoManager.UnspentRepository().GetUnlockedBalance(ctx, addresses, req.BaseAsset)
	if err != nil {
		return nil, err
	}
	if baseBalance <= 0 {
		return nil, ErrMarketBaseBalanceTooLow
	}
	if req.BalanceToWithdraw.BaseAmount > baseBalance {
		return nil, ErrWithdrawBaseAmountTooBig
	}

	quoteBalance, err := o.repoManager.UnspentRepository().GetUnlockedBalance(ctx, addresses, req.QuoteAsset)
	if err != nil {
		return nil, err
	}
	if quoteBalance <= 0 {
		return nil, ErrMarketQuoteBalanceTooLow
	}
	if req.BalanceToWithdraw.QuoteAmount > quoteBalance {
		return nil, ErrWithdrawQuoteAmountTooBig
	}

	outs := make([]TxOut, 0)
	if req.BalanceToWithdraw.BaseAmount > 0 {
		outs = append(outs, TxOut{
			Asset:   req.BaseAsset,
			Value:   int64(req.BalanceToWithdraw.BaseAmount),
			Address: req.Address,
		})
	}
	if req.BalanceToWithdraw.QuoteAmount > 0 {
		outs = append(outs, TxOut{
			Asset:   req.QuoteAsset,
			Value:   int64(req.BalanceToWithdraw.QuoteAmount),
			Address: req.Address,
		})
	}
""","""	unspentRepo := o.repoManager.UnspentRepository()
	baseBalance, err := unspentRepo.GetUnlockedBalance(ctx, addresses, req.BaseAsset)
	if err != nil {
		return nil, err
	}
	quoteBalance, err := unspentRepo.GetUnlockedBalance(ctx, addresses, req.QuoteAsset)
	if err != nil {
		return nil, err
	}

	switch amounts := req.BalanceToWithdraw; {
	case baseBalance == 0:
		return nil, ErrMarketBaseBalanceTooLow
	case amounts.BaseAmount > baseBalance:
		return nil, ErrWithdrawBaseAmountTooBig
	case quoteBalance == 0:
		return nil, ErrMarketQuoteBalanceTooLow
	case amounts.QuoteAmount > quoteBalance:
		return nil, ErrWithdrawQuoteAmountTooBig
	}

	outs := withdrawOuts(req)
"""),("""	marketUnspents, err := o.getAllUnspentsForAccount(ctx, market.AccountIndex)
	if err != nil {
		return nil, err
	}

	feeUnspents, err := o.getAllUnspentsForAccount(ctx, domain.FeeAccount)
	if err != nil {
		return nil, err
	}

	mnemonic, err := vault.GetMnemonicSafe()
	if err != nil {
		return nil, err
	}
""","""	mnemonic, err := vault.GetMnemonicSafe()
	if err != nil {
		return nil, err
	}

	feeUnspents, err := o.getAllUnspentsForAccount(ctx, domain.FeeAccount)
	if err != nil {
		return nil, err
	}

	marketUnspents, err := o.getAllUnspentsForAccount(ctx, market.AccountIndex)
	if err != nil {
		return nil, err
	}
"""),("""		info, err := vault.DeriveNextInternalAddressForAccount(accountIndex)
		if err != nil {
			return nil, err
		}

		derivationPath := marketAccount.DerivationPathByScript[info.Script]
		changePathsByAsset[asset] = derivationPath
""","""		change, err := vault.DeriveNextInternalAddressForAccount(accountIndex)
		if err != nil {
			return nil, err
		}
		changePathsByAsset[asset] = marketAccount.DerivationPathByScript[change.Script]
"""),("""func (o *operatorService) FeeAccountBalance(""","""func withdrawOuts(req WithdrawMarketReq) []TxOut {
	outs := make([]TxOut, 0, 2)
	add := func(asset string, amount uint64) {
		if amount > 0 {
			outs = append(outs, TxOut{
				Asset: asset, Value: int64(amount), Address: req.Address,
			})
		}
	}
	add(req.BaseAsset, req.BalanceToWithdraw.BaseAmount)
	add(req.QuoteAsset, req.BalanceToWithdraw.QuoteAmount)
	return outs
}

func (o *operatorService) FeeAccountBalance(""")])
R("outputs-loops", "C10", AP+"wallet_service.go", [("""	outputs := make([]*transaction.TxOutput, 0, len(reqOutputs))
	blindingKeys := make([][]byte, 0, len(reqOutputs))

	for _, out := range reqOutputs {""","""	n := len(reqOutputs)
	outputs := make([]*transaction.TxOutput, n)
	blindingKeys := make([][]byte, n)

	for i, out := range reqOutputs {"""),("""		output := transaction.NewTxOutput(asset, value, script)
		outputs = append(outputs, output)
		blindingKeys = append(blindingKeys, blindingKey)
""","""		outputs[i] = transaction.NewTxOutput(asset, value, script)
		blindingKeys[i] = blindingKey
"""),("""	assets := make([]string, 0)
	for _, out := range outputs {
		asset := bufferutil.AssetHashFromBytes(out.Asset)
		if !containsAsset(assets, asset) {
			assets = append(assets, asset)
		}
	}
	return assets
""","""	assets := make([]string, 0, len(outputs))
	seen := make(map[string]bool)
	for _, out := range outputs {
		asset := bufferutil.AssetHashFromBytes(out.Asset)
		if seen[asset] {
			continue
		}
		seen[asset] = true
		assets = append(assets, asset)
	}
	return assets
"""),("""	milliSatPerByte := opts.milliSatPerByte
	if milliSatPerByte < domain.MinMilliSatPerByte {
		milliSatPerByte = domain.MinMilliSatPerByte
	}
""","""	milliSatPerByte := domain.MinMilliSatPerByte
	if opts.milliSatPerByte >= domain.MinMilliSatPerByte {
		milliSatPerByte = opts.milliSatPerByte
	}
""")])
R("claim-helpers", "C22", AP+"operator_service.go", [("""	infoByScript := make(map[string]domain.AddressInfo)
	for _, info := range infoPerAccount {
		for s, i := range groupAddressesInfoByScript(info) {
			infoByScript[s] = i
		}
	}
""","""	infoByScript := make(map[string]domain.AddressInfo)
	for accountIndex := range infoPerAccount {
		grouped := groupAddressesInfoByScript(infoPerAccount[accountIndex])
		for script, info := range grouped {
			infoByScript[script] = info
		}
	}
"""),("""		confirmed, err := o.explorerSvc.IsTransactionConfirmed(v.Hash)
		if err != nil {
			return err
		}
		if !confirmed {
			return ErrTxNotConfirmed
		}

		tx, err := o.explorerSvc.GetTransaction(v.Hash)
		if err != nil {
			return err
		}

		if v.Index < 0 || len(tx.Outputs()) <= v.Index {
			return ErrInvalidOutpoint
		}

		txOut := tx.Outputs()[v.Index]
		script""","""		txOut, err := o.confirmedOutput(v)
		if err != nil {
			return err
		}
		script"""),("""func (o *operatorService) fundMarket(""","""func (o *operatorService) confirmedOutput(
	outpoint TxOutpoint,
) (*transaction.TxOutput, error) {
	confirmed, err := o.explorerSvc.IsTransactionConfirmed(outpoint.Hash)
	if err != nil {
		return nil, err
	}
	if !confirmed {
		return nil, ErrTxNotConfirmed
	}
	tx, err := o.explorerSvc.GetTransaction(outpoint.Hash)
	if err != nil {
		return nil, err
	}
	outs := tx.Outputs()
	if outpoint.Index < 0 || outpoint.Index >= len(outs) {
		return nil, ErrInvalidOutpoint
	}
	return outs[outpoint.Index], nil
}

func (o *operatorService) fundMarket("""),("""	outpoints := make([]domain.OutpointWithAsset, 0, len(unspents))
	for _, u := range unspents {
		outpoints = append(outpoints, domain.OutpointWithAsset{
			Txid:  u.TxID,
			Vout:  int(u.VOut),
			Asset: u.AssetHash,
		})
	}
""","""	outpoints := make([]domain.OutpointWithAsset, len(unspents))
	for i, u := range unspents {
		outpoints[i] = domain.OutpointWithAsset{
			Asset: u.AssetHash, Txid: u.TxID, Vout: int(u.VOut),
		}
	}
"""),("""	nonFundedMakrets := make([]domain.Market, 0)
	for _, m := range markets {
		if !m.IsFunded() {
			nonFundedMakrets = append(nonFundedMakrets, m)
		}
	}
	return nonFundedMakrets, nil
""","""	var nonFunded []domain.Market
	for i := range markets {
		if markets[i].IsFunded() {
			continue
		}
		nonFunded = append(nonFunded, markets[i])
	}
	return nonFunded, nil
"""),("""	if err := o.repoManager.MarketRepository().OpenMarket(ctx, quoteAsset); err != nil {
		return err
	}

	return nil
""","""	return o.repoManager.MarketRepository().OpenMarket(ctx, quoteAsset)
"""),("""	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
""","""	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
	"github.com/vulpemventures/go-elements/transaction"
""")])
R("reports", "C23", AP+"operator_service.go", [("""	marketInfo := make([]MarketInfo, 0, len(markets))
	for _, market := range markets {
		marketInfo = append(marketInfo, MarketInfo{
""","""	marketInfo := make([]MarketInfo, len(markets))
	for i, market := range markets {
		marketInfo[i] = MarketInfo{
"""),("""				FixedQuoteFee: market.FixedFee.QuoteFee,
			},
		})
	}

	return marketInfo, nil
""","""				FixedQuoteFee: market.FixedFee.QuoteFee,
			},
		}
	}

	return marketInfo, nil
"""),("""		marketPrice := trade.MarketPrice.QuotePrice
		if feeAsset == m.BaseAsset {
			marketPrice = trade.MarketPrice.BasePrice
		}

		fees = append(fees, FeeInfo{
			TradeID:     trade.ID.String(),
			BasisPoint:  feeBasisPoint,
			Asset:       feeAsset,
			Amount:      feeAmount,
			MarketPrice: marketPrice,
		})

		total[feeAsset] += int64(feeAmount)
""","""		feeInfo := FeeInfo{
			TradeID:    trade.ID.String(),
			BasisPoint: feeBasisPoint,
			Asset:      feeAsset,
			Amount:     feeAmount,
		}
		if feeAsset == m.BaseAsset {
			feeInfo.MarketPrice = trade.MarketPrice.BasePrice
		} else {
			feeInfo.MarketPrice = trade.MarketPrice.QuotePrice
		}
		fees = append(fees, feeInfo)

		total[feeAsset] = total[feeAsset] + int64(feeAmount)
""")])
R("auth", "C18", "internal/interfaces/grpc/interceptor/auth.go", [("""	if _, ok := permissions.Whitelist()[fullMethod]; ok {
		return nil
	}

	uriPermissions, ok := permissions.AllPermissionsByMethod()[fullMethod]
	if !ok {
		return fmt.Errorf("%s: unknown permissions required for method", fullMethod)
	}
""","""	if isWhitelisted(fullMethod) {
		return nil
	}

	allPermissions := permissions.AllPermissionsByMethod()
	uriPermissions, known := allPermissions[fullMethod]
	if !known {
		return fmt.Errorf("%s: unknown permissions required for method", fullMethod)
	}
"""),("""	validator, ok := svc.ExternalValidators[fullMethod]
	if !ok {
		validator = svc
	}
	// Now that we know what validator to use, let it do its work.
	return validator.ValidateMacaroon(ctx, uriPermissions, fullMethod)
}
""","""	if external, ok := svc.ExternalValidators[fullMethod]; ok {
		return external.ValidateMacaroon(ctx, uriPermissions, fullMethod)
	}
	return svc.ValidateMacaroon(ctx, uriPermissions, fullMethod)
}

func isWhitelisted(fullMethod string) bool {
	_, ok := permissions.Whitelist()[fullMethod]
	return ok
}
""")])
# ---- second batch
R("complete-split", "C16", AP+"trade_service.go", [("""		swapFailMsg, err := t.tradeFail(ctx, *swapFail)
		if err != nil {
			log.Debugf("error while aborting trade: %s", err)
			return "", nil, ErrServiceUnavailable
		}
		return "", swapFailMsg, nil
	}
""","""		if _, err := t.tradeFail(ctx, *swapFail); err != nil {
			log.Debugf("error while aborting trade: %s", err)
			return "", nil, ErrServiceUnavailable
		}
		return "", *swapFail, nil
	}
"""),("""	go func() {
		if err := t.repoManager.TradeRepository().UpdateTrade(
			ctx,
			&trade.ID,
			func(previousTrade *domain.Trade) (*domain.Trade, error) { return trade, nil },
		); err != nil {
			log.Error("unable to persist completed trade with id ", trade.ID, " : ", err.Error())
		}

		_, accountIndex, _ := t.repoManager.MarketRepository().GetMarketByAsset(
			ctx,
			trade.MarketQuoteAsset,
		)
		extractUnspentsFromTxAndUpdateUtxoSet(
			t.repoManager.UnspentRepository(),
			t.repoManager.VaultRepository(),
			t.network,
			res.TxHex,
			accountIndex,
		)
	}()

	return
}
""","""	go t.persistCompleted(ctx, trade, res.TxHex)

	return
}

func (t *tradeService) persistCompleted(ctx context.Context, trade *domain.Trade, txHex string) {
	if err := t.repoManager.TradeRepository().UpdateTrade(
		ctx,
		&trade.ID,
		func(*domain.Trade) (*domain.Trade, error) { return trade, nil },
	); err != nil {
		log.Error("unable to persist completed trade with id ", trade.ID, " : ", err.Error())
	}

	_, accountIndex, _ := t.repoManager.MarketRepository().GetMarketByAsset(ctx, trade.MarketQuoteAsset)
	extractUnspentsFromTxAndUpdateUtxoSet(
		t.repoManager.UnspentRepository(), t.repoManager.VaultRepository(), t.network, txHex, accountIndex,
	)
}
"""),("""	go t.unlockUnspentsForTrade(trade)
	go t.blockchainListener.StopObserveTx(trade.TxID)
""","""	go t.blockchainListener.StopObserveTx(trade.TxID)
	go t.unlockUnspentsForTrade(trade)
"""),("""	keyLen := len(p.Inputs)
	unspentKeys := make([]domain.UnspentKey, keyLen, keyLen)

	for i, in := range p.UnsignedTx.Inputs {
		unspentKeys[i] = domain.UnspentKey{
			TxID: bufferutil.TxIDFromBytes(in.Hash),
			VOut: in.Index,
		}
	}
""","""	unspentKeys := make([]domain.UnspentKey, 0, len(p.UnsignedTx.Inputs))
	for _, in := range p.UnsignedTx.Inputs {
		key := domain.UnspentKey{TxID: bufferutil.TxIDFromBytes(in.Hash), VOut: in.Index}
		unspentKeys = append(unspentKeys, key)
	}
"""),("""	if trade.IsExpired() {
		t.blockchainListener.StopObserveTx(trade.TxID)

		count,""","""	if !trade.IsExpired() {
		return
	}
	{
		t.blockchainListener.StopObserveTx(trade.TxID)

		count,""")])
R("vault-pass", "C13", DM+"vault_service.go", [("""	if !v.IsLocked() {
		return ErrVaultMustBeLocked
	}
	if !v.isValidPassphrase(currentPassphrase) {
		return ErrVaultInvalidPassphrase
	}

	mnemonic, err := EncrypterManager.Decrypt(v.EncryptedMnemonic, currentPassphrase)
	if err != nil {
		return err
	}

	encryptedMnemonic, err := EncrypterManager.Encrypt(mnemonic, newPassphrase)
	if err != nil {
		return err
	}

	v.EncryptedMnemonic = encryptedMnemonic
	v.PassphraseHash = btcutil.Hash160([]byte(newPassphrase))
	return nil
""","""	switch {
	case !v.IsLocked():
		return ErrVaultMustBeLocked
	case !v.isValidPassphrase(currentPassphrase):
		return ErrVaultInvalidPassphrase
	}

	encryptedMnemonic, err := reencrypt(v.EncryptedMnemonic, currentPassphrase, newPassphrase)
	if err != nil {
		return err
	}
	v.PassphraseHash = btcutil.Hash160([]byte(newPassphrase))
	v.EncryptedMnemonic = encryptedMnemonic
	return nil
"""),("""// InitAccount creates""","""func reencrypt(cipher, from, to string) (string, error) {
	mnemonic, err := EncrypterManager.Decrypt(cipher, from)
	if err != nil {
		return "", err
	}
	return EncrypterManager.Encrypt(mnemonic, to)
}

// InitAccount creates"""),("""	if !v.IsLocked() {
		return nil
	}

	mnemonic, err :=""","""	if v.IsInitialized() && MnemonicStoreManager.IsSet() {
		return nil
	}

	mnemonic, err :="""),("""	listLen := len(v.AccountAndKeyByAddress)
	list := make(AddressesInfo, listLen, listLen)
	i := 0

	for addr""","""	list := make(AddressesInfo, 0, len(v.AccountAndKeyByAddress))
	for addr"""),("""		script, _ := address.ToOutputScript(addr)
		path, _ := account.DerivationPathByScript[hex.EncodeToString(script)]

		list[i] = AddressInfo{
			AccountIndex:   info.AccountIndex,
			Address:        addr,
			BlindingKey:    info.BlindingKey,
			DerivationPath: path,
			Script:         hex.EncodeToString(script),
		}
		i++
	}
""","""		script, _ := address.ToOutputScript(addr)
		scriptHex := hex.EncodeToString(script)

		list = append(list, AddressInfo{
			AccountIndex:   info.AccountIndex,
			Address:        addr,
			BlindingKey:    info.BlindingKey,
			DerivationPath: account.DerivationPathByScript[scriptHex],
			Script:         scriptHex,
		})
	}
"""),("""	next = 0
	if a.LastInternalIndex != hdkeychain.HardenedKeyStart-1 {
		next = a.LastInternalIndex + 1
	}
	a.LastInternalIndex = next
	return
""","""	next = a.LastInternalIndex + 1
	if a.LastInternalIndex == hdkeychain.HardenedKeyStart-1 {
		next = 0
	}
	a.LastInternalIndex = next
	return next
"""),("""	addressIndex := account.LastExternalIndex
	if chainIndex == InternalChain {
		addressIndex = account.LastInternalIndex
	}
	derivationPath""","""	var addressIndex int
	switch chainIndex {
	case InternalChain:
		addressIndex = account.LastInternalIndex
	default:
		addressIndex = account.LastExternalIndex
	}
	derivationPath""")])
R("swap-accept", "C06", "pkg/swap/accept.go", [("""	if err := opts.validate(); err != nil {
		return "", nil, err
	}

	var msgRequest pb.SwapRequest
	err := proto.Unmarshal(opts.Message, &msgRequest)
	if err != nil {
		return "", nil, fmt.Errorf("unmarshal swap request %w", err)
	}

	randomID := randstr.Hex(8)
	msgAccept := &pb.SwapAccept{
		Id:                randomID,
		RequestId:         msgRequest.GetId(),
		Transaction:       opts.PsetBase64,
		InputBlindingKey:  opts.InputBlindingKeys,
		OutputBlindingKey: opts.OutputBlindingKeys,
	}

	msgAcceptSerialized, err := proto.Marshal(msgAccept)
	if err != nil {
		return "", nil, err
	}
	return randomID, msgAcceptSerialized, nil
""","""	msgRequest := &pb.SwapRequest{}
	if err := proto.Unmarshal(opts.Message, msgRequest); err != nil {
		return "", nil, fmt.Errorf("unmarshal swap request %w", err)
	}
	if err := opts.validate(); err != nil {
		return "", nil, err
	}

	msgAccept := new(pb.SwapAccept)
	msgAccept.Id = randstr.Hex(8)
	msgAccept.RequestId = msgRequest.GetId()
	msgAccept.Transaction = opts.PsetBase64
	msgAccept.InputBlindingKey = opts.InputBlindingKeys
	msgAccept.OutputBlindingKey = opts.OutputBlindingKeys

	buf, err := proto.Marshal(msgAccept)
	if err != nil {
		return "", nil, err
	}
	return msgAccept.GetId(), buf, nil
""")])
R("listener-rest", "C17", AP+"blockchain_listener.go", [("""	if len(b.pendingObservables) <= 0 {
		return
	}

	for _, observable := range b.pendingObservables {
		b.crawlerSvc.AddObservable(observable)
		time.Sleep(200 * time.Millisecond)
	}
""","""	for i := 0; i < len(b.pendingObservables); i++ {
		b.crawlerSvc.AddObservable(b.pendingObservables[i])
		time.Sleep(200 * time.Millisecond)
	}
"""),("""	observable := crawler.NewAddressObservable(accountIndex, addr, blindKey)

	if !b.started {
		b.pendingObservables = append(b.pendingObservables, observable)
		return
	}
	b.crawlerSvc.AddObservable(observable)
}
""","""	b.observe(crawler.NewAddressObservable(accountIndex, addr, blindKey))
}

func (b *blockchainListener) observe(observable crawler.Observable) {
	if b.started {
		b.crawlerSvc.AddObservable(observable)
		return
	}
	b.pendingObservables = append(b.pendingObservables, observable)
}
"""),("""	observable := crawler.NewTransactionObservable(txid)

	if !b.started {
		b.pendingObservables = append(b.pendingObservables, observable)
		return
	}
	b.crawlerSvc.AddObservable(observable)
}
""","""	b.observe(crawler.NewTransactionObservable(txid))
}
"""),("""	if !b.started {
		log.Debug("start crawler")
		go b.crawlerSvc.Start()
		log.Debug("start listening on event channel")
		go b.listenToEventChannel()
		go b.startPendingObservables()
		b.started = true
	}
""","""	if b.started {
		return
	}
	b.started = true
	log.Debug("start crawler")
	go b.crawlerSvc.Start()
	log.Debug("start listening on event channel")
	go b.listenToEventChannel()
	go b.startPendingObservables()
"""),("""	if len(u) > 0 {
		unspentKeys := make([]domain.UnspentKey, uLen, uLen)
		for i, u := range unspentsToAdd {
			unspentKeys[i] = u.Key()
		}
		count, err := b.repoManager.UnspentRepository().ConfirmUnspents(ctx, unspentKeys)
		if err != nil {
			return err
		}
		log.Debugf("confirmed %d unspents", count)
		return nil
	}

	go func() {
		// these unspents must be inserted already confirmed.
		for i := range unspentsToAdd {
			unspentsToAdd[i].Confirmed = true
		}
		addUnspentsAsync(b.repoManager.UnspentRepository(), unspentsToAdd)
		spendUnspentsAsync(b.repoManager.UnspentRepository(), unspentsToSpend)
	}()

	return nil
""","""	if len(u) == 0 {
		go func() {
			// these unspents must be inserted already confirmed.
			for i := range unspentsToAdd {
				u := &unspentsToAdd[i]
				u.Confirmed = true
			}
			addUnspentsAsync(b.repoManager.UnspentRepository(), unspentsToAdd)
			spendUnspentsAsync(b.repoManager.UnspentRepository(), unspentsToSpend)
		}()
		return nil
	}

	return b.confirmAll(ctx, unspentsToAdd)
"""),("""func (b *blockchainListener) startPendingObservables() {""","""func (b *blockchainListener) confirmAll(ctx context.Context, list []domain.Unspent) error {
	var keys []domain.UnspentKey
	for _, u := range list {
		keys = append(keys, u.Key())
	}
	count, err := b.repoManager.UnspentRepository().ConfirmUnspents(ctx, keys)
	if err == nil {
		log.Debugf("confirmed %d unspents", count)
	}
	return err
}

func (b *blockchainListener) startPendingObservables() {""")])

WH="internal/infrastructure/pubsub/webhook/service.go"
R("hooks-of-topic","C19",WH,[("""	hooks := ws.getHooksByAction(actionType)
	if actionType != AllActions {
		hooksForAllActions := ws.getHooksByAction(AllActions)
		hooks = append(hooks, hooksForAllActions...)
	}
	subs :=""","""	hooks := ws.hooksToInvoke(actionType)
	subs :="""),("""	hooks := ws.getHooksByAction(actionType)
	if actionType != AllActions {
		hooksForAllActions := ws.getHooksByAction(AllActions)
		hooks = append(hooks, hooksForAllActions...)
	}

	eg""","""	hooks := ws.hooksToInvoke(actionType)

	eg"""),("""func (ws *webhookService) addHookByAction(""","""func (ws *webhookService) hooksToInvoke(actionType WebhookAction) []*Webhook {
	hooks := ws.getHooksByAction(actionType)
	if actionType == AllActions {
		return hooks
	}
	return append(hooks, ws.getHooksByAction(AllActions)...)
}

func (ws *webhookService) addHookByAction(""")])
R("hooks-remove-copy","C19",WH,[("""	rawHooks = append(rawHooks[:index], rawHooks[index+1:]...)

	if len(rawHooks) <= 0 {
		return ws.store.db().RemoveFromBucket(hooksByActionBucket, key)
	}

	updatedHooks := bytes.Join(rawHooks, separator)
""","""	remaining := make([][]byte, 0, len(rawHooks)-1)
	remaining = append(remaining, rawHooks[:index]...)
	remaining = append(remaining, rawHooks[index+1:]...)

	if len(remaining) <= 0 {
		return ws.store.db().RemoveFromBucket(hooksByActionBucket, key)
	}

	updatedHooks := bytes.Join(remaining, separator)
""")])
R("hooks-index-loop","C19",WH,[("""	for _, buf := range rawHooks {
		hook, _ := NewWebhookFromBytes(buf)
		hooks = append(hooks, hook)
	}
""","""	for i := 0; i < len(rawHooks); i++ {
		hook, _ := NewWebhookFromBytes(rawHooks[i])
		hooks = append(hooks, hook)
	}
"""),("""	index := -1
	for i, buf := range rawHooks {
		hh, _ := NewWebhookFromBytes(buf)
		if hh.ID == hook.ID {
			index = i
			break
		}
	}
""","""	index := indexOfHook(rawHooks, hook.ID)
"""),("""func (ws *webhookService) getHooksByAction(""","""func indexOfHook(rawHooks [][]byte, id string) int {
	for i := range rawHooks {
		if hh, _ := NewWebhookFromBytes(rawHooks[i]); hh.ID == id {
			return i
		}
	}
	return -1
}

func (ws *webhookService) getHooksByAction(""")])
R("hooks-headers","C19",WH,[("""		headers := map[string]string{
			"Content-Type": "application/json",
		}
		if hook.IsSecured() {
			token := jwt.New(jwt.SigningMethodHS256)
			secret := []byte(hook.Secret)
			tokenString, _ := token.SignedString(secret)
			headers["Authorization"] = fmt.Sprintf("Bearer %s", tokenString)
		}
""","""		headers := headersFor(hook)
"""),("""func (ws *webhookService) doRequest(""","""func headersFor(hook *Webhook) map[string]string {
	headers := map[string]string{"Content-Type": "application/json"}
	if !hook.IsSecured() {
		return headers
	}
	token, _ := jwt.New(jwt.SigningMethodHS256).SignedString([]byte(hook.Secret))
	headers["Authorization"] = "Bearer " + token
	return headers
}

func (ws *webhookService) doRequest(""")])
CY="pkg/wallet/cypher.go"
R("cypher-gcm-helper","C14",CY,[("""	blockCipher, err := aes.NewCipher(key)
	if err != nil {
		return "", err
	}
	gcm, err := cipher.NewGCM(blockCipher)
	if err != nil {
		return "", err
	}
	nonce := make""","""	gcm, err := newGCM(key)
	if err != nil {
		return "", err
	}
	nonce := make"""),("""	blockCipher, err := aes.NewCipher(key)
	if err != nil {
		return "", err
	}
	gcm, err := cipher.NewGCM(blockCipher)
	if err != nil {
		return "", err
	}
	if len(data)""","""	gcm, err := newGCM(key)
	if err != nil {
		return "", err
	}
	if len(data)"""),("""// DeriveKey derives""","""func newGCM(key []byte) (cipher.AEAD, error) {
	block, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	return cipher.NewGCM(block)
}

// DeriveKey derives""")])
R("cypher-seal-nil","C14",CY,[("""	ciphertext := gcm.Seal(nonce, nonce, []byte(opts.PlainText), nil)
	ciphertext = append(ciphertext, salt...)
""","""	sealed := gcm.Seal(nil, nonce, []byte(opts.PlainText), nil)
	ciphertext := make([]byte, 0, len(nonce)+len(sealed)+len(salt))
	ciphertext = append(ciphertext, nonce...)
	ciphertext = append(ciphertext, sealed...)
	ciphertext = append(ciphertext, salt...)
"""),("""	salt, data := data[len(data)-32:], data[:len(data)-32]
""","""	split := len(data) - 32
	salt := data[split:]
	data = data[:split]
""")])
BS="pkg/securestore/bolt/store.go"
R("store-bucket-helper","C14",BS,[("""		bucket := tx.ReadWriteBucket(RootKeyBucketName)
		if bucket == nil {
			return ErrRootKeyBucketNotFound
		}

		if len(bucketKey) > 0 {
			// If the bucket key is not nil, data must be added to the nested bucket.
			bucket = bucket.NestedReadWriteBucket(bucketKey)
			if bucket == nil {
				return ErrBucketNotFound
			}
		}

		// Encrypt""","""		bucket, err := writeBucket(tx, bucketKey)
		if err != nil {
			return err
		}

		// Encrypt"""),("""// AddToBucket stores""","""func writeBucket(tx kvdb.RwTx, bucketKey []byte) (walletdb.ReadWriteBucket, error) {
	bucket := tx.ReadWriteBucket(RootKeyBucketName)
	if bucket == nil {
		return nil, ErrRootKeyBucketNotFound
	}
	if len(bucketKey) == 0 {
		return bucket, nil
	}
	nested := bucket.NestedReadWriteBucket(bucketKey)
	if nested == nil {
		return nil, ErrBucketNotFound
	}
	return nested, nil
}

// AddToBucket stores""")])
R("store-copy-append","C14",BS,[("""		value = make([]byte, len(v))
		copy(value[:], v)
		return nil
""","""		value = append([]byte{}, v...)
		return nil
""")])
R("store-unlock-helper","C14",BS,[("""			encKey := &snacl.SecretKey{}
			if err := encKey.Unmarshal(dbKey); err != nil {
				return err
			}

			if err := encKey.DeriveKey(password); err != nil {
				return ErrInvalidPassword
			}

			s.encKey = encKey
			return nil
""","""			encKey, err := openKey(dbKey, password)
			if err == nil {
				s.encKey = encKey
			}
			return err
"""),("""// ChangePassword decrypts""","""func openKey(raw []byte, password *[]byte) (*snacl.SecretKey, error) {
	key := &snacl.SecretKey{}
	if err := key.Unmarshal(raw); err != nil {
		return nil, err
	}
	if err := key.DeriveKey(password); err != nil {
		return nil, ErrInvalidPassword
	}
	return key, nil
}

// ChangePassword decrypts""")])
MS="pkg/macaroons/store.go"
R("rootkeys-change-helper","C14",MS,[("""		decryptedKey, err := encKeyOld.Decrypt(rootKeyDb)
		if err != nil {
			return err
		}
		rootKey := make([]byte, len(decryptedKey))
		copy(rootKey, decryptedKey)
		encryptedKey, err := encKeyNew.Encrypt(rootKey)
		if err != nil {
			return err
		}
		err = bucket.Put(DefaultRootKeyID, encryptedKey)
		if err != nil {
			return err
		}
""","""		encryptedKey, err := reencrypt(encKeyOld, encKeyNew, rootKeyDb)
		if err != nil {
			return err
		}
		if err := bucket.Put(DefaultRootKeyID, encryptedKey); err != nil {
			return err
		}
"""),("""// Get implements""","""func reencrypt(from, to *snacl.SecretKey, sealed []byte) ([]byte, error) {
	opened, err := from.Decrypt(sealed)
	if err != nil {
		return nil, err
	}
	return to.Encrypt(append([]byte(nil), opened...))
}

// Get implements""")])
