//go:build go1.22

package domain

import (
	"encoding/hex"
	"errors"

	pkgswap "github.com/tdex-network/tdex-daemon/pkg/swap"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	"google.golang.org/protobuf/proto"
)

// Ghost state: what the parser asked of pkg/swap and what that answered.
var (
	vcReqOpts pkgswap.RequestOpts
	vcAccOpts pkgswap.AcceptOpts
	vcCmpOpts pkgswap.CompleteOpts
	vcFailOpts pkgswap.FailOpts
	vcMsgErr  error
	vcMsgId   string
	vcMsg     []byte
	vcFinOpts wallet.FinalizeAndExtractTransactionOpts
	vcFinErr  error
	vcParsed  []byte
	vcNotMsg  bool
)

func vcSwapRequest(o pkgswap.RequestOpts) ([]byte, error) {
	vcReqOpts = o
	return vcMsg, vcMsgErr
}
func vcSwapAccept(o pkgswap.AcceptOpts) (string, []byte, error) {
	vcAccOpts = o
	return vcMsgId, vcMsg, vcMsgErr
}
func vcSwapComplete(o pkgswap.CompleteOpts) (string, []byte, error) {
	vcCmpOpts = o
	return vcMsgId, vcMsg, vcMsgErr
}
func vcSwapFail(o pkgswap.FailOpts) (string, []byte, error) {
	vcFailOpts = o
	return vcMsgId, vcMsg, nil
}
func vcFinalize(o wallet.FinalizeAndExtractTransactionOpts) (string, string, error) {
	vcFinOpts = o
	return "", "", vcFinErr
}

func vcIsHex(s string) bool {
	_, err := hex.DecodeString(s)
	return err == nil
}

// Fields of a serialised message.
func vcMsgString(msg []byte, field int) string { return "" }
func vcMsgNumber(msg []byte, field int) uint64 { return 0 }

func vcParse(b []byte, m proto.Message) error {
	vcParsed = b
	if vcNotMsg {
		return errors.New("not a message")
	}
	if r, ok := m.(*pbswap.SwapRequest); ok {
		r.Id, r.AssetP, r.AssetR, r.Transaction = vcMsgString(b, 1), vcMsgString(b, 2), vcMsgString(b, 4), vcMsgString(b, 6)
		r.AmountP, r.AmountR = vcMsgNumber(b, 3), vcMsgNumber(b, 5)
	}
	if r, ok := m.(*pbswap.SwapAccept); ok {
		r.Id, r.RequestId, r.Transaction = vcMsgString(b, 1), vcMsgString(b, 2), vcMsgString(b, 3)
	}
	if r, ok := m.(*pbswap.SwapComplete); ok {
		r.Id, r.AcceptId, r.Transaction = vcMsgString(b, 1), vcMsgString(b, 2), vcMsgString(b, 3)
	}
	if r, ok := m.(*pbswap.SwapFail); ok {
		r.Id, r.MessageId, r.FailureMessage, r.FailureCode = vcMsgString(b, 1), vcMsgString(b, 2), vcMsgString(b, 4), uint32(vcMsgNumber(b, 3))
	}
	return nil
}

//@ contract C06 stub=pkg/swap.Request:vcSwapRequest
func vcSerializeRequest(r *pbswap.SwapRequest, msg []byte, fails error) {
	//@ requires r != nil
	vcMsg, vcMsgErr = msg, fails
	//@ call
	b, err := swapParser{}.SerializeRequest(r)
	//@ ensures served: (err == nil) == (fails == nil)
	//@ ensures code: err != nil ==> err.Code == int(pkgswap.ErrCodeInvalidSwapRequest)
	//@ ensures message: err == nil ==> vcSame(b, msg)
	//@ ensures terms: vcReqOpts.Id == r.Id && vcReqOpts.AssetToSend == r.AssetP && vcReqOpts.AmountToSend == r.AmountP && vcReqOpts.AssetToReceive == r.AssetR && vcReqOpts.AmountToReceive == r.AmountR
	//@ ensures transaction: vcReqOpts.PsetBase64 == r.Transaction && vcSame(vcReqOpts.InputBlindingKeys, r.InputBlindingKey) && vcSame(vcReqOpts.OutputBlindingKeys, r.OutputBlindingKey)
}

//@ contract C06 stub=pkg/swap.Accept:vcSwapAccept
func vcSerializeAccept(a AcceptArgs, id string, msg []byte, fails error) {
	vcMsgId, vcMsg, vcMsgErr = id, msg, fails
	//@ call
	i, b, err := swapParser{}.SerializeAccept(a)
	//@ ensures served: (err == nil) == (fails == nil)
	//@ ensures code: err != nil ==> err.Code == int(pkgswap.ErrCodeRejectedSwapRequest)
	//@ ensures message: err == nil ==> vcSame(b, msg) && i == id
	//@ ensures terms: vcSame(vcAccOpts.Message, a.RequestMessage) && vcAccOpts.PsetBase64 == a.Transaction && vcSame(vcAccOpts.InputBlindingKeys, a.InputBlindingKeys) && vcSame(vcAccOpts.OutputBlindingKeys, a.OutputBlindingKeys)
}

//@ contract C06 opaque=encoding/hex.DecodeString stub=pkg/swap.Complete:vcSwapComplete,pkg/wallet.FinalizeAndExtractTransaction:vcFinalize
func vcSerializeComplete(acc []byte, tx string, id string, msg []byte, fails, cannot error) {
	vcMsgId, vcMsg, vcMsgErr, vcFinErr = id, msg, fails, cannot
	//@ call
	i, b, err := swapParser{}.SerializeComplete(acc, tx)
	final := vcB(func() bool { return vcIsHex(tx) || cannot == nil && vcFinOpts.PsetBase64 == tx })
	//@ ensures served: (err == nil) == (fails == nil && final)
	//@ ensures code: err != nil ==> err.Code == int(pkgswap.ErrCodeFailedToComplete)
	//@ ensures message: err == nil ==> vcSame(b, msg) && i == id
	//@ ensures terms: vcSame(vcCmpOpts.Message, acc) && vcCmpOpts.Transaction == tx
}

//@ contract C06 stub=pkg/swap.Fail:vcSwapFail
func vcSerializeFail(id string, code int, text string, newId string, msg []byte) {
	vcMsgId, vcMsg = newId, msg
	//@ call
	i, b := swapParser{}.SerializeFail(id, code, text)
	//@ ensures message: vcSame(b, msg) && i == newId
	//@ ensures terms: vcFailOpts.MessageID == id && vcFailOpts.ErrMessage == text && int(vcFailOpts.ErrCode) == code
}

//@ contract C06 opaque=vcMsgString,vcMsgNumber stub=google.golang.org/protobuf/proto.Unmarshal:vcParse
func vcDeserializeRequest(msg []byte, bad bool) {
	vcNotMsg = bad
	//@ call
	r, err := swapParser{}.DeserializeRequest(msg)
	//@ ensures served: (err == nil) == !bad && vcSame(vcParsed, msg)
	//@ ensures terms: err == nil ==> r.GetAssetP() == vcMsgString(msg, 2) && r.GetAmountP() == vcMsgNumber(msg, 3) && r.GetAssetR() == vcMsgString(msg, 4) && r.GetAmountR() == vcMsgNumber(msg, 5)
	//@ ensures id: err == nil ==> r.GetId() == vcMsgString(msg, 1) && r.GetTransaction() == vcMsgString(msg, 6)
}

//@ contract C06 opaque=vcMsgString,vcMsgNumber stub=google.golang.org/protobuf/proto.Unmarshal:vcParse
func vcDeserializeAccept(msg []byte, bad bool) {
	vcNotMsg = bad
	//@ call
	r, err := swapParser{}.DeserializeAccept(msg)
	//@ ensures served: (err == nil) == !bad && vcSame(vcParsed, msg)
	//@ ensures terms: err == nil ==> r.GetId() == vcMsgString(msg, 1) && r.GetRequestId() == vcMsgString(msg, 2) && r.GetTransaction() == vcMsgString(msg, 3)
}

//@ contract C06 opaque=vcMsgString,vcMsgNumber stub=google.golang.org/protobuf/proto.Unmarshal:vcParse
func vcDeserializeComplete(msg []byte, bad bool) {
	vcNotMsg = bad
	//@ call
	r, err := swapParser{}.DeserializeComplete(msg)
	//@ ensures served: (err == nil) == !bad && vcSame(vcParsed, msg)
	//@ ensures terms: err == nil ==> r.GetId() == vcMsgString(msg, 1) && r.GetAcceptId() == vcMsgString(msg, 2) && r.GetTransaction() == vcMsgString(msg, 3)
}

//@ contract C06 opaque=vcMsgString,vcMsgNumber stub=google.golang.org/protobuf/proto.Unmarshal:vcParse
func vcDeserializeFail(msg []byte, bad bool) {
	//@ requires vcMsgNumber(msg, 3) < 1<<32
	vcNotMsg = bad
	//@ call
	r, err := swapParser{}.DeserializeFail(msg)
	//@ ensures served: (err == nil) == !bad && vcSame(vcParsed, msg)
	//@ ensures terms: err == nil ==> r.GetId() == vcMsgString(msg, 1) && r.GetMessageId() == vcMsgString(msg, 2) && uint64(r.GetFailureCode()) == vcMsgNumber(msg, 3) && r.GetFailureMessage() == vcMsgString(msg, 4)
}
