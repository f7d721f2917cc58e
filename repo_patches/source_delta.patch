From e7494fc4f1e1c3c6233457955c9931276c051f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:45 +0000
Subject: [PATCH 01/29] fix: break value with one locking script, small break
 values or no fee

BreakValueLockingScripts divided by zero for a single locking script. Both
functions divided by zero for a zero break value and panicked choosing a random
variation of values below 5. BreakValue could also add an output without value
when there is no fee rate.
---
 break_value.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/break_value.go b/break_value.go
index abfebc6..8bc6485 100644
--- a/break_value.go
+++ b/break_value.go
@@ -33,6 +33,10 @@ func BreakValue(value, breakValue uint64, addresses []AddressKeyID,
 		average = 2 * (value / uint64(len(addresses)-1))
 	}
 
+	if breakValue == 0 {
+		breakValue = 1 // smallest possible value
+	}
+
 	// Find the power to use for choosing random values
 	factor := average / breakValue
 	var exponent int
@@ -85,7 +89,7 @@ func BreakValue(value, breakValue uint64, addresses []AddressKeyID,
 			outputValue *= 1000
 		}
 
-		if rand.Intn(2) == 1 {
+		if outputValue >= 10 && rand.Intn(2) == 1 {
 			outputValue = outputValue - (outputValue / 10) +
 				uint64(rand.Int63n(int64(outputValue/5)))
 		}
@@ -138,7 +142,7 @@ func BreakValue(value, breakValue uint64, addresses []AddressKeyID,
 	} else {
 		_, inputFee, _ := OutputTotalCost(lockingScript, feeRate)
 
-		if remaining >= inputFee {
+		if remaining > inputFee {
 			result = append(result, &Output{
 				TxOut: wire.TxOut{
 					Value:         remaining,
@@ -169,7 +173,16 @@ func BreakValueLockingScripts(value, breakValue uint64, lockingScripts []bitcoin
 	// Choose random multiples of breakValue until the value is taken up.
 
 	// Find the average value to break the value into the provided lockingScripts
-	average := 2 * (value / uint64(len(lockingScripts)-1))
+	var average uint64
+	if len(lockingScripts) == 1 {
+		average = value
+	} else {
+		average = 2 * (value / uint64(len(lockingScripts)-1))
+	}
+
+	if breakValue == 0 {
+		breakValue = 1 // smallest possible value
+	}
 
 	// Find the power to use for choosing random values
 	factor := average / breakValue
@@ -218,7 +231,7 @@ func BreakValueLockingScripts(value, breakValue uint64, lockingScripts []bitcoin
 			outputValue *= 1000
 		}
 
-		if rand.Intn(2) == 1 {
+		if outputValue >= 10 && rand.Intn(2) == 1 {
 			outputValue = outputValue - (outputValue / 10) +
 				uint64(rand.Int63n(int64(outputValue/5)))
 		}
-- 
2.43.0


From 25d7084f5b7723e2c9a66253fd3083ec31cd395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:45 +0000
Subject: [PATCH 02/29] fix: break quantity into no more than the requested
 count

BreakQuantity divided by zero for a count of one or a zero break value, and
appended what remained as an extra quantity after already filling the count.
---
 break_value.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/break_value.go b/break_value.go
index 8bc6485..deebfdc 100644
--- a/break_value.go
+++ b/break_value.go
@@ -307,7 +307,16 @@ func BreakQuantity(value, breakValue uint64, count int) ([]uint64, error) {
 	// Choose random multiples of breakValue until the value is taken up.
 
 	// Find the average value to break the value into the provided addresses
-	average := 2 * (value / uint64(count-1))
+	var average uint64
+	if count == 1 {
+		average = value
+	} else {
+		average = 2 * (value / uint64(count-1))
+	}
+
+	if breakValue == 0 {
+		breakValue = 1 // smallest possible value
+	}
 
 	// Find the power to use for choosing random values
 	factor := average / breakValue
@@ -327,7 +336,7 @@ func BreakQuantity(value, breakValue uint64, count int) ([]uint64, error) {
 	rand.Seed(time.Now().UnixNano())
 	result := make([]uint64, 0, count)
 	nextIndex := 0
-	for i := 0; i < count; i++ {
+	for i := 0; i < count-1; i++ { // leave the last for what remains
 		if remaining < breakValue {
 			break // remaining amount is less than dust required to include next address
 		}
-- 
2.43.0


From 19209fc6181a8c86926ee375cdafc764aa60be96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:46 +0000
Subject: [PATCH 03/29] fix: keep output data paired when randomizing outputs
 after an index

RandomizeOutputsAfter paired shuffled outputs with the supplements from the
start of the list, and panicked when there were no outputs after the index.
---
 break_value.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/break_value.go b/break_value.go
index deebfdc..104f96f 100644
--- a/break_value.go
+++ b/break_value.go
@@ -418,11 +418,15 @@ func (tx *TxBuilder) RandomizeOutputs() {
 // that depend on outputs being at a specific index.
 func (tx *TxBuilder) RandomizeOutputsAfter(index int) {
 	randLength := len(tx.MsgTx.TxOut) - (index + 1)
+	if randLength <= 0 {
+		return // no outputs after the index
+	}
+
 	randOutputs := make([]*Output, randLength)
 	for i, txout := range tx.MsgTx.TxOut[index+1:] {
 		randOutputs[i] = &Output{
 			TxOut:      *txout,
-			Supplement: *tx.Outputs[i],
+			Supplement: *tx.Outputs[index+1+i],
 		}
 	}
 
-- 
2.43.0


From 71e23ba4525a6ed29516a73323b5d30f76ef3d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:45 +0000
Subject: [PATCH 04/29] fix: sign the exact script bytes after an op code
 separator

The script after the last OP_CODESEPARATOR was parsed and serialized again,
which rewrites pushes not in their shortest form, so the signature hash was not
the one the network checks.
---
 sig_hash.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/sig_hash.go b/sig_hash.go
index ac29cb8..17c57d3 100644
--- a/sig_hash.go
+++ b/sig_hash.go
@@ -219,23 +219,20 @@ func writeSignatureHashPreimageBytes(w io.Writer, tx *wire.MsgTx, index int, loc
 // NOTE: This is only correct if the last OP_CODESEPARATOR is actually executed when the script is
 // executed, so there is room for error here depending on the locking script. --ce
 func afterOpCodeSeparator(lockScript []byte) ([]byte, error) {
-	items, err := bitcoin.ParseScriptItems(bytes.NewReader(lockScript), -1)
-	if err != nil {
-		return nil, errors.Wrap(err, "parse")
-	}
+	// Return the original bytes because the signature hash is of the exact bytes of the script and
+	// data can be pushed with op codes other than those chosen when re-serializing it.
+	result := lockScript
+	buf := bytes.NewReader(lockScript)
+	for buf.Len() > 0 {
+		item, err := bitcoin.ParseScript(buf)
+		if err != nil {
+			return nil, errors.Wrap(err, "parse")
+		}
 
-	itemCount := len(items)
-	for i := itemCount - 1; i >= 0; i-- {
-		item := items[i]
 		if item.Type == bitcoin.ScriptItemTypeOpCode && item.OpCode == bitcoin.OP_CODESEPARATOR {
-			if i == itemCount-1 {
-				return nil, nil // OP_CODESEPARATOR is the last op code of the script
-			}
-
-			return items[i+1:].Script()
+			result = lockScript[len(lockScript)-buf.Len():]
 		}
 	}
 
-	// No OP_CODESEPARATOR found so return the full locking script.
-	return lockScript, nil
+	return result, nil
 }
-- 
2.43.0


From 021889cbe514a67c78872ad2939ca837e01fbd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:42 +0000
Subject: [PATCH 05/29] fix: use the declared value of an input with embedded
 unlocking data

InputValue returned the declared unlocking script size instead of the
declared value, so fees of transactions with such inputs were wrong.
---
 fees/fees.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fees/fees.go b/fees/fees.go
index eb9b3d6..a847d42 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -233,7 +233,7 @@ func InputValue(txin *wire.TxIn, inputOutput *wire.TxOut) (uint64, error) {
 		return 0, MissingUnlockingData
 	}
 
-	return unlockingData.Size, nil
+	return unlockingData.Value, nil
 }
 
 func InputSizeForUnlockingScriptSize(unlockingScriptSize int) int {
-- 
2.43.0


From 66a9907cf2b1a0c221a32c9e234e01cf1793a824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:42 +0000
Subject: [PATCH 06/29] fix: estimate unlocking size of agent bitcoin transfer
 scripts

The result of matching the script was used when there was an error, which
crashed on unknown scripts and rejected the scripts that do match. The
agent's script ends with a verify inside the template, which is removed
before its own unlocking size is estimated.
---
 fees/fees.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fees/fees.go b/fees/fees.go
index a847d42..d425882 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -139,8 +139,10 @@ func EstimateUnlockingSize(lockingScript bitcoin.Script) (int, error) {
 			int(required)*(MaxSignaturesPushDataSize+PublicKeyPushDataSize+1), nil
 	}
 
-	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err != nil {
-		agentUnlockingSize, err := EstimateUnlockingSize(info.AgentLockingScript)
+	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err == nil && info != nil {
+		agentLockingScript := info.AgentLockingScript.Copy()
+		agentLockingScript.RemoveHardVerify()
+		agentUnlockingSize, err := EstimateUnlockingSize(agentLockingScript)
 		if err != nil {
 			return 0, errors.Wrap(err, "agent")
 		}
-- 
2.43.0


From dfb1c93154d20a4511849c0e77c687c231855b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:14 +0000
Subject: [PATCH 07/29] fix: ignore malformed embedded unlocking data

The parser of embedded unlocking data panics on some malformed scripts.
These scripts come from other parties, so size, value and print functions
now treat them as not containing unlocking data.
---
 fees.go      | 20 ++++++++++++++++----
 fees/fees.go | 20 ++++++++++++++++----
 print.go     |  4 +---
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/fees.go b/fees.go
index e054ae6..7934a35 100644
--- a/fees.go
+++ b/fees.go
@@ -193,8 +193,7 @@ func (tx *TxBuilder) EstimatedSize() int {
 		if len(input.LockingScript) == 0 {
 			txin := tx.MsgTx.TxIn[i]
 			if txin.UnlockingScript.IsFalseOpReturn() {
-				protocols := channels.NewProtocols(unlocking_data.NewProtocol())
-				msg, _, err := protocols.Parse(txin.UnlockingScript)
+				msg, err := parseUnlockingData(txin.UnlockingScript)
 				if err == nil {
 					unlockData, ok := msg.(*unlocking_data.UnlockingData)
 					if ok {
@@ -237,6 +236,20 @@ func (tx *TxBuilder) ZeroizeFee() error {
 	return err
 }
 
+// parseUnlockingData parses unlocking data embedded in an unlocking script. The script comes from
+// another party, so data that the parser can't handle is returned as an error.
+func parseUnlockingData(unlockingScript bitcoin.Script) (msg channels.Message, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			msg, err = nil, errors.Errorf("malformed unlocking data: %v", r)
+		}
+	}()
+
+	protocols := channels.NewProtocols(unlocking_data.NewProtocol())
+	msg, _, err = protocols.Parse(unlockingScript)
+	return msg, err
+}
+
 // InputValue returns the sum of the values of the inputs.
 func (tx *TxBuilder) InputValue() uint64 {
 	inputValue := uint64(0)
@@ -244,8 +257,7 @@ func (tx *TxBuilder) InputValue() uint64 {
 		if input.Value == 0 {
 			txin := tx.MsgTx.TxIn[i]
 			if txin.UnlockingScript.IsFalseOpReturn() {
-				protocols := channels.NewProtocols(unlocking_data.NewProtocol())
-				msg, _, err := protocols.Parse(txin.UnlockingScript)
+				msg, err := parseUnlockingData(txin.UnlockingScript)
 				if err == nil {
 					unlockData, ok := msg.(*unlocking_data.UnlockingData)
 					if ok {
diff --git a/fees/fees.go b/fees/fees.go
index d425882..5ad1262 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -106,8 +106,7 @@ func EstimateInputSize(txin *wire.TxIn, lockingScript bitcoin.Script,
 		return 0, MissingUnlockingData
 	}
 
-	protocols := channels.NewProtocols(unlocking_data.NewProtocol())
-	msg, _, err := protocols.Parse(txin.UnlockingScript)
+	msg, err := parseUnlockingData(txin.UnlockingScript)
 	if err != nil {
 		return 0, MissingUnlockingData
 	}
@@ -122,6 +121,20 @@ func EstimateInputSize(txin *wire.TxIn, lockingScript bitcoin.Script,
 		nil
 }
 
+// parseUnlockingData parses unlocking data embedded in an unlocking script. The script comes from
+// another party, so data that the parser can't handle is returned as an error.
+func parseUnlockingData(unlockingScript bitcoin.Script) (msg channels.Message, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			msg, err = nil, errors.Errorf("malformed unlocking data: %v", r)
+		}
+	}()
+
+	protocols := channels.NewProtocols(unlocking_data.NewProtocol())
+	msg, _, err = protocols.Parse(unlockingScript)
+	return msg, err
+}
+
 func EstimateUnlockingSize(lockingScript bitcoin.Script) (int, error) {
 	if lockingScript.IsP2PK() {
 		// Only a signature in a P2PK unlocking script
@@ -224,8 +237,7 @@ func InputValue(txin *wire.TxIn, inputOutput *wire.TxOut) (uint64, error) {
 		return 0, MissingUnlockingData
 	}
 
-	protocols := channels.NewProtocols(unlocking_data.NewProtocol())
-	msg, _, err := protocols.Parse(txin.UnlockingScript)
+	msg, err := parseUnlockingData(txin.UnlockingScript)
 	if err != nil {
 		return 0, MissingUnlockingData
 	}
diff --git a/print.go b/print.go
index d6e321c..784d52a 100644
--- a/print.go
+++ b/print.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"fmt"
 
-	"github.com/tokenized/channels"
 	"github.com/tokenized/channels/unlocking_data"
 	"github.com/tokenized/pkg/expanded_tx"
 	"github.com/tokenized/pkg/wire"
@@ -46,8 +45,7 @@ func TxString(tx expanded_tx.TransactionWithOutputs) string {
 			continue
 		}
 
-		protocols := channels.NewProtocols(unlocking_data.NewProtocol())
-		if msg, _, err := protocols.Parse(txin.UnlockingScript); err == nil {
+		if msg, err := parseUnlockingData(txin.UnlockingScript); err == nil {
 			if unlockData, ok := msg.(*unlocking_data.UnlockingData); ok {
 				result.Write([]byte("    Embedded unlocking data:\n"))
 
-- 
2.43.0


From 18fe9cec5a16443dba82d5b5a38439804208f017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:43 +0000
Subject: [PATCH 08/29] fix: recognize exactly funded transactions when no fee
 is required

With a fee rate of zero, inputs that exactly match the outputs were not
recognized as already funding the transaction.
---
 inputs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inputs.go b/inputs.go
index d13c0e7..8a1fd0e 100644
--- a/inputs.go
+++ b/inputs.go
@@ -150,7 +150,7 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 	outputValue := tx.OutputValue(true)
 	estFeeValue := tx.EstimatedFee()
 
-	if !tx.SendMax && inputValue > outputValue && inputValue-outputValue >= estFeeValue {
+	if !tx.SendMax && inputValue >= outputValue && inputValue-outputValue >= estFeeValue {
 		return tx.CalculateFee() // Already funded
 	}
 
@@ -303,7 +303,7 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 	outputFee, inputFee, _ := OutputTotalCost(changeLockingScript, tx.FeeRate)
 
 	// Check if tx is already funded.
-	if !tx.SendMax && inputValue > outputValue && inputValue-outputValue >= estFeeValue {
+	if !tx.SendMax && inputValue >= outputValue && inputValue-outputValue >= estFeeValue {
 		if !remainderIncluded {
 			// Ensure added change output is funded
 			if inputValue-outputValue >= estFeeValue+outputFee+inputFee {
-- 
2.43.0


From c039615b10a3101f0b2a79ef5daf9438e7465a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:38 +0000
Subject: [PATCH 09/29] fix: report each key used to sign only once

---
 sign.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sign.go b/sign.go
index 0bfd78f..cea6bd2 100644
--- a/sign.go
+++ b/sign.go
@@ -203,7 +203,7 @@ func appendKeys(list []bitcoin.Key, keys ...bitcoin.Key) []bitcoin.Key {
 	result := list
 	for _, key := range keys {
 		found := false
-		for _, k := range list {
+		for _, k := range result {
 			if k.Equal(key) {
 				found = true
 				break
-- 
2.43.0


From 15522b7eded7229b3194f1b64dc3886e40fd5c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:48 +0000
Subject: [PATCH 10/29] fix: refuse to update an input past the last one

---
 inputs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inputs.go b/inputs.go
index 8a1fd0e..82060e7 100644
--- a/inputs.go
+++ b/inputs.go
@@ -43,7 +43,7 @@ func (tx *TxBuilder) AddInputUTXO(utxo bitcoin.UTXO) error {
 }
 
 func (tx *TxBuilder) UpdateInputUTXO(index int, utxo bitcoin.UTXO) error {
-	if index > len(tx.MsgTx.TxIn) {
+	if index >= len(tx.MsgTx.TxIn) {
 		return errors.New("Input index out of range")
 	}
 
-- 
2.43.0


From 4cf86d843a4c6ce3f98effbcb3fe4e641f93c3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:48 +0000
Subject: [PATCH 11/29] fix: refuse to insert an output past the end

---
 outputs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/outputs.go b/outputs.go
index 413ce67..1a66cb3 100644
--- a/outputs.go
+++ b/outputs.go
@@ -201,6 +201,10 @@ func (tx *TxBuilder) AddOutput(lockScript bitcoin.Script, value uint64,
 func (tx *TxBuilder) InsertOutput(index int, lockScript bitcoin.Script, value uint64,
 	isRemainder, isDust bool) error {
 
+	if index > len(tx.MsgTx.TxOut) {
+		return errors.New("Output index out of range")
+	}
+
 	output := &OutputSupplement{
 		IsRemainder: isRemainder,
 		IsDust:      isDust,
-- 
2.43.0


From f3170642b5fa4dd34fd3cc6d392013b0a193997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:10 +0000
Subject: [PATCH 12/29] fix: refuse to subtract from an output already below
 dust

---
 outputs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/outputs.go b/outputs.go
index 1a66cb3..78b9980 100644
--- a/outputs.go
+++ b/outputs.go
@@ -272,7 +272,7 @@ func (tx *TxBuilder) SubtractValueFromOutput(index uint32, value uint64) error {
 
 	dust := DustLimitForOutput(tx.MsgTx.TxOut[index], tx.DustFeeRate)
 
-	if tx.MsgTx.TxOut[index].Value-dust < value {
+	if tx.MsgTx.TxOut[index].Value < dust || tx.MsgTx.TxOut[index].Value-dust < value {
 		return fmt.Errorf("Output value too small to subtract : %d - %d (dust %d)",
 			tx.MsgTx.TxOut[index].Value, value, dust)
 	}
-- 
2.43.0


From c8300b2cc610a57109a3cbdffb03815a74a09bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:10 +0000
Subject: [PATCH 13/29] fix: only set send max when the max output is added

---
 outputs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/outputs.go b/outputs.go
index 78b9980..fc76e41 100644
--- a/outputs.go
+++ b/outputs.go
@@ -150,11 +150,11 @@ func (tx *TxBuilder) AddDustOutput(address bitcoin.RawAddress, isRemainder bool)
 // AddMaxOutput adds an output to TxBuilder with a script paying the specified address and the
 // remainder flag set so that it gets all remaining value after fees are taken.
 func (tx *TxBuilder) AddMaxOutput(address bitcoin.RawAddress) error {
-	tx.SendMax = true
 	script, err := address.LockingScript()
 	if err != nil {
 		return err
 	}
+	tx.SendMax = true
 	return tx.AddOutput(script, 0, true, false)
 }
 
-- 
2.43.0


From bc8446124e65c58a96464ee3cf800cc7adb8c2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:38 +0000
Subject: [PATCH 14/29] fix: leave change as it was when a fee increase is
 refused

---
 fees.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fees.go b/fees.go
index 7934a35..c10fdfd 100644
--- a/fees.go
+++ b/fees.go
@@ -336,13 +336,13 @@ func (tx *TxBuilder) AdjustFee(amount int64) (bool, error) {
 		}
 
 		// Decrease change, thereby increasing the fee
-		tx.MsgTx.TxOut[changeOutputIndex].Value -= uint64(amount)
+		changeValue := tx.MsgTx.TxOut[changeOutputIndex].Value - uint64(amount)
 
 		outputFee, inputFee, _ := OutputTotalCost(tx.MsgTx.TxOut[changeOutputIndex].LockingScript,
 			tx.FeeRate)
 
 		// Check if change is below dust
-		if tx.MsgTx.TxOut[changeOutputIndex].Value < outputFee+inputFee {
+		if changeValue < outputFee+inputFee {
 			if !tx.Outputs[changeOutputIndex].addedForFee {
 				// Don't remove outputs unless they were added by fee adjustment
 				return false, errors.Wrap(ErrInsufficientValue, "Not enough change for tx fee")
@@ -353,6 +353,8 @@ func (tx *TxBuilder) AdjustFee(amount int64) (bool, error) {
 				tx.MsgTx.TxOut[changeOutputIndex+1:]...)
 			tx.Outputs = append(tx.Outputs[:changeOutputIndex], tx.Outputs[changeOutputIndex+1:]...)
 			done = true
+		} else {
+			tx.MsgTx.TxOut[changeOutputIndex].Value = changeValue
 		}
 	} else {
 		// Decrease fee, transfer to change
-- 
2.43.0


From 24238395ef18afd1b9b59d18d18700d89b5fbcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:55 +0000
Subject: [PATCH 15/29] fix: return an error when breaking change without
 change addresses

AddFundingBreakChange looked up the first change address even when the list
was empty, which panicked. An existing remainder output needs no address, so
the addresses are now only used without one, and having none is reported.
---
 inputs.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/inputs.go b/inputs.go
index 82060e7..9b712e1 100644
--- a/inputs.go
+++ b/inputs.go
@@ -280,13 +280,19 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 	}
 
 	firstChangeOutputSize := uint64(0)
-	if !remainderIncluded && len(changeAddresses) > 0 {
+	var outputFee, inputFee uint64
+	if !remainderIncluded {
+		if len(changeAddresses) == 0 {
+			return errors.Wrap(ErrChangeAddressNeeded, "no change addresses")
+		}
+
 		lockingScript, err := changeAddresses[0].Address.LockingScript()
 		if err != nil {
 			return errors.Wrap(err, "first change locking script")
 		}
 
 		firstChangeOutputSize = uint64(OutputSize(lockingScript))
+		outputFee, inputFee, _ = OutputTotalCost(lockingScript, tx.FeeRate)
 	}
 
 	inputValue := tx.InputValue()
@@ -295,13 +301,6 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 	feeRate := float64(tx.FeeRate)
 	estFeeValue := EstimatedFeeValue(estSize, feeRate)
 
-	changeLockingScript, err := changeAddresses[0].Address.LockingScript()
-	if err != nil {
-		return errors.Wrap(err, "change locking script")
-	}
-
-	outputFee, inputFee, _ := OutputTotalCost(changeLockingScript, tx.FeeRate)
-
 	// Check if tx is already funded.
 	if !tx.SendMax && inputValue >= outputValue && inputValue-outputValue >= estFeeValue {
 		if !remainderIncluded {
-- 
2.43.0


From 44b4fd99daca399db2ce15c6c0801ae460ce1907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:41 +0000
Subject: [PATCH 16/29] fix: don't fail funding when change is worth less than
 its own fee

With a dust rate well below the fee rate AddFunding tried to add a change
output that AddOutput then refused as below dust, so funding failed although
there was enough value. Such a small amount is now left as fee.
---
 inputs.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/inputs.go b/inputs.go
index 9b712e1..e96b4a5 100644
--- a/inputs.go
+++ b/inputs.go
@@ -188,6 +188,12 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 		changeOutputFee = uint64(float32(P2PKHOutputSize) * tx.FeeRate)
 	}
 
+	// AddOutput doesn't accept outputs that are worth less than their own fee.
+	newChangeMinimum := changeDustLimit
+	if newChangeMinimum < changeOutputFee {
+		newChangeMinimum = changeOutputFee
+	}
+
 	for _, utxo := range utxos {
 		if err := tx.AddInputUTXO(utxo); err != nil {
 			if errors.Cause(err) == ErrDuplicateInput {
@@ -219,7 +225,7 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 					}
 				}
 
-				if change > changeDustLimit+changeOutputFee {
+				if change > newChangeMinimum+changeOutputFee {
 					// Add new change output
 					change -= changeOutputFee
 					if len(tx.ChangeScript) == 0 {
-- 
2.43.0


From a0e80817f7aaa499b9496f2c3e4752e6996c2d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:52 +0000
Subject: [PATCH 17/29] fix: accept an already funded tx when breaking change

A transaction that was already funded, but without enough left over to be
worth a change output, fell through to adding inputs. The amount still needed
was then negative and wrapped around, so funding was reported as insufficient
however much was available.
---
 inputs.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inputs.go b/inputs.go
index e96b4a5..76dc0e5 100644
--- a/inputs.go
+++ b/inputs.go
@@ -318,6 +318,8 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 				}
 				return tx.CalculateFee() // Already funded
 			}
+
+			return nil // Already funded, but not with enough to be worth adding a change output
 		} else {
 			return tx.CalculateFee() // Already funded
 		}
-- 
2.43.0


From a181c1116f97c62a7508720cebd9d33be3eee98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:43 +0000
Subject: [PATCH 18/29] fix: count the size of larger input and output counts
 in fees

The count of inputs or outputs takes two more bytes from 253 on. Funding and
fee adjustment added inputs and change outputs without counting that, so the
transaction was reported funded with a fee that was too low and could then
fail to sign.
---
 fees.go   |  8 ++++++++
 inputs.go | 12 ++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/fees.go b/fees.go
index c10fdfd..8633146 100644
--- a/fees.go
+++ b/fees.go
@@ -222,6 +222,13 @@ func (tx *TxBuilder) EstimatedSize() int {
 	return result
 }
 
+// countSizeIncrease returns the increase of the serialized size of the input or output count of a tx
+// when items are added to the current count.
+func countSizeIncrease(current, added int) int {
+	return wire.VarIntSerializeSize(uint64(current+added)) -
+		wire.VarIntSerializeSize(uint64(current))
+}
+
 func (tx *TxBuilder) EstimatedFee() uint64 {
 	return EstimatedFeeValue(uint64(tx.EstimatedSize()), float64(tx.FeeRate))
 }
@@ -371,6 +378,7 @@ func (tx *TxBuilder) AdjustFee(amount int64) (bool, error) {
 			} else {
 				newSize = currentSize + uint64(OutputSize(tx.ChangeScript))
 			}
+			newSize += uint64(countSizeIncrease(len(tx.MsgTx.TxOut), 1))
 			newFee := EstimatedFeeValue(newSize, float64(tx.FeeRate))
 
 			changeOutputFee := newFee - currentFee
diff --git a/inputs.go b/inputs.go
index 76dc0e5..8001716 100644
--- a/inputs.go
+++ b/inputs.go
@@ -193,6 +193,8 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 	if newChangeMinimum < changeOutputFee {
 		newChangeMinimum = changeOutputFee
 	}
+	changeOutputFee += EstimatedFeeValue(uint64(countSizeIncrease(len(tx.MsgTx.TxOut), 1)),
+		float64(tx.FeeRate))
 
 	for _, utxo := range utxos {
 		if err := tx.AddInputUTXO(utxo); err != nil {
@@ -208,6 +210,8 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 			return errors.Wrap(err, "utxo fee")
 		}
 		neededFunding += inputFee // Add cost of input
+		neededFunding += EstimatedFeeValue(uint64(countSizeIncrease(len(tx.MsgTx.TxIn)-1, 1)),
+			float64(tx.FeeRate))
 
 		if tx.SendMax {
 			continue
@@ -350,7 +354,7 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 			return errors.Wrap(err, "input size")
 		}
 
-		estSize += uint64(inputSize)
+		estSize += uint64(inputSize + countSizeIncrease(len(tx.MsgTx.TxIn)-1, 1))
 		estFeeValue = EstimatedFeeValue(estSize, feeRate)
 		neededFunding = estFeeValue + outputValue - inputValue
 		inputValue += utxo.Value
@@ -363,7 +367,11 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 			// Funding complete
 			// Re-calculate fee without estimating first change output because BreakValue will take
 			// the fees out of the values.
-			finalFeeValue := EstimatedFeeValue(estSize-firstChangeOutputSize, feeRate)
+			finalSize := estSize - firstChangeOutputSize
+			if !remainderIncluded {
+				finalSize += uint64(countSizeIncrease(len(tx.MsgTx.TxOut), len(changeAddresses)))
+			}
+			finalFeeValue := EstimatedFeeValue(finalSize, feeRate)
 			finalNeededFunding := finalFeeValue + outputValue - inputValue + utxo.Value
 			changeValue := utxo.Value - finalNeededFunding
 
-- 
2.43.0


From 68b11ede3b6b7092b82e667150201193f81ba90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:39 +0000
Subject: [PATCH 19/29] fix: keep paying for unlocking scripts that are still
 missing

When keys were missing Sign lowered the fee to the size of the partially
signed transaction, so completing it elsewhere left it below the fee rate.
The estimated size is now used until every input is signed.
---
 sign.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sign.go b/sign.go
index cea6bd2..ee64d80 100644
--- a/sign.go
+++ b/sign.go
@@ -111,6 +111,10 @@ func (tx *TxBuilder) Sign(keys []bitcoin.Key) ([]bitcoin.Key, error) {
 
 		// Check fee and adjust if too low
 		targetFee := int64(EstimatedFeeValue(uint64(tx.MsgTx.SerializeSize()), float64(tx.FeeRate)))
+		if missingKey {
+			// The remaining unlocking scripts are added later, so they must still be paid for.
+			targetFee = int64(tx.EstimatedFee())
+		}
 		inputValue = tx.InputValue()
 		outputValue = tx.OutputValue(false)
 		changeValue := tx.changeSum()
-- 
2.43.0


From 680b0d56a630dc7abb0c6a3aef8b42997e6072d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:10 +0000
Subject: [PATCH 20/29] fix: leave no nil input entries when input data is
 missing

NewTxBuilderFromWire and NewTxBuilderFromWireUTXOs return the builder together
with ErrMissingInputData. The inputs without data were nil pointers, so using
the builder afterwards panicked. They are now empty, like the inputs of a
coinbase in NewTxBuilderFromTransactionWithOutputs.
---
 txbuilder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/txbuilder.go b/txbuilder.go
index d542968..34e00f5 100644
--- a/txbuilder.go
+++ b/txbuilder.go
@@ -202,6 +202,7 @@ func NewTxBuilderFromWire(feeRate, dustFeeRate float32, tx *wire.MsgTx,
 			}
 		}
 		if !found {
+			result.Inputs[i] = &InputSupplement{}
 			missingErr = ErrMissingInputData
 		}
 	}
@@ -244,6 +245,7 @@ func NewTxBuilderFromWireUTXOs(feeRate, dustFeeRate float32, tx *wire.MsgTx,
 			}
 		}
 		if !found {
+			result.Inputs[i] = &InputSupplement{}
 			missingErr = ErrMissingInputData
 		}
 	}
-- 
2.43.0


From ef1b4ed6da145edc0293d01623cfae55242c877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:10 +0000
Subject: [PATCH 21/29] fix: print output values without single precision
 rounding

A float32 holds 24 bits, so TxBuilder.String printed wrong amounts for outputs
of more than 0.16777216 bitcoins.
---
 txbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txbuilder.go b/txbuilder.go
index 34e00f5..4dd4552 100644
--- a/txbuilder.go
+++ b/txbuilder.go
@@ -295,7 +295,7 @@ func (tx *TxBuilder) String(net bitcoin.Network) string {
 	}
 	result += "  Outputs:\n\n"
 	for i, output := range tx.MsgTx.TxOut {
-		result += fmt.Sprintf("    Value: %.08f\n", float32(output.Value)/100000000.0)
+		result += fmt.Sprintf("    Value: %.08f\n", float64(output.Value)/100000000.0)
 		result += fmt.Sprintf("    LockingScript: %s\n", output.LockingScript)
 		ra, err := bitcoin.RawAddressFromLockingScript(output.LockingScript)
 		if err == nil {
-- 
2.43.0


From ccf96c31aa8bca26197b686d400036f703258078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:39 +0000
Subject: [PATCH 22/29] fix: don't panic on the address of a truncated
 multi-PKH script

bitcoin.RawAddressFromLockingScript indexes past the end of a multi-PKH script
that is cut short. InputAddress, OutputAddress, SignP2PKHInput and String now
treat such a script as one without an address.
---
 inputs.go    |  2 +-
 outputs.go   | 14 +++++++++++++-
 sign.go      |  2 +-
 txbuilder.go |  4 ++--
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/inputs.go b/inputs.go
index 8001716..ec4391e 100644
--- a/inputs.go
+++ b/inputs.go
@@ -14,7 +14,7 @@ func (tx *TxBuilder) InputAddress(index int) (bitcoin.RawAddress, error) {
 	if index >= len(tx.Inputs) {
 		return bitcoin.RawAddress{}, errors.New("Input index out of range")
 	}
-	return bitcoin.RawAddressFromLockingScript(tx.Inputs[index].LockingScript)
+	return rawAddressFromLockingScript(tx.Inputs[index].LockingScript)
 }
 
 // AddInputUTXO adds an input to TxBuilder using a UTXO.
diff --git a/outputs.go b/outputs.go
index fc76e41..328e171 100644
--- a/outputs.go
+++ b/outputs.go
@@ -93,7 +93,19 @@ func (tx *TxBuilder) OutputAddress(index int) (bitcoin.RawAddress, error) {
 	if index >= len(tx.MsgTx.TxOut) {
 		return bitcoin.RawAddress{}, errors.New("Output index out of range")
 	}
-	return bitcoin.RawAddressFromLockingScript(tx.MsgTx.TxOut[index].LockingScript)
+	return rawAddressFromLockingScript(tx.MsgTx.TxOut[index].LockingScript)
+}
+
+// rawAddressFromLockingScript returns the address for a locking script. The script can come from
+// another party, so a script that can't be parsed is returned as an error.
+func rawAddressFromLockingScript(lockingScript bitcoin.Script) (ra bitcoin.RawAddress, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			ra, err = bitcoin.RawAddress{}, errors.Errorf("malformed locking script: %v", r)
+		}
+	}()
+
+	return bitcoin.RawAddressFromLockingScript(lockingScript)
 }
 
 func (tx *TxBuilder) SetChangeAddress(address bitcoin.RawAddress, keyID string) error {
diff --git a/sign.go b/sign.go
index ee64d80..7732473 100644
--- a/sign.go
+++ b/sign.go
@@ -37,7 +37,7 @@ func (tx *TxBuilder) SignP2PKHInput(index int, key bitcoin.Key, hashCache *SigHa
 		return errors.New("Input index out of range")
 	}
 
-	address, err := bitcoin.RawAddressFromLockingScript(tx.Inputs[index].LockingScript)
+	address, err := rawAddressFromLockingScript(tx.Inputs[index].LockingScript)
 	if err != nil {
 		return err
 	}
diff --git a/txbuilder.go b/txbuilder.go
index 4dd4552..63ee17b 100644
--- a/txbuilder.go
+++ b/txbuilder.go
@@ -281,7 +281,7 @@ func (tx *TxBuilder) String(net bitcoin.Network) string {
 		result += fmt.Sprintf("    UnlockingScript: %s\n", input.UnlockingScript)
 		result += fmt.Sprintf("    Sequence: %x\n", input.Sequence)
 
-		ra, err := bitcoin.RawAddressFromLockingScript(tx.Inputs[i].LockingScript)
+		ra, err := rawAddressFromLockingScript(tx.Inputs[i].LockingScript)
 		if err == nil {
 			result += fmt.Sprintf("    Address: %s\n",
 				bitcoin.NewAddressFromRawAddress(ra, net).String())
@@ -297,7 +297,7 @@ func (tx *TxBuilder) String(net bitcoin.Network) string {
 	for i, output := range tx.MsgTx.TxOut {
 		result += fmt.Sprintf("    Value: %.08f\n", float64(output.Value)/100000000.0)
 		result += fmt.Sprintf("    LockingScript: %s\n", output.LockingScript)
-		ra, err := bitcoin.RawAddressFromLockingScript(output.LockingScript)
+		ra, err := rawAddressFromLockingScript(output.LockingScript)
 		if err == nil {
 			result += fmt.Sprintf("    Address: %s\n",
 				bitcoin.NewAddressFromRawAddress(ra, net).String())
-- 
2.43.0


From ea790365a895318d88024c08ba35219849c81b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:34 +0000
Subject: [PATCH 23/29] fix: don't panic when estimating the size of malformed
 scripts

agent_bitcoin_transfer.MatchScript indexes an empty item list for some scripts,
for example one that starts with OP_NOTIF. Size estimates now treat a script the
matcher can't handle like any other unknown script.
---
 fees.go      | 16 +++++++++++++++-
 fees/fees.go | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/fees.go b/fees.go
index 8633146..42bb4fb 100644
--- a/fees.go
+++ b/fees.go
@@ -130,7 +130,7 @@ func UnlockingScriptSize(lockingScript bitcoin.Script) (int, error) {
 		return scriptSize, nil
 	}
 
-	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err == nil && info != nil {
+	if info, err := matchAgentBitcoinTransfer(lockingScript); err == nil && info != nil {
 		agentUnlockingScript := info.AgentLockingScript.Copy()
 		agentUnlockingScript.RemoveHardVerify()
 		agentUnlockingSize, err := UnlockingScriptSize(agentUnlockingScript)
@@ -144,6 +144,20 @@ func UnlockingScriptSize(lockingScript bitcoin.Script) (int, error) {
 	return 0, bitcoin.ErrUnknownScriptTemplate
 }
 
+// matchAgentBitcoinTransfer matches a locking script to the agent bitcoin transfer template. The
+// script can come from another party, so a script that can't be parsed is returned as an error.
+func matchAgentBitcoinTransfer(lockingScript bitcoin.Script) (info *agent_bitcoin_transfer.Info,
+	err error) {
+
+	defer func() {
+		if r := recover(); r != nil {
+			info, err = nil, errors.Errorf("malformed locking script: %v", r)
+		}
+	}()
+
+	return agent_bitcoin_transfer.MatchScript(lockingScript)
+}
+
 // InputSize returns the serialize size in bytes of an input spending the specified locking script.
 // Note: The script is not the script that would be contained in the input, but the script that
 // is contained in the output being spent by this input.
diff --git a/fees/fees.go b/fees/fees.go
index 5ad1262..8b45c8a 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -152,7 +152,7 @@ func EstimateUnlockingSize(lockingScript bitcoin.Script) (int, error) {
 			int(required)*(MaxSignaturesPushDataSize+PublicKeyPushDataSize+1), nil
 	}
 
-	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err == nil && info != nil {
+	if info, err := matchAgentBitcoinTransfer(lockingScript); err == nil && info != nil {
 		agentLockingScript := info.AgentLockingScript.Copy()
 		agentLockingScript.RemoveHardVerify()
 		agentUnlockingSize, err := EstimateUnlockingSize(agentLockingScript)
@@ -166,6 +166,20 @@ func EstimateUnlockingSize(lockingScript bitcoin.Script) (int, error) {
 	return 0, bitcoin.ErrWrongScriptTemplate
 }
 
+// matchAgentBitcoinTransfer matches a locking script to the agent bitcoin transfer template. The
+// script can come from another party, so a script that can't be parsed is returned as an error.
+func matchAgentBitcoinTransfer(lockingScript bitcoin.Script) (info *agent_bitcoin_transfer.Info,
+	err error) {
+
+	defer func() {
+		if r := recover(); r != nil {
+			info, err = nil, errors.Errorf("malformed locking script: %v", r)
+		}
+	}()
+
+	return agent_bitcoin_transfer.MatchScript(lockingScript)
+}
+
 // OutputTotalCost calculates the satoshis required in tx fees to include an output with the
 // specified locking script and then to include an input in a tx to spend that output. If the
 // unlocking script size can't be determined it will still return the output fee and a zero for the
-- 
2.43.0


From 0ae5ee8d547b3f706c3617c148486ab98d97d4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:34 +0000
Subject: [PATCH 24/29] fix: use the declared size of embedded unlocking data
 in TxString

The estimated transaction size and fee rate counted the length of the embedded
message instead of the size it declares for the final unlocking script.
---
 print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/print.go b/print.go
index 784d52a..e252e6c 100644
--- a/print.go
+++ b/print.go
@@ -65,7 +65,7 @@ func TxString(tx expanded_tx.TransactionWithOutputs) string {
 
 				inputsValue += unlockData.Value
 				inputsSize += InputBaseSize + wire.VarIntSerializeSize(uint64(unlockData.Size)) +
-					len(txin.UnlockingScript)
+					int(unlockData.Size)
 				continue
 			}
 		}
-- 
2.43.0


From 0e334c208a51859622c1037788a15b0f6987217b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:35:46 +0000
Subject: [PATCH 25/29] fix: don't print transactions without outputs in the
 command

When the spent outputs only covered the fee, the command printed a transaction
without outputs, which is not valid. When creating a chain it then panicked on
the missing output.
---
 cmd/main.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index 3f5a018..259e81e 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -140,6 +140,11 @@ func CreateSend(ctx context.Context, cfg *Config, args []string) {
 		return
 	}
 
+	if len(tx.MsgTx.TxOut) == 0 {
+		fmt.Printf("Not enough value to create an output\n")
+		return
+	}
+
 	buf := &bytes.Buffer{}
 	if err := tx.MsgTx.Serialize(buf); err != nil {
 		fmt.Printf("Failed to serialize tx : %s\n", err)
@@ -223,6 +228,11 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 		return
 	}
 
+	if len(tx.MsgTx.TxOut) == 0 {
+		fmt.Printf("Not enough value to create an output\n")
+		return
+	}
+
 	buf := &bytes.Buffer{}
 	if err := tx.MsgTx.Serialize(buf); err != nil {
 		fmt.Printf("Failed to serialize tx : %s\n", err)
@@ -272,6 +282,11 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 			return
 		}
 
+		if len(tx.MsgTx.TxOut) == 0 {
+			fmt.Printf("Not enough value to create an output\n")
+			return
+		}
+
 		buf := &bytes.Buffer{}
 		if err := tx.MsgTx.Serialize(buf); err != nil {
 			fmt.Printf("Failed to serialize tx : %s\n", err)
-- 
2.43.0


From a2c5a7ad4269645589a078202befb089b8b6f68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:36:17 +0000
Subject: [PATCH 26/29] fix: check that the server returned the requested
 transaction

The command signed with the locking script and value of whatever transaction
the server returned, so a wrong answer gave a transaction with invalid
signatures or the wrong fee.
---
 cmd/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index 259e81e..454987f 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -437,6 +437,10 @@ func GetTx(ctx context.Context, cfg *Config, hash bitcoin.Hash32) (*wire.MsgTx,
 		return nil, errors.Wrap(err, "decode tx")
 	}
 
+	if txid := tx.TxHash(); !txid.Equal(&hash) {
+		return nil, fmt.Errorf("wrong tx : got %s, want %s", txid, hash)
+	}
+
 	return tx, nil
 }
 
-- 
2.43.0


From c6b164b5ebef6e1fe3912d46603cc2c0213469d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:25 +0000
Subject: [PATCH 27/29] fix: refuse negative amounts and counts below one in
 the command

A negative amount was converted to a huge unsigned output value, and a count of
zero or less still printed one transaction.
---
 cmd/main.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index 454987f..fd971d7 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -96,6 +96,10 @@ func CreateSend(ctx context.Context, cfg *Config, args []string) {
 		fmt.Printf("Invalid amount : %s : %s\n", args[2], err)
 		return
 	}
+	if amount < 0 {
+		fmt.Printf("Invalid amount : %s : negative\n", args[2])
+		return
+	}
 
 	tx := txbuilder.NewTxBuilder(cfg.FeeRate, cfg.DustFeeRate)
 	for i := 3; i < len(args); i++ {
@@ -179,6 +183,10 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 		fmt.Printf("Invalid amount : %s : %s\n", args[0], err)
 		return
 	}
+	if count < 1 {
+		fmt.Printf("Invalid count : %s\n", args[0])
+		return
+	}
 
 	key, err := bitcoin.KeyFromStr(args[1])
 	if err != nil {
-- 
2.43.0


From bac9c98b9f3c269b81eca7c161d1c3b86f357dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:25 +0000
Subject: [PATCH 28/29] fix: refuse outpoint indexes that don't fit in the
 command

wire.OutPointFromStr truncates the index to 32 bits, so an index of 4294967296
silently spent output zero.
---
 cmd/main.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/cmd/main.go b/cmd/main.go
index fd971d7..f9446aa 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -103,7 +103,7 @@ func CreateSend(ctx context.Context, cfg *Config, args []string) {
 
 	tx := txbuilder.NewTxBuilder(cfg.FeeRate, cfg.DustFeeRate)
 	for i := 3; i < len(args); i++ {
-		outpoint, err := wire.OutPointFromStr(args[i])
+		outpoint, err := parseOutPoint(args[i])
 		if err != nil {
 			fmt.Printf("Invalid outpoint : %s : %s\n", args[i], err)
 			return
@@ -202,7 +202,7 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 
 	tx := txbuilder.NewTxBuilder(cfg.FeeRate, cfg.DustFeeRate)
 	for i := 2; i < len(args); i++ {
-		outpoint, err := wire.OutPointFromStr(args[i])
+		outpoint, err := parseOutPoint(args[i])
 		if err != nil {
 			fmt.Printf("Invalid outpoint : %s : %s\n", args[i], err)
 			return
@@ -428,6 +428,21 @@ func GetUTXOs(ctx context.Context, cfg *Config,
 	return utxos, nil
 }
 
+// parseOutPoint parses an outpoint in the form "hash:index" and checks that the index isn't truncated.
+func parseOutPoint(text string) (*wire.OutPoint, error) {
+	outpoint, err := wire.OutPointFromStr(text)
+	if err != nil {
+		return nil, err
+	}
+
+	index := text[strings.LastIndex(text, ":")+1:]
+	if _, err := strconv.ParseUint(index, 10, 32); err != nil {
+		return nil, errors.Wrap(err, "invalid index")
+	}
+
+	return outpoint, nil
+}
+
 func GetTx(ctx context.Context, cfg *Config, hash bitcoin.Hash32) (*wire.MsgTx, error) {
 	h, err := httpGet(ctx, fmt.Sprintf("https://api.whatsonchain.com/v1/bsv/%s/tx/%s/hex",
 		networkString(cfg.Network), hash))
-- 
2.43.0


From c79a71f7ce0af34b76bdfbf3a76613947da9b7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:38 +0000
Subject: [PATCH 29/29] fix: refuse an empty recipient in the command

Consolidating to an empty recipient paid everything to an empty locking script,
which anyone can spend.
---
 cmd/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index f9446aa..254ca98 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -348,6 +348,10 @@ func Consolidate(ctx context.Context, cfg *Config, args []string) {
 		fmt.Printf("Invalid recipient script : \"%s\" : %s\n", scriptText, err)
 		return
 	}
+	if len(recipientScript) == 0 {
+		fmt.Printf("Invalid recipient script : \"%s\" : empty\n", scriptText)
+		return
+	}
 
 	utxos, err := GetUTXOs(ctx, cfg, keyScript)
 	if err != nil {
-- 
2.43.0

