From 85291be62c05137a0e095c776b3091115fe5020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:51 +0000
Subject: [PATCH 01/18] fix: RewardAddress.MarshalCBOR encodes the address
 bytes, not the method value

---
 address/reward.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/reward.go b/address/reward.go
index 3d43b08..68c01e3 100644
--- a/address/reward.go
+++ b/address/reward.go
@@ -30,7 +30,7 @@ func (r *RewardAddress) String() string {
 
 // MarshalCBOR returns a cbor encoded byte slice of the base address.
 func (r *RewardAddress) MarshalCBOR() ([]byte, error) {
-	return cbor.Marshal(r.Bytes)
+	return cbor.Marshal(r.Bytes())
 }
 
 // NetworkInfo returns pointer to NetworkInfo{ProtocolMagigic and NetworkId}.
-- 
2.43.0


From b95eca676257cd90a5ff1842b27c7d04e950e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:51 +0000
Subject: [PATCH 02/18] fix: PointerAddress text form uses the Cardano bech32
 codec and its network id

---
 address/pointer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/address/pointer.go b/address/pointer.go
index 969a300..84e249d 100644
--- a/address/pointer.go
+++ b/address/pointer.go
@@ -4,7 +4,7 @@ import (
 	"errors"
 	"reflect"
 
-	"github.com/btcsuite/btcutil/bech32"
+	"github.com/fivebinaries/go-cardano-serialization/internal/bech32"
 	"github.com/fivebinaries/go-cardano-serialization/network"
 	"github.com/fxamacker/cbor/v2"
 )
@@ -82,7 +82,7 @@ func (p *PointerAddress) String() string {
 
 // Prefix returns the string prefix for the base address. Prefix `addr` for mainnet addresses and `addr_test` for testnet.
 func (p *PointerAddress) Prefix() string {
-	if p.Network == *network.TestNet() {
+	if p.Network.NetworkId == network.TestNet().NetworkId {
 		return "addr_test"
 	}
 	return "addr"
-- 
2.43.0


From 041fce4015910ba5e8f9235db05d823463324dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:16 +0000
Subject: [PATCH 03/18] fix: NewAddressFromBytes rejects empty, short and
 over-long base address data

---
 address/address.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/address/address.go b/address/address.go
index f438de8..a6b4644 100644
--- a/address/address.go
+++ b/address/address.go
@@ -55,6 +55,10 @@ func NewAddressFromHex(hexAddr string) (addr Address, err error) {
 }
 
 func NewAddressFromBytes(data []byte) (addr Address, err error) {
+	if len(data) == 0 {
+		return nil, errors.New("cbor not enough error")
+	}
+
 	header := data[0]
 	netId := header & 0x0F
 
@@ -80,6 +84,13 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 	// 0010: base address: keyhash28,scripthash28
 	// 0011: base address: scripthash28,scripthash28
 	case 0b0000, 0b0001, 0b0010, 0b0011:
+		const baseAddrSize = 1 + 28 + 28
+		if len(data) < baseAddrSize {
+			return nil, errors.New("cbor not enough error")
+		}
+		if len(data) > baseAddrSize {
+			return nil, errors.New("cbor trailing data error")
+		}
 		baseAddr := BaseAddress{
 			Network: networks[netId],
 			Payment: *readAddrCred(data, header, 4, 1),
-- 
2.43.0


From 41603d99871767659e8930a9726524076f09c182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:16 +0000
Subject: [PATCH 04/18] fix: addresses of unknown networks are rejected instead
 of becoming testnet ones

---
 address/address.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index a6b4644..36b262b 100644
--- a/address/address.go
+++ b/address/address.go
@@ -67,7 +67,12 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 		byte(0): *network.TestNet(),
 	}
 
-	switch (header & 0xF0) >> 4 {
+	addrType := (header & 0xF0) >> 4
+	if _, known := networks[netId]; !known && addrType != 0b1000 {
+		return nil, ErrUnsupportedAddress
+	}
+
+	switch addrType {
 	// 1000: byron address
 	case 0b1000:
 		var byron ByronAddress
-- 
2.43.0


From 8b6b76b5529484af2ec7c2be8220fdb1c8b1d46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:16 +0000
Subject: [PATCH 05/18] fix: VariableNatDecode reports overflow instead of
 dropping high bits

---
 address/pointer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/address/pointer.go b/address/pointer.go
index 84e249d..5a6e333 100644
--- a/address/pointer.go
+++ b/address/pointer.go
@@ -39,6 +39,9 @@ func VariableNatDecode(raw []byte) (uint64, int, error) {
 	output = 0
 	bytes_read := 0
 	for _, rbyte := range raw {
+		if output>>(64-7) != 0 {
+			return 0, 0, errors.New("variable length natural overflows 64 bits")
+		}
 		output = (output << 7) | uint64(rbyte&0x7F)
 		bytes_read += 1
 		if (rbyte & 0x80) == 0 {
-- 
2.43.0


From 0d381d55e606936932e6557e29bfe3b05935f743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:57 +0000
Subject: [PATCH 06/18] fix: MinFee leaves the transaction's witnesses alone
 and counts every signing key

---
 tx/tx_builder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 0293270..770eea7 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -86,12 +86,13 @@ func (tb TxBuilder) MinFee() (fee uint) {
 			Fee:     tb.tx.Body.Fee,
 			TTL:     tb.tx.Body.TTL,
 		},
-		Witness:  tb.tx.Witness,
+		Witness:  NewTXWitness(),
 		Valid:    true,
 		Metadata: tb.tx.Metadata,
 	}
 	feeTx.CalculateAuxiliaryDataHash()
-	if len(feeTx.Witness.Keys) == 0 {
+	// the fee has to cover every signature that Build will add (at least one)
+	for i := 0; i == 0 || i < len(tb.xprvs); i++ {
 		vWitness := NewVKeyWitness(
 			make([]byte, 32),
 			make([]byte, 64),
-- 
2.43.0


From 1eef85c6a4563b0183ade42bbb4f48db0de5b7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:50 +0000
Subject: [PATCH 07/18] fix: AddChangeIfNeeded balances the transaction and its
 fee pays for the change it adds

---
 tx/tx_builder.go | 62 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 17 deletions(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 770eea7..0de4e46 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -49,16 +49,22 @@ func (tb *TxBuilder) Tx() (tx *Tx) {
 // AddChangeIfNeeded calculates the excess change from UTXO inputs - outputs and adds it to the transaction body.
 func (tb *TxBuilder) AddChangeIfNeeded(addr address.Address) {
 	// change is amount in utxo minus outputs minus fee
-	tb.tx.SetFee(tb.MinFee())
+	fee, change := tb.feeAndChange(addr)
 	totalI, totalO := tb.getTotalInputOutputs()
+	if change == 0 && totalI > totalO+fee {
+		// what is left does not pay for a change output
+		fee = totalI - totalO
+	}
 
-	change := totalI - totalO - uint(tb.tx.Body.Fee)
-	tb.tx.AddOutputs(
-		NewTxOutput(
-			addr,
-			change,
-		),
-	)
+	tb.tx.SetFee(fee)
+	if change > 0 {
+		tb.tx.AddOutputs(
+			NewTxOutput(
+				addr,
+				change,
+			),
+		)
+	}
 }
 
 // SetTTL sets the time to live for the transaction.
@@ -79,6 +85,15 @@ func (tb TxBuilder) getTotalInputOutputs() (inputs, outputs uint) {
 
 // MinFee calculates the minimum fee for the provided transaction.
 func (tb TxBuilder) MinFee() (fee uint) {
+	inner_addr, _ := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
+	fee, _ = tb.feeAndChange(inner_addr)
+
+	return
+}
+
+// feeAndChange calculates the fee of the transaction and the amount left for a change output to changeAddr
+// (0 if the inputs do not leave enough for one).
+func (tb TxBuilder) feeAndChange(changeAddr address.Address) (fee, change uint) {
 	feeTx := Tx{
 		Body: &TxBody{
 			Inputs:  tb.tx.Body.Inputs,
@@ -101,18 +116,31 @@ func (tb TxBuilder) MinFee() (fee uint) {
 	}
 
 	totalI, totalO := tb.getTotalInputOutputs()
+	outputs := feeTx.Body.Outputs[:len(feeTx.Body.Outputs):len(feeTx.Body.Outputs)]
+	lfee := fees.NewLinearFee(tb.protocol.TxFeePerByte, tb.protocol.TxFeeFixed)
 
-	if totalI != (totalO) {
-		inner_addr, _ := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
-
-		feeTx.Body.Outputs = append(feeTx.Body.Outputs, NewTxOutput(inner_addr, (totalI-totalO-200000)))
+	// Both the fee and the change are part of the transaction: raise the fee until it pays for their encoding too
+	settle := func(withChange bool) {
+		for fee, change = 0, 0; ; {
+			feeTx.Body.Fee = uint64(fee)
+			feeTx.Body.Outputs = outputs
+			change = 0
+			if withChange && totalI > totalO+fee {
+				change = totalI - totalO - fee
+				feeTx.Body.Outputs = append(outputs, NewTxOutput(changeAddr, change))
+			}
+			required, err := feeTx.Fee(lfee)
+			if err != nil || required <= fee {
+				return
+			}
+			fee = required
+		}
+	}
 
+	settle(true)
+	if change == 0 {
+		settle(false)
 	}
-	lfee := fees.NewLinearFee(tb.protocol.TxFeePerByte, tb.protocol.TxFeeFixed)
-	// The fee may have increased enough to increase the number of bytes, so do one more pass
-	fee, _ = feeTx.Fee(lfee)
-	feeTx.Body.Fee = uint64(fee)
-	fee, _ = feeTx.Fee(lfee)
 
 	return
 }
-- 
2.43.0


From 620c3675a329c819294e5cbc74be2a5378b81b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:51 +0000
Subject: [PATCH 08/18] fix: metadata serializes deterministically, so its hash
 matches the transaction

---
 tx/tx.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/tx/tx.go b/tx/tx.go
index ca4d583..a7740b5 100644
--- a/tx/tx.go
+++ b/tx/tx.go
@@ -9,6 +9,16 @@ import (
 	"golang.org/x/crypto/blake2b"
 )
 
+// encMode serializes transactions: metadata may contain Go maps, whose entries have to
+// come out in the same order every time for its hash, and the signatures, to stay valid.
+var encMode = func() cbor.EncMode {
+	em, err := cbor.EncOptions{Sort: cbor.SortCanonical}.EncMode()
+	if err != nil {
+		panic(err)
+	}
+	return em
+}()
+
 type Tx struct {
 	_        struct{} `cbor:",toarray"`
 	Body     *TxBody
@@ -31,7 +41,7 @@ func (t *Tx) Bytes() ([]byte, error) {
 	if err := t.CalculateAuxiliaryDataHash(); err != nil {
 		return nil, err
 	}
-	bytes, err := cbor.Marshal(t)
+	bytes, err := encMode.Marshal(t)
 	return bytes, err
 }
 
@@ -49,7 +59,7 @@ func (t *Tx) Hash() ([32]byte, error) {
 	if err := t.CalculateAuxiliaryDataHash(); err != nil {
 		return [32]byte{}, err
 	}
-	txBody, err := cbor.Marshal(t.Body)
+	txBody, err := encMode.Marshal(t.Body)
 	if err != nil {
 		var bt [32]byte
 		return bt, err
@@ -65,7 +75,7 @@ func (t *Tx) Fee(lfee *fees.LinearFee) (uint, error) {
 	if err := t.CalculateAuxiliaryDataHash(); err != nil {
 		return 0, err
 	}
-	txCbor, err := cbor.Marshal(t)
+	txCbor, err := encMode.Marshal(t)
 	if err != nil {
 		return 0, err
 	}
@@ -82,7 +92,7 @@ func (t *Tx) SetFee(fee uint) {
 
 func (t *Tx) CalculateAuxiliaryDataHash() error {
 	if t.Metadata != nil {
-		mdBytes, err := cbor.Marshal(&t.Metadata)
+		mdBytes, err := encMode.Marshal(&t.Metadata)
 		if err != nil {
 			return fmt.Errorf("cannot serialize metadata: %w", err)
 		}
-- 
2.43.0


From 865e57bf73795b25615b30ef24a9268042907158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:13 +0000
Subject: [PATCH 09/18] fix: cardano-cli is called with its subcommands,
 separate arguments and the right network flag

---
 node/cardano-cli.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index f93dcdc..4d5085c 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -23,15 +23,15 @@ type cardanoCli struct {
 
 func (cli *cardanoCli) execCommand(args ...string) (data []byte, err error) {
 	buf := &bytes.Buffer{}
-	var cmdSuffix string
+	var cmdSuffix []string
 
-	if cli.network.NetworkId == 0 {
-		cmdSuffix = "--mainnet"
+	if cli.network.NetworkId == network.MainNet().NetworkId {
+		cmdSuffix = []string{"--mainnet"}
 	} else {
-		cmdSuffix = fmt.Sprintf("--testnet-magic %d", cli.network.ProtocolMagic)
+		cmdSuffix = []string{"--testnet-magic", fmt.Sprint(cli.network.ProtocolMagic)}
 	}
 
-	args = append(args, cmdSuffix)
+	args = append(args, cmdSuffix...)
 	cmd := exec.Command(cli.cliPath, args...)
 	cmd.Stdout = buf
 	cmd.Stderr = os.Stderr
@@ -55,7 +55,7 @@ func (cli *cardanoCli) ProtocolParameters() (p protocol.Protocol, err error) {
 }
 
 func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error) {
-	data, err := cli.execCommand("query", "utxos", fmt.Sprintf("--address %s", addr))
+	data, err := cli.execCommand("query", "utxo", "--address", addr.String())
 	if err != nil {
 		return
 	}
@@ -133,7 +133,7 @@ func (cli *cardanoCli) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 		return txHash, err
 	}
 
-	cliData, err := cli.execCommand("submit", fmt.Sprintf("--tx-file %s", tmpFile.Name()))
+	cliData, err := cli.execCommand("transaction", "submit", "--tx-file", tmpFile.Name())
 	if err != nil {
 		return
 	}
-- 
2.43.0


From f4e4bcfa2a83357e2734ee0950b418dc40b791e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:13 +0000
Subject: [PATCH 10/18] fix: cardano-cli utxo listing is parsed by lines, with
 malformed lines reported

---
 node/cardano-cli.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index 4d5085c..8b2d881 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -61,7 +61,7 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 	}
 
 	ldata := strings.Split(string(data), "\n")
-	lenData := len(data)
+	lenData := len(ldata)
 
 	if lenData < 3 {
 		return
@@ -69,14 +69,15 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 
 	for _, it := range ldata[2 : lenData-1] {
 		sec := strings.Fields(it)
+		if len(sec) < 3 {
+			return txIs, fmt.Errorf("unexpected utxo line: %q", it)
+		}
 		txIx, err := strconv.ParseUint(sec[1], 10, 16)
 		if err != nil {
 			return txIs, err
 		}
 
-		amSec := strings.Fields(sec[2])
-
-		amount, err := strconv.Atoi(amSec[0])
+		amount, err := strconv.ParseUint(sec[2], 10, strconv.IntSize)
 		if err != nil {
 			return txIs, err
 		}
-- 
2.43.0


From d9fd41e91b0870c97c0a66ce84dc62c6b2ec5922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:14 +0000
Subject: [PATCH 11/18] fix: blockfrost amounts and output indexes are checked
 for range

---
 node/blockfrost.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 9b89d3f..807549a 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"net/http"
 	"strconv"
 
@@ -48,7 +49,7 @@ func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err err
 		for _, am := range utxo.Amount {
 			if am.Unit == "lovelace" {
 
-				amountI, err := strconv.Atoi(am.Quantity)
+				amountI, err := strconv.ParseUint(am.Quantity, 10, strconv.IntSize)
 				if err != nil {
 					return []tx.TxInput{}, err
 				}
@@ -56,6 +57,9 @@ func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err err
 			}
 
 		}
+		if utxo.OutputIndex < 0 || utxo.OutputIndex > math.MaxUint16 {
+			return []tx.TxInput{}, fmt.Errorf("output index out of range: %d", utxo.OutputIndex)
+		}
 		txIs = append(txIs, *tx.NewTxInput(utxo.TxHash, uint16(utxo.OutputIndex), amount))
 	}
 
-- 
2.43.0


From 180da673fc90c57a2dac2928c55857a288cc6969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:21 +0000
Subject: [PATCH 12/18] fix: bech32 decoding rejects characters outside ASCII

---
 internal/bech32/bech32.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/bech32/bech32.go b/internal/bech32/bech32.go
index e294a6e..e33faf9 100644
--- a/internal/bech32/bech32.go
+++ b/internal/bech32/bech32.go
@@ -128,9 +128,9 @@ func Decode(s string) (hrp string, data []byte, err error) {
 		return "", nil, fmt.Errorf("separator '1' at invalid position: pos=%d, len=%d", pos, len(s))
 	}
 	hrp = s[:pos]
-	for p, c := range hrp {
+	for p, c := range s {
 		if c < 33 || c > 126 {
-			return "", nil, fmt.Errorf("invalid character human-readable part: s[%d]=%d", p, c)
+			return "", nil, fmt.Errorf("invalid character: s[%d]=%d", p, c)
 		}
 	}
 	s = strings.ToLower(s)
-- 
2.43.0


From 2a347414c94a9107671c81d7757c5d53f639ad19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:11 +0000
Subject: [PATCH 13/18] fix: Byron addresses with trailing data are rejected

---
 address/address.go |  2 +-
 address/byron.go   | 17 +++++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/address/address.go b/address/address.go
index 36b262b..a408d0a 100644
--- a/address/address.go
+++ b/address/address.go
@@ -77,7 +77,7 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 	case 0b1000:
 		var byron ByronAddress
 
-		if err := cbor.Unmarshal(data, &byron); err != nil {
+		if err := byron.UnmarshalCBOR(data); err != nil {
 			log.Println(err)
 			return &byron, err
 		}
diff --git a/address/byron.go b/address/byron.go
index a315579..8860a6d 100644
--- a/address/byron.go
+++ b/address/byron.go
@@ -1,6 +1,7 @@
 package address
 
 import (
+	"bytes"
 	"errors"
 	"hash/crc32"
 
@@ -56,6 +57,18 @@ func (b *ByronAddress) MarshalCBOR() (bytes []byte, err error) {
 	})
 }
 
+// unmarshalAll decodes data that holds one cbor item and nothing after it.
+func unmarshalAll(data []byte, v interface{}) error {
+	dec := cbor.NewDecoder(bytes.NewReader(data))
+	if err := dec.Decode(v); err != nil {
+		return err
+	}
+	if dec.NumBytesRead() != len(data) {
+		return errors.New("cbor trailing data error")
+	}
+	return nil
+}
+
 // UnmarshalCBOR deserializes raw byron address, encoded in cbor, into a Byron Address.
 func (b *ByronAddress) UnmarshalCBOR(data []byte) error {
 	type RawAddr struct {
@@ -66,7 +79,7 @@ func (b *ByronAddress) UnmarshalCBOR(data []byte) error {
 
 	var rawAddr RawAddr
 
-	if err := cbor.Unmarshal(data, &rawAddr); err != nil {
+	if err := unmarshalAll(data, &rawAddr); err != nil {
 		return err
 	}
 
@@ -87,7 +100,7 @@ func (b *ByronAddress) UnmarshalCBOR(data []byte) error {
 		Tag    uint
 	}
 
-	if err := cbor.Unmarshal(rawTag, &byron); err != nil {
+	if err := unmarshalAll(rawTag, &byron); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 889526dbc5a08e034acefb854bdb05a740996ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:43 +0000
Subject: [PATCH 14/18] fix: transaction outputs carry Byron addresses as byte
 strings

---
 tx/tx_input_output.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tx/tx_input_output.go b/tx/tx_input_output.go
index a1ef170..2409a78 100644
--- a/tx/tx_input_output.go
+++ b/tx/tx_input_output.go
@@ -51,3 +51,18 @@ func NewTxOutput(addr address.Address, amount uint) *TxOutput {
 		Amount:  amount,
 	}
 }
+
+// MarshalCBOR encodes the output as its address bytes and amount. The address is a byte string
+// for every kind of address, Byron ones (whose own cbor form is not a byte string) included.
+func (txO *TxOutput) MarshalCBOR() ([]byte, error) {
+	type arrayOutput struct {
+		_       struct{} `cbor:",toarray"`
+		Address []byte
+		Amount  uint
+	}
+	output := arrayOutput{Amount: txO.Amount}
+	if txO.Address != nil {
+		output.Address = txO.Address.Bytes()
+	}
+	return cbor.Marshal(output)
+}
-- 
2.43.0


From 36ada1b7908f1a1916677845cd391f2b07468297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:37 +0000
Subject: [PATCH 15/18] fix: node backends reject malformed transaction hashes

---
 node/blockfrost.go  |  3 +++
 node/cardano-cli.go |  3 +++
 node/types.go       | 17 +++++++++++++++++
 3 files changed, 23 insertions(+)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 807549a..3198c3a 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -57,6 +57,9 @@ func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err err
 			}
 
 		}
+		if err := checkTxHash(utxo.TxHash); err != nil {
+			return []tx.TxInput{}, err
+		}
 		if utxo.OutputIndex < 0 || utxo.OutputIndex > math.MaxUint16 {
 			return []tx.TxInput{}, fmt.Errorf("output index out of range: %d", utxo.OutputIndex)
 		}
diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index 8b2d881..7f46230 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -72,6 +72,9 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 		if len(sec) < 3 {
 			return txIs, fmt.Errorf("unexpected utxo line: %q", it)
 		}
+		if err := checkTxHash(sec[0]); err != nil {
+			return txIs, err
+		}
 		txIx, err := strconv.ParseUint(sec[1], 10, 16)
 		if err != nil {
 			return txIs, err
diff --git a/node/types.go b/node/types.go
index d057bc2..e75291f 100644
--- a/node/types.go
+++ b/node/types.go
@@ -1,8 +1,25 @@
 package node
 
+import (
+	"encoding/hex"
+	"fmt"
+)
+
 // NetworkTip contains parameters from the tip of the network
 type NetworkTip struct {
 	Slot  uint `json:"slot,omitempty"`
 	Epoch uint `json:"epoch,omitempty"`
 	Block uint `json:"block,omitempty"`
 }
+
+// checkTxHash reports a transaction hash that is not 32 hexadecimal bytes.
+func checkTxHash(txHash string) error {
+	hash, err := hex.DecodeString(txHash)
+	if err != nil {
+		return err
+	}
+	if len(hash) != 32 {
+		return fmt.Errorf("unexpected transaction hash: %q", txHash)
+	}
+	return nil
+}
-- 
2.43.0


From eddcace0e0518abc0adf14b1925a4449b3780622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:39 +0000
Subject: [PATCH 16/18] fix: blockfrost protocol parameters that do not fit
 were truncated instead of reported

---
 node/blockfrost.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 3198c3a..74e1d20 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -76,10 +76,15 @@ func (b *blockfrostNode) ProtocolParameters() (p protocol.Protocol, err error) {
 		return
 	}
 
-	minU, err := strconv.Atoi(params.MinUtxo)
+	minU, err := strconv.ParseUint(params.MinUtxo, 10, strconv.IntSize)
 	if err != nil {
 		return
 	}
+	if params.MinFeeA < 0 || params.MinFeeB < 0 || params.MaxTxSize < 0 ||
+		params.ProtocolMajorVer < 0 || params.ProtocolMajorVer > math.MaxUint8 ||
+		params.ProtocolMinorVer < 0 || params.ProtocolMinorVer > math.MaxUint8 {
+		return p, errors.New("protocol parameter out of range")
+	}
 
 	return protocol.Protocol{
 		TxFeePerByte: uint(params.MinFeeA),
-- 
2.43.0


From 361b87e2416681e1551343714871f9b7a4d9917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:06 +0000
Subject: [PATCH 17/18] fix: builders made from the same slice of keys
 overwrote each other's signing keys

---
 tx/tx_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 0de4e46..7444130 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -159,7 +159,7 @@ func (tb *TxBuilder) AddOutputs(outputs ...*TxOutput) {
 func NewTxBuilder(pr protocol.Protocol, xprvs []bip32.XPrv) *TxBuilder {
 	return &TxBuilder{
 		tx:       NewTx(),
-		xprvs:    xprvs,
+		xprvs:    append([]bip32.XPrv{}, xprvs...),
 		protocol: pr,
 	}
 }
-- 
2.43.0


From 295e49a438349faa996c198249c672130a754fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:34 +0000
Subject: [PATCH 18/18] fix: using a builder after Build invalidated the
 transaction it had returned

---
 tx/tx_builder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 7444130..fde07df 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -38,7 +38,14 @@ func (tb *TxBuilder) Build() (tx Tx, err error) {
 		txKeys...,
 	)
 
-	return *tb.tx, nil
+	// the returned transaction gets its own body: using the builder further must not invalidate its signatures
+	tx = *tb.tx
+	body := *tb.tx.Body
+	body.Inputs = body.Inputs[:len(body.Inputs):len(body.Inputs)]
+	body.Outputs = body.Outputs[:len(body.Outputs):len(body.Outputs)]
+	tx.Body = &body
+
+	return tx, nil
 }
 
 // Tx returns a pointer to the transaction
-- 
2.43.0

