// Package conc states that independent calls may be made from several goroutines: they share
// no memory that one of them writes, other than through synchronization. Every harness runs
// two operations of its list as two goroutines, on data of their own and on shared keys,
// addresses, networks and parameters, which none of the operations is entitled to change.
package conc

import (
	"encoding/hex"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/crypto"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/internal/bech32"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	_ "github.com/fivebinaries/go-cardano-serialization/zz_verif/ed"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/v"
	"github.com/fxamacker/cbor/v2"
)

// both runs an operation and another one (or the same) at the same time.
// ops(k) makes the operations on the k-th goroutine's own data.
func both(ops func(k string) []func()) {
	a, b := ops("a"), ops("b")
	f := v.Choose("first", len(a))
	g := (f + v.Choose("second", len(b))) % len(b)
	v.Both(a[f], b[g])
	v.Reach("end")
}

func key(name string) bip32.XPrv {
	b := v.Bytes(name, 96)
	v.Assume(b[31] < 128)
	return bip32.XPrv(b)
}

func cred(name string) *address.StakeCredential {
	return address.NewKeyStakeCredential(v.Bytes(name, 28))
}

func net() *network.NetworkInfo {
	if v.Bool("testnet") {
		return network.TestNet()
	}
	return network.MainNet()
}

// byron is the binary form of a Byron address.
func byron(k string) []byte {
	h := make([]byte, 28)
	h[3] = k[0]
	a := &address.ByronAddress{Hash: h, Attributes: address.ByronAddressAttributes{Payload: []byte{1, k[0]}}}
	return a.Bytes()
}

// H_address_bytes: making, encoding and decoding addresses.
func H_address_bytes() {
	n := net()
	shared := address.NewBaseAddress(n, cred("p"), address.NewScriptStakeCredential(v.Bytes("s", 28)))
	both(func(k string) []func() {
		own := address.NewBaseAddress(n, cred(k+".p"), cred(k+".s"))
		data := own.Bytes()
		ptr := address.NewPointerAddress(*n, *cred(k + ".q"), *address.NewPointer(2498243, 27, v.U64(k+".cert")&127))
		pdata := ptr.Bytes()
		bdata := byron(k)
		return []func(){
			func() { own.Bytes() },
			func() { shared.Bytes(); shared.NetworkInfo(); shared.Prefix() },
			func() { address.NewBaseAddress(n, cred2(shared), cred2(shared)).Bytes() },
			func() { shared.ToEnterprise().Bytes(); shared.ToReward().Bytes() },
			func() { address.NewAddressFromBytes(data) },
			func() { address.NewAddressFromHex(hex.EncodeToString(data)) },
			func() { ptr.Bytes(); ptr.NetworkInfo(); ptr.Prefix() },
			func() { address.NewAddressFromBytes(pdata) },
			func() {
				b, _ := address.NewAddressFromBytes(bdata)
				if b != nil {
					b.Bytes()
				}
			},
			func() { cbor.Marshal(shared); cbor.Marshal(ptr) },
		}
	})
}

func cred2(b *address.BaseAddress) *address.StakeCredential { return &b.Payment }

// H_address_text: printing and parsing addresses.
func H_address_text() {
	n := net()
	shared := address.NewBaseAddress(n, cred("p"), cred("s"))
	ent := address.NewEnterpriseAddress(n, cred("p"))
	both(func(k string) []func() {
		rew := address.NewRewardAddress(network.TestNet(), cred(k+".s"))
		text := address.NewEnterpriseAddress(network.MainNet(), address.NewKeyStakeCredential(make([]byte, 28))).String()
		data := v.Bytes(k+".d", 6)
		return []func(){
			func() { shared.String() },
			func() { ent.String() },
			func() { rew.String() },
			func() { address.NewAddress(text) },
			func() { bech32.Decode(text) },
			func() { bech32.Encode("addr", data) },
		}
	})
}

// H_keys: deriving and using keys, hashing.
func H_keys() {
	parent := key("k")
	msg := v.Bytes("m", 40)
	both(func(k string) []func() {
		own := key(k + ".k")
		i := v.U32(k + ".i")
		seed := v.Bytes(k+".seed", 32)
		return []func(){
			func() { parent.Derive(i) },
			func() { parent.Public() },
			func() { parent.Sign(msg) },
			func() { own.Sign(msg) },
			func() { own.Public().PublicKey().Hash() },
			func() { own.Derive(i).Public() },
			func() { bip32.NewXPrv(seed) },
			func() { bip32.FromBip39Entropy(seed, nil) },
			func() { crypto.Blake2b224(msg); crypto.Blake2b256(msg) },
			func() {
				crypto.Ed25519KeyHashFromBytes(msg[:28])
				crypto.TransactionHashFromBytes(seed)
				crypto.ScriptHashFromBytes(seed)
			},
		}
	})
}

// H_group: the same with the real group arithmetic, on fixed keys.
func H_group() {
	fixed := func(k string) bip32.XPrv {
		b := make([]byte, 96)
		b[0], b[7], b[31], b[40] = 8*k[0], 77, 64, k[0]
		return bip32.XPrv(b)
	}
	shared := fixed("s")
	both(func(k string) []func() {
		own := fixed(k)
		return []func(){
			func() { own.Public() },
			func() { shared.Sign([]byte{1, 2, 3}) },
		}
	})
}

// H_tx: building, pricing and serializing different transactions.
func H_tx() {
	pr := protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381}
	keys := make([]bip32.XPrv, 1, 4)
	keys[0] = key("k")
	lf := fees.NewLinearFee(44, 155381)
	to := address.NewEnterpriseAddress(network.TestNet(), cred("p"))
	from := address.NewBaseAddress(network.MainNet(), cred("c"), cred("d"))
	input := &tx.TxInput{TxHash: v.Bytes("h", 32), Index: 3, Amount: 50000000}
	output := tx.NewTxOutput(to, 1000000)
	meta := map[uint64]string{674: "text"}
	both(func(k string) []func() {
		mk := func() *tx.TxBuilder {
			b := tx.NewTxBuilder(pr, keys)
			b.AddInputs(input)
			b.AddOutputs(output)
			b.SetTTL(7000000)
			return b
		}
		own := mk()
		own.AddOutputs(tx.NewTxOutput(from, 5000+uint(v.Byte(k+".amt"))))
		other := key(k + ".k")
		return []func(){
			func() {
				own.Sign(other)
				own.Build()
			},
			func() { mk().AddChangeIfNeeded(from) },
			func() { mk().MinFee() },
			func() {
				t := own.Tx()
				t.Metadata = meta
				t.Bytes()
				t.Hex()
			},
			func() {
				t := own.Tx()
				t.Hash()
				t.Fee(lf)
			},
			func() {
				b := mk()
				b.AddChangeIfNeeded(to)
				t, err := b.Build()
				if err == nil {
					t.Bytes()
				}
			},
			func() {
				t := tx.NewTx()
				t.AddInputs(tx.NewTxInput("0102030405060708091011121314151617181920212223242526272829303132", 1, 5))
				t.AddOutputs(output)
				t.Body.Bytes()
				t.Witness.Keys = append(t.Witness.Keys, tx.NewVKeyWitness([]byte{1}, []byte{2}))
				t.Bytes()
			},
		}
	})
}
