// Package txs states the transaction properties.
package txs

import (
	"encoding/hex"
	"github.com/fxamacker/cbor/v2"
	"strconv"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	_ "github.com/fivebinaries/go-cardano-serialization/zz_verif/ed"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/v"
)

// ---- reference CBOR ----

func cat(parts ...[]byte) []byte {
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func be(n uint64, k int) []byte {
	out := make([]byte, k)
	for i := range out {
		out[i] = byte(n >> (8 * uint(k-1-i)))
	}
	return out
}

// head is the shortest CBOR head of a major type.
func head(major byte, n uint64) []byte {
	major <<= 5
	switch {
	case n < 24:
		return []byte{major | byte(n)}
	case n <= 0xff:
		return cat([]byte{major | 24}, be(n, 1))
	case n <= 0xffff:
		return cat([]byte{major | 25}, be(n, 2))
	case n <= 0xffffffff:
		return cat([]byte{major | 26}, be(n, 4))
	}
	return cat([]byte{major | 27}, be(n, 8))
}

func num(n uint64) []byte  { return head(0, n) }
func bstr(b []byte) []byte { return cat(head(2, uint64(len(b))), b) }

type in struct {
	hash   []byte
	index  uint16
	amount uint64
}

type out struct {
	addr   address.Address
	amount uint64
}

func refBody(ins []in, outs []out, fee uint64, ttl uint32, aux []byte) []byte {
	n := 3
	var tail []byte
	if ttl != 0 {
		n++
		tail = cat(num(3), num(uint64(ttl)))
	}
	if aux != nil {
		n++
		tail = cat(tail, num(7), bstr(aux))
	}
	b := head(5, uint64(n))
	b = cat(b, num(0), head(4, uint64(len(ins))))
	for _, i := range ins {
		b = cat(b, head(4, 2), bstr(i.hash), num(uint64(i.index)))
	}
	b = cat(b, num(1), head(4, uint64(len(outs))))
	for _, o := range outs {
		b = cat(b, head(4, 2), bstr(o.addr.Bytes()), num(o.amount))
	}
	return cat(b, num(2), num(fee), tail)
}

type wit struct{ key, sig []byte }

func refWit(ws []wit) []byte {
	if len(ws) == 0 {
		return head(5, 0)
	}
	b := cat(head(5, 1), num(0), head(4, uint64(len(ws))))
	for _, w := range ws {
		b = cat(b, head(4, 2), bstr(w.key), bstr(w.sig))
	}
	return b
}

func refTx(body, wits, meta []byte) []byte {
	if meta == nil {
		meta = []byte{0xf6}
	}
	return cat(head(4, 4), body, wits, []byte{0xf5}, meta)
}

// ---- building blocks ----

func baseAddr(name string) address.Address {
	return address.NewBaseAddress(network.MainNet(), address.NewKeyStakeCredential(v.Bytes(name+".p", 28)), address.NewKeyStakeCredential(v.Bytes(name+".s", 28)))
}

func entAddr(name string) address.Address {
	return address.NewEnterpriseAddress(network.TestNet(), address.NewScriptStakeCredential(v.Bytes(name+".p", 28)))
}

func anyAddr(name string) address.Address {
	switch v.Choose(name+".kind", 5) {
	case 0:
		return baseAddr(name)
	case 1:
		return entAddr(name)
	case 2:
		return address.NewPointerAddress(*network.MainNet(), *address.NewKeyStakeCredential(v.Bytes(name+".p", 28)), *address.NewPointer(2498243, 27, 3))
	case 3:
		return address.NewRewardAddress(network.TestNet(), address.NewKeyStakeCredential(v.Bytes(name+".p", 28)))
	}
	h := make([]byte, 28)
	h[0] = 77
	return &address.ByronAddress{Hash: h}
}

func fill(t *tx.Tx, ins []in, outs []out, fee uint64, ttl uint32) {
	for _, i := range ins {
		t.AddInputs(&tx.TxInput{TxHash: i.hash, Index: i.index, Amount: uint(i.amount)})
	}
	for _, o := range outs {
		t.AddOutputs(tx.NewTxOutput(o.addr, uint(o.amount)))
	}
	t.SetFee(uint(fee))
	t.Body.TTL = ttl
}

// sized is an arbitrary number whose CBOR head takes the k-th form (immediate, 1, 2, 4 or 8 bytes).
func sized(name string, k int) uint64 {
	switch k {
	case 0:
		n := v.Byte(name + ".1")
		v.Assume(n < 24)
		return uint64(n)
	case 1:
		n := v.Byte(name + ".1")
		v.Assume(n >= 24)
		return uint64(n)
	case 2:
		n := v.U16(name + ".2")
		v.Assume(n >= 1<<8)
		return uint64(n)
	case 3:
		n := v.U32(name + ".4")
		v.Assume(n >= 1<<16)
		return uint64(n)
	}
	n := v.U64(name + ".8")
	v.Assume(n >= 1<<32)
	return n
}

func sized32(name string, k int) uint32 {
	if k == 4 {
		return 0
	}
	return uint32(sized(name, k))
}

// warm runs the reflection caches of the codec once on concrete data.
func warm() {
	t := tx.NewTx()
	a := address.NewEnterpriseAddress(network.MainNet(), address.NewKeyStakeCredential(make([]byte, 28)))
	fill(t, []in{{make([]byte, 32), 0, 1}}, []out{{a, 1}}, 1, 1)
	t.Witness = tx.NewTXWitness(tx.NewVKeyWitness(make([]byte, 32), make([]byte, 64)))
	t.Bytes()
	t.Body.Bytes()
}

func serial(t *tx.Tx, want, body []byte) {
	b, err := t.Bytes()
	v.Assert(err == nil, "transaction serializes")
	v.Observe("tx", b)
	v.Assert(v.Eq(b, want), "transaction layout")
	h, err := t.Hex()
	v.Assert(err == nil, "transaction has a hexadecimal form")
	v.Assert(len(h) == 2*len(b), "hexadecimal length")
	v.Assert(v.EqStr(h, hex.EncodeToString(want)), "hexadecimal form")
	bb, err := t.Body.Bytes()
	v.Assert(err == nil, "body serializes")
	v.Assert(v.Eq(bb, body), "body layout")
	other := tx.NewTx()
	other.SetFee(77)
	other.Bytes()
	other.Body.Bytes()
	v.Assert(v.And(v.Eq(b, want), v.Eq(bb, body)), "bytes are not changed by serializing another transaction")
	bh, err := t.Body.Hex()
	v.Assert(err == nil, "body has a hexadecimal form")
	v.Assert(v.EqStr(bh, hex.EncodeToString(body)), "body hexadecimal form")
	v.Reach("end")
}

// ---- C09 ----

func fields(amt, fee, ttl, ix int) {
	i := in{v.Bytes("h", 32), uint16(sized("ix", ix)), 0}
	o := out{baseAddr("o"), sized("amt", amt)}
	f, t3 := sized("fee", fee), sized32("ttl", ttl)
	t := tx.NewTx()
	fill(t, []in{i}, []out{o}, f, t3)
	body := refBody([]in{i}, []out{o}, f, t3, nil)
	serial(t, refTx(body, refWit(nil), nil), body)
}

// H_fields: one input and one output, every index, amount, fee and ttl (size classes pairwise).
func H_fields() {
	warm()
	i, j := v.Choose("ci", 5), v.Choose("cj", 5)
	fields(i, j, (i+j)%5, (i+2*j)%5%3)
}

// H_fields_all: every combination of size classes.
func H_fields_all() {
	warm()
	fields(v.Choose("ci", 5), v.Choose("cj", 5), v.Choose("ct", 5), v.Choose("cx", 3))
}

// H_counts: 0 to 3 inputs and outputs with every address kind.
func H_counts() {
	warm()
	var ins []in
	for k := 0; k < v.Choose("ni", 4); k++ {
		ins = append(ins, in{v.Bytes("h"+strconv.Itoa(k), 32), uint16(k * 300), 5})
	}
	var outs []out
	n := v.Choose("no", 4)
	for k := 0; k < n; k++ {
		if k == n-1 {
			outs = append(outs, out{anyAddr("o"), 1000000 + uint64(k)})
		} else {
			outs = append(outs, out{baseAddr("p" + strconv.Itoa(k)), 1 << (20 * uint(k))})
		}
	}
	t := tx.NewTx()
	fill(t, ins, outs, 170000, 0)
	body := refBody(ins, outs, 170000, 0, nil)
	serial(t, refTx(body, refWit(nil), nil), body)
}

// H_many: the array head boundary (23, 24 and 26 inputs or outputs).
func H_many() {
	warm()
	c := v.Choose("c", 8)
	ni, no := []int{23, 24, 26, 1, 1, 256, 1, 255}[c], []int{1, 1, 1, 24, 25, 1, 256, 255}[c]
	var ins []in
	for k := 0; k < ni; k++ {
		h := make([]byte, 32)
		copy(h, v.Bytes("h", 2))
		ins = append(ins, in{h, uint16(k), 5})
	}
	var outs []out
	for k := 0; k < no; k++ {
		outs = append(outs, out{entAddr("o"), uint64(k)})
	}
	t := tx.NewTx()
	fill(t, ins, outs, 0, 77)
	body := refBody(ins, outs, 0, 77, nil)
	serial(t, refTx(body, refWit(nil), nil), body)
}

// H_hashlen: transaction hashes of other lengths are carried as they are.
func H_input_hex() {
	warm()
	h := v.Bytes("h", 32)
	ix, amt := v.U16("ix"), v.U64("amt")
	i := tx.NewTxInput(hex.EncodeToString(h), ix, uint(amt))
	v.Assert(v.And(v.Eq(i.TxHash, h), i.Index == ix, uint64(i.Amount) == amt), "input holds what it was given")
	b, err := i.MarshalCBOR()
	v.Assert(err == nil, "input serializes")
	v.Assert(v.Eq(b, cat(head(4, 2), bstr(h), num(uint64(ix)))), "input layout")
	v.Reach("end")
}

// H_witness: 0 to 3 arbitrary witnesses.
func H_witness() {
	warm()
	var ws []wit
	var ks []*tx.VKeyWitness
	for k := 0; k < v.Choose("nw", 4); k++ {
		n := strconv.Itoa(k)
		w := wit{v.Bytes("k"+n, 32), v.Bytes("s"+n, 64)}
		ws = append(ws, w)
		ks = append(ks, tx.NewVKeyWitness(w.key, w.sig))
	}
	t := tx.NewTx()
	i := in{v.Bytes("h", 32), 1, 0}
	o := out{entAddr("o"), 12345}
	fill(t, []in{i}, []out{o}, 200, 300)
	t.Witness = tx.NewTXWitness(ks...)
	t.Valid = v.Bool("valid")
	body := refBody([]in{i}, []out{o}, 200, 300, nil)
	want := refTx(body, refWit(ws), nil)
	if !t.Valid {
		want[len(want)-2] = 0xf4
	}
	serial(t, want, body)
}

// ---- C15 ----

// H_fee: the fee is the linear formula on the serialized size.
func H_fee() {
	warm()
	ca, cf := v.Choose("ci", 5), v.Choose("cj", 5)
	i := in{v.Bytes("h", 32), uint16(sized("ix", (ca+cf)%3)), 0}
	o := out{entAddr("o"), sized("amt", ca)}
	t := tx.NewTx()
	fill(t, []in{i}, []out{o}, sized("fee", cf), sized32("ttl", (ca+2*cf)%5))
	if v.Bool("wit") {
		t.Witness = tx.NewTXWitness(tx.NewVKeyWitness(make([]byte, 32), make([]byte, 64)))
	}
	a, b := v.U64("a"), v.U64("b")
	f, err := t.Fee(fees.NewLinearFee(uint(a), uint(b)))
	v.Assert(err == nil, "fee is computed")
	s, err := t.Bytes()
	v.Assert(err == nil, "transaction serializes")
	v.Assert(uint64(f) == a*uint64(len(s))+b, "fee is the linear formula on the serialized size")
	v.Reach("end")
}

// H_fee_shapes: numbers of inputs, outputs and witnesses, address kinds, validity, metadata shapes.
func H_fee_shapes() {
	warm()
	ni, no, nw := 1, 1, 1
	o := out{entAddr("o"), big("amt")}
	t := tx.NewTx()
	var meta interface{}
	switch v.Choose("shape", 9) {
	case 0:
		ni = []int{0, 2, 3, 23, 24, 256}[v.Choose("n", 6)]
	case 1:
		no = []int{0, 2, 3, 23, 24, 256}[v.Choose("n", 6)]
	case 2:
		nw = []int{2, 3, 23, 24, 256}[v.Choose("n", 5)]
	case 3:
		o.addr = anyAddr("any")
	case 4:
		t.Valid = false
	case 5:
		meta = map[uint64]interface{}{674: map[string]uint64{"msg": big("m")}}
	case 6:
		meta = []interface{}{"text", big("m"), v.Bytes("md", 70)}
	case 7:
		meta = map[uint64]string{}
		ni, no, nw = 3, 2, 4
	case 8:
		meta = v.Bytes("md", []int{255, 256, 65536}[v.Choose("n", 3)])
	}
	var ins []in
	for k := 0; k < ni; k++ {
		ins = append(ins, in{v.Bytes("h"+strconv.Itoa(k&1), 32), uint16(k * 77), 0})
	}
	var outs []out
	for k := 0; k < no; k++ {
		outs = append(outs, out{o.addr, o.amount + uint64(k)})
	}
	fill(t, ins, outs, big("fee"), 9)
	t.Metadata = meta
	for k := 0; k < nw; k++ {
		t.Witness.Keys = append(t.Witness.Keys, tx.NewVKeyWitness(v.Bytes("k", 32), v.Bytes("s", 64)))
	}
	a, b := v.U64("a"), v.U64("b")
	f, err := t.Fee(fees.NewLinearFee(uint(a), uint(b)))
	v.Assert(err == nil, "fee is computed")
	s, err := t.Bytes()
	v.Assert(err == nil, "transaction serializes")
	v.Assert(uint64(f) == a*uint64(len(s))+b, "fee is the linear formula on the serialized size")
	v.Reach("end")
}

// H_fee_meta: the same with metadata.
func H_fee_meta() {
	warm()
	t := tx.NewTx()
	i := in{v.Bytes("h", 32), 7, 0}
	fill(t, []in{i}, []out{{entAddr("o"), v.U64("amt")}}, v.U64("fee"), v.U32("ttl"))
	t.Metadata = v.Bytes("md", v.Choose("n", 3)*12)
	f, err := t.Fee(fees.NewLinearFee(44, 155381))
	v.Assert(err == nil, "fee is computed")
	s, err := t.Bytes()
	v.Assert(err == nil, "transaction serializes")
	v.Assert(uint64(f) == 44*uint64(len(s))+155381, "fee is the linear formula on the serialized size")
	v.Reach("end")
}

// ---- C12, C13 ----

type changeCfg struct {
	a, b   uint64
	ins    []uint64
	outs   []uint64
	addr   address.Address
	nk     int
	ttl    uint32
	meta   interface{}
	spare  bool // output slice with spare capacity
	prefee uint64
	ask    int // when the builder is asked for fee, hash (and transaction) in between
	build  bool
}

// asked queries the builder before it is complete.
func (c changeCfg) asked(bld *tx.TxBuilder, stage int) {
	if c.ask != stage {
		return
	}
	bld.MinFee()
	bld.Tx().Hash()
	if c.build {
		bld.Build()
	}
}

// signs registers the keys, the last ones late if the builder is asked in between.
func (c changeCfg) signs(bld *tx.TxBuilder, late bool) {
	for k := 0; k < c.nk; k++ {
		if late == (c.ask > 0 && k > 0) {
			bld.Sign(key(k))
		}
	}
}

type changed struct {
	totalI, totalO, after uint64 // sums before and after
	fee, need             uint64
	added                 int
	size                  int
}

func key(k int) bip32.XPrv {
	b := make([]byte, 96)
	b[0], b[31], b[40] = byte(8*k+8), 64, byte(k)
	return bip32.XPrv(b)
}

// change adds change, builds and signs, and checks what does not depend on the amounts.
func change(c changeCfg) changed {
	bld := tx.NewTxBuilder(proto(c.a, c.b), nil)
	c.signs(bld, false)
	var r changed
	var want []out
	for k, a := range c.ins {
		bld.AddInputs(&tx.TxInput{TxHash: v.Bytes("h"+strconv.Itoa(k), 32), Index: uint16(k), Amount: uint(a)})
		r.totalI += a
	}
	c.asked(bld, 1)
	if c.spare {
		bld.Tx().Body.Outputs = make([]*tx.TxOutput, 0, 8)
	}
	for k, a := range c.outs {
		o := out{entAddr("o" + strconv.Itoa(k)), a}
		want = append(want, o)
		bld.AddOutputs(tx.NewTxOutput(o.addr, uint(a)))
		r.totalO += a
	}
	c.asked(bld, 2)
	bld.SetTTL(c.ttl)
	bld.Tx().Metadata = c.meta
	bld.Tx().SetFee(uint(c.prefee))
	c.asked(bld, 3)
	if c.ask > 0 {
		c.signs(bld, true)
	}
	c.asked(bld, 4)
	bld.AddChangeIfNeeded(c.addr)
	if c.nk == 0 {
		bld.Sign(key(0))
	}
	t, err := bld.Build()
	v.Assert(err == nil, "transaction builds")
	s, err := t.Bytes()
	v.Assert(err == nil, "transaction serializes")
	outs := t.Body.Outputs
	v.Assert(len(t.Body.Inputs) == len(c.ins), "inputs are kept")
	v.Assert(len(outs) == len(c.outs) || len(outs) == len(c.outs)+1, "at most one output is added")
	for k := range want {
		v.Assert(v.And(uint64(outs[k].Amount) == want[k].amount, v.Eq(outs[k].Address.Bytes(), want[k].addr.Bytes())), "requested outputs are unchanged")
	}
	r.after = r.totalO
	if len(outs) > len(c.outs) {
		r.added = 1
		l := outs[len(outs)-1]
		v.Assert(v.Eq(l.Address.Bytes(), c.addr.Bytes()), "change goes to the given address")
		v.Assert(l.Amount > 0, "change is positive")
		v.Assert(uint64(l.Amount) <= r.totalI, "change is not more than the inputs")
		r.after += uint64(l.Amount)
	}
	r.fee = t.Body.Fee
	r.size = len(s)
	r.need = c.a*uint64(len(s)) + c.b
	v.Observe("tx", s)
	return r
}

func conserves(c changeCfg) {
	r := change(c)
	if r.added == 1 {
		v.Assert(r.totalI == r.after+r.fee, "inputs equal outputs plus fee when change is added")
		v.Reach("change")
		return
	}
	v.Assert(v.Or(r.totalI == r.totalO+r.fee, r.totalI < r.totalO+r.need), "inputs equal outputs plus fee when they cover them")
	v.Reach("nochange")
}

func covers(c changeCfg) {
	r := change(c)
	v.Assert(v.Implies(r.totalI >= r.totalO+r.need, r.fee >= r.need), "fee covers the signed transaction")
	// a change output takes its address, an amount and two heads; its presence may widen
	// the output count, and the fee and change amounts themselves
	slack := c.a * uint64(len(c.addr.Bytes())+2+1+9+2+8)
	if r.added == 1 {
		slack = c.a * 8
	}
	v.Assert(r.fee <= r.need+slack, "fee exceeds the minimum by no more than a change output's cost")
	v.Reach([]string{"nochange", "change"}[r.added])
}

func amount(name string) uint64 {
	n := v.U64(name)
	v.Assume(n < 1<<56)
	return n
}

// cfgAmounts: one input, one output, all amounts.
func cfgAmounts() changeCfg {
	warm()
	return changeCfg{a: 44, b: 155381, ins: []uint64{amount("i")}, outs: []uint64{amount("o")}, addr: baseAddr("c"), nk: 1, ttl: 7000000}
}

// cfgKinds: change address kinds, keys, ttl, metadata.
func cfgKinds() changeCfg {
	warm()
	c := changeCfg{a: 44, b: 155381, ins: []uint64{amount("i")}, outs: []uint64{1000000}, addr: entAddr("c"), nk: 1}
	switch v.Choose("case", 11) {
	case 8:
		c.nk = 23 + v.Choose("keys", 2)
	case 9:
		for k := 0; k < 22+v.Choose("inputs", 2); k++ {
			c.ins = append(c.ins, uint64(k))
		}
	case 10:
		c.meta, c.ttl = v.Bytes("md", 300), 1<<32-1
	case 0:
		c.addr = address.NewPointerAddress(*network.MainNet(), *address.NewKeyStakeCredential(v.Bytes("c.p", 28)), *address.NewPointer(1<<40, 1<<20, 1<<50))
	case 1:
		c.nk = 0
	case 2:
		c.nk = 3
	case 3:
		c.meta = v.Bytes("md", 40)
	case 4:
		c.spare = true
	case 5:
		c.prefee = 1 << 40
	case 6:
		c.outs = nil
	case 7:
		c.nk, c.meta, c.ttl = 2, map[uint64]string{674: "text"}, 24
	}
	return c
}

// cfgMany: several inputs and outputs, any one input amount and any one output amount arbitrary.
func cfgMany() changeCfg {
	warm()
	c := changeCfg{a: 44, b: 155381, addr: baseAddr("c"), nk: 2}
	n := 2 + v.Choose("n", 2)
	c.ins = []uint64{3000000, 40, 70000}[:n]
	c.outs = []uint64{1000000, 2000000, 70000}[:n]
	w := v.Choose("w", 2)
	c.ins[w*(n-1)] = amount("i")
	c.outs[(1-w)*(n-1)] = uint64(v.U32("o"))
	return c
}

// cfgArray: the number of outputs at the boundary of the array head.
func cfgArray() changeCfg {
	warm()
	c := changeCfg{a: 44, b: 155381, addr: baseAddr("c"), nk: 1, ins: []uint64{amount("i")}}
	for k := 0; k < 22+v.Choose("no", 3); k++ {
		c.outs = append(c.outs, uint64(k))
	}
	return c
}

// cfgAsked: the builder is asked for its fee and hash, and to build, before it is complete.
func cfgAsked() changeCfg {
	warm()
	return changeCfg{a: 44, b: 155381, addr: baseAddr("c"), nk: 2, ins: []uint64{5, amount("i")}, outs: []uint64{1000000, 70000},
		ttl: 70000, meta: v.Bytes("md", 30), ask: 1 + v.Choose("ask", 4), build: v.Choose("build", 2) == 1}
}

// cfgWide: more inputs, outputs and keys than a byte counts.
func cfgWide() changeCfg {
	warm()
	c := changeCfg{a: 44, b: 155381, addr: baseAddr("c"), nk: 1, ins: []uint64{amount("i")}, outs: []uint64{1000000}}
	switch v.Choose("case", 3) {
	case 0:
		c.nk = 256
	case 1:
		for k := 0; k < 255; k++ {
			c.ins = append(c.ins, uint64(k))
		}
	case 2:
		for k := 0; k < 254; k++ {
			c.outs = append(c.outs, uint64(k))
		}
	}
	return c
}

// cfgParams: fee parameters.
func cfgParams() changeCfg {
	warm()
	i := v.Choose("param", 6)
	return changeCfg{a: []uint64{0, 0, 1, 1, 500, 100000}[i], b: []uint64{0, 10, 0, 65000, 1 << 32, 30}[i], ins: []uint64{amount("i")}, outs: []uint64{amount("o")}, addr: entAddr("c"), nk: 1}
}

// cfgFixed: every fixed fee below 2^32 and every input amount below 2^32.
func cfgFixed() changeCfg {
	warm()
	b := uint64(v.U32("b"))
	i := uint64(v.U32("i"))
	return changeCfg{a: 44, b: b, ins: []uint64{i}, outs: []uint64{1000000}, addr: entAddr("c"), nk: 1}
}

func H_change_amounts() { conserves(cfgAmounts()) }
func H_change_kinds()   { conserves(cfgKinds()) }
func H_change_many()    { conserves(cfgMany()) }
func H_change_array()   { conserves(cfgArray()) }
func H_change_params()  { conserves(cfgParams()) }
func H_change_fixed()   { conserves(cfgFixed()) }
func H_change_wide()    { conserves(cfgWide()) }
func H_change_asked()   { conserves(cfgAsked()) }
func H_cover_amounts()  { covers(cfgAmounts()) }
func H_cover_kinds()    { covers(cfgKinds()) }
func H_cover_many()     { covers(cfgMany()) }
func H_cover_array()    { covers(cfgArray()) }
func H_cover_params()   { covers(cfgParams()) }
func H_cover_fixed()    { covers(cfgFixed()) }
func H_cover_wide()     { covers(cfgWide()) }
func H_cover_asked()    { covers(cfgAsked()) }

// ---- C14 ----

func query(b *tx.TxBuilder, op int) {
	t := b.Tx()
	switch op {
	case 0:
		b.MinFee()
	case 1:
		t.Fee(fees.NewLinearFee(44, 155381))
	case 2:
		t.Hash()
	case 3:
		t.Bytes()
	default:
		t.Hex()
	}
}

func proto(a, b uint64) protocol.Protocol {
	return protocol.Protocol{TxFeePerByte: uint(a), TxFeeFixed: uint(b)}
}

// big is a number of the 4-byte CBOR form below 2^22.
func big(name string) uint64 {
	n := v.U32(name)
	v.Assume(v.And(n >= 1<<16, n < 1<<22))
	return uint64(n)
}

func queried(ins []in, outs []out, fee uint64, ttl uint32, meta interface{}, nw, nk int, ops ...int) {
	bld := tx.NewTxBuilder(proto(44, 155381), nil)
	for k := 0; k < nk; k++ {
		bld.Sign(bip32.XPrv(make([]byte, 96)))
	}
	fill(bld.Tx(), ins, outs, fee, ttl)
	var ks []*tx.VKeyWitness
	for k := 0; k < nw; k++ {
		n := strconv.Itoa(k)
		ks = append(ks, tx.NewVKeyWitness(v.Bytes("k"+n, 32), v.Bytes("s"+n, 64)))
	}
	bld.Tx().Witness = tx.NewTXWitness(ks...)
	bld.Tx().Metadata = meta
	b0, err := bld.Tx().Bytes()
	v.Assert(err == nil, "transaction serializes")
	h0, err := bld.Tx().Hash()
	v.Assert(err == nil, "transaction hashes")
	was := append([]byte{}, b0...)
	x0, err := bld.Tx().Hex()
	v.Assert(err == nil, "transaction has a hexadecimal form")
	for _, op := range ops {
		query(bld, op)
	}
	v.Assert(v.Eq(b0, was), "queries do not change the bytes returned before")
	v.Assert(v.EqStr(x0, hex.EncodeToString(was)), "queries do not change the hexadecimal form returned before")
	b1, err := bld.Tx().Bytes()
	v.Assert(err == nil, "transaction still serializes")
	h1, err := bld.Tx().Hash()
	v.Assert(err == nil, "transaction still hashes")
	v.Assert(v.Eq(b0, b1), "queries do not change the serialized transaction")
	v.Assert(v.Eq(h0[:], h1[:]), "queries do not change the transaction id")
	v.Reach("end")
}

// H_two_*: a transaction asked for after another one, which may share parts with it, is
// serialized, hashed and priced by itself.
func H_two_bytes() { two([]int{0, 3}[v.Choose("then", 2)]) }
func H_two_id()    { two(1) }
func H_two_fee()   { two(2) }

func two(then int) {
	warm()
	i, o, ttl := in{v.Bytes("h", 32), 1, 9000000}, out{entAddr("o"), big("amt")}, uint32(big("ttl"))
	t := tx.NewTx()
	fill(t, []in{i}, []out{o}, 170000, ttl)
	ws := []wit{{v.Bytes("k", 32), v.Bytes("s", 64)}}
	t.Witness.Keys = append(t.Witness.Keys, tx.NewVKeyWitness(ws[0].key, ws[0].sig))
	meta := v.Bytes("md", 6)
	t.Metadata = meta
	t.Hash()
	t.Bytes()
	t.Hex()
	t.Fee(fees.NewLinearFee(44, 155381))

	u := tx.NewTx()
	j, p, xs := i, o, ws
	fee := uint64(170000)
	switch v.Choose("differs", 8) {
	case 0:
		j.hash = v.Bytes("h2", 32)
	case 1:
		j.index = 65535
	case 2:
		p.addr = baseAddr("o2")
	case 3:
		p.amount = big("amt2")
	case 4:
		fee = big("fee")
	case 5:
		ttl = uint32(big("ttl2"))
	case 6:
		meta = v.Bytes("md2", 7)
	case 7:
		xs = []wit{{v.Bytes("k2", 32), v.Bytes("s2", 64)}, ws[0]}
	}
	fill(u, []in{j}, []out{p}, fee, ttl)
	u.Metadata = meta
	for _, w := range xs {
		u.Witness.Keys = append(u.Witness.Keys, tx.NewVKeyWitness(w.key, w.sig))
	}
	body := refBody([]in{j}, []out{p}, fee, ttl, hash256(bstr(meta)))
	want := refTx(body, refWit(xs), bstr(meta))
	asks(u, then, body, want)
	v.Reach("end")
}

// H_shared: transactions filled from one list, which the caller goes on using, are each
// serialized with what was added to them.
func H_shared() {
	warm()
	is := []in{{v.Bytes("h0", 32), 1, 9}, {v.Bytes("h1", 32), 2, 9}, {v.Bytes("h2", 32), 300, 9}, {v.Bytes("h3", 32), 65535, 9}}
	os := []out{{entAddr("o0"), big("amt0")}, {entAddr("o1"), 5}, {baseAddr("o2"), 6}, {entAddr("o3"), 70000}}
	var inputs []*tx.TxInput
	var outputs []*tx.TxOutput
	for k := range is {
		inputs = append(inputs, &tx.TxInput{TxHash: is[k].hash, Index: is[k].index, Amount: uint(is[k].amount)})
		outputs = append(outputs, tx.NewTxOutput(os[k].addr, uint(os[k].amount)))
	}
	n := 1 + v.Choose("n", 2)
	addI, addO := inputs[:n:n+1], outputs[:n:n+1]
	keepI, keepO := inputs[n], outputs[n]
	var ts [2]*tx.Tx
	var bs [2]*tx.TxBuilder
	through := v.Choose("through", 2) == 1
	for k := range ts {
		bs[k] = tx.NewTxBuilder(proto(44, 155381), nil)
		ts[k] = bs[k].Tx()
	}
	add := func(k int, i []*tx.TxInput, o []*tx.TxOutput) {
		if through {
			bs[k].AddInputs(i...)
			bs[k].AddOutputs(o...)
		} else {
			ts[k].AddInputs(i...)
			ts[k].AddOutputs(o...)
		}
	}
	add(0, addI, addO)
	add(1, addI, addO)
	add(0, inputs[3:], outputs[3:])
	add(1, []*tx.TxInput{keepI}, []*tx.TxOutput{keepO})
	v.Assert(inputs[n] == keepI && outputs[n] == keepO, "adding leaves the caller's lists alone")
	addI[0], addO[0] = inputs[3], outputs[3]
	for k, last := range []int{3, n} {
		ts[k].SetFee(170000)
		ei := append(append([]in{}, is[:n]...), is[last])
		eo := append(append([]out{}, os[:n]...), os[last])
		asks(ts[k], 0, refBody(ei, eo, 170000, 0, nil), refTx(refBody(ei, eo, 170000, 0, nil), refWit(nil), nil))
	}
	v.Reach("end")
}

// H_stale_*: a transaction that was asked for its fee, hash or bytes and then changed is
// serialized, hashed and priced as it is now.
func H_stale_bytes() { stale([]int{0, 3}[v.Choose("then", 2)]) }
func H_stale_id()    { stale(1) }
func H_stale_fee()   { stale(2) }

func stale(then int) {
	warm()
	i, o := in{v.Bytes("h", 32), 1, 9000000}, out{entAddr("o"), big("amt")}
	i2, o2 := in{v.Bytes("h2", 32), 300, 7}, out{baseAddr("o2"), big("amt2")}
	ins, outs, fee, ttl := []in{i}, []out{o}, uint64(170000), uint32(9)
	bld := tx.NewTxBuilder(proto(44, 155381), nil)
	t := bld.Tx()
	fill(t, ins, outs, fee, ttl)
	ws := []wit{{v.Bytes("k", 32), v.Bytes("s", 64)}}
	t.Witness.Keys = append(t.Witness.Keys, tx.NewVKeyWitness(ws[0].key, ws[0].sig))
	var meta []byte
	if v.Choose("meta", 2) == 1 {
		meta = v.Bytes("md", 6)
		t.Metadata = meta
	}
	query(bld, v.Choose("q", 5))
	valid := byte(0xf5)
	switch v.Choose("change", 14) {
	case 0:
		t.AddInputs(&tx.TxInput{TxHash: i2.hash, Index: i2.index, Amount: uint(i2.amount)})
		ins = append(ins, i2)
	case 1:
		t.AddOutputs(tx.NewTxOutput(o2.addr, uint(o2.amount)))
		outs = append(outs, o2)
	case 2:
		fee = big("fee")
		t.SetFee(uint(fee))
	case 3:
		ttl = uint32(big("ttl"))
		bld.SetTTL(ttl)
	case 4:
		meta = v.Bytes("md2", 6)
		t.Metadata = meta
	case 5:
		meta = v.Bytes("md2", 30)
		t.Metadata = meta
	case 6:
		ws = append(ws, wit{v.Bytes("k2", 32), v.Bytes("s2", 64)})
		t.Witness.Keys = append(t.Witness.Keys, tx.NewVKeyWitness(ws[1].key, ws[1].sig))
	case 7:
		ws[0].sig = v.Bytes("s2", 64)
		t.Witness.Keys[0].Signature = ws[0].sig
	case 8:
		outs[0].amount = big("amt2")
		t.Body.Outputs[0].Amount = uint(outs[0].amount)
	case 9:
		outs[0].addr = o2.addr
		t.Body.Outputs[0].Address = o2.addr
	case 10:
		ins[0].index = 65535
		t.Body.Inputs[0].Index = 65535
	case 11:
		ins[0] = i2
		t.Body.Inputs[0] = &tx.TxInput{TxHash: i2.hash, Index: i2.index, Amount: uint(i2.amount)}
	case 12:
		t.Valid = false
		valid = 0xf4
	case 13:
		outs = outs[:0]
		t.Body.Outputs = t.Body.Outputs[:0]
	}
	var mb, mh []byte
	if meta != nil {
		mb = bstr(meta)
		mh = hash256(mb)
	}
	body := refBody(ins, outs, fee, ttl, mh)
	want := refTx(body, refWit(ws), mb)
	want[1+len(body)+len(refWit(ws))] = valid
	asks(t, then, body, want)
	v.Reach("end")
}

// asks compares one form of a transaction with what it must be.
func asks(t *tx.Tx, then int, body, want []byte) {
	switch then {
	case 0:
		b, err := t.Bytes()
		v.Assert(err == nil, "transaction serializes")
		v.Assert(v.Eq(b, want), "a transaction serializes as it is now")
	case 1:
		h, err := t.Hash()
		v.Assert(err == nil, "transaction hashes")
		v.Assert(v.Eq(h[:], hash256(body)), "the id of a transaction is that of its body now")
	case 2:
		f, err := t.Fee(fees.NewLinearFee(44, 155381))
		v.Assert(err == nil, "fee is computed")
		v.Assert(uint64(f) == 44*uint64(len(want))+155381, "the fee of a transaction is that of its size now")
	case 3:
		x, err := t.Hex()
		v.Assert(err == nil, "transaction has a hexadecimal form")
		v.Assert(v.EqStr(x, hex.EncodeToString(want)), "a transaction has the hexadecimal form of what it is now")
	}
}

// H_query: any two queries leave the serialized transaction, its id, fee and witnesses alone.
func H_query() {
	warm()
	i := in{v.Bytes("h", 32), 1, 9000000}
	o := out{entAddr("o"), big("amt")}
	queried([]in{i}, []out{o}, big("fee"), uint32(big("ttl")), nil, 1, 0, v.Choose("q1", 5), v.Choose("q2", 5))
}

// H_query_shape: the same over shapes: no fee, no ttl, metadata, several inputs, outputs,
// witnesses and keys, and inputs that do not cover the outputs.
func H_query_shape() {
	warm()
	i := in{v.Bytes("h", 32), 1, 9000000}
	o := out{baseAddr("o"), big("amt")}
	fee, ttl := big("fee"), uint32(big("ttl"))
	ins, outs, nw, nk := []in{i}, []out{o}, 1, 0
	var meta interface{}
	switch v.Choose("shape", 7) {
	case 0:
		fee, nw = 0, 0
	case 1:
		ttl = 0
	case 2:
		meta = v.Bytes("md", 5)
	case 3:
		ins = append(ins, in{v.Bytes("h2", 32), 0, 7})
		outs = append(outs, out{entAddr("o2"), big("amt2")})
	case 4:
		nw, nk = 2, 3
	case 5:
		ins[0].amount = 3
	case 6:
		ins, outs = nil, nil
	}
	queried(ins, outs, fee, ttl, meta, nw, nk, v.Choose("q1", 5))
}

// H_query_sizes: the same over numbers of every encoded size, zero included, with inputs
// that cover the outputs and the fee or do not.
func H_query_sizes() {
	warm()
	co := v.Choose("co", 5)
	amt := sized("amt", co)
	v.Assume(amt < 1<<62)
	i := in{v.Bytes("h", 32), uint16(sized("ix", co%3)), uint64([]int{0, 1 << 20, 1 << 62}[v.Choose("iamt", 3)])}
	o := out{entAddr("o"), amt}
	queried([]in{i}, []out{o}, sized("fee", (co+2)%5), sized32("ttl", (2*co)%5), nil, 0, 1, v.Choose("q1", 5))
}

// H_query_three: three queries in any order.
func H_query_three() {
	warm()
	i := in{v.Bytes("h", 32), 1, 9000000}
	o := out{entAddr("o"), big("amt")}
	queried([]in{i}, []out{o}, big("fee"), uint32(big("ttl")), v.Bytes("md", 3), 1, 0, v.Choose("q1", 5), v.Choose("q2", 5), v.Choose("q3", 5))
}

// ---- C10 ----

func hash256(b []byte) []byte { return v.HashUF("blake2b", 32, nil, b) }

// H_id: the id is the hash of the body bytes in the serialized transaction.
func H_id() {
	warm()
	ca, cf := v.Choose("ci", 5), v.Choose("cj", 5)
	i := in{v.Bytes("h", 32), uint16(sized("ix", (ca+cf)%3)), 0}
	o := out{entAddr("o"), sized("amt", ca)}
	if cf == ca {
		o.addr = anyAddr("o")
	}
	t := tx.NewTx()
	fee, ttl := sized("fee", cf), sized32("ttl", (ca+2*cf)%5)
	fill(t, []in{i}, []out{o}, fee, ttl)
	h, err := t.Hash()
	v.Assert(err == nil, "transaction hashes")
	s, err := t.Bytes()
	v.Assert(err == nil, "transaction serializes")
	n := len(s) - 3 // array head, empty witness set, true, null
	v.Assert(n > 1, "length")
	v.Assert(v.Eq(h[:], hash256(s[1:n])), "id is the hash of the serialized body")
	v.Reach("end")
}

func bound(t *tx.Tx, ins []in, outs []out, fee uint64, ttl uint32) {
	s, h := boundOnce(t, ins, outs, fee, ttl)
	s2, err := t.Bytes()
	v.Assert(err == nil, "transaction serializes again")
	v.Assert(v.Eq(s, s2), "serializing again gives the same bytes")
	h2, err := t.Hash()
	v.Assert(err == nil, "transaction hashes again")
	v.Assert(v.Eq(h[:], h2[:]), "hashing again gives the same id")
	v.Reach("end")
}

func boundOnce(t *tx.Tx, ins []in, outs []out, fee uint64, ttl uint32) ([]byte, [32]byte) {
	h, err := t.Hash()
	v.Assert(err == nil, "transaction hashes")
	s, err := t.Bytes()
	v.Assert(err == nil, "transaction serializes")
	dummy := refBody(ins, outs, fee, ttl, make([]byte, 32))
	k := 1 + len(dummy)
	v.Assert(len(s) > k+2, "serialized size")
	meta := s[k+2:]
	body := refBody(ins, outs, fee, ttl, hash256(meta))
	v.Assert(v.Eq(s[1:k], body), "body carries the hash of the serialized metadata")
	v.Assert(v.And(s[0] == 0x84, s[k] == 0xa0, s[k+1] == 0xf5), "transaction layout around the metadata")
	v.Assert(v.Eq(h[:], hash256(body)), "id is the hash of the body with the metadata hash")
	return s, h
}

// H_meta_plain: byte string, text and number metadata.
func H_meta_plain() {
	warm()
	t := tx.NewTx()
	i, o := in{v.Bytes("h", 32), 3, 0}, out{entAddr("o"), 2000000}
	fill(t, []in{i}, []out{o}, 180000, 5)
	switch v.Choose("kind", 8) {
	case 4:
		t.Metadata = map[uint64]string{}
	case 5:
		t.Metadata = []interface{}{false, 0, "", nil, []byte{}, -int64(v.U16("neg")), 1.5}[v.Choose("small", 7)]
		if t.Metadata == nil {
			return
		}
	case 6:
		t.Metadata = &note{Label: sized("n64", v.Choose("nc", 5)), Text: "text", Data: v.Bytes("md", 3)}
	case 7:
		t.Metadata = cbor.RawMessage(cat([]byte{0x43}, v.Bytes("md", 3)))
	case 0:
		n := v.Choose("n", 36)
		if n >= 30 {
			n = []int{64, 65, 255, 256, 300, 65536}[n-30]
		}
		t.Metadata = v.Bytes("md", n)
	case 1:
		t.Metadata = sized("n64", v.Choose("nc", 5))
	case 2:
		t.Metadata = []interface{}{sized("n64", v.Choose("nc", 5)), v.Bytes("md", 3), "text", true}
	case 3:
		t.Metadata = "a longer text of metadata, 40 characters"
	}
	bound(t, []in{i}, []out{o}, 180000, 5)
}

type note struct {
	Label uint64 `cbor:"0,keyasint"`
	Text  string `cbor:"txt"`
	Data  []byte `cbor:",omitempty"`
	skip  int
}

// H_meta_map: metadata holding Go maps, in every iteration order.
func H_meta_map() {
	warm()
	t := tx.NewTx()
	i, o := in{v.Bytes("h", 32), 3, 0}, out{entAddr("o"), 2000000}
	fill(t, []in{i}, []out{o}, 180000, 5)
	n := uint64(v.U32("n32"))
	v.Assume(n >= 1<<16)
	switch v.Choose("kind", 5) {
	case 3:
		// keys whose order depends on whether length or bytes come first
		k := int64(v.U16("k"))
		v.Assume(k >= 256)
		t.Metadata = map[int64]uint64{k: n, -1 - int64(v.Byte("neg")&7): 2}
	case 4:
		t.Metadata = []interface{}{map[string]uint64{"zz": n, "b": 1}, map[uint64]bool{}}
	case 0:
		a, b := v.Byte("a"), v.Byte("b")
		v.Assume(v.And(a < 24, b < 24, a < b))
		t.Metadata = map[uint64]string{uint64(a): "x", uint64(b): "yy"}
	case 1:
		t.Metadata = map[string]interface{}{"a": 1, "bb": n}
	case 2:
		t.Metadata = map[uint64]interface{}{721: map[string]uint64{"p": n, "q": 2}}
	}
	bound(t, []in{i}, []out{o}, 180000, 5)
}

// H_meta_map3: three entries.
func H_meta_map3() {
	warm()
	t := tx.NewTx()
	i, o := in{v.Bytes("h", 32), 3, 0}, out{entAddr("o"), 2000000}
	fill(t, []in{i}, []out{o}, 180000, 5)
	n := uint64(v.U32("n32"))
	v.Assume(n >= 1<<16)
	t.Metadata = map[interface{}]interface{}{"a": 1, 7: n, "ccc": v.Bytes("md", 4)}
	boundOnce(t, []in{i}, []out{o}, 180000, 5)
	v.Reach("end")
}

// H_meta_change: replacing the metadata replaces its hash.
func H_meta_change() {
	warm()
	t := tx.NewTx()
	i, o := in{v.Bytes("h", 32), 3, 0}, out{entAddr("o"), 2000000}
	fill(t, []in{i}, []out{o}, 180000, 5)
	t.Metadata = v.Bytes("md0", 4)
	switch v.Choose("first", 3) {
	case 0:
		t.Hash()
	case 1:
		t.Bytes()
	case 2:
		t.Fee(fees.NewLinearFee(44, 155381))
	}
	t.Metadata = v.Bytes("md1", 4+v.Choose("n", 2))
	bound(t, []in{i}, []out{o}, 180000, 5)
}

// ---- C11 ----

func keys(n int) []bip32.XPrv {
	var ks []bip32.XPrv
	for k := 0; k < n; k++ {
		b := v.Bytes("key"+strconv.Itoa(k), 96)
		v.Assume(b[31] < 128)
		ks = append(ks, bip32.XPrv(b))
	}
	return ks
}

// pub and sign are the public key and signature of a key, by their definitions.
func pub(k []byte) []byte { return v.HashUF("ed-basemul", 32, k[:32]) }

func sign(k, m []byte) []byte {
	r := v.HashUF("ed-reduce", 32, v.HashUF("sha512", 64, cat(k[32:64], m)))
	rb := v.HashUF("ed-basemul", 32, r)
	h := v.HashUF("ed-reduce", 32, v.HashUF("sha512", 64, cat(rb, pub(k), m)))
	return cat(rb, v.HashUF("ed-muladd", 32, h, k[:32], r))
}

func witnesses(b []byte, body []byte, ks []bip32.XPrv, id []byte, meta []byte) {
	var ws []wit
	for _, k := range ks {
		ws = append(ws, wit{pub(k), sign(k, id)})
	}
	v.Observe("built", b)
	v.Assert(v.Eq(b, refTx(body, refWit(ws), meta)), "one witness per key, in order, over the returned body")
}

// H_build: 0 to 2 keys, some given at construction and some by Sign.
func H_build() {
	warm()
	n := v.Choose("nk", 4)
	ks := keys(n)
	early := v.Choose("early", 4)
	if early > n {
		return
	}
	bld := tx.NewTxBuilder(proto(44, 155381), append([]bip32.XPrv{}, ks[:early]...))
	i, o := in{v.Bytes("h", 32), uint16(sized("ix", 2)), 9000000}, out{entAddr("o"), 2000000}
	bld.AddInputs(&tx.TxInput{TxHash: i.hash, Index: i.index, Amount: uint(i.amount)})
	bld.AddOutputs(tx.NewTxOutput(o.addr, uint(o.amount)))
	ttl := uint32(big("ttl"))
	bld.SetTTL(ttl)
	bld.Tx().SetFee(170000)
	for _, k := range ks[early:] {
		bld.Sign(k)
	}
	rounds := 1 + v.Choose("rounds", 2)
	body := refBody([]in{i}, []out{o}, 170000, ttl, nil)
	id := hash256(body)
	for r := 0; r < rounds; r++ {
		t, err := bld.Build()
		v.Assert(err == nil, "transaction builds")
		b, err := t.Bytes()
		v.Assert(err == nil, "built transaction serializes")
		witnesses(b, body, ks, id, nil)
	}
	v.Reach("end")
}

// H_build_many: the number of keys at the boundaries of the array head.
func H_build_many() {
	warm()
	n := []int{4, 9, 16, 23, 24, 25}[v.Choose("nk", 6)]
	ks := keys(n)
	split := []int{0, n / 2, n}[v.Choose("split", 3)]
	bld := tx.NewTxBuilder(proto(44, 155381), append([]bip32.XPrv{}, ks[:split]...))
	i, o := in{v.Bytes("h", 32), 3, 9000000}, out{entAddr("o"), 2000000}
	bld.AddInputs(&tx.TxInput{TxHash: i.hash, Index: i.index, Amount: uint(i.amount)})
	bld.AddOutputs(tx.NewTxOutput(o.addr, uint(o.amount)))
	for _, k := range ks[split:] {
		bld.Sign(k)
	}
	t, err := bld.Build()
	v.Assert(err == nil, "transaction builds")
	b, err := t.Bytes()
	v.Assert(err == nil, "built transaction serializes")
	body := refBody([]in{i}, []out{o}, 0, 0, nil)
	witnesses(b, body, ks, hash256(body), nil)
	v.Reach("end")
}

// H_build_256: more keys than a byte counts.
func H_build_256() {
	warm()
	ks := keys(256)
	split := []int{100, 256}[v.Choose("split", 2)]
	bld := tx.NewTxBuilder(proto(44, 155381), append([]bip32.XPrv{}, ks[:split]...))
	i, o := in{v.Bytes("h", 32), 3, 9000000}, out{entAddr("o"), 2000000}
	bld.AddInputs(&tx.TxInput{TxHash: i.hash, Index: i.index, Amount: uint(i.amount)})
	bld.AddOutputs(tx.NewTxOutput(o.addr, uint(o.amount)))
	for _, k := range ks[split:] {
		bld.Sign(k)
	}
	t, err := bld.Build()
	v.Assert(err == nil, "transaction builds")
	b, err := t.Bytes()
	v.Assert(err == nil, "built transaction serializes")
	body := refBody([]in{i}, []out{o}, 0, 0, nil)
	witnesses(b, body, ks, hash256(body), nil)
	v.Reach("end")
}

// H_rebuild: changing the body and building again signs the new body only.
func H_rebuild() {
	warm()
	ks := keys(2)
	bld := tx.NewTxBuilder(proto(44, 155381), nil)
	i, o := in{v.Bytes("h", 32), 2, 9000000}, out{entAddr("o"), 2000000}
	bld.AddInputs(&tx.TxInput{TxHash: i.hash, Index: i.index, Amount: uint(i.amount)})
	bld.AddOutputs(tx.NewTxOutput(o.addr, uint(o.amount)))
	bld.Sign(ks[0])
	if _, err := bld.Build(); err != nil {
		v.Fail("transaction builds")
	}
	o2 := out{entAddr("o2"), big("amt")}
	bld.AddOutputs(tx.NewTxOutput(o2.addr, uint(o2.amount)))
	bld.SetTTL(99)
	bld.Sign(ks[1])
	t, err := bld.Build()
	v.Assert(err == nil, "transaction builds again")
	b, err := t.Bytes()
	v.Assert(err == nil, "built transaction serializes")
	body := refBody([]in{i}, []out{o, o2}, 0, 99, nil)
	witnesses(b, body, ks, hash256(body), nil)
	v.Reach("end")
}

// H_build_kept: a transaction that Build returned stays as it was signed, whatever is done
// with the builder afterwards, and changing it does not reach what the builder returns next.
func H_build_kept() {
	warm()
	ks := keys(2)
	bld := tx.NewTxBuilder(proto(44, 155381), nil)
	i, o := in{v.Bytes("h", 32), 2, 9000000}, out{entAddr("o"), 2000000}
	i2, o2, o3 := in{v.Bytes("h2", 32), 5, 9000000}, out{entAddr("o2"), big("amt")}, out{entAddr("o3"), 3000000}
	bld.AddInputs(&tx.TxInput{TxHash: i.hash, Index: i.index, Amount: uint(i.amount)})
	bld.AddOutputs(tx.NewTxOutput(o.addr, uint(o.amount)))
	bld.SetTTL(7)
	bld.Tx().SetFee(170000)
	var meta, hash []byte
	if v.Choose("meta", 2) == 1 {
		md := v.Bytes("md", 6)
		bld.Tx().Metadata = md
		meta, hash = bstr(md), hash256(bstr(md))
	}
	bld.Sign(ks[0])
	t, err := bld.Build()
	v.Assert(err == nil, "transaction builds")
	body := refBody([]in{i}, []out{o}, 170000, 7, hash)
	body2, meta2, signers := body, meta, ks[:1]
	then := v.Choose("then", 8)
	switch then {
	case 0:
		bld.AddInputs(&tx.TxInput{TxHash: i2.hash, Index: i2.index, Amount: uint(i2.amount)})
		body2 = refBody([]in{i, i2}, []out{o}, 170000, 7, hash)
	case 1:
		bld.AddOutputs(tx.NewTxOutput(o2.addr, uint(o2.amount)))
		body2 = refBody([]in{i}, []out{o, o2}, 170000, 7, hash)
	case 2:
		bld.SetTTL(99)
		body2 = refBody([]in{i}, []out{o}, 170000, 99, hash)
	case 3:
		bld.Tx().SetFee(200000)
		body2 = refBody([]in{i}, []out{o}, 200000, 7, hash)
	case 4:
		bld.Sign(ks[1])
		signers = ks
	case 5:
		md := v.Bytes("md2", 5)
		bld.Tx().Metadata = md
		meta2 = bstr(md)
		body2 = refBody([]in{i}, []out{o}, 170000, 7, hash256(meta2))
	case 6:
		// the returned transaction gets an output of its own, the builder another one
		t.AddOutputs(tx.NewTxOutput(o2.addr, uint(o2.amount)))
		bld.AddOutputs(tx.NewTxOutput(o3.addr, uint(o3.amount)))
		b, err := t.Bytes()
		v.Assert(err == nil, "transaction serializes")
		own := []wit{{pub(ks[0]), sign(ks[0], hash256(body))}}
		v.Assert(v.Eq(b, refTx(refBody([]in{i}, []out{o, o2}, 170000, 7, hash), refWit(own), meta)), "an output added to a built transaction stays its own")
		body2 = refBody([]in{i}, []out{o, o3}, 170000, 7, hash)
	case 7:
		bld.AddChangeIfNeeded(o3.addr)
		bld.MinFee()
	}
	t2, err := bld.Build()
	v.Assert(err == nil, "transaction builds again")
	b2, err := t2.Bytes()
	v.Assert(err == nil, "built transaction serializes")
	if then != 7 {
		witnesses(b2, body2, signers, hash256(body2), meta2)
	}
	if then != 6 {
		b, err := t.Bytes()
		v.Assert(err == nil, "built transaction serializes")
		witnesses(b, body, ks[:1], hash256(body), meta)
	}
	v.Reach("end")
}

// H_build_meta: the signed body carries the hash of the metadata, also after it is replaced.
func H_build_meta() {
	warm()
	ks := keys(1)
	bld := tx.NewTxBuilder(proto(44, 155381), ks)
	i, o := in{v.Bytes("h", 32), 2, 9000000}, out{entAddr("o"), 2000000}
	bld.AddInputs(&tx.TxInput{TxHash: i.hash, Index: i.index, Amount: uint(i.amount)})
	bld.AddOutputs(tx.NewTxOutput(o.addr, uint(o.amount)))
	bld.Tx().SetFee(170000)
	for r := 0; r < 2; r++ {
		md := v.Bytes([]string{"md0", "md1"}[r], 6)
		bld.Tx().Metadata = md
		t, err := bld.Build()
		v.Assert(err == nil, "transaction builds")
		b, err := t.Bytes()
		v.Assert(err == nil, "built transaction serializes")
		body := refBody([]in{i}, []out{o}, 170000, 0, hash256(bstr(md)))
		witnesses(b, body, ks, hash256(body), bstr(md))
	}
	v.Reach("end")
}

// H_build_two: builders made from the same slice of keys do not share what is added later.
func H_build_two() {
	warm()
	ks := keys(3)
	given := make([]bip32.XPrv, 1, 1+v.Choose("spare", 3))
	given[0] = ks[0]
	i, o := in{v.Bytes("h", 32), 2, 9000000}, out{entAddr("o"), 2000000}
	var bs [2]*tx.TxBuilder
	for k := range bs {
		bs[k] = tx.NewTxBuilder(proto(44, 155381), given)
		bs[k].AddInputs(&tx.TxInput{TxHash: i.hash, Index: i.index, Amount: uint(i.amount)})
		bs[k].AddOutputs(tx.NewTxOutput(o.addr, uint(o.amount)))
	}
	for k := range bs {
		bs[k].Sign(ks[1+k])
	}
	body := refBody([]in{i}, []out{o}, 0, 0, nil)
	var ts [2]tx.Tx
	var err error
	for k := range bs {
		ts[k], err = bs[k].Build()
		v.Assert(err == nil, "transaction builds")
	}
	for k := range bs {
		b, err := ts[k].Bytes()
		v.Assert(err == nil, "built transaction serializes")
		witnesses(b, body, []bip32.XPrv{ks[0], ks[1+k]}, hash256(body), nil)
	}
	v.Reach("end")
}

// ---- C26 ----

// unserializable is metadata that has no CBOR form, bare or inside something that has one.
func unserializable() interface{} {
	var x interface{}
	switch v.Choose("kind", 2) {
	case 0:
		x = func() {}
	case 1:
		x = make(chan int)
	}
	switch v.Choose("in", 4) {
	case 0:
		return x
	case 1:
		return []interface{}{v.Bytes("m", 3), x}
	case 2:
		return map[interface{}]interface{}{uint64(v.U32("label")): x}
	}
	return map[uint64]interface{}{674: []interface{}{"a", []interface{}{x}}}
}

// H_unserializable: a transaction that has no serialization is reported as such by everything that needs it.
func H_unserializable() {
	warm()
	bld := tx.NewTxBuilder(proto(44, 155381), []bip32.XPrv{key(0)})
	bld.AddInputs(&tx.TxInput{TxHash: v.Bytes("h", 32), Index: v.U16("ix"), Amount: 9000000})
	bld.AddOutputs(tx.NewTxOutput(entAddr("o"), 2000000))
	bld.SetTTL(v.U32("ttl"))
	bld.Tx().SetFee(uint(v.U32("fee")))
	if v.Choose("before", 2) == 1 {
		bld.Tx().Metadata = v.Bytes("m0", 4)
		if _, err := bld.Build(); err != nil {
			v.Fail("transaction builds")
		}
	}
	bld.Tx().Metadata = unserializable()
	t := bld.Tx()
	var err error
	switch v.Choose("op", 6) {
	case 0:
		_, err = t.Bytes()
	case 1:
		_, err = t.Hex()
	case 2:
		_, err = t.Hash()
	case 3:
		_, err = t.Fee(fees.NewLinearFee(44, 155381))
	case 4:
		_, err = bld.Build()
	case 5:
		err = t.CalculateAuxiliaryDataHash()
	}
	v.Assert(err != nil, "a transaction that does not serialize is reported")
	v.Reach("end")
}

// H_unserializable_fee: asking for the fee or change of such a transaction ends.
func H_unserializable_fee() {
	warm()
	bld := tx.NewTxBuilder(proto(44, 155381), nil)
	bld.AddInputs(&tx.TxInput{TxHash: v.Bytes("h", 32), Index: 1, Amount: uint(v.U32("amt"))})
	bld.AddOutputs(tx.NewTxOutput(entAddr("o"), 2000000))
	bld.Tx().Metadata = unserializable()
	if v.Choose("op", 2) == 0 {
		bld.MinFee()
	} else {
		bld.AddChangeIfNeeded(baseAddr("c"))
	}
	_, err := bld.Build()
	v.Assert(err != nil, "a transaction that does not serialize is reported")
	v.Reach("end")
}

// ---- C27 ----

// minimum asks for the minimum fee, sets it, adds the rest as change if asked to, builds and signs.
func minimum(c changeCfg) {
	bld := tx.NewTxBuilder(proto(c.a, c.b), nil)
	c.signs(bld, false)
	var in, out uint64
	for k, a := range c.ins {
		bld.AddInputs(&tx.TxInput{TxHash: v.Bytes("h"+strconv.Itoa(k), 32), Index: uint16(k), Amount: uint(a)})
		in += a
	}
	c.asked(bld, 1)
	for k, a := range c.outs {
		bld.AddOutputs(tx.NewTxOutput(entAddr("o"+strconv.Itoa(k)), uint(a)))
		out += a
	}
	c.asked(bld, 2)
	bld.SetTTL(c.ttl)
	bld.Tx().Metadata = c.meta
	bld.Tx().SetFee(uint(c.prefee))
	c.asked(bld, 3)
	if c.ask > 0 {
		c.signs(bld, true)
	}
	c.asked(bld, 4)
	fee := uint64(bld.MinFee())
	v.Observe("fee", be(fee, 8))
	bld.Tx().SetFee(uint(fee))
	slack := c.a * uint64(57+2+1+9+2+8) // what a change output can cost
	with := v.Choose("with", 2) == 1
	if with {
		v.Assume(in > out+fee+slack)
		bld.AddOutputs(tx.NewTxOutput(c.addr, uint(in-out-fee)))
	}
	if c.nk == 0 {
		bld.Sign(key(0))
	}
	t, err := bld.Build()
	v.Assert(err == nil, "transaction builds")
	s, err := t.Bytes()
	v.Assert(err == nil, "transaction serializes")
	need := c.a*uint64(len(s)) + c.b
	if with {
		v.Assert(fee >= need, "minimum fee covers the signed transaction with change")
		v.Assert(fee <= need+c.a*uint64(57-len(c.addr.Bytes())+8), "minimum fee is that of the signed transaction with change")
		v.Reach("with")
		return
	}
	v.Assert(fee >= need, "minimum fee covers the signed transaction")
	v.Assert(fee <= need+slack, "minimum fee exceeds the transaction's by no more than a change output's cost")
	v.Reach("without")
}

func minCfg(c changeCfg) changeCfg {
	c.addr = baseAddr("c")
	return c
}

func H_min_amounts() { minimum(minCfg(cfgAmounts())) }
func H_min_kinds()   { minimum(minCfg(cfgKinds())) }
func H_min_many()    { minimum(minCfg(cfgMany())) }
func H_min_array()   { minimum(minCfg(cfgArray())) }
func H_min_params()  { minimum(minCfg(cfgParams())) }
func H_min_fixed()   { minimum(minCfg(cfgFixed())) }
func H_min_wide()    { minimum(minCfg(cfgWide())) }
func H_min_asked()   { minimum(minCfg(cfgAsked())) }
