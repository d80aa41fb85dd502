package node

import (
	"encoding/hex"
	"strconv"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/jm"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/v"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/world"
)

func anAddress() address.Address {
	h := make([]byte, 28)
	for i := range h {
		h[i] = byte(7 * i)
	}
	return address.NewEnterpriseAddress(network.TestNet(), address.NewKeyStakeCredential(h))
}

func aTx() tx.Tx {
	t := tx.NewTx()
	t.AddInputs(tx.NewTxInput(hex.EncodeToString(v.Bytes("txid", 32)), v.U16("ix"), 5))
	t.AddOutputs(tx.NewTxOutput(anAddress(), 1000000))
	t.SetFee(170000)
	return *t
}

// flags splits the arguments after the subcommand words into flags and values.
func flag(args []string, name string) (val string, n int) {
	for i := range args {
		if args[i] == name {
			n++
			if i+1 < len(args) {
				val = args[i+1]
			}
		}
	}
	return
}

// asked checks one recorded call: the subcommand, its flag and the network.
func asked(c world.Call, net *network.NetworkInfo, magic string, sub1, sub2, name, val string, mainnet bool) {
	want := 2
	v.Assert(len(c.Args) > 2, "the command line has a subcommand and flags")
	v.Assert(c.Args[0] == sub1 && c.Args[1] == sub2, "the subcommand is "+sub1+" "+sub2)
	if name != "" {
		got, n := flag(c.Args, name)
		v.Assert(n == 1, name+" is given once, as its own argument")
		if val != "" {
			v.Assert(got == val, name+" is followed by its value")
		}
		want += 2
	}
	_, nm := flag(c.Args, "--mainnet")
	got, nt := flag(c.Args, "--testnet-magic")
	if mainnet {
		v.Assert(nm == 1 && nt == 0, "mainnet is asked for with --mainnet")
		want++
	} else {
		v.Assert(nm == 0 && nt == 1, "other networks are asked for with --testnet-magic")
		v.Assert(got == magic, "--testnet-magic is followed by the network's magic")
		want += 2
	}
	v.Assert(len(c.Args) == want, "there are no further arguments")
}

func aNet() (net *network.NetworkInfo, mainnet bool, magic string) {
	switch v.Choose("net", 3) {
	case 0:
		net, mainnet = network.MainNet(), true
	case 1:
		return network.TestNet(), false, "1097911063"
	case 2:
		t := *network.TestNet()
		t.ProtocolMagic = v.U32("magic")
		net, mainnet = &t, false
	}
	return net, mainnet, strconv.FormatUint(uint64(net.ProtocolMagic), 10)
}

const header = "                           TxHash                                 TxIx        Amount\n--------------------------------------------------------------------------------------\n"

// H_cli_args: every operation asks the right network.
func H_cli_args() {
	net, mainnet, magic := aNet()
	switch v.Choose("op", 4) {
	case 0:
		n := node.NewCardanoCliNode(net, world.Command(s(header), false))
		_, err := n.UTXOs(anAddress())
		v.Assert(err == nil, "an empty listing is no error")
		cs := world.Calls()
		v.Assert(len(cs) == 1, "one command is run")
		asked(cs[0], net, magic, "query", "utxo", "--address", anAddress().String(), mainnet)
	case 1:
		n := node.NewCardanoCliNode(net, world.Command(doc(s("1"), s("2"), s("3"), s("4"), s("5"), s("6")), false))
		_, err := n.ProtocolParameters()
		v.Assert(err == nil, "a well-formed answer is no error")
		cs := world.Calls()
		v.Assert(len(cs) == 1, "one command is run")
		asked(cs[0], net, magic, "query", "protocol-parameters", "", "", mainnet)
	case 2:
		n := node.NewCardanoCliNode(net, world.Command(s("{\"slot\": 1}"), false))
		_, err := n.QueryTip()
		v.Assert(err == nil, "a well-formed answer is no error")
		cs := world.Calls()
		v.Assert(len(cs) == 1, "one command is run")
		asked(cs[0], net, magic, "query", "tip", "", "", mainnet)
	case 3:
		n := node.NewCardanoCliNode(net, world.Command(s("Transaction successfully submitted."), false))
		_, err := n.SubmitTx(aTx())
		v.Assert(err == nil, "a successful submission is no error")
		cs := world.Calls()
		v.Assert(len(cs) == 1, "one command is run")
		asked(cs[0], net, magic, "transaction", "submit", "--tx-file", "", mainnet)
	}
	v.Reach("asked")
}

// H_cli_twice: the second call on a node asks the same network as the first.
func H_cli_twice() {
	net, mainnet, magic := aNet()
	n := node.NewCardanoCliNode(net, world.Command(s(header), false))
	n.UTXOs(anAddress())
	n.UTXOs(anAddress())
	cs := world.Calls()
	v.Assert(len(cs) == 2, "two commands are run")
	asked(cs[1], net, magic, "query", "utxo", "--address", anAddress().String(), mainnet)
	v.Reach("twice")
}

type row struct {
	hash   []byte
	ix     []byte
	amount []byte
}

func (r row) line(tail string) []byte {
	return cat(s(hex.EncodeToString(r.hash)), s("     "), r.ix, s("        "), r.amount, s(tail), s("\n"))
}

func sameInput(in tx.TxInput, hash []byte, ix, amount uint64) {
	v.Assert(v.Eq(in.TxHash, hash), "the input has the listed hash")
	v.Assert(uint64(in.Index) == ix, "the input has the listed index")
	v.Assert(uint64(in.Amount) == amount, "the input has the listed lovelace amount")
}

// H_cli_row: a row of any hash, index and amount is returned as listed.
func H_cli_row() {
	tails := []string{" lovelace + TxOutDatumNone", " lovelace", " lovelace + 5 9a9693a9a37912a5097918f97918d15240c92ab729a0b7c4aa144d77.53554e444145 + TxOutDatumNone"}
	r := row{hash: v.Bytes("hash", 32)}
	tail := tails[0]
	switch v.Choose("vary", 3) {
	case 0:
		r.ix, r.amount = numeral("ix", 1, 2, 3, 4), s("5000000")
	case 1:
		r.ix, r.amount = digits("ix", 1), numeral("amount", 1, 6, 10, 19)
	case 2:
		tail = tails[v.Choose("tail", len(tails))]
		r.ix, r.amount = digits("ix", 2), digits("amount", 7)
	}
	n := node.NewCardanoCliNode(network.TestNet(), world.Command(cat(s(header), r.line(tail)), false))
	ins, err := n.UTXOs(anAddress())
	v.Assert(err == nil, "a well-formed listing is no error")
	v.Assert(len(ins) == 1, "one row gives one input")
	sameInput(ins[0], r.hash, value(r.ix), value(r.amount))
	v.Reach("row")
}

// H_cli_range: indices and amounts that do not fit are errors, those that fit are exact.
func H_cli_range() {
	r := row{hash: make([]byte, 32), ix: s("1"), amount: s("7")}
	big := false
	if v.Choose("field", 2) == 0 {
		r.ix = numeral("ix", 5, 6)
		big = value(r.ix) > 0xffff
	} else {
		r.amount, big = twenty("amount")
	}
	n := node.NewCardanoCliNode(network.TestNet(), world.Command(cat(s(header), r.line(" lovelace")), false))
	ins, err := n.UTXOs(anAddress())
	if err == nil {
		v.Assert(!big, "a number that does not fit is an error")
		v.Assert(len(ins) == 1, "one row gives one input")
		sameInput(ins[0], r.hash, value(r.ix), value(r.amount))
		v.Reach("fits")
	} else {
		v.Assert(big, "a number that fits is no error")
		v.Reach("refused")
	}
}

// H_cli_rows: rows are returned in order, all of them.
func H_cli_rows() {
	k := v.Choose("rows", 5)
	var rows []row
	data := s(header)
	for i := 0; i < k; i++ {
		c := string(rune('0' + i))
		r := row{hash: v.Bytes("hash"+c, 32), ix: digits("ix"+c, 1), amount: digits("amount"+c, 7)}
		rows = append(rows, r)
		data = cat(data, r.line(" lovelace + TxOutDatumNone"))
	}
	n := node.NewCardanoCliNode(network.TestNet(), world.Command(data, false))
	ins, err := n.UTXOs(anAddress())
	v.Assert(err == nil, "a well-formed listing is no error")
	v.Assert(len(ins) == k, "every row gives one input")
	for i, r := range rows {
		sameInput(ins[i], r.hash, value(r.ix), value(r.amount))
	}
	v.Reach("rows")
}

// H_cli_bad: a malformed row anywhere in the listing is an error.
func H_cli_bad() {
	k := 1 + v.Choose("rows", 3)
	at := v.Choose("at", k)
	data := s(header)
	for i := 0; i < k; i++ {
		c := string(rune('0' + i))
		r := row{hash: v.Bytes("hash"+c, 32), ix: digits("ix"+c, 1), amount: digits("amount"+c, 2)}
		l := r.line(" lovelace")
		if i == at {
			switch v.Choose("how", 11) {
			case 0: // the amount is missing
				l = cat(s(hex.EncodeToString(r.hash)), s("  "), r.ix, s("\n"))
			case 1: // only the hash
				l = cat(s(hex.EncodeToString(r.hash)), s("\n"))
			case 2: // an empty line
				l = s("\n")
			case 3: // the index is not a number
				b := v.Byte("junk")
				v.Assume(v.And(b > ' ', b < 0x7f, v.Or(b < '0', b > '9')))
				l = row{r.hash, []byte{b}, r.amount}.line(" lovelace")
			case 4: // the amount is not a number
				b := v.Byte("junk")
				v.Assume(v.And(b > ' ', b < 0x7f, v.Or(b < '0', b > '9')))
				l = row{r.hash, r.ix, cat(r.amount, []byte{b})}.line(" lovelace")
			case 5: // a negative index
				l = row{r.hash, cat(s("-"), r.ix), r.amount}.line(" lovelace")
			case 6: // a negative amount
				l = row{r.hash, r.ix, cat(s("-"), r.amount)}.line(" lovelace")
			case 8: // the hash is too short
				l = cat(s(hex.EncodeToString(r.hash[:31])), s("  "), r.ix, s("  "), r.amount, s(" lovelace\n"))
			case 9: // the hash is too long
				l = cat(s("00"), l)
			case 10: // the hash has a character that is no hexadecimal digit
				b := v.Byte("junk")
				v.Assume(v.And(b > ' ', b < 0x7f, v.Or(b < '0', b > '9'), v.Or(b < 'a', b > 'f'), v.Or(b < 'A', b > 'F')))
				l = append([]byte{}, l...)
				l[v.Choose("pos", 3)*31] = b
			case 7: // a fractional amount
				l = row{r.hash, r.ix, cat(r.amount, s("."), r.amount)}.line(" lovelace")
			}
		}
		data = cat(data, l)
	}
	n := node.NewCardanoCliNode(network.TestNet(), world.Command(data, false))
	_, err := n.UTXOs(anAddress())
	v.Assert(err != nil, "a malformed row is an error")
	v.Reach("bad")
}

// H_cli_any: no output makes the parser panic.
func H_cli_any() {
	n := v.Choose("len", 7)
	data := v.Bytes("out", n)
	for _, c := range data {
		v.Assume(c < 0x80)
	}
	if v.Choose("head", 2) == 1 {
		data = cat(s("a\nb\n"), data)
	}
	cli := node.NewCardanoCliNode(network.TestNet(), world.Command(data, false))
	v.Assert(!v.Panics(func() { cli.UTXOs(anAddress()) }), "no output makes UTXOs panic")
	v.Reach("any")
}

// H_cli_fail: a failing command is an error of every operation.
func H_cli_fail() {
	good := [4][]byte{s(header), doc(s("1"), s("2"), s("3"), s("4"), s("5"), s("6")), s("{\"slot\": 1}"), s("ok")}
	op := v.Choose("op", 4)
	o := good[op]
	// for commands that answer in JSON, whatever a failing command printed is not an answer
	if v.Choose("quiet", 2) == 1 {
		o = nil
	}
	n := node.NewCardanoCliNode(network.TestNet(), world.Command(o, true))
	var err error
	switch op {
	case 0:
		var ins []tx.TxInput
		ins, err = n.UTXOs(anAddress())
		v.Assert(len(ins) == 0, "a failing command gives no inputs")
	case 1:
		_, err = n.ProtocolParameters()
	case 2:
		_, err = n.QueryTip()
	case 3:
		_, err = n.SubmitTx(aTx())
	}
	v.Assert(err != nil, "a failing command is an error")
	v.Reach("fail")
}

// H_cli_json: parameters and tip carry the printed numbers.
func H_cli_json() {
	if v.Choose("op", 2) == 0 {
		a, b, m, u := numeral("a", 2, 10, 18), digits("b", 6), digits("m", 5), digits("u", 7)
		maj, min := digits("maj", 1), digits("min", 1)
		n := node.NewCardanoCliNode(network.TestNet(), world.Command(doc(a, b, m, maj, min, u), false))
		p, err := n.ProtocolParameters()
		v.Assert(err == nil, "a well-formed answer is no error")
		sameParams(p, value(a), value(b), value(m), value(maj), value(min), value(u))
		v.Reach("params")
		return
	}
	sl, ep, bl := numeral("slot", 1, 8, 10), numeral("epoch", 1, 3), numeral("block", 1, 7)
	n := node.NewCardanoCliNode(network.TestNet(), world.Command(cat(s("{\n    \"epoch\": "), ep, s(",\n    \"hash\": \"31cb\",\n    \"slot\": "), sl, s(",\n    \"block\": "), bl, s(",\n    \"era\": \"Alonzo\",\n    \"syncProgress\": \"100.00\"\n}\n")), false))
	tip, err := n.QueryTip()
	v.Assert(err == nil, "a well-formed answer is no error")
	v.Assert(uint64(tip.Slot) == value(sl), "the tip has the printed slot")
	v.Assert(uint64(tip.Epoch) == value(ep), "the tip has the printed epoch")
	v.Assert(uint64(tip.Block) == value(bl), "the tip has the printed block")
	v.Reach("tip")
}

// H_cli_submit: submission hands over a file holding the transaction.
func H_cli_submit() {
	answer := v.Bytes("answer", 5)
	n := node.NewCardanoCliNode(network.TestNet(), world.Command(answer, false))
	t := aTx()
	want, err := t.Hex()
	v.Assert(err == nil, "the transaction serializes")
	got, err := n.SubmitTx(t)
	v.Assert(err == nil, "a successful submission is no error")
	cs := world.Calls()
	v.Assert(len(cs) == 1, "one command is run")
	v.Assert(cs[0].HasTx, "the file named by --tx-file exists when the command runs")
	d, err := jm.Parse(cs[0].TxFile)
	v.Assert(err == nil, "the file holds JSON")
	f := d.Get("cborHex")
	v.Assert(f != nil && f.Kind == 's', "the file has a cborHex string")
	v.Assert(string(f.Text) == want, "cborHex is the transaction's hexadecimal CBOR")
	v.Assert(got == string(answer), "the command's answer is returned")
	v.Reach("submitted")
}

// H_cli_notemp: no temporary file, no submission.
func H_cli_notemp() {
	n := node.NewCardanoCliNode(network.TestNet(), world.Command(s("ok"), false))
	world.NoTemp()
	_, err := n.SubmitTx(aTx())
	v.Assert(err != nil, "submission without a file is an error")
	v.Assert(len(world.Calls()) == 0, "nothing is submitted without a file")
	v.Reach("notemp")
}

// H_cli_badjson: an answer that is not the document is an error.
func H_cli_badjson() {
	good := [2][]byte{doc(s("1"), s("2"), s("3"), s("4"), s("5"), s("6")), s("{\"slot\": 1, \"epoch\": 2, \"block\": 3}")}
	op := v.Choose("op", 2)
	d := good[op]
	switch v.Choose("how", 3) {
	case 0:
		d = d[:v.Choose("cut", len(good[1])-1)]
	case 1:
		// a letter or sign in place of the first number
		b := v.Byte("junk")
		v.Assume(v.And(b > ' ', b < 0x7f, v.Or(b < '0', b > '9'), b != '-', b != '"', b != '{', b != '[', b != 't', b != 'f', b != 'n'))
		d = append([]byte{}, d...)
		for i := range d {
			if d[i] >= '0' && d[i] <= '9' {
				d[i] = b
				break
			}
		}
	case 2:
		d = [2][]byte{s(`{"txFeePerByte": "44"}`), s(`{"slot": -1}`)}[op]
	}
	n := node.NewCardanoCliNode(network.TestNet(), world.Command(d, false))
	var err error
	if op == 0 {
		_, err = n.ProtocolParameters()
	} else {
		_, err = n.QueryTip()
	}
	v.Assert(err != nil, "a malformed answer is an error")
	v.Reach("bad")
}

// H_cli_unserializable: a transaction that has no serialization is not submitted.
func H_cli_unserializable() {
	n := node.NewCardanoCliNode(network.TestNet(), world.Command(s("ok"), false))
	t := aTx()
	t.Metadata = func() {}
	_, err := n.SubmitTx(t)
	v.Assert(err != nil, "submitting a transaction that does not serialize is an error")
	v.Assert(len(world.Calls()) == 0, "nothing is submitted for it")
	v.Reach("refused")
}

// H_cli_path: the given command is run, or cardano-cli if there is none.
func H_cli_path() {
	var n node.Node
	var p string
	if v.Choose("given", 2) == 1 {
		p = world.Command(s(header), false)
		n = node.NewCardanoCliNode(network.TestNet(), p)
	} else {
		p = world.DefaultCommand(s(header), false)
		n = node.NewCardanoCliNode(network.TestNet())
	}
	_, err := n.UTXOs(anAddress())
	cs := world.Calls()
	v.Assert(err == nil && len(cs) == 1, "one command is run")
	v.Assert(cs[0].Path == p, "the command run is the configured one")
	v.Reach("path")
}

// H_cli_leftover: submitting leaves no file behind.
func H_cli_leftover() {
	world.Scratch()
	fail := v.Choose("fail", 2) == 1
	n := node.NewCardanoCliNode(network.TestNet(), world.Command(s("ok"), fail))
	t := aTx()
	if v.Choose("bad", 2) == 1 {
		t.Metadata = func() {}
	}
	n.SubmitTx(t)
	v.Assert(world.LeftOver() == 0, "no file is left behind")
	v.Reach("left")
}

// H_cli_keep: a listing stays when another is asked for.
func H_cli_keep() {
	r := row{v.Bytes("hash", 32), digits("ix", 2), digits("amount", 7)}
	t := row{v.Bytes("hash2", 32), digits("ix2", 1), digits("amount2", 7)}
	n := node.NewCardanoCliNode(network.TestNet(), world.Command(cat(s(header), r.line(" lovelace"), t.line(" lovelace")), false))
	ins, err := n.UTXOs(anAddress())
	v.Assert(err == nil && len(ins) == 2, "two rows give two inputs")
	world.Command(cat(s(header), t.line(" lovelace")), false)
	others, err := n.UTXOs(anAddress())
	v.Assert(err == nil && len(others) == 1, "one row gives one input")
	sameInput(ins[0], r.hash, value(r.ix), value(r.amount))
	sameInput(ins[1], t.hash, value(t.ix), value(t.amount))
	sameInput(others[0], t.hash, value(t.ix), value(t.amount))
	v.Reach("kept")
}
