package node

import (
	"encoding/hex"
	"strings"

	"github.com/blockfrost/blockfrost-go"
	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/jm"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/v"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/world"
)

func otherAddress() address.Address {
	return address.NewEnterpriseAddress(network.TestNet(), address.NewKeyStakeCredential(make([]byte, 28)))
}

func taggedTx(tag string) tx.Tx {
	t := tx.NewTx()
	t.AddInputs(tx.NewTxInput(hex.EncodeToString(v.Bytes("txid"+tag, 32)), v.U16("ix"+tag), 5))
	t.AddOutputs(tx.NewTxOutput(anAddress(), 1000000))
	if tag == "a" {
		t.AddOutputs(tx.NewTxOutput(otherAddress(), 2000000))
	}
	t.SetFee(170000)
	return *t
}

// cliOp runs one operation of a cardano-cli node against an answer of its own and checks
// the command and the result.
func cliOp(n node.Node, k, op int, tag string, to address.Address, net *network.NetworkInfo, mainnet bool, magic string) {
	last := func() world.Call {
		cs := world.Calls()
		v.Assert(len(cs) == k+1, "one command is run per call")
		return cs[k]
	}
	switch op {
	case 0:
		r := row{v.Bytes("hash"+tag, 32), digits("rix"+tag, 2), digits("amount"+tag, 7)}
		world.Command(cat(s(header), r.line(" lovelace")), false)
		ins, err := n.UTXOs(to)
		v.Assert(err == nil && len(ins) == 1, "one row gives one input")
		sameInput(ins[0], r.hash, value(r.ix), value(r.amount))
		asked(last(), net, magic, "query", "utxo", "--address", to.String(), mainnet)
	case 1:
		a, b, m, u := digits("a"+tag, 2), digits("b"+tag, 6), digits("m"+tag, 5), digits("u"+tag, 7)
		maj, min := digits("maj"+tag, 1), digits("min"+tag, 1)
		world.Command(doc(a, b, m, maj, min, u), false)
		p, err := n.ProtocolParameters()
		v.Assert(err == nil, "a well-formed answer is no error")
		sameParams(p, value(a), value(b), value(m), value(maj), value(min), value(u))
		asked(last(), net, magic, "query", "protocol-parameters", "", "", mainnet)
	case 2:
		sl, ep, bl := digits("slot"+tag, 8), digits("epoch"+tag, 3), digits("block"+tag, 7)
		world.Command(cat(s("{\"epoch\": "), ep, s(", \"slot\": "), sl, s(", \"block\": "), bl, s("}")), false)
		t, err := n.QueryTip()
		v.Assert(err == nil, "a well-formed answer is no error")
		v.Assert(v.And(uint64(t.Slot) == value(sl), uint64(t.Epoch) == value(ep), uint64(t.Block) == value(bl)), "the tip has the printed numbers")
		asked(last(), net, magic, "query", "tip", "", "", mainnet)
	case 3:
		answer := v.Bytes("answer"+tag, 5)
		world.Command(answer, false)
		t := taggedTx(tag)
		want, err := t.Hex()
		v.Assert(err == nil, "the transaction serializes")
		got, err := n.SubmitTx(t)
		v.Assert(err == nil, "a successful submission is no error")
		c := last()
		v.Assert(c.HasTx, "the file named by --tx-file exists when the command runs")
		d, err := jm.Parse(c.TxFile)
		v.Assert(err == nil, "the file holds JSON")
		f := d.Get("cborHex")
		v.Assert(f != nil && f.Kind == 's' && string(f.Text) == want, "cborHex is the transaction's hexadecimal CBOR")
		v.Assert(got == string(answer), "the command's answer is returned")
		asked(c, net, magic, "transaction", "submit", "--tx-file", "", mainnet)
	}
}

// H_cli_again: each of two calls on a node, or on two nodes of different networks, asks for
// its own data and returns its own answer.
func H_cli_again() {
	first, second := v.Choose("first", 4), v.Choose("second", 4)
	path := world.Command(nil, false)
	main, test := network.MainNet(), network.TestNet()
	n := node.NewCardanoCliNode(main, path)
	m, net, mainnet, magic := n, main, true, ""
	if v.Choose("other", 2) == 1 {
		m, net, mainnet, magic = node.NewCardanoCliNode(test, path), test, false, "1097911063"
	}
	cliOp(n, 0, first, "a", anAddress(), main, true, "")
	to := anAddress()
	if v.Choose("addr", 2) == 1 {
		to = otherAddress()
	}
	cliOp(m, 1, second, "b", to, net, mainnet, magic)
	v.Reach("end")
}

func bfOp(n node.Node, k, op int, tag string, to address.Address, server string) {
	one := func() world.Request {
		rs := world.Requests()
		v.Assert(len(rs) == k+1, "one request is made per call")
		r := rs[k]
		v.Assert(strings.HasPrefix(r.URL, server+"/"), "requests go to the server of the configured network")
		v.Assert(r.Project == project, "requests carry the project id")
		return r
	}
	switch op {
	case 0:
		h, q := v.Bytes("hash"+tag, 32), digits("q"+tag, 7)
		world.Serve(world.Blockfrost{UTXOs: []blockfrost.AddressUTXO{utxo(hex.EncodeToString(h), 3, ada(q))}})
		ins, err := n.UTXOs(to)
		v.Assert(err == nil && len(ins) == 1, "one reported UTxO gives one input")
		sameInput(ins[0], h, 3, value(q))
		v.Assert(strings.HasPrefix(one().URL, server+"/addresses/"+to.String()+"/utxos"), "the UTxOs of the given address are asked for")
	case 1:
		a, b, m := v.U32("a"+tag), v.U32("b"+tag), v.U32("m"+tag)
		maj, min, u := v.Byte("maj"+tag), v.Byte("min"+tag), digits("u"+tag, 7)
		world.Serve(world.Blockfrost{Params: blockfrost.EpochParameters{MinFeeA: int(a), MinFeeB: int(b), MaxTxSize: int(m), ProtocolMajorVer: int(maj), ProtocolMinorVer: int(min), MinUtxo: string(u)}})
		p, err := n.ProtocolParameters()
		v.Assert(err == nil, "a well-formed reply is no error")
		sameParams(p, uint64(a), uint64(b), uint64(m), uint64(maj), uint64(min), value(u))
		one()
	case 2:
		sl, ep, he := v.U32("slot"+tag), v.U32("epoch"+tag), v.U32("height"+tag)
		world.Serve(world.Blockfrost{Block: blockfrost.Block{Slot: int(sl), Epoch: int(ep), Height: int(he)}})
		t, err := n.QueryTip()
		v.Assert(err == nil, "a well-formed reply is no error")
		v.Assert(v.And(uint64(t.Slot) == uint64(sl), uint64(t.Epoch) == uint64(ep), uint64(t.Block) == uint64(he)), "the tip has the reported numbers")
		one()
	case 3:
		reply := v.Bytes("reply"+tag, 4)
		world.Serve(world.Blockfrost{Status: 200, Reply: reply})
		t := taggedTx(tag)
		want, err := t.Bytes()
		v.Assert(err == nil, "the transaction serializes")
		got, err := n.SubmitTx(t)
		v.Assert(err == nil, "a reply of 200 is no error")
		r := one()
		v.Assert(r.Method == "POST" && r.HasBody && r.URL == server+"/tx/submit", "the transaction is posted to the submission address")
		v.Assert(v.Eq(r.Body, want), "the body is exactly the transaction's bytes")
		v.Assert(got == string(reply), "the reply is returned")
	}
}

// H_bf_again: as H_cli_again for the blockfrost backend.
func H_bf_again() {
	first, second := v.Choose("first", 4), v.Choose("second", 4)
	world.Serve(world.Blockfrost{})
	n := node.NewBlockfrostClient(project, network.MainNet())
	world.Attach(n)
	m, server := n, mainServer
	if v.Choose("other", 2) == 1 {
		m, server = node.NewBlockfrostClient(project, network.TestNet()), testServer
		world.Attach(m)
	}
	bfOp(n, 0, first, "a", anAddress(), mainServer)
	to := anAddress()
	if v.Choose("addr", 2) == 1 {
		to = otherAddress()
	}
	bfOp(m, 1, second, "b", to, server)
	v.Reach("end")
}
