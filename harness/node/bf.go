package node

import (
	"encoding/hex"
	"strings"

	"github.com/blockfrost/blockfrost-go"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/v"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/world"
)

const project = "testnetAbC123"
const mainServer = "https://cardano-mainnet.blockfrost.io/api/v0"
const testServer = "https://cardano-testnet.blockfrost.io/api/v0"

func bfNode(b world.Blockfrost) (node.Node, string) {
	world.Serve(b)
	net, server := network.MainNet(), mainServer
	if v.Choose("testnet", 2) == 1 {
		net, server = network.TestNet(), testServer
	}
	n := node.NewBlockfrostClient(project, net)
	world.Attach(n)
	return n, server
}

// from checks that every request went to that server with the project's key.
func from(server string) {
	for _, r := range world.Requests() {
		v.Assert(strings.HasPrefix(r.URL, server+"/"), "requests go to the server of the configured network")
		v.Assert(r.Project == project, "requests carry the project id")
	}
}

func utxo(hash string, ix int, q ...blockfrost.AddressAmount) blockfrost.AddressUTXO {
	return blockfrost.AddressUTXO{TxHash: hash, OutputIndex: ix, Amount: q}
}

func ada(q []byte) blockfrost.AddressAmount {
	return blockfrost.AddressAmount{Unit: "lovelace", Quantity: string(q)}
}

func token(q []byte) blockfrost.AddressAmount {
	return blockfrost.AddressAmount{Unit: "9a9693a9a37912a5097918f97918d15240c92ab729a0b7c4aa144d7753554e444145", Quantity: string(q)}
}

// H_bf_utxo: hash, index and lovelace arrive exactly, whatever tokens lie beside.
func H_bf_utxo() {
	h := v.Bytes("hash", 32)
	ix := v.U16("ix")
	q := numeral("q", 1, 7, 10, 19)
	am := []blockfrost.AddressAmount{ada(q)}
	switch v.Choose("tokens", 3) {
	case 1:
		am = append(am, token(digits("t", 2)))
	case 2:
		am = []blockfrost.AddressAmount{token(digits("t", 2)), ada(q), token(digits("t", 2))}
	}
	n, server := bfNode(world.Blockfrost{UTXOs: []blockfrost.AddressUTXO{utxo(hex.EncodeToString(h), int(ix), am...)}})
	ins, err := n.UTXOs(anAddress())
	v.Assert(err == nil, "a well-formed reply is no error")
	v.Assert(len(ins) == 1, "one reported UTxO gives one input")
	sameInput(ins[0], h, uint64(ix), value(q))
	from(server)
	rs := world.Requests()
	v.Assert(len(rs) == 1, "one request is made")
	v.Assert(strings.HasPrefix(rs[0].URL, server+"/addresses/"+anAddress().String()+"/utxos"), "the UTxOs of the given address are asked for")
	v.Reach("utxo")
}

// H_bf_range: numbers that do not fit are errors.
func H_bf_range() {
	q := s("5")
	ix := 0
	big := false
	if v.Choose("field", 2) == 0 {
		q, big = twenty("q")
	} else {
		ix = int(int64(v.U64("ix")))
		big = v.Or(ix < 0, ix > 0xffff)
	}
	h := make([]byte, 32)
	n, _ := bfNode(world.Blockfrost{UTXOs: []blockfrost.AddressUTXO{utxo(hex.EncodeToString(h), ix, ada(q))}})
	ins, err := n.UTXOs(anAddress())
	if err == nil {
		v.Assert(!big, "a number that does not fit is an error")
		v.Assert(len(ins) == 1, "one reported UTxO gives one input")
		sameInput(ins[0], h, uint64(ix), value(q))
		v.Reach("fits")
	} else {
		v.Assert(big, "a number that fits is no error")
		v.Reach("refused")
	}
}

// H_bf_many: UTxOs are returned in order, all of them, each with its own amount.
func H_bf_many() {
	k := v.Choose("n", 4)
	var us []blockfrost.AddressUTXO
	var hs, qs [][]byte
	var ixs []uint16
	for i := 0; i < k; i++ {
		c := string(rune('0' + i))
		hs = append(hs, v.Bytes("hash"+c, 32))
		ixs = append(ixs, v.U16("ix"+c))
		qs = append(qs, digits("q"+c, 3))
		am := []blockfrost.AddressAmount{ada(qs[i])}
		if v.Choose("tok"+c, 2) == 1 {
			am = append(am, token(digits("t"+c, 1)))
		}
		us = append(us, utxo(hex.EncodeToString(hs[i]), int(ixs[i]), am...))
	}
	n, _ := bfNode(world.Blockfrost{UTXOs: us})
	ins, err := n.UTXOs(anAddress())
	v.Assert(err == nil, "a well-formed reply is no error")
	v.Assert(len(ins) == k, "every reported UTxO gives one input")
	for i := range us {
		sameInput(ins[i], hs[i], uint64(ixs[i]), value(qs[i]))
	}
	v.Reach("many")
}

// H_bf_bad: malformed quantities and hashes anywhere are errors.
func H_bf_bad() {
	k := 1 + v.Choose("n", 2)
	at := v.Choose("at", k)
	var us []blockfrost.AddressUTXO
	for i := 0; i < k; i++ {
		c := string(rune('0' + i))
		hash := hex.EncodeToString(v.Bytes("hash"+c, 32))
		q := digits("q"+c, 2)
		if i == at {
			b := v.Byte("junk")
			v.Assume(v.And(b > ' ', b < 0x7f, v.Or(b < '0', b > '9')))
			switch v.Choose("how", 6) {
			case 0:
				q = nil
			case 1:
				q = []byte{b}
			case 2:
				q = cat(q, []byte{b}, q)
			case 3:
				q = cat(s("-"), q)
			case 4:
				hash = hash[2:]
			case 5:
				v.Assume(v.And(v.Or(b < 'a', b > 'f'), v.Or(b < 'A', b > 'F')))
				hash = string(rune(b)) + hash[1:]
			}
		}
		us = append(us, utxo(hash, i, ada(q)))
	}
	n, _ := bfNode(world.Blockfrost{UTXOs: us})
	_, err := n.UTXOs(anAddress())
	v.Assert(err != nil, "a malformed UTxO is an error")
	v.Reach("bad")
}

// H_bf_params: parameters and tip carry the reported numbers.
func H_bf_params() {
	a, b, m := v.U64("a"), v.U64("b"), v.U64("m")
	v.Assume(v.And(a < 1<<63, b < 1<<63, m < 1<<63))
	maj, min := v.Byte("maj"), v.Byte("min")
	u := numeral("u", 1, 6, 7, 18)
	// other numbers of the reply, which must not be mistaken for those
	n, server := bfNode(world.Blockfrost{Params: blockfrost.EpochParameters{MinFeeA: int(a), MinFeeB: int(b), MaxTxSize: int(m), ProtocolMajorVer: int(maj), ProtocolMinorVer: int(min), MinUtxo: string(u),
		MaxBlockSize: 90112, MaxBlockHeaderSize: 1100, KeyDeposit: "2000000", PoolDeposit: "500000000", MinPoolCost: "340000000", Epoch: 365, EMax: 18, NOpt: 500}})
	p, err := n.ProtocolParameters()
	v.Assert(err == nil, "a well-formed reply is no error")
	sameParams(p, a, b, m, uint64(maj), uint64(min), value(u))
	from(server)
	v.Reach("params")
}

// H_bf_params_bad: a number that does not fit, or a minimum UTxO value that is no number, is an error.
func H_bf_params_bad() {
	p := blockfrost.EpochParameters{MinFeeA: 44, MinFeeB: 155381, MaxTxSize: 16384, ProtocolMajorVer: 6, MinUtxo: "34482"}
	how := v.Choose("how", 9)
	n := int(int64(v.U64("n")))
	switch {
	case how < 3:
		v.Assume(n < 0)
		*[]*int{&p.MinFeeA, &p.MinFeeB, &p.MaxTxSize}[how] = n
	case how < 5:
		v.Assume(v.Or(n < 0, n > 255))
		*[]*int{&p.ProtocolMajorVer, &p.ProtocolMinorVer}[how-3] = n
	case how == 5:
		p.MinUtxo = ""
	case how == 6:
		b := v.Byte("junk")
		v.Assume(v.And(b > ' ', b < 0x7f, v.Or(b < '0', b > '9')))
		p.MinUtxo = string(cat(digits("u", 2), []byte{b}))
	case how == 7:
		p.MinUtxo = string(cat(s("-"), digits("u", 2)))
	case how == 8:
		p.MinUtxo = string(cat(s("18446744073709551616")))
	}
	nd, _ := bfNode(world.Blockfrost{Params: p})
	_, err := nd.ProtocolParameters()
	v.Assert(err != nil, "parameters that do not fit are an error")
	v.Reach("bad")
}

func H_bf_tip() {
	sl, ep, he := v.U64("slot"), v.U64("epoch"), v.U64("height")
	v.Assume(v.And(sl < 1<<63, ep < 1<<63, he < 1<<63))
	n, server := bfNode(world.Blockfrost{Block: blockfrost.Block{Slot: int(sl), Epoch: int(ep), Height: int(he), EpochSlot: 777, Time: 1641338934, Size: 3, TxCount: 1, Confirmations: 4698}})
	t, err := n.QueryTip()
	v.Assert(err == nil, "a well-formed reply is no error")
	v.Assert(uint64(t.Slot) == sl, "the tip has the reported slot")
	v.Assert(uint64(t.Epoch) == ep, "the tip has the reported epoch")
	v.Assert(uint64(t.Block) == he, "the tip has the reported block height")
	from(server)
	v.Reach("tip")
}

// H_bf_fail: a refused query is an error of every operation.
func H_bf_fail() {
	n, _ := bfNode(world.Blockfrost{Fail: true, Params: blockfrost.EpochParameters{MinUtxo: "1"}, UTXOs: []blockfrost.AddressUTXO{utxo(strings.Repeat("00", 32), 0, ada(s("1")))}})
	var err error
	switch v.Choose("op", 3) {
	case 0:
		var ins []tx.TxInput
		ins, err = n.UTXOs(anAddress())
		v.Assert(len(ins) == 0, "a refused query gives no inputs")
	case 1:
		_, err = n.ProtocolParameters()
	case 2:
		_, err = n.QueryTip()
	}
	v.Assert(err != nil, "a refused query is an error")
	v.Reach("fail")
}

// H_bf_submit: exactly the transaction's bytes are posted, and only 200 is success.
func H_bf_submit() {
	status := int(v.U16("status"))
	v.Assume(v.And(status >= 200, status < 600, v.Or(status < 300, status >= 400)))
	reply := v.Bytes("reply", 4)
	n, server := bfNode(world.Blockfrost{Status: status, Reply: reply})
	t := aTx()
	want, err := t.Bytes()
	v.Assert(err == nil, "the transaction serializes")
	got, err := n.SubmitTx(t)
	ps := world.Requests()
	v.Assert(len(ps) == 1, "one request is made")
	v.Assert(ps[0].Method == "POST" && ps[0].HasBody, "the transaction is posted")
	v.Assert(ps[0].URL == server+"/tx/submit", "it is posted to the submission address of the configured network")
	v.Assert(ps[0].ContentType == "application/cbor", "it is posted as CBOR")
	v.Assert(ps[0].Project == project, "requests carry the project id")
	v.Assert(v.Eq(ps[0].Body, want), "the body is exactly the transaction's bytes")
	if err == nil {
		v.Assert(status == 200, "a reply other than 200 is an error")
		v.Assert(got == string(reply), "the reply is returned")
		v.Reach("accepted")
	} else {
		v.Assert(status != 200, "a reply of 200 is no error")
		v.Reach("rejected")
	}
}

// H_bf_down: a transaction that cannot be posted, or whose answer cannot be read, is an error.
func H_bf_down() {
	broken := v.Choose("how", 2) == 1
	n, _ := bfNode(world.Blockfrost{Down: !broken, Broken: broken, Status: 200, Reply: s("0123456789")})
	_, err := n.SubmitTx(aTx())
	v.Assert(err != nil, "a failing submission is an error")
	v.Reach("down")
}

// H_bf_unserializable: a transaction that has no serialization is not posted.
func H_bf_unserializable() {
	n, _ := bfNode(world.Blockfrost{Status: 200, Reply: s("ok")})
	t := aTx()
	t.Metadata = func() {}
	_, err := n.SubmitTx(t)
	v.Assert(err != nil, "submitting a transaction that does not serialize is an error")
	v.Assert(len(world.Posts()) == 0, "nothing is posted for it")
	v.Reach("refused")
}

// H_bf_keep: a list of UTxOs stays when another is asked for.
func H_bf_keep() {
	h, g := v.Bytes("hash", 32), v.Bytes("hash2", 32)
	q, p := digits("q", 7), digits("q2", 3)
	n, _ := bfNode(world.Blockfrost{UTXOs: []blockfrost.AddressUTXO{utxo(hex.EncodeToString(h), 3, ada(q))}})
	ins, err := n.UTXOs(anAddress())
	v.Assert(err == nil && len(ins) == 1, "one reported UTxO gives one input")
	m, _ := bfNode(world.Blockfrost{UTXOs: []blockfrost.AddressUTXO{utxo(hex.EncodeToString(g), 4, ada(p))}})
	others, err := m.UTXOs(anAddress())
	v.Assert(err == nil && len(others) == 1, "one reported UTxO gives one input")
	sameInput(ins[0], h, 3, value(q))
	sameInput(others[0], g, 4, value(p))
	v.Reach("kept")
}
