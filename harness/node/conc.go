package node

import (
	"strings"

	"github.com/blockfrost/blockfrost-go"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/v"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/world"
)

func call(n node.Node, op int, t tx.Tx) {
	switch op {
	case 0:
		n.UTXOs(anAddress())
	case 1:
		n.ProtocolParameters()
	case 2:
		n.QueryTip()
	case 3:
		n.SubmitTx(t)
	}
}

// H_cli_both: two calls on one node at the same time.
func H_cli_both() {
	net, _, _ := aNet()
	f, g := v.Choose("first", 4), v.Choose("second", 4)
	answer := cat(s(header), s(strings.Repeat("ab", 32)+"     1        1700 lovelace\n"))
	if f > 0 {
		answer = doc(s("1"), s("2"), s("3"), s("4"), s("5"), s("6"))
	}
	n := node.NewCardanoCliNode(net, world.Command(answer, false))
	t, u := aTx(), aTx()
	v.Both(func() { call(n, f, t) }, func() { call(n, g, u) })
	v.Reach("both")
}

// H_bf_both: two calls on one client at the same time.
func H_bf_both() {
	f, g := v.Choose("first", 4), v.Choose("second", 4)
	n, _ := bfNode(world.Blockfrost{Status: 200, Reply: s("ok"), UTXOs: []blockfrost.AddressUTXO{utxo(strings.Repeat("ab", 32), 1, ada(s("1700")))}, Params: blockfrost.EpochParameters{MinUtxo: "1"}})
	t, u := aTx(), aTx()
	v.Both(func() { call(n, f, t) }, func() { call(n, g, u) })
	v.Reach("both")
}

// H_load_both: two parameter files loaded at the same time.
func H_load_both() {
	name := world.File(doc(digits("a", 2), digits("b", 2), s("3"), s("4"), s("5"), s("6")))
	load := func() { protocol.LoadProtocol(name) }
	v.Both(load, load)
	v.Reach("both")
}
