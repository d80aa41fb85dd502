package gp

import (
	ed "github.com/fivebinaries/go-cardano-serialization/crypto/edwards25519"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/v"
)

// H_consts: the neutral table entry and the curve constants.
func H_consts() {
	v.Bytes("p.k", 32)
	var c ed.PreComputedGroupElement
	c.Zero()
	a, b, t := ed.VPreGet(&c)
	eq(&a, "1", "PreComputedGroupElement.Zero: y+x")
	eq(&b, "1", "PreComputedGroupElement.Zero: y-x")
	eq(&t, "0", "PreComputedGroupElement.Zero: 2dxy")
	d, d2 := ed.VD(), ed.VD2()
	v.AssertCong(val(&d), dconst(), prime(), "the curve constant d")
	v.AssertCong(val(&d2), mul(two(), dconst()), prime(), "the curve constant 2d")
	v.Assert(bnd(&d) <= 1 && bnd(&d2) <= 1, "the curve constants are reduced")
	v.Reach("done")
}

func pre(q point) ed.PreComputedGroupElement {
	a, b, c := fe(add(q.y, q.x)), fe(sub(q.y, q.x)), fe(mul(two(), dconst(), q.x, q.y))
	return ed.VPre(&a, &b, &c)
}

func H_mixedadd() {
	p, q := pt("p"), pt("q")
	e, c := ext(p), pre(q)
	var r ed.CompletedGroupElement
	ed.VMixedAdd(&r, &e, &c)
	sum(&r, p, q, mul(two(), p.z), "geMixedAdd")
	v.Reach("done")
}

func H_mixedsub() {
	p, q := pt("p"), pt("q")
	e, c := ext(p), pre(q)
	var r ed.CompletedGroupElement
	ed.VMixedSub(&r, &e, &c)
	sum(&r, p, neg(q), mul(two(), p.z), "geMixedSub")
	v.Reach("done")
}

func H_add() {
	p, q := pt("p"), pt("q")
	e, f := ext(p), ext(q)
	var c ed.CachedGroupElement
	f.ToCached(&c)
	var r ed.CompletedGroupElement
	ed.VAdd(&r, &e, &c)
	sum(&r, p, q, mul(two(), p.z, q.z), "geAdd after ToCached")
	v.Reach("done")
}

func H_sub() {
	p, q := pt("p"), pt("q")
	e, f := ext(p), ext(q)
	var c ed.CachedGroupElement
	f.ToCached(&c)
	var r ed.CompletedGroupElement
	ed.VSub(&r, &e, &c)
	sum(&r, p, neg(q), mul(two(), p.z, q.z), "geSub after ToCached")
	v.Reach("done")
}

// entry states that t is the multiple n of the base point, n = m*256^pos, m signed.
func entry(t *ed.PreComputedGroupElement, m, pos int, msg string) {
	a, b, c := ed.VPreGet(t)
	x, y := v.BaseMultiple(m, pos)
	v.AssertCong(val(&a), add(y, x), prime(), msg+": y+x")
	v.AssertCong(val(&b), sub(y, x), prime(), msg+": y-x")
	v.AssertCong(val(&c), mul(two(), dconst(), x, y), prime(), msg+": 2dxy")
	v.Assert(bnd(&a) <= 1 && bnd(&b) <= 1 && bnd(&c) <= 1, msg+": reduced limbs")
}

// H_select: for every position and digit the table lookup returns digit * 256^pos * B.
func H_select() {
	pos := v.Choose("pos", 32)
	for b := -8; b <= 8; b++ {
		var t ed.PreComputedGroupElement
		ed.VSelect(&t, int32(pos), int32(b))
		entry(&t, b, pos, "selectPoint")
	}
	v.Reach("done")
}

// H_bi: the table of odd multiples.
func H_bi() {
	for j := 0; j < 8; j++ {
		t := ed.VBi(j)
		entry(&t, 2*j+1, 0, "table of odd multiples")
	}
	v.Reach("done")
}
