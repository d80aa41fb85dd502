package edwards25519

// Access for the checker's harnesses (laid over the package, never part of it).

func VMixedAdd(r *CompletedGroupElement, p *ExtendedGroupElement, q *PreComputedGroupElement) {
	geMixedAdd(r, p, q)
}

func VMixedSub(r *CompletedGroupElement, p *ExtendedGroupElement, q *PreComputedGroupElement) {
	geMixedSub(r, p, q)
}

func VAdd(r *CompletedGroupElement, p *ExtendedGroupElement, q *CachedGroupElement) { geAdd(r, p, q) }
func VSub(r *CompletedGroupElement, p *ExtendedGroupElement, q *CachedGroupElement) { geSub(r, p, q) }

func VSelect(t *PreComputedGroupElement, pos int32, b int32) { selectPoint(t, pos, b) }

func VPow22523(out, z *FieldElement) { fePow22523(out, z) }

func VPre(yPlusX, yMinusX, xy2d *FieldElement) (p PreComputedGroupElement) {
	p.yPlusX, p.yMinusX, p.xy2d = *yPlusX, *yMinusX, *xy2d
	return
}

func VPreGet(p *PreComputedGroupElement) (yPlusX, yMinusX, xy2d FieldElement) {
	return p.yPlusX, p.yMinusX, p.xy2d
}

func VCached(yPlusX, yMinusX, z, t2d *FieldElement) (p CachedGroupElement) {
	p.yPlusX, p.yMinusX, p.Z, p.T2d = *yPlusX, *yMinusX, *z, *t2d
	return
}

func VCachedGet(p *CachedGroupElement) (yPlusX, yMinusX, z, t2d FieldElement) {
	return p.yPlusX, p.yMinusX, p.Z, p.T2d
}

func VBi(j int) PreComputedGroupElement { return bi[j] }
func VD() FieldElement                  { return d }
func VD2() FieldElement                 { return d2 }
