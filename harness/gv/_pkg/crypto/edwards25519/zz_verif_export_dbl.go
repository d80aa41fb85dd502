package edwards25519

// Access for the checker's harnesses (laid over the package, never part of it).

func VSlide(r *[256]int8, a *[32]byte) { slide(r, a) }

func VTabIs(j int, t *PreComputedGroupElement) bool { return *t == bi[j] }

func VSetCached(c *CachedGroupElement, f *FieldElement) { c.yPlusX = *f }

func VGetCached(c *CachedGroupElement) FieldElement { return c.yPlusX }
