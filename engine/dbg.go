package main

import "fmt"

func dump(t *Term, d int) string {
	if t.IsConst() {
		return fmt.Sprintf("%d:%d", t.C, t.W)
	}
	if t.Op == OVar {
		return t.Name
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	s := fmt.Sprintf("(op%d.w%d", t.Op, t.W)
	if t.Op == OExtract {
		s += fmt.Sprintf("[%d:%d]", t.Hi, t.Lo)
	}
	for _, a := range t.A {
		s += " " + dump(a, d-1)
	}
	return s + ")"
}
