package exec

import "verif/engine/sym"

func regND2() {
	reg(func(st *State, c *callCtx) Value { return sym.BAnd(c.expr(0), c.expr(1)) }, "nd.And")
	reg(func(st *State, c *callCtx) Value { return sym.BOr(c.expr(0), c.expr(1)) }, "nd.Or")
	reg(func(st *State, c *callCtx) Value { return sym.BOr(sym.BNot(c.expr(0)), c.expr(1)) }, "nd.Imp")
	overlap := func(a Ptr, an int64, b Ptr, bn int64) Value {
		return sym.Bool(an > 0 && bn > 0 && a.Obj == b.Obj && a.Off < b.Off+bn && b.Off < a.Off+an)
	}
	reg(func(st *State, c *callCtx) Value {
		a, b := c.args[0].(Slice), c.args[1].(Slice)
		return overlap(a.P, a.Cap, b.P, b.Cap)
	}, "nd.SameMemory")
	reg(func(st *State, c *callCtx) Value {
		a, b := c.args[0].(Str), c.args[1].(Slice)
		return overlap(a.P, a.Len, b.P, b.Cap)
	}, "nd.SameString")
}
