O='paths/ops.go'; X='paths/parseexpr.go'
seed('b-c13-mod-level','C13',[(O,'''	case OpAdd, OpSub:
		return 4
	case OpMul, OpDiv, OpMod:
		return 5''','''	case OpAdd, OpSub, OpMod:
		return 4
	case OpMul, OpDiv:
		return 5''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[?(@.a + 7 % 4 == 5)]", `[{"a":2},{"a":1}]`, "[map[a:2]]") }''',
 'an expression in which % stands beside + or * without parentheses','the remainder operator binds as loosely as + and -')
seed('b-c13-in-level','C13',[(O,'''	case OpLT, OpLE, OpGT, OpGE, OpMatch, OpIn, OpNin:
		return 3''','''	case OpLT, OpLE, OpGT, OpGE, OpMatch:
		return 3
	case OpIn, OpNin:
		return 2''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[?(false == @.a in [1])]", `[{"a":2},{"a":1}]`, "[map[a:2]]") }''',
 'in or nin beside == or != without parentheses','in and nin group with == and != instead of with the relational operators')
seed('b-c13-div-right','C13',[(O,'''func (Op) associativity() int {
	return 1 // they are all left-associative at the moment
}''','''func (op Op) associativity() int {
	if op == OpDiv || op == OpNE {
		return 0
	}
	return 1
}''')],H+'''func TestVerifDemo(t *testing.T) { vwant(t, "$[?(@.a / 4 / 2 == 2)]", `[{"a":16},{"a":1}]`, "[map[a:16]]") }''',
 'a chain of two divisions, or of two !=','a/b/c groups from the right')
