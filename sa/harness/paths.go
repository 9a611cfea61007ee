package paths

// Harness for the analyser (never built or run): the functions below are interpreted abstractly.
// Those whose names end in _ are given their meaning by the analyser.

func zzReader_(r *rd)           {}
func zzLexeme_(lx lexeme)       {}
func zzPath_(p Path, err error) {}
func zzExpr_(e Expr, err error) {}

func zzLexPath(s string) {
	r := &rd{s: s}
	l := newLexer(r)
	zzReader_(r)
	zzLexeme_(l.lexPath())
}

func zzLexExpr(s string) {
	r := &rd{s: s}
	l := newLexer(r)
	zzReader_(r)
	zzLexeme_(l.lexExpr())
}

func zzParsePath(s string) { zzPath_(ParsePath(s)) }

func zzParseScriptExpression(s string) { zzExpr_(ParseScriptExpression(s)) }
