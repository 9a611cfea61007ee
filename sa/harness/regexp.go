package paths

func zzLexRegexp(s string, ec int) {
	r := &rd{s: s}
	l := newLexer(r)
	zzReader_(r)
	zzLexeme_(l.lexRegexp(ec))
}
