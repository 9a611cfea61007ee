L='paths/lex.go'; LE='paths/lexexpr.go'; LP='paths/lexpath.go'; PP='paths/parsepath.go'; PS='paths/parser.go'; JC='cmd/jpath/jpath.go'
# a demonstration in package paths, run with a time limit of its own
HP='''package paths
import ("testing";"fmt";"os";"time";"runtime/debug";"strings")
var _ = fmt.Sprint
var _ = os.Exit
var _ = debug.SetMaxStack
var _ = strings.Repeat
func vlimit(d time.Duration) { go func() { time.Sleep(d); fmt.Println("does not terminate"); os.Exit(3) }() }
func vpath(s string) (r string) {
	defer func() { if e := recover(); e != nil { r = fmt.Sprint("panic: ", e) } }()
	p, err := ParsePath(s)
	if err != nil { r = "error" } else { r = "ok" }
	if (err == nil) == (p == nil) { r += " and not exactly one result" }
	return
}
func vexpr(s string) (r string) {
	defer func() { if e := recover(); e != nil { r = fmt.Sprint("panic: ", e) } }()
	p, err := ParseScriptExpression(s)
	if err != nil { r = "error" } else { r = "ok" }
	if (err == nil) == (p == nil) { r += " and not exactly one result" }
	return
}
func vis(t *testing.T, s, got, want string) { t.Helper(); if got != want { t.Errorf("%s: got %s, want %s", s, got, want) } }
'''
def T(body): return HP+'func TestVerifDemo(t *testing.T) { '+body+' }\n'
seed('b-c01-int-err','C01',[(L,'''		v, err := strconv.ParseInt(sb.String(), 10, 64)
		if err != nil {
			return l.lexErr(err)
		}
		return lexeme{tokInt, v, nil}''','''		v, err := strconv.ParseInt(sb.String(), 10, 64)
		if err != nil {
			return lexeme{tokInt, nil, err}
		}
		return lexeme{tokInt, v, nil}''')],T('for _, s := range []string{"$[1:99999999999999999999]", "$[-99999999999999999999]"} { vis(t, s, vpath(s), "error") }'),
 'an integer beyond 64 bits as the end or stride of a slice, or after a minus sign','the lexeme of a bad integer is tagged as an integer without a value; users that look at its tag alone panic','paths')
seed('b-c07-path-err','C07',[(PP,'''		case tokEOF:
			return path, nil
		case tokError:
			return nil, lx.err
		case '.':''','''		case tokEOF, tokError:
			return path, lx.err
		case '.':''')],T('vis(t, "$.a#", vpath("$.a#"), "error")'),
 'a bad character after a complete step','ParsePath returns the steps so far together with the error','paths')
seed('b-c07-match-err','C07',[(R,'''			switch s := a.(type) {
			case string:
				vm.push(re.MatchString(s))
			default:
				return nil, fmt.Errorf("%s requires string left operand, not %s", ord.op(), a)
			}''','''			switch s := a.(type) {
			case string:
				vm.push(re.MatchString(s))
			default:
				return vm.out, fmt.Errorf("%s requires string left operand, not %s", ord.op(), a)
			}''')],H+'''func TestVerifDemo(t *testing.T) { p, _ := Compile("$[?(@.a =~ /x/)]"); r, err := p.Eval(vdoc(`[{"a":1}]`)); if err == nil || r != nil { t.Error(r, err) } }''',
 'a match whose left operand is not a string','Eval returns results together with an error')
seed('b-c07-must','C07',[('jsonpath.go','''	p, err := Compile(expr)
	if err != nil {
		panic(`jsonpath: Compile(` + quote(expr) + `): ` + err.Error())
	}
	return p''','''	p, err := Compile(expr)
	if err != nil && len(expr) > 0 {
		panic(`jsonpath: Compile(` + quote(expr) + `): ` + err.Error())
	}
	return p''')],H+'''func TestVerifDemo(t *testing.T) { defer func() { if recover() == nil { t.Error("no panic") } }(); MustCompile("") }''',
 'MustCompile of the empty text','MustCompile returns nil instead of panicking')
seed('b-c09-re-eof','C09',[(LE,'''		case c == eof:
			return lexeme{tokRE, s.String(), ErrUnclosedRE}
		case c == ec:''','''		case c == eof && s.Len() == 0:
			return lexeme{tokRE, s.String(), ErrUnclosedRE}
		case c == ec || c == eof:''')],T('vis(t, "@.a =~ /x", vexpr("@.a =~ /x"), "error")'),
 'a script expression that ends inside a regular expression with some text','the end of the text closes the regular expression','paths')
seed('b-c09-expect-eof','C09',[(PS,'''	if lx.tok != nt {''','''	if lx.tok != nt && !(lx.tok == tokEOF && nt == ')') {''')],T('for _, s := range []string{"(1+2", "length(@"} { vis(t, s, vexpr(s), "error") }'),
 'a script expression that ends with a parenthesis open','a parenthesis left open at the end of the text is taken as closed','paths')
seed('b-c09-script-bracket','C09',[(X,'''	lx := p.lexExpr()
	if lx.tok != tokEOF {
		return nil, fmt.Errorf("missing''','''	lx := p.lexExpr()
	for lx.tok == ')' {
		lx = p.lexExpr()
	}
	if lx.tok != tokEOF {
		return nil, fmt.Errorf("missing''')],T('vis(t, "1+2)", vexpr("1+2)"), "error")'),
 'a script expression followed by closing parentheses','unmatched closing parentheses at the end are ignored','paths')
seed('b-c10-short-escape','C10',[(L,'''			if !isHexDigit(c) {
				r.unget()
				// illegal unicode, what to do?
				err = ErrShortEscape''','''			if !isHexDigit(c) {
				r.unget()
				// illegal unicode, what to do?
				if i < 2 {
					err = ErrShortEscape
				}''')],T('''vis(t, "3-digit escape", vpath("$['\\\\u123x']"), "error"); vis(t, "3-digit escape", vexpr("'\\\\u12'"), "error")'''),
 'a \\u escape with two or three hexadecimal digits','a short escape is accepted and gives another character','paths')
seed('b-c10-float-range','C10',[(L,'''	v, err := strconv.ParseFloat(sb.String(), 64)
	if err != nil {
		return l.lexErr(err)
	}''','''	v, err := strconv.ParseFloat(sb.String(), 64)
	if err != nil && v == 0 {
		return l.lexErr(err)
	}''')],T('vis(t, "1.0e999", vexpr("1.0e999"), "error")'),
 'a floating-point literal beyond the range of float64','it is taken as infinity','paths')
J4='''#!/bin/bash
# runs the command on scratch files
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/seeddemo.XXXXXX)
trap 'rm -r "$t"' EXIT
go build -o "$t/jpath" ./cmd/jpath || exit 2
%s
'''
seed('b-c22-line-too-long','C22',[(JC,'''	if err := input.Err(); err != nil {
		return''','''	if err := input.Err(); err != nil && err != bufio.ErrTooLong {
		return'''),],'','a line of more than 64 kB with -l','the rest of the input is dropped silently',raw=J4%'''head -c 100000 /dev/zero | tr '\\0' ' ' > "$t/in"; echo '1' >> "$t/in"
"$t/jpath" -l '$' "$t/in" > "$t/out" 2> "$t/err" && exit 1
[ -s "$t/err" ]''')
seed('b-c22-unexpected-eof','C22',[(JC,'''			if errors.Is(err, io.EOF) {
				break
			}''','''			if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
				break
			}'''),],'','an input that ends inside a value','a truncated input is taken as its end',raw=J4%'''echo '{"a":1} {"a":' > "$t/in"
"$t/jpath" '$.a' "$t/in" > "$t/out" 2> "$t/err" && exit 1
[ -s "$t/err" ]''')
seed('b-c22-missing-file','C22',[(JC,'''			if err != nil {
				errorf("%s: cannot open: %s", file, err.Error())
			}''','''			if err != nil && flag.NArg() > 2 {
				// go on with the others
				fmt.Fprintf(os.Stderr, "%s: cannot open: %s\\n", file, err.Error())
				continue
			}
			if err != nil {
				errorf("%s: cannot open: %s", file, err.Error())
			}'''),],'','several files of which one cannot be opened','the message is printed but the exit status is zero',raw=J4%'''echo '{"a":1}' > "$t/in"
"$t/jpath" '$.a' "$t/none" "$t/in" > "$t/out" 2> "$t/err" && exit 1
[ -s "$t/err" ]''')
seed('b-c23-digit-sep','C23',[(L,'''	for isDigit(r.look()) {
		sb.WriteByte(byte(r.get()))
	}
	if !real || r.look() != '.' {''','''	for isDigit(r.look()) || r.look() == '_' {
		if r.look() != '_' {
			sb.WriteByte(byte(r.get()))
		}
	}
	if !real || r.look() != '.' {''')],T('vlimit(5*time.Second); vpath("$[1_000]")'),
 'a number followed by an underscore','the lexer loops for ever','paths')
seed('b-c23-not-run','C23',[(X,'''	case '!':
		return p.unary(OpNot)''','''	case '!':
		n := 1
		for p.lookExpr() == '!' {
			n++
		}
		if n%2 == 0 {
			return p.primary()
		}
		return p.unary(OpNot)''')],T('vlimit(5*time.Second); vexpr("!!1")'),
 'two exclamation marks in a row','the parser loops for ever','paths')
seed('b-c23-eof-member','C23',[(PP,'''		if p.lookPath() != ',' {
			break
		}
		p.lexPath()''','''		if tok := p.lookPath(); tok != ',' && tok != tokEOF {
			break
		} else if tok == ',' {
			p.lexPath()
		} else if exp.Op == OpInt {
			// (reported by the caller)
			p.parseListEnd()
		} else {
			break
		}'''),(PP,'''// union-element ::=  array-index | string-literal | array-slice
// array-index ::= signed-integer
// array-slice ::= start? ":" end? (":" stride?)?
func (p *parser) parseVal()''','''func (p *parser) parseListEnd() {
	for p.lookPath() != ']' {
		p.lexPath()
	}
}

// union-element ::=  array-index | string-literal | array-slice
// array-index ::= signed-integer
// array-slice ::= start? ":" end? (":" stride?)?
func (p *parser) parseVal()''')],T('vlimit(5*time.Second); vpath("$[1")'),
 'a subscript list that ends, with the text, after an integer','the parser loops for ever at the end of the text','paths')
seed('b-c24-or-right','C24',[(O,'''func (Op) associativity() int {
	return 1 // they are all left-associative at the moment
}''','''func (op Op) associativity() int {
	if op == OpOr || op == OpAnd {
		return 0 // (grouping makes no difference to them)
	}
	return 1
}''')],T('debug.SetMaxStack(32<<20); vis(t, "1||1||...", vexpr("1"+strings.Repeat("||1", 1000000)), "ok")'),
 'a chain of a million of the same logical operator','each operator of the chain nests another call: the stack is exhausted','paths')
seed('b-c24-unary-primary1','C24',[(X,'''	arg, err := p.primary()
	if err != nil {
		return nil, err
	}
	return &Inner{op, []Expr{arg}}, nil''','''	arg, err := p.operand(op)
	if err != nil {
		return nil, err
	}
	return &Inner{op, []Expr{arg}}, nil'''),(X,'''// apply optional expression e to''','''// operand collects the operand of a unary operator, dropping pairs of !
func (p *parser) operand(op Op) (Expr, error) {
	if op == OpNot && p.lookExpr() == '!' {
		p.advanceExpr()
		if p.lookExpr() == '!' {
			p.advanceExpr()
			return p.operand(op)
		}
		return p.unary(op)
	}
	return p.primary()
}

// apply optional expression e to''')],T('debug.SetMaxStack(32<<20); if r := vexpr(strings.Repeat("!", 3000001)+"1"); strings.HasPrefix(r, "panic") { t.Error(r) }'),
 'millions of exclamation marks in a row','the recursion on runs of ! is not counted','paths')
seed('b-c25-dup-name','C25',[('paths/tokens.go','''	tokNin:    "tokNin",''','''	tokNin:    "tokIn",''')],T('if tokNin.GoString() == tokIn.GoString() { t.Error("same name") }'),
 'the names of in and nin','two tokens share a name','paths')
seed('b-c01-slice-start','C01',[(PP,"""		n := IntVal(lx.i())
		if p.lookPath() == ':' {
			p.lexPath()
			return p.parseSlice(n)
		}""","""		n := IntVal(lx.i())
		if p.lookPath() == ':' {
			lx = p.lexPath()
			if p.lookPath() == ')' {
				return nil, fmt.Errorf("unexpected %d:) at %s", lx.i(), p.offset())
			}
			return p.parseSlice(n)
		}""")],T('vis(t, "$[1:)]", vpath("$[1:)]"), "error")'),
 'a closing parenthesis after the colon of a slice','panic while the error is described','paths')
seed('b-c25-op-dup','C25',[(O,"""	OpNin:        "OpNin",""","""	OpNin:        "OpIn",""")],T('if OpNin.GoString() == OpIn.GoString() { t.Error("same name") }'),
 'rendering nin','nin is rendered as in','paths')
