L='paths/lex.go'; LE='paths/lexexpr.go'; LP='paths/lexpath.go'; PP='paths/parsepath.go'; PS='paths/parser.go'; JC='cmd/jpath/jpath.go'; X='paths/parseexpr.go'; O='paths/ops.go'; C='mach/coder.go'
benign('r-lex-digits',(L,'''	r.unget()
	for isDigit(r.look()) {
		sb.WriteByte(byte(r.get()))
	}
	if !real || r.look() != '.' {''','''	r.unget()
	l.digits(&sb)
	if !real || r.look() != '.' {'''),(L,'''	sb.WriteByte(byte(r.get()))
	for isDigit(r.look()) {
		sb.WriteByte(byte(r.get()))
	}
	if r.look() == 'e' ''','''	sb.WriteByte(byte(r.get()))
	l.digits(&sb)
	if r.look() == 'e' '''),(L,'''		for isDigit(r.look()) {
			sb.WriteByte(byte(r.get()))
		}
	}
	v, err := strconv.ParseFloat''','''		l.digits(&sb)
	}
	v, err := strconv.ParseFloat'''),(L,'''func (l *lexer) lexID(''','''// digits adds the digits that follow to sb.
func (l *lexer) digits(sb *strings.Builder) {
	for isDigit(l.r.look()) {
		sb.WriteByte(byte(l.r.get()))
	}
}

func (l *lexer) lexID('''))
benign('r-lex-ws',(L,'''	for isSpace(l.r.look()) {
		l.r.get()
	}
	return l.r.loc()''','''	r := l.r
	c := r.look()
	for isSpace(c) {
		_ = r.get()
		c = r.look()
	}
	return r.loc()'''),(L,'''	return c == ' ' || c == '\\t' || c == '\\n' || c == '\\r' || c == '\\f' || c == '\\v\'''','''	switch c {
	case ' ', '\\t', '\\n', '\\r', '\\f', '\\v':
		return true
	}
	return false'''))
benign('r-lex-hex',(L,'''		for i := 0; i < 4; i++ {
			c = r.get()
			if c == eof {
				return eof, ErrUnclosedString
			}
			if !isHexDigit(c) {''','''		for n := 4; n > 0; n-- {
			c = r.get()
			switch {
			case c == eof:
				return eof, ErrUnclosedString
			case !isHexDigit(c):'''))
benign('r-lex-string',(LE,'''	case '"', '\\'':
		s, err := l.lexString(c)
		if err != nil {
			return l.lexErr(err)
		}
		return lexeme{tokString, s, err}
	default:''','''	case '"', '\\'':
		return l.stringLexeme(c)
	default:'''),(LP,'''	case '"', '\\'':
		s, err := l.lexString(c)
		if err != nil {
			return l.lexErr(err)
		}
		return lexeme{tokString, s, err}
''','''	case '"', '\\'':
		return l.stringLexeme(c)
'''),(L,'''func (l *lexer) lexID(''','''// stringLexeme returns the rest of a string literal as a lexeme.
func (l *lexer) stringLexeme(quote int) lexeme {
	s, err := l.lexString(quote)
	if err == nil {
		return lexeme{tok: tokString, val: s}
	}
	return l.lexErr(err)
}

func (l *lexer) lexID('''))
benign('r-parse-accept',(PP,'''		vals = append(vals, exp)
		if p.lookPath() != ',' {
			break
		}
		p.lexPath()
	}
	return vals, nil''','''		vals = append(vals, exp)
		if !p.acceptPath(',') {
			return vals, nil
		}
	}'''),(PP,'''		n := IntVal(lx.i())
		if p.lookPath() == ':' {
			p.lexPath()
			return p.parseSlice(n)''','''		n := IntVal(lx.i())
		if p.acceptPath(':') {
			return p.parseSlice(n)'''),(PP,'''		if p.lookPath() == ':' {
			p.lexPath()
			return p.parseSlice(e)''','''		if p.acceptPath(':') {
			return p.parseSlice(e)'''),(PP,'''func (p *parser) lookPath() token {''','''// acceptPath consumes a token if it is next.
func (p *parser) acceptPath(t token) bool {
	if p.lookPath() != t {
		return false
	}
	p.lexPath()
	return true
}

func (p *parser) lookPath() token {'''))
benign('r-parse-nestop',(PP,'''				var op Op
				switch sub.Op {
				case OpSelect, OpExp:
					op = OpNestSelect
				case OpUnion:
					op = OpNestUnion
				case OpWild:
					op = OpNestWild
				case OpFilter:
					op = OpNestFilter
				default:
					panic(fmt.Sprintf("unexpected Nest Op %#v", sub.Op))
				}
				sub.Op = op
''','''				sub.Op = nestOp(sub.Op)
'''),(PP,'''// parse bracketed subscript in''','''// nestOp returns the operator for .. followed by a subscript.
func nestOp(op Op) Op {
	switch op {
	case OpSelect, OpExp:
		return OpNestSelect
	case OpUnion:
		return OpNestUnion
	case OpWild:
		return OpNestWild
	case OpFilter:
		return OpNestFilter
	default:
		panic(fmt.Sprintf("unexpected Nest Op %#v", op))
	}
}

// parse bracketed subscript in'''))
benign('r-parse-slice',(PP,'''	slice := &Slice{start, nil, nil}
	step := &Step{OpSelect, []Val{slice}}
	tok := p.lookPath()''','''	slice := &Slice{Start: start}
	args := []Val{slice}
	step := &Step{Op: OpSelect, Args: args}
	tok := p.lookPath()'''),(PP,'''	switch lx := p.lexPath(); lx.tok {
	case '(':
		e, err := p.parseExpr()
		if err != nil {
			return nil, err
		}
		return e, nil
	case tokInt:
		return IntVal(lx.i()), nil
	default:
		return nil, fmt.Errorf("unexpected %v at %s", lx.tok, p.offset())
	}
}

// member''','''	lx := p.lexPath()
	if lx.tok == tokInt {
		return IntVal(lx.i()), nil
	}
	if lx.tok != '(' {
		return nil, fmt.Errorf("unexpected %v at %s", lx.tok, p.offset())
	}
	e, err := p.parseExpr()
	if err != nil {
		return nil, err
	}
	return e, nil
}

// member'''))
benign('r-expr-loop',(X,'''	for tok2op(p.lookOp()).precedence() >= pri {
		lx := p.lexOp()
		if lx.err != nil {
			return nil, lx.err
		}
		op := tok2op(lx.tok)
		oprec := op.precedence()
		right, err := p.expr(oprec + op.associativity())
		if err != nil {
			return nil, err
		}
		e = &Inner{op, []Expr{e, right}}
	}
	return e, nil''','''	for {
		if tok2op(p.lookOp()).precedence() < pri {
			return e, nil
		}
		lx := p.lexOp()
		if lx.err != nil {
			return nil, lx.err
		}
		op := tok2op(lx.tok)
		next := op.precedence() + op.associativity()
		right, err := p.expr(next)
		if err != nil {
			return nil, err
		}
		operands := []Expr{e, right}
		e = &Inner{op, operands}
	}'''))
benign('r-expr-leaf',(X,'''	case tokID:
		switch id := lx.s(); id {
		case "true":
			return &BoolLeaf{OpBool, true}, nil
		case "false":
			return &BoolLeaf{OpBool, false}, nil
		case "null":
			return &NullLeaf{OpNull}, nil
		default:
			return &NameLeaf{OpID, id}, nil
		}
''','''	case tokID:
		return wordLeaf(lx.s()), nil
'''),(X,'''// convert tokens to expression operators''','''// wordLeaf returns the leaf for an identifier or a reserved word.
func wordLeaf(id string) Expr {
	switch id {
	case "true", "false":
		return &BoolLeaf{OpBool, id == "true"}
	case "null":
		return &NullLeaf{OpNull}
	}
	return &NameLeaf{OpID, id}
}

// convert tokens to expression operators'''))
benign('r-expr-subscript',(X,'''			// index, just one expression
			p.advanceExpr()
			index, err := p.expr(0)
			if err != nil {
				return nil, err
			}
			err = p.expect(p.lexExpr, ']')
			if err != nil {
				return nil, err
			}
			e = &Inner{OpIndex, []Expr{e, index}}''','''			// index, just one expression
			p.advanceExpr()
			e, err = p.subscriptOf(e)
			if err != nil {
				return nil, err
			}'''),(X,'''// apply optional expression e to''','''// subscriptOf parses the rest of an index of e
func (p *parser) subscriptOf(e Expr) (Expr, error) {
	index, err := p.parseScriptExpr()
	if err != nil {
		return nil, err
	}
	if err := p.expect(p.lexExpr, ']'); err != nil {
		return nil, err
	}
	return &Inner{OpIndex, []Expr{e, index}}, nil
}

// apply optional expression e to'''))
benign('r-tok2op-table',(O,'''	switch op {
	case OpOr:
		return 0
	case OpAnd:
		return 1
	case OpEQ, OpNE:
		return 2
	case OpLT, OpLE, OpGT, OpGE, OpMatch, OpIn, OpNin:
		return 3
	case OpAdd, OpSub:
		return 4
	case OpMul, OpDiv, OpMod:
		return 5
	default:
		return -1
	}''','''	if prec, ok := precedences[op]; ok {
		return prec
	}
	return -1'''),(O,'''// precedence returns a binary''','''var precedences = map[Op]int{
	OpOr:    0,
	OpAnd:   1,
	OpEQ:    2,
	OpNE:    2,
	OpLT:    3,
	OpLE:    3,
	OpGT:    3,
	OpGE:    3,
	OpMatch: 3,
	OpIn:    3,
	OpNin:   3,
	OpAdd:   4,
	OpSub:   4,
	OpMul:   5,
	OpDiv:   5,
	OpMod:   5,
}

// precedence returns a binary'''))
benign('r-jpath-each',(JC,'''		results, err := jpath.Eval(root)
		if err != nil {
			return fmt.Errorf("#%d: evaluation error: %w", off, err)
		}
		err = enc.Encode(results)
		if err != nil {
			return fmt.Errorf("#%d: encoding results: %w", off, err)
		}
''','''		if err := evaluate(jpath, root, enc); err != nil {
			return fmt.Errorf("#%d: %w", off, err)
		}
'''),(JC,'''		results, err := jpath.Eval(root)
		if err != nil {
			return fmt.Errorf("%d: evaluation error: %w", lno, err)
		}
		err = enc.Encode(results)
		if err != nil {
			return fmt.Errorf("%d: encoding results: %w", lno, err)
		}
''','''		if err := evaluate(jpath, root, enc); err != nil {
			return fmt.Errorf("%d: %w", lno, err)
		}
'''),(JC,'''func errorf(''','''// evaluate applies jpath to one value and writes the results.
func evaluate(jpath *jsonpath.JSONPath, root interface{}, enc *json.Encoder) error {
	results, err := jpath.Eval(root)
	if err != nil {
		return fmt.Errorf("evaluation error: %w", err)
	}
	if err := enc.Encode(results); err != nil {
		return fmt.Errorf("encoding results: %w", err)
	}
	return nil
}

func errorf('''))
benign('r-jpath-files',(JC,'''	if flag.NArg() > 1 {
		for _, file := range flag.Args()[1:] {
			fd, err := os.Open(file)
			if err != nil {
				errorf("%s: cannot open: %s", file, err.Error())
			}
			err = reader(fd, jpath, enc)
			fd.Close()
			if err != nil {
				errorf("%s:%s", file, err.Error())
			}
		}
	} else {''','''	files := flag.Args()[1:]
	for _, file := range files {
		readFile(file, reader, jpath, enc)
	}
	if len(files) == 0 {'''),(JC,'''func errorf(''','''// readFile applies jpath to the contents of a file.
func readFile(name string, reader func(*os.File, *jsonpath.JSONPath, *json.Encoder) error, jpath *jsonpath.JSONPath, enc *json.Encoder) {
	fd, err := os.Open(name)
	if err != nil {
		errorf("%s: cannot open: %s", name, err.Error())
	}
	defer fd.Close()
	if err := reader(fd, jpath, enc); err != nil {
		errorf("%s:%s", name, err.Error())
	}
}

func errorf('''))
benign('r-coder-loop',(C,'''		switch step.Op {
		case paths.OpNestMember, paths.OpNestFilter, paths.OpNestSelect, paths.OpNestUnion, paths.OpNestWild:
			err := b.codeLoop(step, paths.OpNest)
			if err != nil {
				return nil, err
			}
		case paths.OpFilter:
			err := b.codeLoop(step, paths.OpFor)
			if err != nil {
				return nil, err
			}
		default:
			// general case
			_, err := b.codeStep(step)
			if err != nil {
				return nil, err
			}
		}''','''		var err error
		switch step.Op {
		case paths.OpNestMember, paths.OpNestFilter, paths.OpNestSelect, paths.OpNestUnion, paths.OpNestWild:
			err = b.codeLoop(step, paths.OpNest)
		case paths.OpFilter:
			err = b.codeLoop(step, paths.OpFor)
		default:
			// general case
			_, err = b.codeStep(step)
		}
		if err != nil {
			return nil, err
		}'''))
benign('r-names',(O,'''	return opNames[o]
}''','''	name := opNames[o]
	return name
}'''),('paths/tokens.go','''	if s := tokNames[t]; s != "" {
		return s
	}
	return string(t)''','''	s, ok := tokNames[t]
	if ok && s != "" {
		return s
	}
	return string(t)'''),('mach/text.go','''			if ord.isSmallInt() {
				sb.WriteByte('(')
				sb.WriteString(fmt.Sprint(ord.smallInt()))
				sb.WriteByte(')')
			} else {
				sb.WriteByte('[')
				sb.WriteString(fmt.Sprint(ord.index()))
				sb.WriteByte(']')
			}
''','''			if ord.isSmallInt() {
				fmt.Fprintf(&sb, "(%d)", ord.smallInt())
			} else {
				fmt.Fprintf(&sb, "[%d]", ord.index())
			}
'''))
