#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay readable)."""
import json,sys
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
                   observe_at=observe or [],hook_needed=None)))
LEX=["paths/lex.go","paths/lexpath.go","paths/lexexpr.go","paths/rd.go"]
PARSE=LEX+["paths/parsepath.go","paths/parseexpr.go","paths/parser.go"]
p("C01","Compiling any text never panics",
  "For every string, Compile, paths.ParsePath, paths.ParseScriptExpression, and mach.Compile of a path that ParsePath returned, come back with a value or an error: none of them panics (index out of range, failed type assertion, nil dereference, unhashable map key, division by zero, explicit panic). Exhausting memory is not meant, and call depth is a separate property.",
  ["inputs"],"all strings as path or script-expression text",
  "The tests parse about 600 fixed samples; whether some other text reaches one of the unchecked assertions, index expressions or explicit panics of the lexer, parser and compiler is a question about all strings.",
  PARSE+["mach/coder.go","mach/program.go","jsonpath.go"],
  [("token kind determines the dynamic type of a token's value","paths/lex.go lexeme.s/i/f"),("position kept inside the text","paths/rd.go get/unget"),("one token of lookahead","paths/lex.go unget"),("default branches that panic","mach/coder.go valOp/codeLeaf, paths/parsepath.go")],
  [("position","byte offset of the reader, between 0 and the length of the text","paths/rd.go"),("lookahead","saved token and its flag","paths/lex.go")],["jsonpath.Compile","paths.ParsePath","paths.ParseScriptExpression","mach.Compile"])
p("C02","Evaluating any compiled path on any document never panics",
  "For every expression that Compile accepts and every document made of the types encoding/json produces (nil, bool, float64, string, []interface{}, map[string]interface{}), Eval comes back with results or an error; neither the calling goroutine nor one it starts panics.",
  ["inputs","programs"],"all accepted expressions x all JSON documents",
  "The suites run a few hundred expression/document pairs; slice bounds, strides, indices, operand types and built-in arguments range over all integers and all JSON shapes.",
  ["mach/run.go","mach/fns.go","mach/json.go","mach/program.go"],
  [("bounds normalised before elements are read","mach/run.go sliceEval, valsByKey, valByKey, slicing"),("type tests before assertions","mach/run.go, mach/json.go eqVal"),("argument count checked before the body of a built-in runs","mach/run.go call"),("channel closed once, by its only sender","mach/run.go stepping, walker")],
  [("machine","stack, candidate and output set of one evaluation","mach/run.go")],["JSONPath.Eval","Program.Run"])
p("C03","Evaluation never modifies the document",
  "Eval only reads the document it is given: no element, member or spare capacity of any array or object of the document is ever written, whatever the expression, whether evaluation succeeds or fails.",
  ["inputs","programs"],"all accepted expressions x all JSON documents",
  "No test compares the document before and after; a write may need a particular operator, operand type or slice capacity.",
  ["mach/run.go","mach/fns.go","mach/json.go"],
  [("selections are appended to storage the evaluation allocated","mach/run.go applySelection, looptop, popN"),("built-ins only read their arguments","mach/fns.go")],None,["JSONPath.Eval"])
p("C04","A compiled path is immutable: concurrent Eval shares no mutable state",
  "After Compile returns, nothing that Eval does writes to the compiled path, its program and constants, or any package-level variable, and storage shared with a goroutine that Eval started is not written while that goroutine may use it; so one compiled path may be evaluated by any number of goroutines at once with each obtaining the result it would obtain alone.",
  ["schedules","programs","inputs"],"all interleavings of any number of Eval calls on one compiled path",
  "No test evaluates concurrently or under the race detector; a data race needs a schedule.",
  ["jsonpath.go","mach/run.go","mach/program.go","mach/fns.go"],
  [("every run has its own machine","mach/run.go Run"),("tables of operators and functions are only read","mach/fns.go functions"),("the output set handed to a producer is replaced, not extended","mach/run.go looptop")],None,["JSONPath.Eval"])
p("C05","Results are values of the document, never invented",
  "Every element of the slice that Eval returns is the document itself or a value contained in it; a value computed by an expression, or a placeholder for a value that does not exist, never appears as a result.",
  ["inputs","programs"],"all accepted expressions x all JSON documents",
  "Tests compare a few hundred expected lists; an invented null or computed value shows only for particular shapes (for example a filter applied to an empty array or to a number).",
  ["mach/run.go"],
  [("the output set grows only by document values","mach/run.go valsByKey, valsWild, Run"),("a loop body runs only for a candidate that was received","mach/run.go looptop, OpRep")],None,["JSONPath.Eval"])
p("C06","The result slice is freshly allocated",
  "The slice that Eval returns shares its backing storage with neither the document, nor the compiled path, nor the result of another Eval: a caller may overwrite its elements or append to it without affecting any of them.",
  ["inputs","programs","histories"],"all accepted expressions x all documents x all later uses of the result",
  "The tests never modify a result.",
  ["mach/run.go"],[("output set rebuilt by appending to a new slice","mach/run.go applySelection, looptop, Run")],None,["JSONPath.Eval"])
p("C07","Exactly one of result and error",
  "Compile, paths.ParsePath, paths.ParseScriptExpression and mach.Compile return either a usable non-nil value and a nil error, or no value and a non-nil error; Eval returns either a non-nil (possibly empty) slice and a nil error, or a nil slice and a non-nil error; MustCompile panics exactly when Compile returns an error.",
  ["inputs","programs"],"all texts, all accepted expressions, all documents",
  "The tests look at the pair only for their samples and check few error returns.",
  ["jsonpath.go","paths/parsepath.go","paths/parseexpr.go","mach/coder.go","mach/run.go"],
  [("error returns carry no value","every return statement of the named functions"),("empty output set normalised","mach/run.go Run")],None,["jsonpath.Compile","jsonpath.MustCompile","JSONPath.Eval"])
p("C08","Eval leaves no goroutine behind",
  "By the time Eval returns, with results or with an error, every goroutine it started has delivered all its values and finished or can finish without any further action: none stays blocked for ever.",
  ["inputs","programs","schedules"],"all accepted expressions x all documents, including evaluations that stop with an error",
  "No test counts goroutines; the leak needs an evaluation error in the middle of an iteration.",
  ["mach/run.go"],[("values are received until the channel is closed","mach/run.go OpRep"),("remaining values are drained on every exit","mach/run.go Run"),("producer closes its channel","mach/run.go stepping, walker")],
  [("inputs","channels of unfinished producers","mach/run.go machine.values")],["JSONPath.Eval"])
p("C09","Only complete expressions are accepted",
  "If Compile, ParsePath or ParseScriptExpression accepts a text, all of it has been read up to its end as part of the expression: no trailing text is ignored, and no construct left open at the end of the text (string, regular expression, bracket, parenthesis) is accepted as if it were closed.",
  ["inputs"],"all strings",
  "The tests have some unclosed and trailing samples only; acceptance of a proper prefix depends on where the text stops.",
  PARSE,[("success only at the end-of-text token","paths/parsepath.go parsePath, paths/parseexpr.go ParseScriptExpression"),("expect a closing token","paths/parser.go expect"),("unclosed literals reported","paths/lex.go lexString, paths/lexexpr.go lexRegexp")],None,["jsonpath.Compile","paths.ParseScriptExpression"])
p("C10","No lexical, numeric or regexp error is swallowed by Compile",
  "If anything in the text is found invalid while compiling it (bad character or escape, unclosed literal, control character in a string, malformed or out-of-range number, invalid regular expression, unexpected token), Compile returns an error: it never continues with a truncated, clipped or default value.",
  ["inputs"],"all strings",
  "Each error has to be carried through several layers (reader, token, lookahead, parser, compiler); tests sample a handful of them.",
  PARSE+["mach/coder.go"],[("errors travel in the token","paths/lex.go lexErr, look"),("conversion errors returned","paths/lex.go lexNumber, paths/lexpath.go, paths/parseexpr.go primary1"),("error results checked at every call","paths/*.go, mach/coder.go")],None,["jsonpath.Compile"])
p("C11","Program operands survive encoding at any magnitude",
  "Every constant, operand count and branch target of a compiled program is decoded at run time as exactly the value, and the kind of value, that was compiled, for any magnitude; if one cannot be represented, Compile returns an error.",
  ["programs","inputs"],"all expressions, of any size, with any integer literal",
  "Tests use a few literals and tiny programs; truncation shows at the edges of a 23-bit field and with millions of operations.",
  ["mach/program.go","mach/coder.go"],[("range checked before packing","mach/coder.go codeOp, codeLeaf, mkVal; mach/program.go isSmallInt"),("op, flag and operand occupy disjoint bits","mach/program.go mkOrder, mkSmall"),("sign restored when unpacking","mach/program.go smallInt, pc")],
  [("order","8-bit op, 1-bit flag, 23-bit operand","mach/program.go")],["Program.Run","Program.String"])
p("C12","Every accepted expression is executable",
  "For every expression Compile accepts, evaluation finds an implementation for each operation with the number and kind of operands it needs, consumes all operands it pushed, and keeps loops properly nested: Eval never fails with an internal error (unimplemented operation, missing operand, bad branch).",
  ["programs"],"all accepted expressions",
  "The compiler and the machine are two tables kept in step by hand; a test covers an operation only in the combinations it happens to use.",
  ["mach/coder.go","mach/run.go","paths/parseexpr.go","paths/parsepath.go","paths/ops.go"],
  [("operands pushed before their operator","mach/coder.go codeExpr, codeArgs"),("each case pops what its operator was given and pushes one value","mach/run.go Run"),("loop start and end emitted in pairs","mach/coder.go codeLoop")],None,["JSONPath.Eval"])
p("C13","Precedence and associativity",
  "In script expressions unary operators and postfix selections bind tighter than any binary operator, then * / %, then + -, then < <= > >= =~ in nin, then == !=, then &&, then ||; binary operators of one level group from the left.",
  ["inputs"],"all operator sequences",
  "Tests fix the tree for a few operator pairs; there are hundreds of ordered pairs and any one may be wrong.",
  ["paths/ops.go","paths/parseexpr.go"],[("precedence table","paths/ops.go precedence"),("left association","paths/ops.go associativity, paths/parseexpr.go expr")],None,["paths.ParseScriptExpression","jsonpath.Compile"])
p("C14","Operators denote the documented operation (arithmetic)",
  "Each operator symbol denotes its documented operation: for numbers (and booleans taken as 0 or 1) a+b, a-b, a*b, a/b, a%b and unary - give the 64-bit integer result when both operands are integers and the floating-point result when either is floating-point, with operands in source order; division by zero, and binary arithmetic on any operand that is missing, null, a string, an array or an object, yields no value.",
  ["inputs","programs"],"all operand pairs of all types",
  "Tests use a few numeric pairs; operand types range over every pair of JSON types, with integer and floating-point forms treated by different code.",
  ["mach/run.go","paths/lexexpr.go","paths/parseexpr.go"],[("token to operator","paths/lexexpr.go lexExpr, paths/parseexpr.go tok2op, primary1"),("operator to operation","mach/run.go Run, arith, divide")],None,["JSONPath.Eval"])
p("C15","Relational operators compare like with like",
  "a<b, a<=b, a>=b and a>b compare two strings by byte order and two numbers (booleans as 0 or 1) by value, numerically exact when both are integers and as floating-point when either is; a string against a number, and anything against null, an array or an object, is false; a missing operand yields no value.",
  ["inputs","programs"],"all operand pairs of all types and orderings",
  "Each operator has three comparison functions and a ladder of type tests; tests exercise a fraction of operator x type pair x ordering.",
  ["mach/run.go","mach/json.go"],[("relation and its three comparison functions per operator","mach/run.go relation")],None,["JSONPath.Eval"])
p("C16","Equality is the documented loose equality, and symmetric",
  "a==b follows ECMAScript's abstract equality with arrays and objects compared by content (same length, equal elements; same member names, equal members): null and missing equal only each other; numbers, strings and booleans compare after conversion to number, a string that is not a number equalling no number; an array equals a primitive only through its sole element (or emptiness); an object equals no primitive. a==b and b==a agree, and != is its negation. x in array holds exactly when some element equals x in this sense, and nin is its negation.",
  ["inputs","programs"],"all pairs of values of all types",
  "The table in the tests has about 60 pairs, most of scalars; it says nothing about members that are missing, nested values, or integer against floating-point forms of the same comparison.",
  ["mach/json.go","mach/run.go"],[("case analysis on type pairs","mach/json.go eqVal, eqNum, eqArrayN, eqArrayS, badNum")],None,["JSONPath.Eval"])
p("C17","Truthiness, logical operators and filter decisions",
  "Exactly null, a missing value, false, zero, NaN and the empty string are falsy; every other value, including empty arrays and objects, is truthy. a||b is a if a is truthy and otherwise b, a&&b is a if a is falsy and otherwise b, !a is the negation of a's truthiness, and a filter keeps a candidate exactly when the filter's value is truthy.",
  ["inputs","programs"],"all values of all types as operands",
  "Tests use few of the value classes in each position.",
  ["mach/json.go","mach/run.go"],[("truthiness by type","mach/json.go cvb"),("OpAnd, OpOr, OpNot, OpFilter, OpNestFilter","mach/run.go Run")],None,["JSONPath.Eval"])
p("C18","Index and slice selection",
  "[n] selects element n of an array when 0<=n<length and element length+n when -length<=n<0, and otherwise nothing; .n only accepts the former; [start:end:stride] selects, in order, the elements start, start+stride, ... before end, where negative bounds count from the end, bounds are clamped to the array, omitted bounds take the whole array in the direction of the stride, and stride 0 selects nothing; all for every 64-bit integer and every array length.",
  ["inputs"],"all integers and array lengths",
  "Tests use arrays of about five elements and bounds close to them; off-by-one and overflow errors hide at combinations of sign, clamping and stride.",
  ["mach/run.go"],[("bounds normalisation","mach/run.go sliceEval"),("element loops","mach/run.go valsByKey"),("index normalisation","mach/run.go valByKey")],None,["JSONPath.Eval"])
p("C19","Selection is complete and keeps order",
  "A wildcard selects every element of an array, in order, and every member of an object, each exactly once; a recursive descent visits every array and object in the current values, the containing value before what it contains, and applies its step to each exactly once; a filter considers every element or member of each current value exactly once; each step applies to every current value, in order, and results of earlier values are never lost; union results come in the order written.",
  ["inputs","programs"],"all documents and all sequences of steps",
  "Test documents are small and results are often compared without order; a value lost for one particular type or position goes unnoticed.",
  ["mach/run.go"],[("loops over arrays and objects","mach/run.go applySelection, valsWild, stepping, walker, walkdown"),("accumulation","mach/run.go valsByKey")],None,["JSONPath.Eval"])
p("C20","Evaluation is deterministic up to member order",
  "Evaluating the same compiled path on the same document fails every time or gives the same results every time, in the same order except that values taken from the members of one object may come in any order: what is selected never depends on map iteration order, goroutine scheduling, time, randomness or earlier evaluations.",
  ["schedules","histories","inputs"],"all runs of the same evaluation",
  "A test runs an evaluation once; a dependence on map order shows in some runs only.",
  ["mach/run.go","mach/fns.go","mach/json.go"],[("map iteration feeds only the output set","mach/run.go valsWild, stepping, walkdown"),("keys in a fixed order","mach/fns.go keys"),("one producer per channel","mach/run.go looptop")],None,["JSONPath.Eval"])
p("C21","Built-in functions: arity, argument types, result",
  "A call of an unknown function, or with the wrong number of arguments, makes Eval return an error; the documented functions exist with their documented argument counts; called with an argument of a type it does not accept a function yields no value (null for length), and abs, ceil, floor, contains, starts_with, ends_with, length, keys and to_number give the documented result on accepted arguments.",
  ["inputs","programs"],"all functions x all argument types and counts",
  "Each function is tested on one to three argument lists.",
  ["mach/fns.go","mach/run.go"],[("function table","mach/fns.go functions"),("call checks","mach/run.go call")],None,["JSONPath.Eval"])
p("C22","jpath reports every failure through its exit status",
  "The jpath command exits with non-zero status and a message on standard error whenever its usage or path is wrong, an input file cannot be opened or read, an input value is malformed, evaluation fails, or any part of its output cannot be written; results of values already processed are still written.",
  ["inputs","fault_sequences"],"all inputs, and failures of any read or write",
  "The command has no tests; write failures need a full or closed output.",
  ["cmd/jpath/jpath.go"],[("errors returned to main and reported","cmd/jpath/jpath.go readValues, readLines, errorf"),("output flushed and the flush checked","cmd/jpath/jpath.go main, errorf")],None,["jpath exit status"])
p("C23","Compiling any text terminates",
  "For every string, the lexer and the parser terminate: every repeated or recursive step consumes input, and the end of the text ends every loop. (The code generator then makes one pass over the finite tree.)",
  ["inputs"],"all strings",
  "A loop that fails to advance shows only for texts that put it in that position, typically at the very end of the text.",
  PARSE+["mach/coder.go"],[("character classes exclude end of text","paths/lex.go isDigit, isLetter, isSpace"),("each token consumes at least one byte","paths/lexpath.go, paths/lexexpr.go"),("end of text handled in each loop","paths/*.go")],None,["jsonpath.Compile"])
p("C24","Nesting depth of expressions is bounded",
  "No expression text, however long or deeply nested, makes Compile or Eval exhaust the goroutine stack (which would kill the whole process): recursion on the expression is bounded by a fixed limit, beyond which Compile returns an error.",
  ["inputs"],"all strings",
  "Needs a text with hundreds of thousands of nested operators.",
  ["paths/parseexpr.go","mach/coder.go"],[("depth limit","paths/parseexpr.go, mach/coder.go")],None,["jsonpath.Compile"])
p("C25","Every operation and token has its own readable name",
  "Rendering a compiled program, a path step, an operator or a token as text never panics and never yields an empty name, and different operators (and different tokens) have different internal names.",
  ["programs"],"all operators, tokens and compiled programs",
  "The program listing in the tests covers the operators its samples use.",
  ["paths/ops.go","paths/tokens.go","mach/text.go"],[("name tables","paths/ops.go opNames, opText; paths/tokens.go tokNames, tokText"),("listing","mach/text.go String, trimOp")],None,["Program.String","Op.String","Op.GoString"])
p("C26","$ is the whole document and @ the current candidate",
  "Anywhere in an expression, at any step, $ denotes the whole document given to Eval; inside a filter or recursive step @ denotes the candidate being considered, for every candidate, and outside one it has no member; neither is affected by other candidates, other steps or nested calls.",
  ["inputs","programs"],"all expressions and documents",
  "Tests use $ inside a filter in a handful of samples.",
  ["mach/run.go"],[("root fixed at the start of the run","mach/run.go Run"),("candidate set by each receive","mach/run.go looptop, OpRep")],None,["JSONPath.Eval"])
p("N01","Literal values are decoded exactly",
  "A string, identifier, number or regular-expression literal denotes exactly the value its text spells under JSON's rules (escapes, surrogate pairs, UTF-8, decimal and exponent notation).",
  ["inputs"],"all literal texts",
  "Tests contain a few dozen literals.",
  LEX,[("literal scanners","paths/lex.go lexString, lexNumber, lexID; paths/lexexpr.go lexRegexp")],None,["jsonpath.Compile"])
p("N02","The accepted language is the documented grammar",
  "Compile accepts exactly the texts derivable from the grammar in the documentation.",
  ["inputs"],"all strings",
  "Tests have a few hundred texts.",
  PARSE,[("recursive-descent parser","paths/parsepath.go, paths/parseexpr.go")],None,["jsonpath.Compile"])
p("N03","Aggregates compute the mathematical aggregate",
  "sum, prod, avg, min and max of an array give the sum, product, mean, least and greatest element as floating-point arithmetic defines them; tokenize splits at the matches of the regular expression; =~ holds exactly when the expression matches part of the string.",
  ["inputs"],"all arrays and strings",
  "One or two argument lists each in the tests.",
  ["mach/fns.go","mach/run.go"],[("folds over the array","mach/fns.go arithArrayOp, stringArrayOp, minMaxArray"),("regular expressions","mach/run.go OpMatch, mach/fns.go tokenize")],None,["JSONPath.Eval"])
with open('/verif/properties.jsonl','w') as f:
    for e in P: f.write(json.dumps(e,ensure_ascii=False)+"\n")
print(len(P))
