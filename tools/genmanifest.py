#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json
TECH={
"C14":"abstract interpretation of the compiled expression on every pair of operand kinds, compared with a reference semantics interpreted beside it",
"C15":"abstract interpretation of the compiled expression on every pair of operand kinds, compared with a reference semantics interpreted beside it",
"C16":"abstract interpretation of == != in nin on operand kinds and shaped arrays/objects, compared with a reference semantics; symmetry on the joint abstract state",
"C17":"abstract interpretation of || && ! and of filters on every operand kind, compared with a reference semantics",
"C21":"abstract interpretation of every function with every argument count and kind, compared with a reference semantics",
"C18":"abstract interpretation (parser, compiler and machine, over the SSA form) of index and slice steps with symbolic 64-bit bounds, compared with a reference",
"C19":"abstract interpretation (parser, compiler and machine, over the SSA form) of single and paired steps on documents of given shapes with symbolic leaves, compared with a reference walk over all member orders",
"C20":"abstract interpretation (parser, compiler and machine, over the SSA form): outcomes over all member orders compared on constant documents; effect analysis (program, globals, shared storage, shape of goroutines, channel typestate) on documents of unknown content",
"C26":"abstract interpretation (parser, compiler and machine, over the SSA form) of @ and $ at every position of an expression, before and after every operator and function, compared with a reference walk",
"C13":"abstract interpretation (parser, compiler and machine, over the SSA form) of flat expressions of up to three operators on operands of symbolic value, compared with their staged evaluation",
"C02":"abstract interpretation (compile and evaluation, over the SSA form) of generated expressions covering every step, selector and operator on a document of unknown content; a proof obligation at every operation that can panic",
"C03":"abstract interpretation (compile and evaluation, over the SSA form) of generated expressions covering every step, selector and operator on a document of unknown content; provenance/effect analysis: no write to storage of the document",
"C04":"abstract interpretation (compile and evaluation, over the SSA form) of generated expressions covering every step, selector and operator on a document of unknown content; effect and escape analysis: no write to the program, package variables or storage shared with a goroutine",
"C05":"abstract interpretation (compile and evaluation, over the SSA form) of generated expressions covering every step, selector and operator on a document of unknown content; provenance analysis of every element of the returned slice",
"C06":"abstract interpretation (compile and evaluation, over the SSA form) of generated expressions covering every step, selector and operator on a document of unknown content; ownership (freshness) analysis of the returned slice's storage",
"C08":"abstract interpretation (compile and evaluation, over the SSA form) of generated expressions covering every step, selector and operator on a document of unknown content; typestate of channels and goroutines: every producer's channel drained to its end",
"C12":"abstract interpretation (compile and evaluation, over the SSA form) of generated expressions covering every step, selector and operator on a document of unknown content; reachability of internal errors and stack balance",
"C01":"abstract interpretation (over the SSA form) of the lexers on any text and of the parser on any sequence of the lexemes they were shown to deliver, and of the code generator on generated expressions; a proof obligation at every operation that can panic",
"C07":"abstract interpretation (over the SSA form) of the parsers on any sequence of lexemes, of the code generator and of evaluation of generated expressions on a document of unknown content: the pair of results on every return; Compile and MustCompile with each callee failing or not",
"C09":"abstract interpretation of the lexers on any text and of the parser on any sequence of lexemes: what was consumed when a result without error is returned; every error of a lexeme followed to the result",
"C10":"abstract interpretation of the parsers, error-flow analysis of the code generator and of Compile, and classes of malformed beginnings shown to end in an error",
"C11":"abstract interpretation of Compile and Eval: constants of symbolic value compared as the machine sees them; every operand packed into an order, in a program of symbolic size, shown to fit its field on every path without an error",
"C22":"error-flow dataflow analysis of the command: every path from a call that may fail to the exit of the program",
"C23":"abstract interpretation of the lexers and the parser: every round of every loop, and every recursion, shown to consume input",
"C24":"call graph with guards: every recursion passes a limit on a counter that is incremented and taken back; recursions by precedence unrolled by constant arguments; no recursion on expressions in evaluation",
"C25":"constant propagation of the naming functions over every operator and token; abstract interpretation of the rendering of generated programs, steps and values",
}
NOTE={}
NOTE_DEFAULT="Static, over the SSA form of the current source; abstract states cover all values of the stated kinds/shapes. Not a machine-checked proof: the analyser and its models of library functions are trusted."
NA={
"N01":"the value of a literal is a computation over the characters of an unbounded text; deciding it needs a semantic equivalence proof of the scanners and of strconv, not a static property in reach",
"N02":"equivalence of a hand-written parser with a grammar over all texts is undecidable in general and out of reach of the abstraction used (C09, C10, C13 decide parts of it)",
"N03":"folds over arrays of unbounded length with floating-point results, and regular-expression matching: a static analysis cannot bound the runtime quantities",
}
props=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    if p in TECH:
        checks.append(dict(property=p,quick_cmd=f"./run.sh {p} quick",thorough_cmd=f"./run.sh {p} thorough",technique=TECH[p],level="other",level_note=NOTE.get(p,NOTE_DEFAULT)))
    else:
        na.append(dict(property=p,reason=NA.get(p,"no check yet")))
json.dump(dict(version=1,setup_cmd="./run.sh build",checks=checks,not_applicable=na),open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
