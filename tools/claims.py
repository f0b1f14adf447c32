COMMON="Proof for all inputs of the functions named in the evidence, relative to the assumptions listed there; the bounded harness (labelled bounded, not counted as proved) replays failures on the real interpreter. "
CLAIMED={
"P02":COMMON+"progn, if, and, or, cond, while and case (strict and object test) are under contract.",
"P04":COMMON+"block, return-from, return, catch and throw are under contract; passing on by other constructs is part of the P02, P05 and P06 contracts.",
"P05":COMMON+"tagbody and go are under contract for proper-list bodies with distinct tags.",
"P09":COMMON+"One generated contract per built-in (no reachable run-time panic for any arguments); the built-ins not discharged are listed in DESIGN.md and are covered by the bounded harness only.",
"P10":COMMON+"One generated contract per built-in (results and stored values are real Lisp values); the built-ins not discharged are listed in DESIGN.md and are covered by the bounded harness only.",
"P07":COMMON+"dynamic-let is under contract (assuming that initial-value forms do not themselves rebind the variable under consideration); frame contracts for every built-in and call method that may write the handler stack, the standard input and the tables of active block, catch and tag names; the remaining built-ins are shown frame-safe by a call-graph argument over the SSA of the real code.",
"P11":COMMON+"+, -, *, / for any number of integer arguments (every partial result within 64 bits) and mod, rem are under contract; handlers that continue a division-by-zero condition with a value are excluded.",
"P12":COMMON+"<, <=, >, >=, = for any number of integers, /= , the mixed integer/float comparisons of two arguments and the predicates on integers are under contract; predicates on floats and longer mixed sequences are covered by the bounded harness only.",
"P13":COMMON+"floor, ceiling, truncate, round and ten conversions are under contract, relative to the mathematical contracts of Go's math, strconv and decimal formatting; convert from float to integer, string and to other classes is covered by the bounded harness only.",
"P08":COMMON+"the signalling mechanism (every instance of callHandler), signal-condition, continue-condition, with-handler and ignore-errors are under contract, and one generated contract per other built-in shows that the first failing evaluation ends it and its failure is reported; the built-ins listed in DESIGN.md as not discharged are covered by the bounded harness only.",
"P26":COMMON+"the Call methods of functions, user functions and special forms, the tail position of user functions, while, the loop that replaces tail calls and ignore-errors are under contract; that every construct passes a failure (and so the context's error) on unchanged is part of the P08 contracts.",
"P01":COMMON+"the Call methods of user functions and of built-ins of zero, one, two and any number of arguments, the evaluation of a call form, funcall, apply and the making of functions are under contract; the evaluation of an argument of a call of a macro or generic function is in P24 and P20.",
"P03":COMMON+"variable lookup and assignment over a chain of environments, let, let*, flet, labels, setq, the making of functions and the environment of a function call are under contract (plus let and let* in tail position).",
"P27":COMMON+"the loop that runs tail calls, the recognition of a tail call, and if, cond, progn in tail position are under contract; let and let* in tail position are in P03.",
"P14":COMMON+"car, cdr, cons, set-car, set-cdr, list, create-list, reverse, nreverse, length, last, member, assoc, append and the list builder are under contract, for proper lists of any length.",
"P15":COMMON+"mapcar, mapc, mapcan, maplist, mapl and mapcon are under contract for any number of lists of any length, and so are the argument list they build and its quoting; lists that the called function changes while they are mapped are excluded.",
"P16":COMMON+"aref, set-aref, create-array, vector, array-dimensions, Array.Elt and dim2size are under contract for every rank; that arrays are well made (as many elements as the product of the dimensions) is assumed of arguments and shown of create-array, vector and aref.",
"P17":COMMON+"make-hash-table, gethash, set-gethash, remhash, hash-table-count and clrhash are under contract; what a handler substitutes for an argument that is no table is not followed.",
"P20":COMMON+"the choice of an applicable method and the call of a generic function are under contract.",
"P21":COMMON+"InheritP, subClassP, Equals and InstanceP of both kinds of classes, class-of, create, subclassp and instancep are under contract.",
"P22":COMMON+"the reader, writer and boundp functions that defclass makes, initialisation arguments (every slot that names one) and forms (the most specific class's), and create are under contract.",
"P18":COMMON+"Equals of integers, floats, characters, strings, symbols, keywords, lists, arrays, t and nil, and eq, eql, equal, equalp of two arguments are under contract (exact relation, symmetry, reflexivity except NaN, hierarchy; list and array parts by structural induction); big integers and other objects are covered by the bounded harness only.",
"P19":COMMON+"the tables of symbol and keyword names, NewSymbol, NewKeyword, the reader's and the interpreter's factories, String of both kinds and gensym are under contract.",
"P24":COMMON+"quote, quasiquote, the expansion and call of a macro and the making of a macro are under contract; splicing of rest arguments with ,@ is checked for crashes only and otherwise covered by the bounded harness.",
"P25":COMMON+"string-append, create-string, length, elt, char-index (start not negative), string-index and the comparison functions are under contract, relative to assumed contracts of packages strings and utf8; subseq is covered by the bounded harness only.",
"P28":COMMON+"New, the function table of an interpreter, the making of environments and the compilation of library functions are under contract; generated frame contracts for every function and built-in that can change what an interpreter is made of show that nothing of another interpreter changes, and one obligation per function, decided on the SSA of the current source, that it changes no package-level variable; global variables and the trace table are shared between interpreters by design.",
"P06":COMMON+"unwind-protect is under contract.",
}
NA={
"P23":"the reader is one recursive procedure over a byte stream whose grammar, tokens to objects, would have to be restated as a specification of the same size; its numeric and character tokens are decided by strconv, regexp-like scanning and unicode tables of the standard library for which no contract within this engine's reach says more than the code; the bounded harness compares reader and printer, which is not a deductive result, so the property is not claimed",
"P29":"format is a directive interpreter over strings and streams: its postcondition is about the concatenation of what a sequence of io.Writer calls received, with padding computed from fmt and strconv output; the engine has no theory of sequences of writes with formatted numbers, and the contract of the directive loop exhausts the time budget; a bounded comparison exists in the harness but is not a proof, so the property is not claimed",
"P30":"printing and reading back is a statement about two programs (printer and reader) composed through a byte string; it needs the reader's contract of P23, which is out of reach, and an injectivity argument about the standard library's number formatting; a bounded comparison exists in the harness but is not a proof, so the property is not claimed",
}
