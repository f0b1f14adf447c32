#!/usr/bin/env python3
# Writes properties.jsonl (one property per line).
import json
P=[]
def p(id,title,statement,qtext,why,files,mech,over=("inputs","programs")):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=m[0],where=m[1]) for m in mech])))
T="The tests evaluate a handful of fixed forms; "
p("P01","Arguments are evaluated once, left to right, and arity is enforced",
  "A call of an ordinary function evaluates every argument form exactly once, from left to right, in the caller's environment, before the body starts, and stops at the first argument that fails, passing that failure on unchanged. A call with fewer or more arguments than the function accepts ends in an error and never runs the body; a call with an acceptable number runs the body exactly once with exactly those values in that order.",
  "every function object (built-in of each arity kind, user lambda with and without a rest parameter), every argument list, every outcome of each argument evaluation",
  T+"whether a form is evaluated twice, out of order, or after a failure depends on argument lists and failing positions no test combines.",
  ["lambda.go","world.go"],[("Function0/1/2/Function/_Lambda Call methods walk the argument list with ShiftAndEvalCar","lambda.go")])
p("P02","Conditionals and sequencing evaluate exactly the selected forms",
  "progn, if, cond, and, or, case and while evaluate exactly the forms their language definition selects, in order, each exactly once per selection, in the environment of the form, and return the value of the last selected form (nil when there is none). The first evaluation that fails ends the construct at once and its failure is what the construct reports.",
  "every well-formed form of these operators, every value/failure of each subform",
  T+"the selection must hold for every combination of subform values and failures.",
  ["progn.go","operator.go","lambda.go"],[("prognWithTailRecOpt, cmdIf…, cmdCond…, cmdCase, cmdWhile, cmdAnd, cmdOr","progn.go, operator.go, lambda.go")])
p("P03","Variables are lexically scoped",
  "A variable reference or assignment reaches the innermost enclosing binding of that name and no other binding, and fails when there is none. let evaluates its initial values outside the new scope, let* each one inside the scope of the previous ones, and the body runs in the new scope; a user function's body sees the environment of its definition extended by fresh bindings of its parameters, never the environment of its caller.",
  "every chain of scopes, every binding list, every caller environment",
  T+"scope errors show only for particular nestings of binders, closures and callers.",
  ["world.go","setq.go","lambda.go","functionref.go"],[("World.Get/Set/GetFunc walk the parent chain; Let/Flet push a scope","world.go"),("_Lambda.lexical","lambda.go")])
p("P04","block/return-from and catch/throw deliver to the matching construct only",
  "A return-from (or return) or throw raised while a form is evaluated terminates exactly the construct with the matching name or tag, which then returns the transmitted value; every other block, catch, conditional, binding form or call passes it on unchanged. Ordinary values and errors pass through block and catch unchanged.",
  "every body outcome: value, error, early return or throw with any name or tag, wrapped any number of times",
  T+"the matching must hold for every tag value and every wrapping of the transfer.",
  ["progn.go"],[("_ErrEarlyReturns/_ErrThrown are matched with errors.As and a name/tag comparison","progn.go")],("inputs","programs","fault_sequences"))
p("P05","tagbody and go transfer control to the right tag",
  "Within tagbody the non-symbol forms are evaluated in order; a go to a tag of that tagbody (its tags being distinct) continues with the form right after that tag, whether the tag lies before or after the go. A go whose tag is not in this tagbody, and any other failure, leaves the tagbody unchanged, and normal completion returns nil.",
  "every tagbody body, every position and tag of a go, every failure",
  T+"which form runs next depends on the position of tags relative to the go and on nesting.",
  ["progn.go"],[("cmdTagBody keeps a map from tag to the rest of the body","progn.go")],("inputs","programs","fault_sequences"))
p("P06","unwind-protect always runs its cleanup forms, exactly once",
  "unwind-protect evaluates its protected form once and then, whether that returned a value, signalled an error or performed a non-local exit, evaluates its cleanup forms once in order. When the cleanup forms complete normally the result is the protected form's own outcome: its value, or its error or exit unchanged.",
  "every protected-form outcome, every number and outcome of cleanup forms",
  T+"the guarantee is about every way of leaving the form, including error paths no test raises.",
  ["progn.go"],[("cmdUnwindProtect keeps the form's error and runs Progn on the rest","progn.go")],("inputs","programs","fault_sequences"))
p("P07","Dynamic state is restored on every exit",
  "After with-handler, dynamic-let, with-standard-input, block, catch and tagbody finish in any way (value, error or non-local exit), the current handler, the dynamic variables they bound, the standard input and the sets of active block names, catch tags and go tags are exactly what they were before the construct began, so nothing established inside leaks out.",
  "every way of leaving the construct, every prior state, including nested and repeated bindings of the same name",
  T+"leaks appear only after error or exit paths combined with a particular previous state.",
  ["cond.go","setq.go","io.go","progn.go"],[("deferred restores of shared.handler, shared.dynamic, shared.stdin, blockName, catchTag, goTag","cond.go, setq.go, io.go, progn.go")],("inputs","programs","fault_sequences","histories"))
p("P08","Conditions reach the handler and are never lost",
  "When a condition is signalled while a handler is established, the handler is called with that condition; it may continue a continuable condition with a value through continue-condition, and otherwise the signalling operation fails, so an error is never turned into an ordinary result. Without a handler a signalled condition always fails with an error, and with-handler passes ordinary values and non-local exits of its body through unchanged without calling the handler.",
  "every condition object, every handler outcome, continuable or not, nested signalling",
  T+"handler outcomes (value, continue, exit, error) times continuability is not covered.",
  ["cond.go","error.go"],[("callHandler, funSignalCondition, cmdWithHandler","error.go, cond.go")],("inputs","programs","fault_sequences"))
p("P09","No built-in operation can crash the interpreter",
  "Calling any built-in function with any number and any kinds of argument values within its declared arity yields a value or an error; it never panics, whatever the values are. The same holds for every built-in special form applied to any list of forms (unbounded recursion of the program itself aside).",
  "all built-ins, all argument counts and values (any type, empty, negative, huge, improper list)",
  T+"a panic needs an argument type, index or length no test passes.",
  ["world.go","list.go","array.go","string.go","sequence.go","operator.go","atom.go","cmds.go","hash.go","io.go","format.go","convert.go"],[("ExpectClass/ExpectInterface type checks and explicit bounds checks guard every access","error.go and each built-in")])
p("P10","Every result is a proper Lisp value or an error",
  "A built-in operation that reports success returns a real Lisp value (a missing or empty result is nil, never an absent value), and one that fails reports a non-nil error; list cells it builds contain only real Lisp values. Given only real Lisp values as inputs, no operation therefore ever exposes an absent value to the program.",
  "all built-ins, all arguments",
  T+"an absent value surfaces only when a later operation touches it.",
  ["list.go","sequence.go","array.go","convert.go","utils.go"],[("functions return Null rather than Go nil","every built-in")])
p("P11","Integer arithmetic is exact and division by zero is signalled",
  "For integers whose mathematical result fits in 64 bits, +, - and * (any number of arguments, combined left to right), the one-argument -, / (truncating), mod (floor modulo, sign of the divisor) and rem (truncated remainder, sign of the dividend) return exactly that integer. Dividing by zero with / mod or rem is an error, never a number.",
  "all integers, all argument counts",
  T+"sign combinations, zero and large magnitudes are not sampled.",
  ["operator.go","number.go"],[("Integer.Add/Sub/Multi/Divide, funMod, funRem","number.go, operator.go")])
p("P12","Number comparison and numeric predicates agree with mathematics",
  "For any sequence of two or more integers, < <= > >= = return t exactly when every adjacent pair is in that relation and nil otherwise, /= is the negation of = on two arguments, and integers (up to 2^53 in magnitude) and floats compare by numeric value. zerop, plusp, minusp, evenp and oddp hold exactly for the numbers with that property, negative ones included.",
  "all numbers and all argument counts",
  T+"a chain that fails in the middle, or a negative operand, is not tested.",
  ["operator.go","cmds.go","number.go"],[("inject over LessThan/Equals; xxxxP predicates","operator.go, cmds.go")])
p("P13","Rounding and numeric conversion preserve value",
  "floor, ceiling, truncate and round return every integer argument unchanged and a float argument's integer neighbour in the stated direction (round: nearest, ties to even), and reject non-numbers. convert from integer to float, from string to a number, from integer to string and between integer and character returns the value denoted by the source, and an unparsable string or unsupported combination is an error.",
  "all numbers, all strings and all class names",
  T+"ties, negative values and unsupported combinations are not sampled.",
  ["operator.go","convert.go"],[("floatToInteger, cmdConvert","operator.go, convert.go")])
p("P14","List functions compute the documented list and share or copy as documented",
  "list, cons, append, reverse, nreverse, member, assoc, last, length, create-list, car, cdr, set-car and set-cdr return the list, tail, element or count their definition gives for every finite list. Except for nreverse, set-car and set-cdr they leave every existing list cell unchanged, and set-car/set-cdr change only the named field of the named cell.",
  "all finite lists of any length and element values",
  T+"lists longer than the samples, shared structure and destructive effects are not observed.",
  ["list.go","sequence.go"],[("ListBuilder, Reverse, NReverse, lastOfList, Assoc, funMember","list.go, sequence.go")])
p("P15","Mapping functions apply the function to successive elements in order",
  "mapcar and mapc (successive elements) and maplist and mapl (successive non-empty tails) call their function once per position, in order, with one argument per list, and stop as soon as the shortest list is exhausted without a further call. mapcar/maplist return the list of results in call order, mapc/mapl return their first list, mapcan/mapcon append the results, and a failing call ends the mapping with that failure.",
  "any number of lists of any lengths, any function outcome",
  T+"unequal lengths, empty lists and failing calls are not combined.",
  ["sequence.go"],[("MapCar, mapList","sequence.go")])
p("P16","Array access touches exactly the addressed element, in bounds",
  "aref and set-aref on an array of any rank address exactly the element at the row-major position of their subscripts; set-aref stores the new value there, returns it and changes no other element of any array. A subscript that is negative or not below its dimension, or more subscripts than the rank, is an error and stores nothing; create-array yields an array of exactly the requested dimensions with every element the initial value.",
  "all ranks, dimensions, subscripts and values",
  T+"only one or two small arrays are accessed, never near every bound.",
  ["array.go"],[("funAref, funSetAref, funCreateArray, Elt, dim2size","array.go")])
p("P17","Hash tables behave as finite maps",
  "After set-gethash stores a value under a key, gethash of an equal key returns it and every other key is unaffected; remhash removes exactly one key, clrhash all, and hash-table-count is the number of distinct keys. gethash of an absent key returns nil, and a value of a kind that cannot be a key is rejected with an error leaving the table unchanged.",
  "all keys, values and table contents",
  T+"other keys' entries and key kinds are not observed.",
  ["hash.go"],[("Go map with canUseHashKey guard","hash.go")],("inputs","histories"))
p("P18","Equality predicates form a consistent hierarchy",
  "eq, eql, equal and equalp are reflexive and symmetric on numbers, characters, strings, symbols, lists and arrays, and each one that holds implies every coarser one. equal compares lists element by element, and equalp additionally ignores letter case and compares integers and floats by value; values of unrelated kinds are never equal.",
  "all pairs of values",
  T+"only a few pairs are compared and implications between the predicates never.",
  ["atom.go","cons.go","number.go","string.go","array.go","cmds.go"],[("Equals methods with EqlMode","each node type")])
p("P19","Symbols are interned by name and gensym is always fresh",
  "Two symbols are identical exactly when their names are identical, and a symbol's name is exactly the text it was created from. gensym returns a symbol different from every symbol that exists at that moment.",
  "all names, all histories of symbol creation",
  T+"freshness is a statement about every earlier symbol.",
  ["atom.go"],[("idMap.NameToId / IdToName, genSym","atom.go")],("inputs","histories"))
p("P20","Generic functions run only an applicable method",
  "Calling a generic function evaluates each argument once and runs exactly one method, one whose every parameter class (and rest class) accepts the corresponding argument and whose arity accepts their number. When no method is applicable the call is an error and no method body runs.",
  "all method sets, argument counts and values",
  T+"arity and class mismatches at every position and with rest parameters are not covered.",
  ["generic.go","class.go"],[("_Generic.Call with _Method.canCallWith","generic.go")])
p("P21","Class membership follows the inheritance graph",
  "subclassp holds exactly when the second class is reachable from the first by one or more superclass steps. For objects of user-defined classes, instancep holds exactly when the class is the object's own class, one of its superclasses (direct or not) or the most general class, and a redefinition or unrelated class of any other name never matches.",
  "all class hierarchies and objects",
  T+"depth, multiple inheritance and unrelated classes are not enumerated.",
  ["class.go","builtinclass.go"],[("InheritP, InstanceP, subClassP","class.go, builtinclass.go")])
p("P22","Slots of an object are independent",
  "A slot writer or initialisation argument changes exactly the named slot of exactly the given object, a reader returns the value last stored there, and the bound-slot predicate holds exactly when a value was stored. create stores initialisation arguments in their slots and uses an initial form only for a slot that received no argument.",
  "all classes, slots, objects and operation histories",
  T+"other slots and other objects are not observed.",
  ["class.go"],[("newGetter/newSetter/newBoundp, callInitArg, callInitForm","class.go")],("inputs","histories"))
p("P23","The reader accepts or rejects any text without crashing",
  "Reading any text yields objects or an error and never panics, and an unterminated list, array, quotation or string at the end of input is reported as an error, never silently dropped or completed. Each successful read consumes input, so reading a text to its end makes progress.",
  "all byte strings",
  T+"malformed text is an unbounded set.",
  ["pkg/parser/main.go","pkg/parser/tokenize.go","parse.go"],[("readToken, ReadNode, readArray, readUntilCloseParen","pkg/parser")])
p("P24","Quotation and macro expansion transform structure only",
  "quote returns its argument object itself, unevaluated. quasiquote returns a structure equal to the template in which exactly the unquoted parts are replaced by their values, evaluating each of them once in order and nothing else; a macro call evaluates the macro body with the unevaluated argument forms bound and then evaluates the expansion once in the caller's environment.",
  "all templates and macro calls",
  T+"templates nest arbitrarily and unquotes may fail.",
  ["cmds.go","macro.go"],[("cmdQuote, quasiQuote, _Macro.expand/Call","cmds.go, macro.go")])
p("P25","String and character functions agree with the code-point sequence",
  "For text of valid characters string-append concatenates, length, elt, subseq, char-index and string-index count and address characters (code points) from zero, create-string repeats its character, and the string and character comparison functions decide the order of their arguments' code points. An index that addresses no character is an error or an absent (nil) answer, never a wrong character.",
  "all strings and indices",
  T+"multi-byte characters, empty strings and boundary indices are not sampled.",
  ["string.go","sequence.go","atom.go"],[("utf8 decoding via FirstAndRest/SeqEach; compareString/compareRune","string.go, sequence.go, atom.go")])
p("P26","Cancelling the context stops evaluation",
  "Once the context passed to the interpreter is cancelled, every call of a user function or special form that begins afterwards, and every iteration of a loop or of an optimised tail call, stops with the context's error before doing further work.",
  "all programs and cancellation points",
  "A test would have to cancel at every point of every program.",
  ["lambda.go","progn.go"],[("checkContext at call and loop heads","lambda.go, progn.go")],("programs","schedules"))
p("P27","Tail-call optimisation is unobservable",
  "A user function that calls itself in tail position behaves exactly as if the call were made normally: arguments are evaluated once in the current activation, each activation has its own bindings (also for closures created earlier), arity is checked, and rest parameters are collected. Only a real self call of the function being executed is optimised; a call that a local binding of the same name intercepts is not.",
  "all recursive functions and argument lists",
  T+"the optimisation triggers on code shape, and its errors only with rest parameters, closures or rebinding.",
  ["lambda.go"],[("testCarIsCurrFunc, evalWithTailRecOpt, loop in _Lambda.Call","lambda.go")])
p("P28","Independent interpreters do not influence each other",
  "Definitions of functions, dynamic variables, macros, generic-function methods and handlers made in one interpreter instance are invisible to every other instance in the same process. In particular library functions implemented in Lisp resolve free names in the instance that calls them.",
  "all programs run in several instances",
  "Tests use one instance each and never compare two.",
  ["world.go","lambda.go"],[("per-World shared state; process-wide autoLoadVars/autoLoadFunc and LispString cache","world.go, lambda.go")],("programs","histories"))
p("P29","format emits the literal text and each argument exactly once",
  "format writes the literal characters of its control string in order, and each directive that takes an argument consumes exactly one argument and writes it in the requested radix or notation, padded to at least the requested width (a numeric prefix of the directive). A missing argument or unknown directive is an error.",
  "all control strings and arguments",
  T+"directive/parameter combinations are unbounded.",
  ["format.go"],[("formatSub, printInt, printFloat","format.go")])
p("P30","Printing then reading gives back an equal object",
  "For integers, symbols whose names need no escape, strings, characters and lists and vectors of them, reading the printed (escaped) representation yields an object that is equal to the original.",
  "all printable objects",
  T+"string escapes and symbol names are unbounded.",
  ["cons.go","string.go","atom.go","pkg/parser/main.go"],[("PrintTo/GoString and ReadNode","cons.go, pkg/parser")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
