package main

// propAssumptions lists, per property, what its contracts assume beyond baseAssumptions; it is copied into the evidence.
var propAssumptions = map[string][]string{
	"P01": {
		"call of a user function: parameter names differ and none is the dialect's '/' (which starts local variables); parameter lists do not change after definition; code cells are not changed while they are evaluated",
		"apply: the last argument is a proper list",
		"NReverse, ListBuilder and UnevalList are used as events; what they make is a lemma over their own contracts",
		"whether surplus arguments of a call with the wrong number of arguments are evaluated is left open",
	},
	"P02": {"code cells are not changed while they are evaluated"},
	"P03": {
		"handlers do not continue a wrong binding name with another name",
		"let*: no bindings that are bare symbols; let: the variable under consideration is not bound by a bare symbol",
		"labels: evaluation does not change the function tables under consideration",
	},
	"P05": {"tagbody bodies are proper lists whose tags differ"},
	"P07": {"initial-value forms of dynamic-let do not themselves rebind the variable under consideration"},
	"P08": {
		"a failing expansion of a macro inside a definition that is no non-local exit is deferred to run time by design",
		"lambda reports a parameter-list error as a program error by design; the contract of lambda follows non-local exits only",
	},
	"P09": {"the contracts of the interpreter's internal functions hold under their stated preconditions (real Lisp values, parser factories present)", notProvedList()},
	"P10": {"the contracts of the interpreter's internal functions hold under their stated preconditions (real Lisp values, parser factories present)", notProvedList()},
	"P11": {"handlers do not continue a division-by-zero condition with a value", "every partial result fits 64 bits"},
	"P12": {"comparison of an integer with a float converts the integer to the nearest float (Go's conversion); floats are no NaN in mixed comparisons"},
	"P13": {"math.Floor, Ceil, Trunc, RoundToEven, strconv and decimal formatting do what their documentation says (assumed contracts)", "handlers do not continue a parse error with a value"},
	"P14": {"lists are finite proper lists shorter than 2^40; arguments are not unevaluated wrappers", "handlers' substitutes for wrong arguments are not followed"},
	"P15": {"lists are proper, shorter than 2^40 and not changed by the called function while they are mapped"},
	"P16": {
		"array arguments are well made (as many elements as the product of the dimensions, size below 2^40); shown of create-array, vector and the parts aref makes, not of the reader",
		"identities of integer multiplication and division are supplied as lemma instances",
	},
	"P17": {"keys compare as Go map keys (a NaN is rejected; the identity of -0.0 and 0.0 is not modelled)", "handlers' substitutes for wrong arguments are not followed"},
	"P18": {
		"structural induction over list and array parts; NaN is excluded from reflexivity; strings.EqualFold is symmetric and reflexive (assumed contract)",
		"big integers and objects of other kinds are excluded; eq, eql, equal and equalp are stated for two arguments",
	},
	"P19": {"the name tables are well made at entry; every writer (NameToId is the only one) is shown to keep them so"},
	"P20": {"a method's function is called through its own contract"},
	"P21": {"built-in classes never inherit from user-defined ones; superclasses are standard or built-in classes (shown where they are made)"},
	"P22": {
		"every slot's initform is its own function and every object has a slot table (type invariants shown where they are made)",
		"classes do not change after their definition and evaluation makes no slot unbound",
		"the recursion over superclasses uses the contract itself (partial correctness)",
	},
	"P24": {
		"template unquotations are (unquote form); templates and forms are not changed during evaluation; macro parameter names differ and argument forms are a proper list",
		"splicing of spliced rest arguments is shown to be free of crashes only",
	},
	"P25": {"packages strings and utf8 do what their documentation says (assumed contracts)", "char-index with a negative start is excluded; subseq is bounded only"},
	"P26": {"initforms evaluate in the context of their definition; calls of generic functions and macros are not checked themselves, their bodies are"},
	"P27": {"a symbol equals only itself when a tail call is recognised; otherwise as P01"},
	"P28": {
		"what two interpreters refer to is different at entry (shown of New) and objects are not passed between interpreters by Go code",
		"functions that write no interpreter state return only what they were given, read or made",
		"global variables, the intern tables and the trace table are shared between interpreters by design",
	},
}
