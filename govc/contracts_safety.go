package main

// Generated contracts: every built-in of the interpreter's own tables is called with arbitrary arguments of the declared arity.
//
//	P09  no run-time panic: nil dereference, index or slice out of range, failing type assertion, division by zero, unhashable map
//	     key or comparison, nil-map assignment, explicit panic, oversized allocation
//	P10  a result returned without an error is a real Lisp value, and every value stored into a list cell, variable, slot, array or
//	     table satisfies the invariant of that place; interface method calls are never made on an absent value
//
// The two are proved against each other as usual for invariants: P09's proof assumes the invariants that P10's proof establishes.

import "strings"

var crashKinds = []string{"nilderef", "bounds", "panic", "hash", "typeassert", "divzero"}
var valueKinds = []string{"wf", "typeinv"}
var bothKinds = append(append([]string(nil), crashKinds...), valueKinds...)

// notProved lists built-ins whose generated contract is not discharged within reach; the bounded harness covers them, and the evidence
// of P09 and P10 says so.
var notProved = map[string]string{
	"elt":              "the value walked changes its type between iterations",
	"defclass":         "slot specification parser: path explosion",
	"defmethod":        "parameter profile parser: path explosion",
	"defmacro":         "an error object built from a code list may hold the absent list",
	"expand-defun":     "an error object built from a code list may hold the absent list",
	"format":           "path explosion of the directive interpreter",
	"gmn:dump-session": "walks all state with type-specific printers",
	"subseq":           "generic sequence builder",
	"macroexpand":      "time",
	"load":             "the embedded start-up file is parsed by code that panics on a syntax error in it",
}

// ownContract: the built-ins whose functional contracts include the absence of panics and absent values.
var ownContract = map[string]bool{"aref": true, "set-aref": true, "create-array": true, "create": true, "flet": true, "labels": true, "mapcan": true, "mapcon": true}

// goEntries are the functions that built-ins reach only through their contracts (recursion, dynamic calls).
var goEntries = []string{
	"(*Cons).Eval", "(*Cons).isTailNull", "(*Function).Call", "(Function0).Call", "(Function1).Call", "(Function2).Call", "(SpecialF).Call",
	"(*World).Get", "(*World).GetFunc", "(*_BuiltInClass).InheritP", "(*_Generic).Call", "(*_StandardClass).InheritP", "(*_StandardClass).subClassP",
	"expandJoinedForm", "expandMacroInList", "(_Symbol).Eval",
}

func safetyContracts(P *Program, prop string) []*Contract {
	var autos []string
	var what string
	switch prop {
	case "P09":
		autos, what = crashKinds, "no reachable run-time panic"
	case "P10":
		autos, what = valueKinds, "a successful result is a real value; stored values satisfy the invariants of their places"
	default:
		return nil
	}
	var cs []*Contract
	for _, n := range sortedKeys(P.builtins) {
		if notProved[n] != "" || ownContract[n] {
			continue
		}
		cs = append(cs, &Contract{name: "lisp:" + n, entry: "lisp:" + n, props: []string{prop}, autos: autos, clause: what, mayBeTrivial: true})
	}
	for _, n := range goEntries {
		cs = append(cs, &Contract{name: "go:" + n, entry: "go:" + n, props: []string{prop}, autos: autos, clause: what, mayBeTrivial: true})
	}
	return cs
}

func notProvedList() string {
	var l []string
	for _, n := range sortedKeys(notProved) {
		l = append(l, n+" ("+notProved[n]+")")
	}
	return strings.Join(l, "; ")
}

func init() { generatedContracts = append(generatedContracts, safetyContracts) }

// generatedFor: the entry point has a generated contract of P09 and P10.
func generatedFor(P *Program, entry string) bool {
	if n := strings.TrimPrefix(entry, "lisp:"); n != entry {
		_, ok := P.builtins[n]
		return ok && notProved[n] == "" && !ownContract[n]
	}
	for _, n := range goEntries {
		if entry == "go:"+n {
			return true
		}
	}
	return false
}
