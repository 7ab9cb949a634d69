package main

import (
	"pgregory.net/rapid"
)

// ifNumeric is an if/then/else over integers 0..100 for which a fair share of
// the values of the range satisfies it.
func ifNumeric(t *rapid.T) S {
	s := S{}
	k := intIn(t, "ik", 25, 75)
	cond := pick(t, "icond", S{"minimum": k}, S{"maximum": k}, S{"multipleOf": 2}, S{"not": S{"minimum": k}}, S{"anyOf": []any{S{"maximum": 20}, S{"minimum": 80}}}, S{"type": "integer", "minimum": k})
	s["if"] = cond
	form := intIn(t, "iform", 0, 3)
	// then/else hold on both sides of the condition for many values
	if form != 1 {
		s["then"] = pick(t, "ithen", S{"multipleOf": 2}, S{"multipleOf": 3}, S{"maximum": 90}, S{"minimum": 10}, S{"type": "integer"}, S{})
	}
	if form != 0 {
		s["else"] = pick(t, "ielse", S{"multipleOf": 1}, S{"multipleOf": 3}, S{"minimum": 5}, S{"maximum": 95}, S{})
	}
	return s
}

var ifKinds = []string{"x", "y", "z"}

// ifTagged is an if/then/else over an object's discriminator and flags.
func ifTagged(t *rapid.T) S {
	cond := S{}
	switch intIn(t, "tcond", 0, 4) {
	case 0:
		cond = S{"properties": S{"kind": S{"const": pick(t, "tk", ifKinds...)}}, "required": []any{"kind"}}
	case 1:
		cond = S{"properties": S{"kind": S{"enum": []any{"x", "y"}}}}
	case 2:
		cond = S{"required": []any{pick(t, "treq", "p", "q")}}
	case 3:
		cond = S{"properties": S{"n": S{"minimum": 50}}, "required": []any{"n"}}
	default:
		cond = S{"not": S{"properties": S{"kind": S{"const": "x"}}}}
	}
	body := func(l string) S {
		switch intIn(t, l, 0, 5) {
		case 0:
			return S{"required": []any{pick(t, l+"r", "p", "q", "r")}}
		case 1:
			return S{"properties": S{"p": S{"minLength": intIn(t, l+"m", 1, 4)}}}
		case 2:
			return S{"properties": S{"n": S{"multipleOf": 2}}}
		case 3:
			return S{"properties": S{"q": S{"const": true}}, "required": []any{"q"}}
		case 4:
			return S{"properties": S{"extra": S{"type": "integer", "minimum": 3}}, "required": []any{"extra"}}
		default:
			return S{"minProperties": 2}
		}
	}
	s := S{"if": cond}
	form := intIn(t, "tform", 0, 3)
	if form != 1 {
		s["then"] = body("tthen")
	}
	if form != 0 {
		s["else"] = body("telse")
	}
	return s
}

func ifObjectBase() S {
	return S{"type": "object", "properties": S{
		"kind": S{"enum": []any{"x", "y", "z"}},
		"n":    S{"type": "integer", "minimum": 0, "maximum": 100},
		"p":    S{"type": "string", "maxLength": 8},
		"q":    S{"type": "boolean"},
		"r":    S{"type": "null"},
	}, "required": []any{"kind"}}
}

func genIfSingle(t *rapid.T) confCase {
	var s S
	tag := ""
	switch intIn(t, "fam", 0, 3) {
	case 3:
		tag = "format"
		f := rapid.SampledFrom(notFormats).Draw(t, "format")
		m := []any{formatText(t, "is", f, true), formatText(t, "isnt", f, false), formatText(t, "is2", f, true), formatText(t, "isnt2", f, false)}
		s = S{"type": "object", "properties": S{"v": S{"enum": uniqAny(m)}}, "required": []any{"v"}, "if": S{"properties": S{"v": S{"format": f}}}, "then": S{"required": []any{"is"}}, "else": S{"properties": S{"is": S{"const": "not"}}}}
	case 0:
		tag = "numeric"
		s = S{"type": "integer", "minimum": 0, "maximum": 100}
		mergeS(s, ifNumeric(t))
	case 1:
		tag = "tagged"
		s = ifObjectBase()
		mergeS(s, ifTagged(t))
	default:
		tag = "types"
		s = S{"type": []any{"integer", "string", "boolean"}}
		s["if"] = pick(t, "tif", S{"type": "integer"}, S{"type": "string"}, S{"type": []any{"boolean", "integer"}})
		form := intIn(t, "form", 0, 3)
		if form != 1 {
			s["then"] = pick(t, "tthen", S{"minLength": 3}, S{"minimum": 0, "maximum": 9}, S{"multipleOf": 5})
		}
		if form != 0 {
			s["else"] = pick(t, "telse", S{"maxLength": 3}, S{"minimum": 4}, S{})
		}
	}
	if chance(t, "noop", 1, 8) {
		// an if alone constrains nothing
		delete(s, "then")
		delete(s, "else")
		tag = "if-alone"
	}
	if chance(t, "wrap", 1, 4) {
		s = S{"type": "array", "items": s, "minItems": 1, "maxItems": 3}
	}
	c := confNested(t, s, 12, true, false, tag)
	c.steps()
	return c
}

func genIfMulti(t *rapid.T) confCase {
	n := intIn(t, "n", 2, 3)
	aa := []any{}
	var base S
	tag := ""
	if chance(t, "num", 1, 2) {
		tag = "numeric"
		base = S{"type": "integer", "minimum": 0, "maximum": 100}
		for i := 0; i < n; i++ {
			aa = append(aa, ifNumeric(t))
		}
	} else {
		tag = "tagged"
		base = ifObjectBase()
		for i := 0; i < n; i++ {
			aa = append(aa, ifTagged(t))
		}
	}
	if chance(t, "own", 1, 2) && len(aa) > 1 {
		mergeS(base, aa[0].(S))
		aa = aa[1:]
	}
	setAllOf(t, base, aa)
	c := confNested(t, base, 12, true, true, tag)
	c.SomeOK = true
	c.steps()
	return c
}

func genIfNested(t *rapid.T) confCase {
	base := ifObjectBase()
	inner := ifTagged(t)
	s := S{"if": S{"properties": S{"kind": S{"const": pick(t, "nk", ifKinds...)}}, "required": []any{"kind"}}}
	where := pick(t, "where", "then", "else")
	s[where] = inner
	if chance(t, "other", 1, 2) {
		o := "then"
		if where == "then" {
			o = "else"
		}
		s[o] = S{"required": []any{"n"}}
	}
	mergeS(base, s)
	c := confNested(t, base, 12, true, true)
	c.SomeOK = true
	c.steps()
	return c
}

func init() {
	register("C10",
		mkFacet("single", "if/then/else over integer ranges, object discriminators and type lists, of which a fair share of the values generated satisfies each side; then, else or both absent; non-trivial: accepted and two different values judged", 4000, 80000, 3, genIfSingle, decideConf),
		mkFacet("multi", "two or three if/then/else that have to hold together, through allOf and next to it; a value is judged unless it is the documented give-up text; non-trivial: two different values judged", 3000, 60000, 3, genIfMulti, decideConf),
		mkFacet("nested", "if/then/else inside then or else; same rule", 2000, 40000, 2, genIfNested, decideConf),
	)
}
