package main

import (
	"pgregory.net/rapid"
)

// notInt gives an integer range and a "not" over it that leaves a fair share of it.
func notInt(t *rapid.T) (S, S) {
	lo := intIn(t, "lo", -60, 40)
	hi := lo + intIn(t, "w", 10, 60)
	base := S{"type": "integer", "minimum": lo, "maximum": hi}
	mid := lo + intIn(t, "mid", 4, hi-lo-4)
	var n S
	switch intIn(t, "nk", 0, 8) {
	case 0:
		n = S{"minimum": mid}
	case 1:
		n = S{"maximum": mid}
	case 2:
		n = S{"exclusiveMinimum": mid}
	case 3:
		n = S{"exclusiveMaximum": mid}
	case 4:
		n = S{"minimum": mid, "maximum": mid + intIn(t, "mw", 0, 3)}
	case 5:
		n = S{"multipleOf": pick(t, "mo", 2, 3, 5, 10)}
	case 6:
		n = S{"const": mid}
	case 7:
		n = S{"enum": []any{mid, mid + 1, "x"}}
	default:
		n = S{"exclusiveMinimum": mid - 2, "exclusiveMaximum": mid + 2}
	}
	if chance(t, "half", 1, 4) {
		// one bound only; keep the side that leaves values
		if _, ok := n["maximum"]; ok {
			delete(base, "minimum")
		} else if _, ok := n["minimum"]; ok {
			delete(base, "maximum")
		}
	}
	if chance(t, "ntyped", 1, 3) {
		n["type"] = "integer"
	}
	return base, n
}

func notNum(t *rapid.T) (S, S) {
	lo := intIn(t, "lo", -1000000, 1000000)
	hi := lo + intIn(t, "w", 10, 100000)
	base := S{"type": "number", "minimum": lo, "maximum": hi}
	mid := lo + intIn(t, "mid", 3, hi-lo-3)
	var n S
	switch intIn(t, "nk", 0, 6) {
	case 0:
		n = S{"minimum": mid}
	case 1:
		n = S{"maximum": mid}
	case 2:
		n = S{"exclusiveMinimum": mid}
	case 3:
		n = S{"exclusiveMaximum": mid}
	case 4:
		n = S{"minimum": mid, "maximum": mid + 1}
	case 5:
		n = S{"const": mid}
	default:
		n = S{"type": "integer"}
	}
	return base, n
}

func notStr(t *rapid.T) (S, S) {
	a := intIn(t, "a", 0, 6)
	b := a + intIn(t, "b", 3, 12)
	base := S{"type": "string", "minLength": a, "maxLength": b}
	mid := intIn(t, "mid", a+1, b)
	var n S
	switch intIn(t, "nk", 0, 6) {
	case 0:
		n = S{"minLength": mid}
	case 1:
		n = S{"maxLength": mid - 1}
	case 2:
		n = S{"pattern": pick(t, "pat", "^[aeiou]", "[0-9]{3}", "xyz$", "^$", "q{2}")}
	case 3:
		n = S{"const": "abc"}
	case 4:
		n = S{"enum": []any{"", "a", "b"}}
	case 5:
		base = S{"enum": []any{"red", "green", "blue"}}
		n = S{"enum": []any{"green", 7}}
		if chance(t, "c", 1, 2) {
			n = S{"const": "red"}
		}
	default:
		base = S{"type": "string", "pattern": "^[a-d]{2}$"}
		n = S{"pattern": pick(t, "pp", "^a", "b$", "aa|bb|cc")}
	}
	if chance(t, "ntyped", 1, 3) {
		n["type"] = "string"
	}
	return base, n
}

func notArr(t *rapid.T) (S, S) {
	a := intIn(t, "a", 0, 3)
	b := a + intIn(t, "b", 2, 5)
	base := S{"type": "array", "minItems": a, "maxItems": b, "items": S{"type": []any{"integer", "string"}}}
	mid := intIn(t, "mid", a+1, b)
	var n S
	switch intIn(t, "nk", 0, 4) {
	case 0:
		n = S{"minItems": mid}
	case 1:
		n = S{"maxItems": mid - 1}
	case 2:
		n = S{"items": S{"type": pick(t, "it", "integer", "string")}}
		base["minItems"] = 1
	case 3:
		n = S{"contains": S{"type": "string"}}
	default:
		n = S{"prefixItems": []any{S{"type": "string"}}}
		base["minItems"] = 1
	}
	if chance(t, "ntyped", 1, 3) {
		n["type"] = "array"
	}
	return base, n
}

func notObj(t *rapid.T) (S, S) {
	base := S{"type": "object", "properties": S{
		"kind": S{"enum": []any{"x", "y", "z"}},
		"n":    S{"type": "integer", "minimum": 0, "maximum": 100},
		"p":    S{"type": "string", "maxLength": 8},
	}}
	if chance(t, "req", 1, 2) {
		base["required"] = []any{"kind"}
	}
	var n S
	switch intIn(t, "nk", 0, 6) {
	case 0:
		n = S{"required": []any{pick(t, "r", "n", "p")}}
	case 1:
		n = S{"properties": S{"kind": S{"const": pick(t, "kv", "x", "y")}}, "required": []any{"kind"}}
		base["required"] = []any{"kind"}
	case 2:
		n = S{"properties": S{"n": S{"minimum": 50}}}
		base["required"] = []any{"kind", "n"}
	case 3:
		n = S{"properties": S{"n": S{"maximum": 30}, "kind": S{"const": "x"}}, "required": []any{"n", "kind"}}
		base["required"] = []any{"kind", "n"}
	case 4:
		n = S{"minProperties": 3}
	case 5:
		n = S{"properties": S{"p": S{"type": "string"}}, "required": []any{"p"}}
	default:
		n = S{"properties": S{"kind": S{"enum": []any{"x", "z"}}}}
		base["required"] = []any{"kind"}
	}
	if chance(t, "ntyped", 1, 3) {
		n["type"] = "object"
	}
	return base, n
}

func notType(t *rapid.T) (S, S) {
	all := []string{"string", "integer", "boolean", "null", "object", "array", "number"}
	var base S
	if chance(t, "untyped", 1, 3) {
		base = S{}
	} else {
		k := intIn(t, "k", 2, 5)
		ts := []any{}
		for _, x := range rapid.Permutation(all).Draw(t, "ts")[:k] {
			ts = append(ts, x)
		}
		base = S{"type": ts}
	}
	banned := pick(t, "ban", all...)
	if l, ok := base["type"].([]any); ok {
		// something is left: number covers integer
		left := 0
		for _, x := range l {
			if x != banned && !(banned == "number" && x == "integer") && !(banned == "integer" && x == "number") {
				left++
			}
		}
		if left == 0 {
			banned = "null"
			if len(l) > 0 {
				base["type"] = append(l, "null", "string")
				if !hasAny(l, "string") {
					base["type"] = append(l, "string")
				} else {
					base["type"] = l
				}
			}
		}
	}
	var n S
	switch intIn(t, "nk", 0, 2) {
	case 0:
		n = S{"type": banned}
	case 1:
		n = S{"type": []any{banned}}
	default:
		// applies to one type only, so every value of other types is excluded
		n = pick(t, "kw", S{"minimum": 5}, S{"maximum": 5}, S{"minLength": 4}, S{"maxLength": 4}, S{"pattern": "^a"}, S{"required": []any{"zz"}}, S{"minItems": 2}, S{"multipleOf": 3})
		base = S{}
	}
	return base, n
}

func hasAny(l []any, x any) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func notPair(t *rapid.T) (S, S, string) {
	switch intIn(t, "fam", 0, 5) {
	case 0:
		b, n := notInt(t)
		return b, n, "integer"
	case 1:
		b, n := notNum(t)
		return b, n, "number"
	case 2:
		b, n := notStr(t)
		return b, n, "string"
	case 3:
		b, n := notArr(t)
		return b, n, "array"
	case 4:
		b, n := notObj(t)
		return b, n, "object"
	default:
		b, n := notType(t)
		return b, n, "type"
	}
}

func notWrap(t *rapid.T, s S) S {
	switch intIn(t, "wrap", 0, 5) {
	case 4:
		return hoistDefs(s, S{"type": "array", "items": s, "minItems": 1, "maxItems": 3})
	case 5:
		return hoistDefs(s, S{"type": "object", "properties": S{"v": s}, "required": []any{"v"}})
	}
	return s
}

func genNotSingle(t *rapid.T) confCase {
	b, n, tag := notPair(t)
	switch intIn(t, "how", 0, 3) {
	case 2:
		b = S{"allOf": []any{b, S{"not": n}}}
	case 3:
		b["$defs"] = S{"n": n}
		b["not"] = S{"$ref": "#/$defs/n"}
	default:
		b["not"] = n
	}
	if _, ok := b["$defs"]; !ok {
		b = notWrap(t, b)
	}
	c := confNested(t, b, 12, true, true, tag)
	c.SomeOK = true
	c.steps()
	return c
}

func genNotDouble(t *rapid.T) confCase {
	b, n, tag := notPair(t)
	switch intIn(t, "how", 0, 1) {
	case 0:
		b = mergeNew(b, S{"not": S{"not": S{"not": n}}})
	default:
		x := S{}
		for k, v := range b {
			x[k] = v
		}
		b = S{"not": S{"not": x}}
	}
	b = notWrap(t, b)
	c := confNested(t, b, 12, true, true, tag)
	c.SomeOK = true
	c.steps()
	return c
}

// genNotSeveral: several nots of one base, each leaving most of it.
func genNotSeveral(t *rapid.T) confCase {
	var b S
	var ns []any
	tag := ""
	switch intIn(t, "fam", 0, 2) {
	case 0:
		tag = "integer"
		b = S{"type": "integer", "minimum": 0, "maximum": 100}
		pool := []any{S{"minimum": 90}, S{"maximum": 10}, S{"const": 40}, S{"enum": []any{41, 42}}, S{"minimum": 50, "maximum": 55}, S{"exclusiveMinimum": 80}, S{"exclusiveMaximum": 20}, S{"type": "string"}}
		ns = rapid.Permutation(pool).Draw(t, "p")[:intIn(t, "k", 2, 4)]
	case 1:
		tag = "string"
		b = S{"type": "string", "minLength": 2, "maxLength": 12}
		pool := []any{S{"pattern": "^a"}, S{"pattern": "z$"}, S{"const": "aa"}, S{"maxLength": 3}, S{"minLength": 11}, S{"enum": []any{"bb", "cc"}}, S{"type": "number"}}
		ns = rapid.Permutation(pool).Draw(t, "p")[:intIn(t, "k", 2, 4)]
	default:
		tag = "object"
		b = S{"type": "object", "properties": S{
			"kind": S{"enum": []any{"x", "y", "z", "w"}},
			"n":    S{"type": "integer", "minimum": 0, "maximum": 100},
			"p":    S{"type": "string", "maxLength": 8},
		}, "required": []any{"kind", "n"}}
		pool := []any{
			S{"properties": S{"kind": S{"const": "x"}}, "required": []any{"kind"}},
			S{"properties": S{"kind": S{"const": "y"}}, "required": []any{"kind"}},
			S{"properties": S{"n": S{"minimum": 70}}, "required": []any{"n"}},
			S{"properties": S{"n": S{"maximum": 20}}, "required": []any{"n"}},
			S{"required": []any{"p"}},
		}
		ns = rapid.Permutation(pool).Draw(t, "p")[:intIn(t, "k", 2, 4)]
	}
	aa := []any{}
	for _, n := range ns {
		aa = append(aa, S{"not": n})
	}
	if chance(t, "own", 1, 2) {
		b["not"] = ns[0]
		aa = aa[1:]
	}
	setAllOf(t, b, aa)
	b = notWrap(t, b)
	c := confNested(t, b, 12, true, true, tag)
	c.SomeOK = true
	c.steps()
	return c
}

// genNotAny: any keywords together under not; what is accepted has to conform.
func genNotAny(t *rapid.T) confCase {
	pool := []S{
		{"type": "integer"}, {"type": "string"}, {"type": "object"}, {"type": "array"}, {"type": []any{"number", "null"}},
		{"minimum": 3}, {"maximum": 3}, {"exclusiveMinimum": 0}, {"exclusiveMaximum": 10}, {"multipleOf": 2}, {"multipleOf": 1.5},
		{"minLength": 2}, {"maxLength": 4}, {"pattern": "^[a-m]"}, {"const": 3}, {"const": "a"}, {"const": nil}, {"const": false}, {"enum": []any{1, "b", nil}},
		{"minItems": 1}, {"maxItems": 2}, {"items": S{"type": "integer"}}, {"prefixItems": []any{S{"type": "string"}, S{"minimum": 0}}}, {"uniqueItems": true}, {"uniqueItems": false},
		{"contains": S{"type": "string"}}, {"minContains": 2, "contains": S{}}, {"contains": S{"type": "integer"}, "minContains": 2}, {"contains": S{"type": "string"}, "maxContains": 1}, {"contains": S{"type": "integer"}, "minContains": 1, "maxContains": 2},
		{"required": []any{"a"}}, {"minProperties": 1}, {"maxProperties": 1}, {"properties": S{"a": S{"type": "integer"}}}, {"properties": S{"a": S{"minimum": 3}, "b": S{}}},
		{"patternProperties": S{"^a": S{"type": "string"}}}, {"additionalProperties": false}, {"additionalProperties": S{"type": "string"}},
		{"allOf": []any{S{"type": "integer"}, S{"minimum": 2}}}, {"anyOf": []any{S{"type": "integer"}, S{"type": "null"}}}, {"not": S{"type": "integer"}}, {"not": S{"minimum": 5}},
		{"if": S{"type": "integer"}, "then": S{"minimum": 2}}, {"dependentRequired": S{"a": []any{"b"}}},
	}
	bases := []S{
		{}, {"type": "integer", "minimum": 0, "maximum": 20}, {"type": "number"}, {"type": "string", "maxLength": 8}, {"type": []any{"integer", "string", "null", "boolean"}},
		{"type": "array", "items": S{"type": []any{"integer", "string"}}, "maxItems": 5},
		{"type": "array", "items": S{"type": "integer", "minimum": 0, "maximum": 9}, "uniqueItems": true, "maxItems": 5},
		{"type": "array", "prefixItems": []any{S{"type": []any{"string", "integer"}}, S{"type": "integer"}}, "minItems": 2, "maxItems": 4},
		{"type": "array", "prefixItems": []any{S{"type": []any{"string", "integer"}}}, "items": false},
		{"type": "array", "contains": S{"type": "integer"}, "items": S{"type": []any{"integer", "string"}}, "maxItems": 4},
		{"type": "object", "properties": S{"a": S{"type": []any{"integer", "string"}}, "b": S{"type": "integer", "minimum": 0, "maximum": 9}}},
		{"type": "object", "properties": S{"a": S{"type": []any{"integer", "string"}}}, "additionalProperties": false},
		{"type": "object", "patternProperties": S{"^[ab]$": S{"type": []any{"integer", "string"}}}, "additionalProperties": false},
		{"type": "object", "additionalProperties": S{"type": []any{"integer", "string"}}, "minProperties": 1, "maxProperties": 3},
		{"type": "object", "properties": S{"a": S{"type": []any{"integer", "string"}}, "b": S{"type": "boolean"}}, "required": []any{"a"}},
		{"enum": []any{1, 2, 3, "a", "b", nil, false}},
		{"anyOf": []any{S{"type": "integer", "minimum": 0, "maximum": 10}, S{"type": "string", "maxLength": 4}}},
	}
	b := mergeNew(rapid.SampledFrom(bases).Draw(t, "base"))
	n := S{}
	for i, k := 0, intIn(t, "k", 1, 3); i < k; i++ {
		mergeS(n, pick(t, "kw"+itoa(i), pool...))
	}
	b["not"] = n
	b = notWrap(t, b)
	c := confNested(t, b, 8, false, true)
	c.steps()
	if c.Opts == genSteps {
		// the attempts of items, unique items and arrays around each other multiply
		c.Opts = &GenOpts{MaximumGenerationSteps: 1 << 30, CutoffGenerationSteps: 1 << 31, MaximumUniqueGeneratorAttempts: 20}
	}
	c.Opts.MaximumUniqueGeneratorAttempts = 20
	return c
}

func mergeNew(ms ...S) S {
	s := S{}
	for _, m := range ms {
		mergeS(s, m)
	}
	return s
}

func init() {
	register("C11",
		mkFacet("single", "one not over an integer, number, string, array, object or type list that leaves a fair share of its values, inline, through allOf or through a local $ref, on its own or nested in an array or object; such schemas must be accepted, some value must be found, and every value found must be valid; non-trivial: accepted and two different values judged", 5000, 100000, 3, genNotSingle, decideConf),
		mkFacet("double", "two and three nots inside each other; same rule", 2000, 40000, 2, genNotDouble, decideConf),
		mkFacet("several", "two to four nots that have to hold together, through allOf and next to it; same rule", 3000, 60000, 3, genNotSeveral, decideConf),
		mkFacet("format", "one to four texts that are of one of 18 formats and one to four that are not, built from the grammars of the RFCs, as enum or anyOf next to a not of the format, alone or with another; none of the first may come out, and all of the second have to within 400 values; non-trivial: two values judged", 3000, 60000, 2, genNotFormat, decideNotFormat),
		mkFacet("any", "any one to three keywords under not, next to a base schema; what is accepted without a report has to generate valid values or the documented give-up text; non-trivial: accepted and two different values judged", 5000, 100000, 3, genNotAny, decideConf),
	)
}

// genNotInside has a not about members that are more than a type and bounds, and several
// nots over values of several types.
func genNotInside(t *rapid.T) confCase {
	if chance(t, "types", 1, 3) {
		types := []any{"integer"}
		for _, ty := range []string{"string", "null", "boolean", "array", "object"} {
			if chance(t, "ty"+ty, 1, 2) {
				types = append(types, ty)
			}
		}
		nots := []any{}
		for i, n := 0, intIn(t, "nnots", 1, 4); i < n; i++ {
			nots = append(nots, S{"not": pick(t, "tn"+itoa(i), S{"const": 3}, S{"minimum": 15, "type": "integer"}, S{"enum": []any{4, "x", nil}}, S{"multipleOf": 7, "type": "integer"}, S{"type": "null"}, S{"type": []any{"boolean", "null"}},
				S{"type": "string", "minLength": 20}, S{"maximum": -5}, S{"type": "string", "pattern": "^[aeiou]"}, S{"type": "array", "minItems": 5}, S{"required": []any{"q"}, "type": "object"}, S{"const": true})})
		}
		s := S{"type": rapid.Permutation(types).Draw(t, "order"), "minimum": 0, "maximum": 20, "allOf": nots}
		c := confNested(t, s, 15, true, true, "types")
		c.SomeOK = true
		c.steps()
		return c
	}
	rng := func(m S) S {
		s := S{"type": "integer", "minimum": 0, "maximum": 20}
		mergeS(s, m)
		return s
	}
	rich := pick(t, "rich",
		rng(S{"oneOf": []any{S{"maximum": 9}, S{"minimum": 12}}}),
		rng(S{"anyOf": []any{S{"multipleOf": 2}, S{"multipleOf": 3}}}),
		rng(S{"allOf": []any{S{"maximum": 18}, S{"minimum": 1}}}),
		rng(S{"not": S{"const": 4}}),
		rng(S{"allOf": []any{S{"not": S{"const": 4}}, S{"not": S{"enum": []any{5, 6, 8}}}}}),
		rng(S{"if": S{"minimum": 10}, "then": S{"multipleOf": 2}, "else": S{"multipleOf": 3}}),
		rng(S{"allOf": []any{S{"if": S{"minimum": 10}, "then": S{"multipleOf": 2}}, S{"if": S{"maximum": 8}, "then": S{"multipleOf": 3}}}}),
		S{"$ref": "#/$defs/r"},
		S{"enum": []any{1, 2, 3, 5, 7, 16, 18}},
		S{"oneOf": []any{S{"type": "string", "minLength": 3}, rng(nil)}},
	)
	no := pick(t, "no", S{"const": 3}, S{"enum": []any{1, 2, 3, "x"}}, S{"minimum": 14, "type": "integer"}, S{"maximum": 2, "type": "integer"}, S{"type": "null"}, S{"multipleOf": 5, "type": "integer"}, S{"const": 7})
	s := S{"$defs": S{"r": rng(S{"multipleOf": 2})}}
	tag := "property"
	switch intIn(t, "where", 0, 4) {
	case 0:
		mergeS(s, S{"type": "object", "properties": S{"a": rich}, "required": []any{"a"}, "not": S{"properties": S{"a": no}, "required": []any{"a"}}})
	case 1:
		mergeS(s, S{"type": "object", "properties": S{"a": rich, "b": S{"type": "boolean"}}, "required": []any{"a", "b"}, "allOf": []any{S{"not": S{"properties": S{"a": no}}}}})
	case 2:
		tag = "item"
		mergeS(s, S{"type": "array", "items": rich, "minItems": 1, "maxItems": 2, "not": S{"items": no}})
	case 3:
		tag = "tuple"
		mergeS(s, S{"type": "array", "prefixItems": []any{rich, S{"type": "null"}}, "minItems": 2, "maxItems": 2, "not": S{"prefixItems": []any{no}}})
	default:
		tag = "itself"
		if rich["not"] != nil {
			rich = rng(nil)
		}
		mergeS(s, S{"allOf": []any{rich, S{"not": no}}})
	}
	c := confNested(t, s, 15, true, true, tag)
	c.SomeOK = true
	c.steps()
	return c
}

func init() {
	register("C11",
		mkFacet("inside", "nots about a property, item or tuple entry that itself has oneOf, anyOf, allOf, not, if, enum or a reference, and one to four nots over values of one to six types; accepted, some value is found and every value found is valid; non-trivial: two different values judged", 3000, 60000, 3, genNotInside, decideConf),
	)
}
