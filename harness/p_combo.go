package main

import (
	"pgregory.net/rapid"
)

// branchSet is a list of schemas and, for each, whether it excludes the others.
// Every branch is satisfiable by construction.
func typedBranches(t *rapid.T, n int) []any {
	// one branch per type: mutually exclusive ("integer"/"number" not together)
	tys := rapid.Permutation([]string{"null", "boolean", "integer", "string", "array", "object"}).Draw(t, "tys")
	out := []any{}
	for i := 0; i < n && i < len(tys); i++ {
		b := S{"type": tys[i]}
		mergeS(b, typeKeywords(t, tys[i]))
		out = append(out, b)
	}
	return out
}

// rangeBranches cut the integers into disjoint ranges.
func rangeBranches(t *rapid.T, n int) []any {
	out := []any{}
	lo := intIn(t, "rb", -20, 20)
	for i := 0; i < n; i++ {
		w := intIn(t, "rw", 1, 12)
		out = append(out, S{"type": "integer", "minimum": lo, "maximum": lo + w})
		lo += w + intIn(t, "rg", 1, 4)
	}
	return out
}

// taggedBranches are objects told apart by a discriminator.
func taggedBranches(t *rapid.T, n, d int) []any {
	out := []any{}
	for i := 0; i < n; i++ {
		props := S{"kind": S{"const": "k" + itoa(i)}}
		req := []any{"kind"}
		if chance(t, "enumtag", 1, 4) {
			props["kind"] = S{"enum": []any{"k" + itoa(i), "alt" + itoa(i)}}
		}
		m := intIn(t, "tbn", 0, 3)
		for j := 0; j < m; j++ {
			k := pick(t, "tbk", "a", "b", "c")
			props[k] = treeSchema(t, d)
			if chance(t, "tbr", 1, 2) {
				req = append(req, k)
			}
		}
		b := S{"type": "object", "properties": props, "required": uniqAny(req)}
		if chance(t, "tbclosed", 1, 3) {
			b["additionalProperties"] = false
		}
		out = append(out, b)
	}
	return out
}

func uniqAny(xs []any) []any {
	seen := map[any]bool{}
	out := []any{}
	for _, x := range xs {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

// constBranches list disjoint values.
func constBranches(t *rapid.T, n int) []any {
	vals := distinctValues(t, n*2, 1)
	out := []any{}
	for len(vals) > 0 && len(out) < n {
		if len(vals) > 1 && chance(t, "two", 1, 2) {
			out = append(out, S{"enum": []any{vals[0], vals[1]}})
			vals = vals[2:]
		} else {
			out = append(out, S{"const": vals[0]})
			vals = vals[1:]
		}
	}
	return out
}

// overlapBranches overlap, but each keeps at least about half of its values to
// itself (for oneOf: a random value of a branch has a fair chance of being in
// no other).
func overlapBranches(t *rapid.T, n int) []any {
	out := []any{}
	lo := intIn(t, "ob", -20, 20)
	for i := 0; i < n; i++ {
		out = append(out, S{"type": "integer", "minimum": lo, "maximum": lo + 20})
		lo += intIn(t, "og", 14, 20)
	}
	return out
}

func branches(t *rapid.T, d int) ([]any, string) {
	n := intIn(t, "nb", 1, 4)
	switch intIn(t, "bkind", 0, 5) {
	case 5:
		out := []any{}
		for _, f := range rapid.Permutation([]string{"date", "time", "date-time", "ipv4", "ipv6", "uuid", "email", "duration"}).Draw(t, "formats")[:n] {
			b := S{"format": f, "type": "string"}
			if chance(t, "only some", 1, 3) {
				b = S{"format": f, "enum": []any{formatText(t, "is"+f, f, true), formatText(t, "isnt"+f, f, false)}}
			}
			out = append(out, b)
		}
		return out, "formats"
	case 0:
		return typedBranches(t, n), "typed"
	case 1:
		return rangeBranches(t, n), "ranges"
	case 2:
		return taggedBranches(t, n, d), "tagged"
	case 3:
		return constBranches(t, n), "consts"
	default:
		return overlapBranches(t, n), "overlap"
	}
}

// withBase puts keywords next to the combination that leave values of it.
func withBase(t *rapid.T, s S, kind string) {
	if !chance(t, "base", 1, 2) {
		return
	}
	switch kind {
	case "ranges", "overlap":
		switch intIn(t, "basek", 0, 3) {
		case 0:
			s["type"] = "integer"
		case 1:
			s["type"] = []any{"integer", "string"}
		case 2:
			s["type"] = "number"
		default:
			s["maximum"] = 1000
		}
	case "tagged":
		switch intIn(t, "basek", 0, 3) {
		case 0:
			s["type"] = "object"
		case 1:
			s["properties"] = S{"kind": S{"type": "string"}}
			s["required"] = []any{"kind"}
		case 2:
			s["minProperties"] = 1
		default:
			s["title"] = "base"
		}
	default:
		s["description"] = "base"
	}
}

func genCombo(t *rapid.T) confCase {
	kw := pick(t, "kw", "anyOf", "oneOf")
	b, kind := branches(t, 1)
	s := S{kw: b}
	withBase(t, s, kind)
	tags := []string{kw, kind}
	if chance(t, "nested", 1, 5) {
		// a branch that is itself a combination
		i := intIn(t, "ni", 0, len(b)-1)
		b[i] = S{pick(t, "nk", "anyOf", "oneOf", "allOf"): []any{b[i]}}
		tags = append(tags, "nested")
	}
	var out any = s
	switch intIn(t, "where", 0, 4) {
	case 0:
		out = S{"type": "object", "properties": S{"p": s, "a.b": S{"oneOf": typedBranches(t, 2)}, "a_b": S{"oneOf": rangeBranches(t, 2)}}, "required": []any{"p", "a.b", "a_b"}}
		tags = append(tags, "property")
	case 1:
		out = S{"type": "array", "items": s, "minItems": 1, "maxItems": 4}
		tags = append(tags, "item")
	}
	c := conf(t, out, 12, true, false, tags...)
	c.steps()
	return c
}

// genBoth has oneOf and anyOf side by side.
func genBoth(t *rapid.T) confCase {
	s := S{"type": "integer", "minimum": 0, "maximum": 100}
	s["oneOf"] = pick(t, "one", []any{S{"minimum": 50}, S{"maximum": 49}}, []any{S{"multipleOf": 2}, S{"maximum": 20}}, []any{S{"minimum": 30}, S{"maximum": 60}})
	s["anyOf"] = pick(t, "any", []any{S{"multipleOf": 3}, S{"multipleOf": 5}}, []any{S{"minimum": 10}, S{"maximum": 95}}, []any{S{"type": "integer"}, S{"type": "string"}})
	if chance(t, "not", 1, 3) {
		s["allOf"] = []any{S{"minimum": 5}}
	}
	c := confNested(t, s, 20, true, false)
	c.steps()
	return c
}

// genLogic tells branches apart by a predicate, its negation
// exactly one branch holds for every integer of the range.
func genLogic(t *rapid.T) confCase {
	rng := S{"type": "integer", "minimum": 0, "maximum": 60}
	k := intIn(t, "k", 15, 45)
	p := pick(t, "p", S{"minimum": k}, S{"maximum": k}, S{"multipleOf": 2}, S{"multipleOf": 3})
	neg := S{"not": p}
	wrap := func(l string, x S) S {
		switch intIn(t, l, 0, 3) {
		case 0:
			return S{"allOf": []any{rng, x}}
		case 1:
			y := S{}
			mergeS(y, rng)
			for kw, v := range x {
				if _, ok := y[kw]; ok {
					return S{"allOf": []any{x, rng}}
				}
				y[kw] = v
			}
			return y
		case 2:
			return S{"allOf": []any{x, S{"allOf": []any{rng}}}}
		default:
			return S{"allOf": []any{S{"allOf": []any{x}}, rng}}
		}
	}
	b := []any{wrap("w1", p), wrap("w2", neg)}
	if chance(t, "third", 1, 3) {
		b = append(b, S{"type": "string", "maxLength": 5})
	}
	s := S{"oneOf": rapid.Permutation(b).Draw(t, "order")}
	if chance(t, "base", 1, 3) && len(b) == 2 {
		s["type"] = "integer"
	}
	c := confNested(t, s, 15, true, false)
	c.steps()
	return c
}

// genOverlap has alternatives that share any part of their values, from none
// to nearly all, and few or many attempts at finding a value of one of them.
func genOverlap(t *rapid.T) confCase {
	n := intIn(t, "n", 2, 4)
	var b []any
	kind := pick(t, "kind", "integer", "number", "string", "array", "enum", "object", "type")
	for i := 0; i < n; i++ {
		l := "b" + itoa(i)
		lo := pick(t, l+"lo", 0, 0, 1, 5, 1000)
		hi := lo + pick(t, l+"w", 1, 3, 10, 1000, 1000000)
		switch kind {
		case "integer":
			b = append(b, S{"type": pick(t, l+"ty", "integer", "integer", "number"), "minimum": lo, "maximum": hi})
		case "number":
			b = append(b, S{"type": "number", "exclusiveMinimum": float64(lo) - 0.5, "maximum": hi})
		case "string":
			b = append(b, S{"type": "string", "minLength": lo % 40, "maxLength": lo%40 + hi%60})
		case "array":
			b = append(b, S{"type": "array", "items": S{"type": pick(t, l+"ty", "null", "null", "boolean")}, "minItems": lo % 4, "maxItems": lo%4 + 1 + hi%5})
		case "enum":
			xs := []any{}
			for k := range 8 {
				if k == i || chance(t, l+"has"+itoa(k), 2, 3) {
					xs = append(xs, k)
				}
			}
			b = append(b, S{"enum": xs})
		case "object":
			o := S{"type": "object", "properties": S{"a": S{"type": "null"}, "b": S{"type": "null"}, "c": S{"type": "null"}}, "additionalProperties": false}
			if r := pick(t, l+"req", "", "a", "b", "c"); r != "" {
				o["required"] = []any{r}
			}
			if chance(t, l+"min", 1, 2) {
				o["minProperties"] = intIn(t, l+"minp", 0, 2)
			}
			b = append(b, o)
		default:
			b = append(b, S{"type": pick(t, l+"ty", any("integer"), any("number"), any("string"), any([]any{"string", "null"}), any([]any{"null", "boolean"}), any([]any{"integer", "null", "string"}))})
		}
	}
	c := confNested(t, S{"oneOf": b}, 12, false, true, kind)
	c.Opts = &GenOpts{MaximumOneOfAttempts: pick(t, "attempts", 0, 1, 2, 5, 20)}
	c.steps()
	return c
}

func init() {
	register("C09",
		mkFacet("overlap", "oneOf over two to four alternatives of one family (integer, number, string, array, object, enum, type) that share any part of their values, with few or many attempts; a value of more than one alternative is never returned, the text on giving up decides nothing; non-trivial: accepted and two different values judged", 3000, 60000, 2, genOverlap, decideConf),
		mkFacet("combo", "anyOf/oneOf over branches told apart by type, range, discriminator or value, or overlapping; with keywords next to them, nested, as a property (next to others whose names differ in punctuation only) or item; non-trivial: accepted and two different values judged", 5000, 100000, 4, genCombo, decideConf),
		mkFacet("logic", "oneOf over a predicate on integers and its negation (by not), wrapped in allOf in different ways; non-trivial: accepted and two different values judged", 2000, 40000, 2, genLogic, decideConf),
		mkFacet("both", "oneOf and anyOf side by side over one integer range; non-trivial: accepted and two different values judged", 1500, 30000, 1, genBoth, decideConf),
	)
}

// leftOut: schemas, alternatives that leave values of them (the first two of which exclude
// each other), and alternatives that leave none.
var leftOut = map[string]struct {
	base      S
	good, bad []S
}{
	"integer": {S{"type": "integer", "minimum": 10, "maximum": 20},
		[]S{{"minimum": 16}, {"maximum": 15}, {"multipleOf": 3}, {"const": 13}, {"enum": []any{11, 30, "x"}}, {"type": "number"}, {"type": []any{"integer", "null"}}, {"anyOf": []any{S{"type": "string"}, S{"minimum": 12}}}},
		[]S{{"type": "string"}, {"type": []any{"string", "null"}}, {"minimum": 21}, {"maximum": 9}, {"exclusiveMaximum": 9}, {"const": "x"}, {"const": 5}, {"enum": []any{"a", 99}}, {"type": "integer", "maximum": 3}, {"type": "number", "minimum": 30}, {"multipleOf": 50}, {"exclusiveMinimum": 20}, {"exclusiveMinimum": 14.5, "maximum": 14.75},
			{"anyOf": []any{S{"type": "null"}, S{"minimum": 30}}}, {"oneOf": []any{S{"type": "null"}, S{"const": 30}}}, {"allOf": []any{S{"type": "string"}, S{"maxLength": 4}}}, {"$ref": "#/$defs/text"}}},
	"bounds": {S{"minimum": 10},
		[]S{{"exclusiveMinimum": 15}, {"maximum": 15}, {"type": "integer"}, {"const": 13}, {"type": []any{"integer", "number"}, "maximum": 12}},
		[]S{{"maximum": 9}, {"maximum": -3}, {"const": 5}, {"enum": []any{1, 2}}, {"type": "integer", "maximum": 4}, {"allOf": []any{S{"maximum": 5}}}}},
	"length": {S{"minLength": 4},
		[]S{{"minLength": 7}, {"maxLength": 6}, {"type": "string"}, {"const": "abcde"}},
		[]S{{"maxLength": 3}, {"const": "abc"}, {"enum": []any{"", "x"}}, {"type": "string", "maxLength": 2}}},
	"enum": {S{"enum": []any{1, "a", true, nil, 7, []any{1}, S{"k": "v"}}},
		[]S{{"type": "integer"}, {"type": "string"}, {"type": "array", "maxItems": 1}, {"const": "a"}, {"enum": []any{7, 8, true}}, {"type": "object", "required": []any{"k"}}, {"type": "integer", "minimum": 5}},
		[]S{{"type": "array", "minItems": 2}, {"const": 2}, {"type": "integer", "minimum": 10}, {"type": "string", "pattern": "^b"}, {"enum": []any{3, "q"}}, {"type": "object", "required": []any{"v"}}, {"type": "string", "minLength": 2}, {"type": "integer", "multipleOf": 5},
			{"anyOf": []any{S{"const": 2}, S{"const": "b"}}}, {"type": "array", "items": S{"type": "string"}}}},
	"const": {S{"const": 12},
		[]S{{"type": "integer"}, {"minimum": 4}, {"multipleOf": 4}, {"enum": []any{12, 13}}, {"type": "number", "exclusiveMaximum": 13}},
		[]S{{"type": "string"}, {"type": "integer", "minimum": 13}, {"const": "twelve"}, {"enum": []any{1, 2}}, {"multipleOf": 5}, {"exclusiveMinimum": 12}}},
	"object": {S{"type": "object", "properties": S{"a": S{"type": "integer", "minimum": 5, "maximum": 20}, "b": S{"type": "string"}}, "additionalProperties": false, "required": []any{"a"}},
		[]S{{"properties": S{"a": S{"maximum": 9}}}, {"properties": S{"a": S{"minimum": 10}}}, {"required": []any{"b"}}, {"minProperties": 1}, {"maxProperties": 1}, {"properties": S{"a": S{"type": "number"}}}},
		[]S{{"required": []any{"c"}}, {"properties": S{"a": S{"type": "string"}}}, {"properties": S{"a": S{"type": "integer", "maximum": 4}}}, {"type": "array"}, {"properties": S{"a": S{"const": 3}}}, {"maxProperties": 0}, {"minProperties": 3}, {"required": []any{"b"}, "maxProperties": 1}, {"required": []any{"a", "b", "d"}},
			{"properties": S{"a": S{"type": []any{"string", "null"}}}}, {"allOf": []any{S{"required": []any{"c"}}}}, {"anyOf": []any{S{"required": []any{"c"}}, S{"type": "array"}}}, {"$ref": "#/$defs/text"}}},
	"nested": {S{"type": "object", "properties": S{"o": S{"type": "object", "properties": S{"p": S{"type": "integer", "maximum": 20}}, "required": []any{"p"}}}, "required": []any{"o"}},
		[]S{{"properties": S{"o": S{"properties": S{"p": S{"minimum": 11}}}}}, {"properties": S{"o": S{"properties": S{"p": S{"maximum": 10}}}}}, {"properties": S{"o": S{"required": []any{"q"}}}}},
		[]S{{"properties": S{"o": S{"type": "array"}}}, {"properties": S{"o": S{"properties": S{"p": S{"type": "string"}}}}}, {"properties": S{"o": S{"properties": S{"p": S{"type": "integer", "minimum": 21}}}}}}},
	"array": {S{"type": "array", "items": S{"type": "integer", "maximum": 20}, "minItems": 2, "maxItems": 5},
		[]S{{"maxItems": 3}, {"minItems": 4}, {"items": S{"minimum": 3}}, {"prefixItems": []any{S{"const": 7}}}, {"items": S{"type": "number"}}},
		[]S{{"maxItems": 1}, {"minItems": 6}, {"items": S{"type": "string"}}, {"type": "object"}, {"prefixItems": []any{S{"type": "string"}}}, {"items": S{"type": "integer", "minimum": 30}}, {"prefixItems": []any{S{"type": "integer"}, S{"type": []any{"null", "string"}}}}}},
}

// genLeftOut puts alternatives nothing satisfies along with the rest next to ones that can be:
// they are neither generated for nor reported.
func genLeftOut(t *rapid.T) confCase {
	kind := rapid.SampledFrom(sortedKeys(leftOut)).Draw(t, "kind")
	f := leftOut[kind]
	kw := pick(t, "kw", "anyOf", "oneOf")
	var b []any
	switch {
	case kw == "oneOf" && kind != "const" && chance(t, "two", 1, 3):
		b = append(b, f.good[0], f.good[1])
	case kw == "oneOf":
		b = append(b, rapid.SampledFrom(f.good).Draw(t, "good"))
	default:
		for i, n := 0, intIn(t, "ngood", 1, 3); i < n; i++ {
			b = append(b, rapid.SampledFrom(f.good).Draw(t, "good"))
		}
	}
	for i, n := 0, intIn(t, "nbad", 1, 3); i < n; i++ {
		b = append(b, rapid.SampledFrom(f.bad).Draw(t, "bad"))
	}
	s := clone(f.base).(S)
	list := clone(any(rapid.Permutation(b).Draw(t, "order")))
	switch intIn(t, "form", 0, 3) {
	case 0:
		s = S{"allOf": []any{s, S{kw: list}}}
	default:
		s[kw] = list
	}
	s["$defs"] = S{"text": S{"type": "string", "minLength": 2}}
	c := confNested(t, s, 12, true, false, kw, kind)
	c.steps()
	return c
}

func init() {
	register("C09",
		mkFacet("leftout", "anyOf/oneOf next to keywords that some alternatives contradict (by type, bounds, values, a property, an item or all alternatives of their own) while others do not: nothing is reported and values are valid; non-trivial: accepted and a value judged", 3000, 60000, 1, genLeftOut, decideConf),
	)
}
