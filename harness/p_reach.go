package main

import (
	"encoding/json"

	"pgregory.net/rapid"
)

// witness: a schema some of the values have to satisfy, and a low estimate of how many.
type witness struct {
	s any
	p float64
}

// reacher makes schemas together with what their values have to reach.
type reacher struct {
	t    *rapid.T
	n    int
	defs S
	tags map[string]bool
}

func (r *reacher) l(s string) string { r.n++; return s + itoa(r.n) }

// some picks a few of the witnesses, always of the first and the last.
func (r *reacher) some(ws []witness) []witness {
	if len(ws) <= 4 {
		return ws
	}
	out := []witness{ws[0], ws[len(ws)-1]}
	for i := 0; i < 2; i++ {
		out = append(out, ws[intIn(r.t, r.l("wit"), 1, len(ws)-2)])
	}
	return out
}

func mapW(ws []witness, p float64, f func(any) any) []witness {
	out := make([]witness, len(ws))
	for i, w := range ws {
		out[i] = witness{f(w.s), w.p * p}
	}
	return out
}

func (r *reacher) leaf() (any, []witness) {
	t := r.t
	l := r.l("leaf")
	consts := func(p float64, xs ...any) []witness {
		var ws []witness
		for _, x := range xs {
			ws = append(ws, witness{S{"const": x}, p})
		}
		return ws
	}
	switch intIn(t, l, 0, 9) {
	case 9: // many of them
		r.tags["many"] = true
		n := intIn(t, l+"n", 10, 64)
		xs := make([]any, n)
		for i := range xs {
			xs[i] = i * 3
		}
		ws := consts(0.8/float64(n), xs...)
		alt := make([]any, n)
		for i := range alt {
			alt[i] = S{"const": i * 3}
		}
		return pick(t, l+"as", S{"enum": xs}, S{"anyOf": alt}, S{"type": "integer", "multipleOf": 3, "minimum": 0, "maximum": 3*n - 1}, S{"type": "number", "multipleOf": 3, "exclusiveMinimum": -3, "exclusiveMaximum": 3 * n}), ws
	case 0:
		vals := distinctValues(t, intIn(t, l+"n", 1, 5), 1)
		r.tags["enum"] = true
		if chance(t, l+"meet", 1, 3) {
			r.tags["allOf of enums"] = true
			return S{"allOf": []any{S{"enum": append(append([]any{}, vals...), "only here")}, S{"enum": append([]any{"only there"}, vals...)}}}, consts(0.2, vals...)
		}
		if chance(t, l+"not", 1, 3) {
			r.tags["not"] = true
			return S{"enum": append(append([]any{}, vals...), "not this"), "not": S{"const": "not this"}}, consts(0.15, vals...)
		}
		return S{"enum": vals}, consts(0.2, vals...)
	case 1:
		lo, n := intIn(t, l+"lo", -4, 4), intIn(t, l+"n", 0, 7)
		var xs []any
		for i := lo; i <= lo+n; i++ {
			xs = append(xs, i)
		}
		r.tags["integers"] = true
		s := S{"type": "integer", "minimum": lo, "maximum": lo + n}
		if chance(t, l+"excl", 1, 3) {
			s = S{"type": "integer", "exclusiveMinimum": lo - 1, "exclusiveMaximum": lo + n + 1}
		}
		return s, consts(0.06, xs...)
	case 2:
		m := intIn(t, l+"m", 2, 9)
		k, n := intIn(t, l+"k", -3, 3), intIn(t, l+"n", 0, 5)
		var xs []any
		for i := k; i <= k+n; i++ {
			xs = append(xs, i*m)
		}
		r.tags["multiples"] = true
		return S{"type": pick(t, l+"ty", "integer", "number"), "multipleOf": m, "minimum": k*m - intIn(t, l+"a", 0, m-1), "maximum": (k+n)*m + intIn(t, l+"b", 0, m-1)}, consts(0.16, xs...)
	case 3:
		return S{"type": "boolean"}, consts(0.5, true, false)
	case 4:
		r.tags["types"] = true
		types := rapid.SampledFrom([][]any{{"null", "boolean"}, {"string", "integer", "null"}, {"array", "object"}, {"object", "array", "string", "number", "boolean", "null"}, {"integer", "string"}}).Draw(t, l+"types")
		var ws []witness
		for _, ty := range types {
			ws = append(ws, witness{S{"type": ty}, 0.15})
		}
		return S{"type": types}, ws
	case 5:
		r.tags["types"] = true
		var ws []witness
		for _, ty := range []string{"null", "boolean", "string", "number", "integer", "array", "object"} {
			ws = append(ws, witness{S{"type": ty}, 0.12})
		}
		return S{}, ws
	case 6:
		return S{"type": "null"}, []witness{{S{"type": "null"}, 1}}
	case 7:
		r.tags["alternation"] = true
		return S{"type": "string", "pattern": "^(ab|cd|ef)[xyz]$"}, consts(0.1, "abx", "aby", "cdz", "efx", "efz")
	default:
		lo, n := intIn(t, l+"lo", 0, 3), intIn(t, l+"n", 0, 3)
		r.tags["lengths"] = true
		var ws []witness
		for i := lo; i <= lo+n; i++ {
			ws = append(ws, witness{S{"minItems": i, "maxItems": i}, 0.1})
		}
		if lo == 0 {
			ws = ws[1:] // (minItems 0 is not asked for as such)
			if n == 0 {
				return S{"type": "boolean"}, consts(0.5, true, false)
			}
		}
		return S{"type": "array", "items": S{"type": "null"}, "minItems": lo, "maxItems": lo + n}, ws
	}
}

func prop(name string) func(any) any {
	return func(w any) any {
		return S{"type": "object", "properties": S{name: w}, "required": []any{name}}
	}
}

func (r *reacher) schema(d int) (any, []witness) {
	s, ws := r.schema1(d)
	return s, r.some(ws)
}

func (r *reacher) schema1(d int) (any, []witness) {
	t := r.t
	if d <= 0 {
		return r.leaf()
	}
	l := r.l("kind")
	tag := func(s string) { r.tags[s] = true }
	switch intIn(t, l, 0, 12) {
	case 0:
		return r.leaf()
	case 1: // objects: required and optional properties
		tag("properties")
		a, wa := r.schema(d - 1)
		b, wb := r.schema(d - 1)
		s := S{"type": "object", "properties": S{"a": a, "b": b, "c": S{"type": "null"}}, "required": []any{"a"}}
		if chance(t, l+"closed", 1, 2) {
			s["additionalProperties"] = false
		}
		ws := mapW(wa, 1, prop("a"))
		ws = append(ws, mapW(wb, 0.3, prop("b"))...)
		return s, append(ws, witness{S{"not": S{"required": []any{"b"}}}, 0.07}, witness{S{"required": []any{"c"}}, 0.3}, witness{S{"required": []any{"c", "b"}}, 0.2})
	case 2:
		tag("additionalProperties")
		a, wa := r.schema(d - 1)
		return S{"type": "object", "additionalProperties": a, "maxProperties": 3}, mapW(wa, 0.4, func(w any) any {
			return S{"type": "object", "not": S{"additionalProperties": S{"not": w}}}
		})
	case 3:
		tag("patternProperties")
		a, wa := r.schema(d - 1)
		b, wb := r.schema(d - 1)
		s := S{"type": "object", "patternProperties": S{"^p[0-9]$": a, "^q[0-9]{2}$": b}}
		in := func(re string) func(any) any {
			return func(w any) any { return S{"type": "object", "not": S{"patternProperties": S{re: S{"not": w}}}} }
		}
		return s, append(mapW(wa, 0.3, in("^p")), mapW(wb, 0.3, in("^q"))...)
	case 4:
		tag("items")
		a, wa := r.schema(d - 1)
		return S{"type": "array", "items": a, "minItems": 1, "maxItems": 3}, mapW(wa, 0.9, func(w any) any { return S{"type": "array", "contains": w} })
	case 5:
		tag("prefixItems")
		a, wa := r.schema(d - 1)
		b, wb := r.schema(d - 1)
		return S{"type": "array", "prefixItems": []any{a, b}, "minItems": 2}, append(
			mapW(wa, 1, func(w any) any { return S{"type": "array", "prefixItems": []any{w}, "minItems": 1} }),
			mapW(wb, 1, func(w any) any { return S{"type": "array", "prefixItems": []any{S{}, w}, "minItems": 2} })...)
	case 6, 7:
		kw := pick(t, l+"kw", "anyOf", "oneOf")
		tag(kw)
		n := intIn(t, l+"n", 2, 3)
		var bs []any
		var ws []witness
		for i := 0; i < n; i++ {
			a, wa := r.schema(d - 1)
			b := S{"type": "object", "properties": S{"k": S{"const": i}, "v": a}, "required": []any{"k", "v"}}
			p := 0.25
			switch pick(t, l+"inner"+itoa(i), "", "", "not", "if", "allOf") {
			case "not":
				tag("not in a branch")
				b["not"] = S{"required": []any{"none of this"}}
			case "if":
				tag("if in a branch")
				b["properties"].(S)["f"] = S{"type": "boolean"}
				b["required"] = []any{"k", "v", "f"}
				b["if"] = S{"properties": S{"f": S{"const": true}}}
				b["then"] = S{"required": []any{"g"}, "properties": S{"g": S{"type": "null"}}}
				b["else"] = S{"required": []any{"h"}, "properties": S{"h": S{"type": "null"}}}
				ws = append(ws, witness{S{"properties": S{"k": S{"const": i}}, "required": []any{"k", "v", "g"}}, 0.05}, witness{S{"properties": S{"k": S{"const": i}}, "required": []any{"k", "v", "h"}}, 0.05})
			case "allOf":
				tag("allOf in a branch")
				v := b["properties"].(S)["v"]
				delete(b["properties"].(S), "v")
				b = S{"type": "object", "allOf": []any{b, S{"properties": S{"v": v}}}}
			}
			bs = append(bs, b)
			ws = append(ws, mapW(wa, p, func(w any) any {
				return S{"type": "object", "properties": S{"k": S{"const": i}, "v": w}, "required": []any{"k", "v"}}
			})...)
		}
		return S{kw: bs}, ws
	case 8:
		tag("allOf")
		a, wa := r.schema(d - 1)
		b, wb := r.schema(d - 1)
		return S{"allOf": []any{S{"type": "object", "properties": S{"a": a}, "required": []any{"a"}}, S{"type": "object", "properties": S{"b": b}, "required": []any{"b"}}}},
			append(mapW(wa, 1, prop("a")), mapW(wb, 1, prop("b"))...)
	case 9:
		tag("two choices")
		alt := func(name string) []any {
			return []any{S{"properties": S{name: S{"const": 1}}, "required": []any{name}}, S{"properties": S{name: S{"const": "2"}}, "required": []any{name}}}
		}
		var ws []witness
		for _, a := range []any{1, "2"} {
			for _, b := range []any{1, "2"} {
				ws = append(ws, witness{S{"properties": S{"a": S{"const": a}, "b": S{"const": b}}, "required": []any{"a", "b"}}, 0.12})
			}
		}
		k1, k2 := pick(t, l+"k1", "anyOf", "oneOf"), pick(t, l+"k2", "anyOf", "oneOf")
		return S{"allOf": []any{S{"type": "object", k1: alt("a")}, S{"type": "object", k2: alt("b")}}}, ws
	case 10:
		tag("if")
		a, wa := r.schema(d - 1)
		b, wb := r.schema(d - 1)
		s := S{"type": "object", "properties": S{"k": S{"enum": []any{"x", "y", "z"}}}, "required": []any{"k"},
			"if":   S{"properties": S{"k": S{"const": "x"}}, "required": []any{"k"}},
			"then": S{"properties": S{"v": a}, "required": []any{"v"}}, "else": S{"properties": S{"w": b}, "required": []any{"w"}}}
		is := func(k any, name string) func(any) any {
			return func(w any) any {
				return S{"properties": S{"k": k, name: w}, "required": []any{"k", name}}
			}
		}
		return s, append(append(mapW(wa, 0.1, is(S{"const": "x"}, "v")), mapW(wb, 0.1, is(S{"const": "y"}, "w"))...), mapW(wb, 0.1, is(S{"const": "z"}, "w"))...)
	case 11:
		tag("ref")
		name := "d" + itoa(len(r.defs)) + "-" + itoa(r.n)
		a, wa := r.schema(d - 1)
		r.defs[name] = a
		return S{"$ref": "#/$defs/" + name}, wa
	default:
		tag("contains")
		a, wa := r.schema(d - 1)
		c := a
		if d > 1 && r.tags["many"] { // the alternatives of items and contains are paired, at every level
			c = S{}
		}
		return S{"type": "array", "items": a, "contains": c, "minContains": 1, "maxItems": 3}, mapW(wa, 0.9, func(w any) any { return S{"type": "array", "contains": w} })
	}
}

func genReachAll(t *rapid.T) reachCase {
	r := &reacher{t: t, defs: S{}, tags: map[string]bool{}}
	d := intIn(t, "depth", 0, 3)
	a, ws := r.schema(d)
	s, ok := a.(S)
	if !ok {
		panic(harnessError{"reach"})
	}
	if len(r.defs) > 0 {
		if s["$ref"] != nil {
			s = S{"type": "object", "properties": S{"root": s}, "required": []any{"root"}}
			ws = mapW(ws, 1, prop("root"))
		}
		s["$defs"] = r.defs
	}
	c := reachCase{Schema: raw(s), Seed: seedOf(t), Opts: &GenOpts{MaximumGenerationSteps: 1 << 31, CutoffGenerationSteps: 1 << 32}}
	p := 1.0
	for _, w := range ws {
		if w.p < 0.0101 { // would take too many values
			continue
		}
		p = min(p, w.p)
		js, _ := json.Marshal(w.s)
		c.Reach = append(c.Reach, js)
	}
	c.N = int(30 / p)
	c.Tags = []string{"depth" + itoa(d)}
	for _, k := range sortedKeys(r.tags) {
		c.Tags = append(c.Tags, k)
	}
	return c
}

func init() {
	register("C22",
		mkFacet("reach", "schemas of enums, small ranges, type lists, objects, arrays, anyOf, oneOf, allOf, if, not and references up to three deep, each with a list of things some of its values have to be (this member, that branch with this value in it, a property left out, ...); 30 values for each one expected at the lowest estimate; non-trivial: at least two things to reach", 6000, 200000, 8, genReachAll, decideReach),
	)
}
