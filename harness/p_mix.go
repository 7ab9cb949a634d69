package main

import (
	"pgregory.net/rapid"
)

// mixer composes every kind of schema with every other, to any depth. Each
// piece is satisfiable whatever its parts are, so the whole is.
type mixer struct {
	t    *rapid.T
	n    int
	defs S
	tags map[string]bool
}

func (m *mixer) l(s string) string { m.n++; return s + itoa(m.n) }

func (m *mixer) leaf() any {
	t := m.t
	switch intIn(t, m.l("leafkind"), 0, 9) {
	case 0:
		return numSchemaInt(t)
	case 1:
		return numSchemaFloat(t)
	case 2:
		return enumSchema(t)
	case 3:
		m.tags["not"] = true
		b, n, _ := notPair(t)
		b["not"] = n
		return b
	case 4:
		m.tags["oneOf"] = true
		b, _ := branches(t, 0)
		return S{"oneOf": b}
	case 5:
		m.tags["anyOf"] = true
		b, _ := branches(t, 0)
		return S{"anyOf": b}
	case 6:
		m.tags["if"] = true
		s := S{"type": "integer", "minimum": 0, "maximum": 100}
		mergeS(s, ifNumeric(t))
		return s
	case 7:
		m.tags["if"] = true
		s := ifObjectBase()
		mergeS(s, ifTagged(t))
		return s
	default:
		return leafSchema(t)
	}
}

func (m *mixer) schema(d int) any {
	t := m.t
	if d <= 0 {
		return m.leaf()
	}
	k := m.l("kind")
	switch intIn(t, k, 0, 13) {
	case 0:
		return m.leaf()
	case 1, 2:
		return m.object(d)
	case 3:
		return m.array(d)
	case 4:
		m.tags["anyOf"] = true
		out := []any{}
		for i := intIn(t, k+"n", 1, 3); i > 0; i-- {
			out = append(out, m.schema(d-1))
		}
		return S{"anyOf": out}
	case 5:
		m.tags["oneOf"] = true
		return S{"oneOf": m.tagged(d, intIn(t, k+"n", 2, 3))}
	case 6:
		m.tags["allOf"] = true
		return S{"type": "object", "allOf": []any{
			S{"properties": S{"a": m.schema(d - 1)}, "required": []any{"a"}},
			S{"properties": S{"b": m.schema(d - 1), "c": m.schema(d - 1)}, "required": m.some("b", "c")},
		}}
	case 7:
		m.tags["allOf"] = true
		return S{"allOf": []any{m.schema(d - 1)}}
	case 8, 9:
		m.tags["ref"] = true
		return m.ref(d)
	case 10:
		m.tags["if"] = true
		s := S{"type": "object", "properties": S{"kind": S{"enum": []any{"x", "y", "z"}}}, "required": []any{"kind"}}
		s["if"] = S{"properties": S{"kind": S{"const": pick(t, k+"c", "x", "y", "z")}}, "required": []any{"kind"}}
		if chance(t, k+"then", 3, 4) {
			s["then"] = S{"properties": S{"body": m.schema(d - 1)}, "required": []any{"body"}}
		}
		if chance(t, k+"else", 3, 4) {
			s["else"] = S{"properties": S{"other": m.schema(d - 1)}, "required": m.some("other")}
		}
		return s
	case 11:
		m.tags["not"] = true
		s := m.object(d)
		s["not"] = S{"required": []any{"forbidden"}}
		return s
	case 12:
		m.tags["anyOf"] = true
		s := m.object(d)
		s["anyOf"] = []any{S{"required": []any{"a"}}, S{"required": []any{"b"}}, S{"minProperties": 1}}
		return s
	default:
		m.tags["allOf"] = true
		m.tags["oneOf"] = true
		return S{"allOf": []any{S{"oneOf": m.tagged(d, 2)}, S{"type": "object", "properties": S{"extra": m.schema(d - 1)}, "required": []any{"extra"}}}}
	}
}

func (m *mixer) some(names ...string) []any {
	out := []any{}
	for _, n := range names {
		if chance(m.t, m.l("some"), 1, 2) {
			out = append(out, n)
		}
	}
	return out
}

func (m *mixer) object(d int) S {
	t := m.t
	props := S{}
	s := S{"type": "object", "properties": props}
	req := []any{}
	for _, name := range []string{"a", "b", "c"} {
		l := m.l("prop")
		switch intIn(t, l, 0, 3) {
		case 0:
		case 1:
			props[name] = m.schema(d - 1)
			req = append(req, name)
		default:
			props[name] = m.schema(d - 1)
		}
	}
	s["required"] = req
	switch intIn(t, m.l("addl"), 0, 4) {
	case 0:
		if len(props) > 0 {
			s["additionalProperties"] = false
		}
	case 1:
		s["additionalProperties"] = m.schema(d - 1)
	case 2:
		s["patternProperties"] = S{"^p-[0-9]{2}$": m.schema(d - 1)}
	}
	return s
}

func (m *mixer) array(d int) S {
	t := m.t
	s := S{"type": "array"}
	l := m.l("arr")
	if chance(t, l+"prefix", 1, 3) {
		s["prefixItems"] = []any{m.schema(d - 1), m.schema(d - 1)}
	}
	if chance(t, l+"items", 3, 4) {
		s["items"] = m.schema(d - 1)
	}
	lo := intIn(t, l+"lo", 0, 2)
	s["minItems"] = lo
	s["maxItems"] = lo + intIn(t, l+"hi", 2, 3)
	return s
}

func (m *mixer) tagged(d, n int) []any {
	out := []any{}
	for i := 0; i < n; i++ {
		b := S{"type": "object", "properties": S{"kind": S{"const": "k" + itoa(i)}, "v": m.schema(d - 1)}, "required": append([]any{"kind"}, m.some("v")...)}
		out = append(out, b)
	}
	return out
}

func (m *mixer) ref(d int) S {
	names := sortedKeys(m.defs)
	if len(names) > 0 && chance(m.t, m.l("reuse"), 1, 2) {
		return S{"$ref": "#/$defs/" + rapid.SampledFrom(names).Draw(m.t, m.l("which"))}
	}
	name := "d" + itoa(len(m.defs)) + "_" + itoa(m.n)
	x := m.schema(d - 1)
	m.defs[name] = x
	return S{"$ref": "#/$defs/" + name}
}

func genMix(t *rapid.T) confCase {
	m := &mixer{t: t, defs: S{}, tags: map[string]bool{}}
	d := intIn(t, "depth", 1, 4)
	s, ok := m.schema(d).(S)
	if !ok {
		panic(harnessError{"mix"})
	}
	if len(m.defs) > 0 {
		if s["$ref"] != nil {
			s = S{"type": "object", "properties": S{"root": s}, "required": []any{"root"}}
		}
		s["$defs"] = m.defs
	}
	tags := []string{"depth" + itoa(d)}
	for _, k := range sortedKeys(m.tags) {
		tags = append(tags, k)
	}
	c := conf(t, s, 6, true, true, tags...)
	c.steps()
	return c
}

func init() {
	register("C14",
		mkFacet("mix", "schemas that compose objects, arrays, enums, numbers, anyOf, oneOf, allOf, if/then/else, not and references with each other up to four levels deep; a value is judged unless a part of it is the documented give-up text; non-trivial: two different values judged", 4000, 150000, 6, genMix, decideConf),
	)
}
