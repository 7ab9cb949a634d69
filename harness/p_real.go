package main

import (
	_ "embed"
	"encoding/json"
	"regexp"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

// The small schemas among the test data of go-chaff, many of them real ones from
// schemastore.org, made by tools/mkcorpus.py.
//
//go:embed corpus.json
var corpusJSON []byte

type corpusEntry struct {
	Name   string          `json:"name"`
	Schema json.RawMessage `json:"schema"`
}

var corpus = sync.OnceValue(func() []corpusEntry {
	var out []corpusEntry
	if err := json.Unmarshal(corpusJSON, &out); err != nil {
		panic(harnessError{"corpus: " + err.Error()})
	}
	fit := out[:0]
	for _, e := range out {
		if _, err := newOracle(e.Schema); err == nil && fitToClaim(decodeS(e.Schema)) {
			fit = append(fit, e)
		}
	}
	return fit
})

func decodeS(b []byte) any {
	v, err := decodeNum(b)
	if err != nil {
		panic(harnessError{"corpus: " + err.Error()})
	}
	return v
}

func copyJSON(v any) any { return decodeS(raw(v)) }

// spot is a place in a schema a sub-schema is at.
type spot struct {
	get func() any
	set func(any)
	ref string
}

var (
	subKws  = []string{"additionalProperties", "items", "contains", "not", "if", "then", "else", "additionalItems", "unevaluatedItems"}
	listKws = []string{"allOf", "anyOf", "oneOf", "prefixItems"}
	mapKws  = []string{"properties", "patternProperties", "$defs", "definitions"}
)

func escPtr(s string) string {
	s = strings.ReplaceAll(strings.ReplaceAll(s, "~", "~0"), "/", "~1")
	return escapePath(s)
}

// spots lists the places of sub-schemas below s.
func spots(s any, at string, out []spot) []spot {
	m, ok := s.(map[string]any)
	if !ok {
		return out
	}
	for _, k := range subKws {
		if v, ok := m[k]; ok {
			out = append(out, spot{func() any { return m[k] }, func(x any) { m[k] = x }, at + "/" + k})
			out = spots(v, at+"/"+k, out)
		}
	}
	for _, k := range listKws {
		if l, ok := m[k].([]any); ok {
			for i := range l {
				out = append(out, spot{func() any { return l[i] }, func(x any) { l[i] = x }, at + "/" + k + "/" + itoa(i)})
				out = spots(l[i], at+"/"+k+"/"+itoa(i), out)
			}
		}
	}
	for _, k := range mapKws {
		if l, ok := m[k].(map[string]any); ok {
			for _, n := range sortedKeys(l) {
				p := at + "/" + k + "/" + escPtr(n)
				out = append(out, spot{func() any { return l[n] }, func(x any) { l[n] = x }, p})
				out = spots(l[n], p, out)
			}
		}
	}
	return out
}

// hasRefs: refers to something, so that it cannot be taken to another document.
func hasRefs(v any) bool { return strings.Contains(string(raw(v)), `"$ref":`) }

// fitToClaim leaves out what the properties leave out: properties and
// patternProperties that overlap in one schema, and keywords next to a $ref.
func fitToClaim(v any) bool {
	m, ok := v.(map[string]any)
	if !ok {
		return true
	}
	if _, ok := m["$ref"]; ok {
		for k := range m {
			if k != "$ref" && k != "$defs" && k != "definitions" {
				return false
			}
		}
	}
	pp, _ := m["patternProperties"].(map[string]any)
	pr, _ := m["properties"].(map[string]any)
	if len(pp) > 1 {
		return false
	}
	for p := range pp {
		re, err := regexp.Compile(p)
		if err != nil {
			return false
		}
		for n := range pr {
			if re.MatchString(n) {
				return false
			}
		}
		if req, ok := m["required"].([]any); ok {
			for _, n := range req {
				if s, ok := n.(string); ok && re.MatchString(s) {
					return false
				}
			}
		}
	}
	_, f := m["format"]
	_, p := m["pattern"]
	_, l1 := m["minLength"]
	_, l2 := m["maxLength"]
	if f && (p || l1 || l2) || p && (l1 || l2) {
		return false
	}
	for _, s := range spots(v, "", nil) {
		if !fitToClaimShallow(s.get()) {
			return false
		}
	}
	return true
}

func fitToClaimShallow(v any) bool {
	m, ok := v.(map[string]any)
	if !ok {
		return true
	}
	c := map[string]any{}
	for k, x := range m {
		switch k {
		case "$ref", "format", "pattern", "minLength", "maxLength", "required":
			c[k] = x
		case "properties", "patternProperties":
			n := map[string]any{}
			if y, ok := x.(map[string]any); ok {
				for k := range y {
					n[k] = true
				}
			}
			c[k] = n
		default:
			if _, ok := m["$ref"]; ok {
				c[k] = true
			}
		}
	}
	return fitToClaim(c)
}

// realOpts: never cut off, and few attempts, as those of parts within each other multiply.
func realOpts() *GenOpts {
	return &GenOpts{CutoffGenerationSteps: 1 << 31, MaximumUniqueGeneratorAttempts: 20, MaximumIfAttempts: 30, MaximumOneOfAttempts: 30}
}

func genReal(t *rapid.T) confCase {
	es := corpus()
	e := es[intIn(t, "entry", 0, len(es)-1)]
	root := decodeS(e.Schema)
	tags := []string{}
	for i := intIn(t, "muts", 0, 4); i > 0; i-- {
		before := copyJSON(root)
		tag := ""
		root, tag = mutateSchema(t, root, i)
		fit := fitToClaim(root) && len(raw(root)) < 20000
		if fit {
			_, err := newOracle(raw(root))
			fit = err == nil
		}
		if !fit {
			root = before
			continue
		}
		tags = append(tags, tag)
	}
	if len(tags) == 0 {
		tags = append(tags, "as it is")
	}
	return confCase{Schema: raw(root), Opts: realOpts(), Seed: seedOf(t), N: 6, Markers: true, Tags: tags}
}

func mutateSchema(t *rapid.T, root any, n int) (any, string) {
	l := func(s string) string { return s + itoa(n) }
	all := append([]spot{{func() any { return root }, func(x any) { root = x }, ""}}, spots(root, "", nil)...)
	sp := all[intIn(t, l("spot"), 0, len(all)-1)]
	m, ok := sp.get().(map[string]any)
	keys := sortedKeys(m)
	if !ok || len(keys) == 0 {
		return root, "nothing"
	}
	isRoot := sp.ref == ""
	_, isRef := m["$ref"]
	// the keywords that can be taken from the root without its references going nowhere
	movable := func() map[string]any {
		out := map[string]any{}
		for k, v := range m {
			if k != "$defs" && k != "definitions" {
				out[k] = v
			}
		}
		return out
	}
	replace := func(x map[string]any) {
		for k := range m {
			if k != "$defs" && k != "definitions" {
				delete(m, k)
			}
		}
		for k, v := range x {
			m[k] = v
		}
	}
	switch k := intIn(t, l("mut"), 0, 11); k {
	case 0: // a keyword less
		kw := keys[intIn(t, l("kw"), 0, len(keys)-1)]
		if kw == "$defs" || kw == "definitions" {
			return root, "nothing"
		}
		delete(m, kw)
		return root, "drop"
	case 1: // a number changed
		for _, kw := range keys {
			if x, ok := m[kw].(json.Number); ok && strings.HasPrefix(kw, "m") && kw != "multipleOf" {
				if f, err := x.Int64(); err == nil && f < 1000 && f > -1000 {
					f += int64(intIn(t, l("by"), -2, 2))
					if f < 0 && kw != "minimum" && kw != "maximum" {
						f = 0
					}
					m[kw] = f
				}
			}
		}
		return root, "number"
	case 2, 3: // moved into one branch of an allOf, or divided between two
		if isRef && !isRoot && k == 3 {
			return root, "nothing"
		}
		mv := movable()
		a, b := map[string]any{}, map[string]any{}
		for _, kw := range sortedKeys(mv) {
			if k == 2 || chance(t, l("side"+kw), 1, 2) {
				a[kw] = mv[kw]
			} else {
				b[kw] = mv[kw]
			}
		}
		if _, ok := mv["additionalProperties"]; ok || mv["items"] != nil || mv["if"] != nil || mv["then"] != nil || mv["contains"] != nil {
			a, b = mv, map[string]any{}
		}
		replace(map[string]any{"allOf": []any{a, b}})
		return root, "allOf"
	case 4: // an alternative besides
		kw := pick(t, l("alt"), "anyOf", "oneOf")
		mv := movable()
		replace(map[string]any{kw: []any{mv, pick(t, l("other"), S{"type": "null"}, S{"type": "integer", "minimum": -5, "maximum": 5}, S{"type": "array", "maxItems": 1}, S{"const": "other"})}})
		return root, kw
	case 5: // behind a reference
		if isRoot {
			return root, "nothing"
		}
		r, ok := root.(map[string]any)
		if !ok || r["$ref"] != nil {
			return root, "nothing"
		}
		d, ok := r["$defs"].(map[string]any)
		if !ok {
			d = map[string]any{}
			r["$defs"] = d
		}
		name := "moved" + itoa(n)
		d[name] = sp.get()
		sp.set(map[string]any{"$ref": "#/$defs/" + name})
		return root, "ref"
	case 6: // one of its properties required
		p, ok := m["properties"].(map[string]any)
		if !ok || len(p) == 0 || m["required"] != nil {
			return root, "nothing"
		}
		names := sortedKeys(p)
		m["required"] = []any{names[intIn(t, l("req"), 0, len(names)-1)]}
		return root, "required"
	case 7: // exchanged for a part of another schema
		es := corpus()
		o := decodeS(es[intIn(t, l("donor"), 0, len(es)-1)].Schema)
		os := spots(o, "", nil)
		if len(os) == 0 || isRoot {
			return root, "nothing"
		}
		part := os[intIn(t, l("part"), 0, len(os)-1)].get()
		if hasRefs(part) {
			return root, "nothing"
		}
		sp.set(part)
		return root, "graft"
	case 8: // together with a part of another schema of the same type
		es := corpus()
		o := decodeS(es[intIn(t, l("donor"), 0, len(es)-1)].Schema)
		var fits []any
		for _, x := range spots(o, "", nil) {
			if y, ok := x.get().(map[string]any); ok && mustJSON(y["type"]) == mustJSON(m["type"]) && !hasRefs(y) {
				fits = append(fits, y)
			}
		}
		if len(fits) == 0 {
			return root, "nothing"
		}
		part := fits[intIn(t, l("part"), 0, len(fits)-1)]
		mv := movable()
		replace(map[string]any{"allOf": []any{mv, part}})
		return root, "both"
	case 9: // something not to be
		if isRef || m["not"] != nil {
			return root, "nothing"
		}
		m["not"] = pick(t, l("not"), S{"const": 1}, S{"type": "null"}, S{"required": []any{"zz"}}, S{"minimum": 100}, S{"maxItems": 0}, S{"enum": []any{"a", "", true}}, S{"minProperties": 4})
		return root, "not"
	case 10: // only if
		if isRef || m["if"] != nil {
			return root, "nothing"
		}
		mv := movable()
		replace(map[string]any{"if": pick(t, l("if"), S{"type": "object"}, S{"required": []any{"a"}}, S{"minProperties": 2}, S{"type": []any{"string", "null"}}), "then": mv})
		if chance(t, l("else"), 1, 2) {
			m["else"] = S{"type": pick(t, l("elsetype"), "integer", "string", "object", "null")}
		}
		if mv["type"] != nil && chance(t, l("typed"), 1, 2) {
			m["type"] = mv["type"]
		}
		return root, "if"
	default: // a keyword more
		if isRef {
			return root, "nothing"
		}
		x := pick(t, l("more"), S{"minProperties": 2}, S{"maxProperties": 2}, S{"additionalProperties": false}, S{"additionalProperties": S{"type": "integer"}}, S{"minItems": 2}, S{"maxItems": 3}, S{"uniqueItems": true},
			S{"contains": S{"type": "string"}}, S{"minLength": 3}, S{"maxLength": 9}, S{"minimum": 3}, S{"maximum": 77}, S{"multipleOf": 2}, S{"type": "object"}, S{"type": []any{"array", "object", "string"}}, S{"required": []any{"id"}})
		for k, v := range x {
			if _, ok := m[k]; !ok {
				m[k] = v
			}
		}
		return root, "more"
	}
}

func init() {
	register("C14", mkFacet("real", "355 real schemas with up to four changes: keywords dropped, added, moved into allOf or behind references, alternatives, conditions, negations, parts of other schemas; non-trivial: values of at least two kinds were judged", 3000, 60000, 4, genReal, decideConf))
}

// rewriteCase: a schema and another that means the same.
type rewriteCase struct {
	Schema    json.RawMessage `json:"schema"`
	Rewritten json.RawMessage `json:"rewritten"`
	Seed      int64           `json:"seed"`
	N         int             `json:"n"`
	Tags      []string        `json:"tags,omitempty"`
}

// decideRewrite: what is reported for neither or both, and the values generated
// for the rewritten schema are valid for the first.
func decideRewrite(c rewriteCase) Result {
	seedGlobals(c.Seed)
	p := parseWith(c.Schema, nil)
	if !p.clean() {
		return Result{Labels: append(c.Tags, "rejected")}
	}
	orc, err := newOracle(c.Schema)
	if err != nil {
		panic(harnessError{err.Error()})
	}
	// parts nothing satisfies might be reported in one form only, cycles of merges run into
	// the depth they are unrolled to
	accept := true
	for i := 0; i < 20 && accept; i++ {
		js, err := json.Marshal(p.g.Generate(optsFor(realOpts(), c.Seed+int64(i))))
		accept = err == nil && hasGiveUp(js) == "" && orc.check(js) == ""
	}
	return decideConf(confCase{Schema: c.Rewritten, Opts: realOpts(), Oracle: c.Schema, Seed: c.Seed, N: c.N, Accept: accept, MayReport: "maximum parse depth|not for 'not/|circular reference", Markers: true, Tags: c.Tags})
}

func genRewrite(t *rapid.T) rewriteCase {
	es := corpus()
	e := es[intIn(t, "entry", 0, len(es)-1)]
	root := decodeS(e.Schema)
	for i := intIn(t, "muts", 0, 2); i > 0; i-- {
		before := copyJSON(root)
		root, _ = mutateSchema(t, root, 10+i)
		fit := fitToClaim(root) && len(raw(root)) < 20000
		if fit {
			_, err := newOracle(raw(root))
			fit = err == nil
		}
		if !fit {
			root = before
		}
	}
	c := rewriteCase{Schema: raw(root), Seed: seedOf(t), N: 4}
	for i := intIn(t, "rewrites", 1, 3); i > 0; i-- {
		tag := ""
		root, tag = rewriteSchema(t, root, i)
		c.Tags = append(c.Tags, tag)
	}
	c.Rewritten = raw(root)
	return c
}

func refsIn(v any, out map[string]bool) {
	switch x := v.(type) {
	case map[string]any:
		if r, ok := x["$ref"].(string); ok {
			out[r] = true
		}
		for _, y := range x {
			refsIn(y, out)
		}
	case []any:
		for _, y := range x {
			refsIn(y, out)
		}
	}
}

func rewriteSchema(t *rapid.T, root any, n int) (any, string) {
	l := func(s string) string { return s + itoa(n) }
	all := append([]spot{{func() any { return root }, func(x any) { root = x }, ""}}, spots(root, "", nil)...)
	sp := all[intIn(t, l("rspot"), 0, len(all)-1)]
	refs := map[string]bool{}
	refsIn(root, refs)
	for r := range refs {
		// what references lead through or to the parts of stays where it is
		if strings.HasPrefix(r, "#"+sp.ref+"/") && (sp.ref != "" || !strings.HasPrefix(r, "#/$defs/") && !strings.HasPrefix(r, "#/definitions/")) {
			return root, "nothing"
		}
	}
	v := sp.get()
	m, _ := v.(map[string]any)
	k := intIn(t, l("rewrite"), 0, 9)
	if m == nil && k < 7 || strings.Contains(sp.ref, "/not") {
		// true and false are not taken for branches, anyOf and oneOf not in a not
		return root, "nothing"
	}
	moved := func(f func(x any) map[string]any) {
		in, out := map[string]any{}, map[string]any{}
		for k, x := range m {
			if k == "$defs" || k == "definitions" {
				out[k] = x
			} else {
				in[k] = x
			}
		}
		for k, x := range f(in) {
			out[k] = x
		}
		sp.set(out)
	}
	wrap := func(kw string, more ...any) func(any) map[string]any {
		return func(x any) map[string]any { return map[string]any{kw: append([]any{x}, more...)} }
	}
	switch k {
	case 0:
		moved(wrap("allOf"))
		return root, "allOf[X]"
	case 1:
		moved(wrap("allOf", S{}))
		return root, "allOf[X,{}]"
	case 2:
		moved(wrap("anyOf"))
		return root, "anyOf[X]"
	case 3:
		moved(wrap("oneOf"))
		return root, "oneOf[X]"
	case 4:
		moved(func(x any) map[string]any { return map[string]any{"oneOf": []any{S{"allOf": []any{x}}}} })
		return root, "oneOf[allOf[X]]"
	case 5:
		moved(func(x any) map[string]any { return map[string]any{"allOf": []any{S{"anyOf": []any{x}}}} })
		return root, "allOf[anyOf[X]]"
	case 6:
		if r, ok := root.(map[string]any); ok && r["$ref"] == nil && sp.ref != "" {
			d, ok := r["$defs"].(map[string]any)
			if !ok {
				d = map[string]any{}
				r["$defs"] = d
			}
			d["m"+itoa(n)] = v
			sp.set(map[string]any{"$ref": "#/$defs/m" + itoa(n)})
			return root, "ref"
		}
	case 7:
		if s, ok := m["type"].(string); ok {
			m["type"] = []any{s}
			return root, "type list"
		}
	case 8:
		if c, ok := m["const"]; ok && m["enum"] == nil {
			delete(m, "const")
			m["enum"] = []any{c}
			return root, "enum of one"
		}
		if b, ok := v.(bool); ok && b {
			sp.set(map[string]any{})
			return root, "{} for true"
		}
	case 9:
		if m != nil && m["allOf"] == nil && m["$ref"] == nil {
			m["allOf"] = []any{S{}, S{}}
			return root, "allOf[{},{}]"
		}
	}
	return root, "nothing"
}

func init() {
	register("C14", mkFacet("rewrite", "real schemas, with up to two changes, that go-chaff takes, and the same written in another way: parts moved into an allOf, anyOf or oneOf of one branch, behind references, type lists of one, enum for const; what is taken has to be in either form, and values of the second be valid for the first; same rule", 3000, 60000, 4, genRewrite, decideRewrite))
}
