package main

import (
	"encoding/json"
	"fmt"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
	"pgregory.net/rapid"
)

// robustCase: bytes given to the parser as a schema, and generator options.
type robustCase struct {
	Text string          `json:"text,omitempty"`
	Doc  json.RawMessage `json:"doc,omitempty"`
	Opts *GenOpts        `json:"opts,omitempty"`
	Seed int64           `json:"seed"`
	N    int             `json:"n"`
	Tags []string        `json:"tags,omitempty"`
}

// decideRobust: whatever the bytes are, the parser returns, and what it returns
// generates values that can be written as JSON. Panics, endless runs and
// exhausted memory are caught around this.
func decideRobust(c robustCase) Result {
	res := Result{Labels: c.Tags}
	b := []byte(c.Text)
	if len(c.Doc) > 0 {
		b = c.Doc
	}
	seedGlobals(c.Seed)
	p := parseWith(b, &chaff.ParserOptions{})
	if p.g.Generator == nil {
		res.Viol = "no generator is returned"
		return res
	}
	if p.g.Metadata == nil && p.err == nil {
		res.Viol = "neither an error nor metadata is returned"
		return res
	}
	if !json.Valid(b) && p.err == nil {
		res.Viol = "text that is not JSON is taken for a schema"
		return res
	}
	switch {
	case p.err != nil:
		res.Labels = append(res.Labels, "error")
	case len(p.errs) > 0:
		res.Labels = append(res.Labels, "reported")
	default:
		res.Labels = append(res.Labels, "clean")
	}
	_ = fmt.Sprint(p.g)
	for i := 0; i < c.N; i++ {
		v := p.g.Generate(optsFor(c.Opts, c.Seed+int64(i)))
		if _, err := json.Marshal(v); err != nil {
			res.Viol = "generated value cannot be serialised: " + err.Error()
			return res
		}
	}
	if c.Opts == nil && c.N > 0 {
		if _, err := json.Marshal(p.g.GenerateWithDefaults()); err != nil {
			res.Viol = "generated value cannot be serialised: " + err.Error()
			return res
		}
	}
	for _, defs := range []map[string]chaff.Generator{p.g.Defs, p.g.Definitions} {
		for _, name := range sortedKeys(defs) {
			if defs[name] == nil {
				res.Viol = "no generator for a definition: " + name
				return res
			}
			o := fullOpts(c.Seed)
			o.MaximumGenerationSteps, o.CutoffGenerationSteps = 1000, 2000
			o.MaximumIfAttempts, o.MaximumOneOfAttempts = 10, 10
			if _, err := json.Marshal(defs[name].Generate(o)); err != nil {
				res.Viol = "value generated for a definition cannot be serialised: " + err.Error()
				return res
			}
		}
	}
	res.Evals = c.N
	res.Nontrivial = p.err == nil
	return res
}

type souper struct {
	t    *rapid.T
	n    int
	defs []string
	junk int // one value in junk is of no sensible kind
	refs bool
}

func (s *souper) l(x string) string { s.n++; return x + itoa(s.n) }

func (s *souper) any(d int) any {
	t := s.t
	switch intIn(t, s.l("junk"), 0, 9) {
	case 0:
		return nil
	case 1:
		return true
	case 2:
		return -1
	case 3:
		return json.Number(pick(t, s.l("num"), "1e308", "-1e308", "1e-300", "0.5", "9223372036854775808", "-0", "1e400", "123456789012345678901234567890", "30000"))
	case 4:
		return ""
	case 5:
		return pick(t, s.l("str"), "object", "(", "[a", "#", "\u0000", "a\\", "//", "%zz", "é")
	case 6:
		return []any{}
	case 7:
		return S{}
	case 8:
		if d > 0 {
			return []any{s.any(d - 1), s.any(d - 1)}
		}
		return []any{nil}
	default:
		if d > 0 {
			return S{"a": s.any(d - 1), "type": s.any(d - 1)}
		}
		return false
	}
}

func (s *souper) small() any {
	return json.Number(pick(s.t, s.l("small"), "0", "1", "2", "3", "5", "-1", "7.5", "10", "2.0", "1e1", "-3", "0.01"))
}

func (s *souper) strs() []any {
	out := []any{}
	for i := intIn(s.t, s.l("nstr"), 0, 3); i > 0; i-- {
		out = append(out, pick(s.t, s.l("st"), "a", "b", "c", "", "a/b", "~", "x-1", "additional_0"))
	}
	return out
}

func (s *souper) list(d int) []any {
	out := []any{}
	for i := intIn(s.t, s.l("nl"), 0, 3); i > 0; i-- {
		out = append(out, s.node(d-1))
	}
	return out
}

func (s *souper) mapOf(d int) S {
	out := S{}
	for i := intIn(s.t, s.l("nm"), 0, 3); i > 0; i-- {
		out[pick(s.t, s.l("mk"), "a", "b", "c", "", "a/b", "~", "%", "d 0", "allOf", "^x-[0-9]+$", "(", ".*", "additional_0")] = s.node(d - 1)
	}
	return out
}

var soupKeywords = []string{"type", "properties", "additionalProperties", "patternProperties", "minProperties", "maxProperties", "required",
	"pattern", "format", "minLength", "maxLength", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf",
	"items", "minItems", "maxItems", "contains", "minContains", "maxContains", "prefixItems", "additionalItems", "unevaluatedItems", "uniqueItems",
	"enum", "const", "not", "allOf", "anyOf", "oneOf", "$ref", "$id", "$defs", "definitions", "if", "then", "else", "dependentRequired", "dependentSchemas",
	"length", "$schema", "$comment", "propertyNames", "$anchor", "default", "unevaluatedProperties"}

func (s *souper) node(d int) any {
	t := s.t
	if s.junk > 0 && chance(t, s.l("boolnode"), 1, 4*s.junk) {
		return chance(t, s.l("b"), 1, 2)
	}
	out := S{}
	if d < 0 {
		if chance(t, s.l("leaf"), 1, 2) {
			out["type"] = rapid.SampledFrom(allTypes).Draw(t, s.l("lt"))
		}
		return out
	}
	for i := intIn(t, s.l("nk"), 0, 5); i > 0; i-- {
		kw := rapid.SampledFrom(soupKeywords).Draw(t, s.l("kw"))
		out[kw] = s.value(kw, d)
	}
	return out
}

func (s *souper) value(kw string, d int) any {
	t := s.t
	if s.junk > 0 && chance(t, s.l("isjunk"), 1, s.junk) {
		return s.any(2)
	}
	switch kw {
	case "type":
		if chance(t, s.l("many"), 1, 3) {
			out := []any{}
			for i := intIn(t, s.l("nt"), 0, 3); i > 0; i-- {
				out = append(out, rapid.SampledFrom(allTypes).Draw(t, s.l("ty")))
			}
			return out
		}
		return rapid.SampledFrom(append([]string{"any", "unknown"}, allTypes...)).Draw(t, s.l("ty1"))
	case "properties", "patternProperties", "$defs", "definitions", "dependentSchemas":
		return s.mapOf(d)
	case "additionalProperties", "items", "contains", "additionalItems", "unevaluatedItems", "not", "if", "then", "else", "propertyNames", "unevaluatedProperties":
		if kw == "items" && chance(t, s.l("tuple"), 1, 4) {
			return s.list(d)
		}
		if chance(t, s.l("bool"), 1, 5) {
			return chance(t, s.l("bv"), 1, 2)
		}
		return s.node(d - 1)
	case "prefixItems", "allOf", "anyOf", "oneOf":
		return s.list(d)
	case "minProperties", "maxProperties", "minLength", "maxLength", "minItems", "maxItems", "minContains", "maxContains", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "length":
		return s.small()
	case "required":
		return s.strs()
	case "pattern":
		return pick(t, s.l("pat"), "^a+$", "(", "", ".*", "a{3,}", "[a-c]{2}", "\\p{L}+", "(?=a)", "[", "^\\S+$", "a|", "()", "a{1000}", "\\d{2,}$", "$^", "[^\\s\\S]")
	case "format":
		return pick(t, s.l("fmt"), "date", "email", "regex", "uri-template", "json-pointer", "relative-json-pointer", "nonsense", "", "ipv6", "uint32")
	case "uniqueItems":
		return chance(t, s.l("u"), 2, 3)
	case "enum":
		out := []any{}
		for i := intIn(t, s.l("ne"), 0, 3); i > 0; i-- {
			out = append(out, genJSONValue(t, 1))
		}
		return out
	case "const", "default":
		return genJSONValue(t, 2)
	case "$ref":
		if !s.refs {
			return pick(t, s.l("badref"), "#/nowhere", "#/$defs/none", "nope.json", "#/", "", "https://example.invalid/x.json", "file:///nonexistent/x.json", "#anchor", "%zz", "#/%zz", "urn:uuid:1", "//", "#/type", "#/required/0", "ftp://h/x")
		}
		return pick(t, s.l("ref"), "#", "#/", "#/$defs/a", "#/$defs/b", "#/definitions/a", "#/definitions/c", "#/properties/a", "#/properties/b/properties/a", "#/items", "#/items/0", "#/prefixItems/0", "#/anyOf/0", "#/oneOf/1", "#/allOf/0", "#/not", "#/if", "#/then", "#/else", "#/additionalProperties", "#/contains", "#/properties/a~1b", "#/patternProperties/.*", "root.json", "https://example.com/root.json#/$defs/a", "#/nowhere")
	case "$id":
		return pick(t, s.l("id"), "root.json", "https://example.com/root.json", "#x", "urn:x:y", "%zz", "", "/a/b", "file:///etc/passwd")
	case "dependentRequired":
		return S{"a": s.strs()}
	case "$schema":
		return pick(t, s.l("schema"), "https://json-schema.org/draft/2020-12/schema", "http://json-schema.org/draft-07/schema#", "http://json-schema.org/draft-04/schema", "nonsense")
	}
	return "x"
}

func genSoup(junk int, refs bool) func(t *rapid.T) robustCase {
	return func(t *rapid.T) robustCase {
		s := &souper{t: t, junk: junk, refs: refs}
		d := intIn(t, "depth", 0, 3)
		n := s.node(d)
		if m, ok := n.(S); ok && refs {
			if chance(t, "rootdefs", 3, 4) {
				m["$defs"] = s.mapOf(d)
			}
			if chance(t, "rootprops", 1, 2) {
				m["properties"] = s.mapOf(d)
			}
		}
		c := robustCase{Doc: raw(n), Seed: seedOf(t), N: 3}
		c.Opts = robustOpts(t)
		return c
	}
}

func robustOpts(t *rapid.T) *GenOpts {
	if chance(t, "defaults", 1, 2) {
		return nil
	}
	small := func(l string) int { return pick(t, l, 0, 0, 1, 2, 5, 40) }
	return &GenOpts{
		DefaultArrayMinItems: small("ami"), DefaultArrayMaxItems: small("ama"),
		DefaultObjectMinProperties: small("omi"), DefaultObjectMaxProperties: small("oma"),
		DefaultStringMinLength: small("smi"), DefaultStringMaxLength: small("sma"),
		DefaultNumberMinimum: small("nmi"), DefaultNumberMaximum: small("nma"),
		MaximumReferenceDepth:      small("mrd"),
		BypassCyclicReferenceCheck: chance(t, "bypass", 1, 3),
		SuppressFallbackValues:     chance(t, "suppress", 1, 2),
		MaximumIfAttempts:          small("mia"), MaximumOneOfAttempts: small("moa"), MaximumUniqueGeneratorAttempts: small("mua"),
		MaximumGenerationSteps: small("mgs"), CutoffGenerationSteps: small("cgs"),
	}
}

// genBytes: text that is hardly JSON: schemas cut off, with bytes replaced, repeated or inserted.
func genBytes(t *rapid.T) robustCase {
	var b []byte
	if chance(t, "raw", 1, 4) {
		b = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes")
	} else {
		s := &souper{t: t, junk: 6, refs: true}
		b = append([]byte{}, raw(s.node(2))...)
		for i := intIn(t, "muts", 0, 4); i > 0 && len(b) > 0; i-- {
			at := intIn(t, s.l("at"), 0, len(b)-1)
			switch intIn(t, s.l("mut"), 0, 4) {
			case 0:
				b = b[:at]
			case 1:
				b[at] = pick(t, s.l("byte"), byte('{'), '}', '[', ']', '"', ',', ':', '\\', 0, 0xff, '9', '-')
			case 2:
				b = append(b[:at:at], b[at+1:]...)
			case 3:
				to := intIn(t, s.l("to"), at, len(b))
				b = append(append(append([]byte{}, b[:to]...), b[at:to]...), b[to:]...)
			default:
				b = append(append(append([]byte{}, b[:at]...), []byte(pick(t, s.l("ins"), "null", "{}", "[]", `"a":`, " ", "1e9", `\u0000`))...), b[at:]...)
			}
		}
	}
	return robustCase{Text: string(b), Seed: seedOf(t), N: 2}
}

// genDeep: nesting and repetition far past what a schema has.
func genDeep(t *rapid.T) robustCase {
	n := pick(t, "deep", 50, 90, 101, 150, 400, 1500)
	open, close := "", ""
	switch intIn(t, "deepkind", 0, 6) {
	case 0:
		open, close = `{"items":`, `}`
	case 1:
		open, close = `{"properties":{"a":`, `}}`
	case 2:
		open, close = `{"allOf":[`, `]}`
	case 3:
		open, close = `{"anyOf":[{"type":"null"},`, `]}`
	case 4:
		open, close = `{"not":`, `}`
	case 5:
		open, close = `{"if":{"type":"integer"},"then":`, `}`
		n = min(n, 150) // compiled once per level and position: the cost is cubic
	default:
		open, close = `{"additionalProperties":`, `}`
	}
	txt := strings.Repeat(open, n) + `{"type":"string"}` + strings.Repeat(close, n)
	return robustCase{Text: txt, Seed: seedOf(t), N: 1, Tags: []string{"deep"}}
}

func init() {
	register("C15",
		mkFacet("soup", "schemas of any keywords with values of the right kind, up to four levels, without references that resolve; non-trivial: no error is returned", 4000, 120000, 4, genSoup(0, false), decideRobust),
		mkFacet("junk", "the same with one value in five replaced by a value of another kind; same rule", 3000, 80000, 3, genSoup(5, false), decideRobust),
		mkFacet("refs", "the same as soup with references to and around every part of the schema, cyclic ones included; same rule", 3000, 80000, 3, genSoup(0, true), decideRobust),
		mkFacet("bytes", "arbitrary bytes, and schemas with bytes cut off, replaced, inserted or repeated; same rule", 3000, 80000, 2, genBytes, decideRobust),
		mkFacet("deep", "one keyword nested 50 to 1500 times; same rule", 60, 300, 2, genDeep, decideRobust),
	)
}

// genCycles: definitions that refer to each other from every position. Merging
// unrolls cycles up to the maximum parse depth, so that schemas that branch out at
// every turn of a merged cycle need memory exponential in it (a listed finding):
// either there is no merging, or each definition goes on in one place only.
func genCycles(t *rapid.T) robustCase {
	n := intIn(t, "ndefs", 1, 4)
	merging := chance(t, "merging", 1, 2)
	k := 0
	l := func(x string) string { k++; return x + itoa(k) }
	var node func(d int) S
	ref := func() S {
		if chance(t, l("self"), 1, 8) {
			return S{"$ref": "#"}
		}
		return S{"$ref": "#/$defs/d" + itoa(intIn(t, l("to"), 0, n-1))}
	}
	node = func(d int) S {
		if d <= 0 || chance(t, l("isref"), 2, 5) {
			return ref()
		}
		sub := func() S { return node(d - 1) }
		leaf := func() S {
			return pick(t, l("leaf"), S{}, S{"type": "object"}, S{"type": []any{"object", "array", "null"}}, S{"minProperties": 1}, S{"properties": S{"a": S{"type": "integer"}}, "required": []any{"a"}})
		}
		subs := func(n int) []S {
			out := []S{}
			at := intIn(t, l("at"), 0, n-1)
			for i := 0; i < n; i++ {
				if i == at || !merging {
					out = append(out, sub())
				} else {
					out = append(out, leaf())
				}
			}
			return out
		}
		top := 8
		if merging {
			top = 12
		}
		switch intIn(t, l("shape"), 0, top) {
		case 0, 1:
			x := subs(2)
			return S{"type": "object", "properties": S{"a": x[0], "b": x[1]}, "required": pick(t, l("req"), []any{}, []any{"a"}, []any{"a", "b"})}
		case 2:
			return S{"type": "array", "items": sub(), "maxItems": 2}
		case 3:
			return S{"oneOf": []any{S{"type": "integer"}, sub()}}
		case 4:
			x := subs(2)
			return S{"anyOf": []any{S{"type": "null"}, x[0], x[1]}}
		case 5:
			return S{"type": []any{"string", "object"}, "properties": S{"b": sub()}}
		case 6:
			x := subs(2)
			return S{"type": "array", "prefixItems": []any{x[0], x[1]}}
		case 7:
			return S{"additionalProperties": sub(), "minProperties": intIn(t, l("mp"), 0, 2)}
		case 8:
			return S{"type": "integer"}
		case 9:
			return S{"not": sub(), "type": "string"}
		case 10:
			x := subs(3)
			return S{"type": "object", "if": x[0], "then": x[1], "else": x[2]}
		case 11:
			x := subs(2)
			return S{"allOf": []any{x[0], x[1]}}
		default:
			x := subs(2)
			return S{"prefixItems": []any{x[0]}, "contains": x[1]}
		}
	}
	defs := S{}
	for i := 0; i < n; i++ {
		defs["d"+itoa(i)] = node(2)
	}
	root := node(2)
	root["$defs"] = defs
	c := robustCase{Doc: raw(root), Seed: seedOf(t), N: 2, Tags: []string{"cycles"}}
	if merging {
		c.Tags = append(c.Tags, "merging")
	}
	c.Opts = robustOpts(t)
	return c
}

func init() {
	register("C15",
		mkFacet("cycles", "one to four definitions that refer to each other and themselves from properties, items, allOf, anyOf, oneOf, not, if, contains; non-trivial: no error is returned", 2000, 40000, 4, genCycles, decideRobust),
	)
}

// genWide: one keyword with far more parts than a schema has.
func genWide(t *rapid.T) robustCase {
	n := pick(t, "wide", 9, 11, 12, 30, 60, 150, 300)
	leaf := func(i int) S {
		switch intIn(t, "leaf"+itoa(i%8), 0, 6) {
		case 0:
			return S{"type": "integer", "minimum": i}
		case 1:
			return S{"const": i}
		case 2:
			return S{"type": "string", "maxLength": i}
		case 3:
			return S{"type": "object", "properties": S{"k" + itoa(i): S{"type": "null"}}, "required": []any{"k" + itoa(i)}}
		case 4:
			return S{"enum": []any{i, itoa(i), nil}}
		case 5:
			return S{}
		default:
			return S{"type": "boolean"}
		}
	}
	list := func(n int) []any {
		out := []any{}
		for i := range n {
			out = append(out, leaf(i))
		}
		return out
	}
	maps := func(n int) S {
		out := S{}
		for i := range n {
			out["k"+itoa(i)] = leaf(i)
		}
		return out
	}
	names := func(n int) []any {
		out := []any{}
		for i := range n {
			out = append(out, "k"+itoa(i))
		}
		return out
	}
	s := S{}
	kind := pick(t, "what", "properties", "required", "patternProperties", "prefixItems", "items", "allOf", "anyOf", "oneOf", "enum", "type", "not", "$defs", "chain", "minItems", "minProperties", "minLength", "ifs")
	switch kind {
	case "properties":
		s[kind] = maps(n)
		if chance(t, "req", 1, 2) {
			s["required"] = names(intIn(t, "nreq", 0, n))
		}
		if chance(t, "maxp", 1, 3) {
			s["maxProperties"] = intIn(t, "nmaxp", 0, n+2)
		}
		if chance(t, "minp", 1, 3) {
			s["minProperties"] = intIn(t, "nminp", 0, n+2)
		}
	case "required":
		s[kind] = names(n)
		if chance(t, "maxp", 1, 3) {
			s["maxProperties"] = intIn(t, "nmaxp", 0, n+2)
		}
	case "patternProperties":
		m := S{}
		for i := range min(n, 60) {
			m["^k"+itoa(i)+"-[a-z]$"] = leaf(i)
		}
		s[kind] = m
		s["minProperties"] = intIn(t, "nminp", 0, 20)
	case "prefixItems", "items":
		s[kind] = list(n)
		if chance(t, "more", 1, 2) {
			s[map[string]string{"prefixItems": "items", "items": "additionalItems"}[kind]] = pick[any](t, "further", false, true, S{"const": 2}, S{"type": "boolean"})
		}
		if chance(t, "min", 1, 2) {
			s["minItems"] = intIn(t, "nmin", 0, n+5)
		}
		if chance(t, "max", 1, 2) {
			s["maxItems"] = intIn(t, "nmax", 0, n+5)
		}
		if chance(t, "contains", 1, 4) {
			s["contains"] = leaf(1)
			s["minContains"] = intIn(t, "ncontains", 0, n)
		}
		if chance(t, "unique", 1, 5) {
			s["uniqueItems"] = true
		}
	case "allOf":
		s[kind] = list(min(n, 60))
	case "anyOf", "oneOf":
		s[kind] = list(min(n, 150))
	case "enum":
		var xs []any
		for i := range n {
			xs = append(xs, pick[any](t, "e"+itoa(i%8), i, itoa(i), []any{i}, S{"k": i}))
		}
		s[kind] = xs
		if chance(t, "enumtyped", 1, 2) {
			s["type"] = pick[any](t, "enumtype", "integer", "string", []any{"array", "object"})
		}
	case "type":
		var xs []any
		for i := range n {
			xs = append(xs, allTypes[i%len(allTypes)])
		}
		s[kind] = xs
	case "not":
		s["type"] = pick(t, "nottype", "integer", "string", "object", "array")
		s[kind] = S{"anyOf": list(min(n, 60))}
	case "$defs":
		s[kind] = maps(n)
		s["$ref"] = "#/$defs/k" + itoa(intIn(t, "which", 0, n-1))
	case "chain":
		m := S{}
		over := pick(t, "over", "$ref", "allOf", "anyOf", "properties")
		k := min(n, 60)
		for i := range k {
			next := S{"$ref": "#/$defs/k" + itoa(i+1)}
			switch over {
			case "allOf", "anyOf":
				next = S{over: []any{next, S{}}}
			case "properties":
				next = S{"type": "object", "properties": S{"a": next}, "required": []any{"a"}}
			}
			m["k"+itoa(i)] = next
		}
		m["k"+itoa(k)] = leaf(0)
		s["$defs"], s["$ref"] = m, "#/$defs/k0"
	case "minItems":
		s[kind], s["items"] = n, leaf(1)
	case "minProperties":
		s[kind] = n
		if chance(t, "addl", 1, 2) {
			s["additionalProperties"] = leaf(1)
		}
	case "minLength":
		s[kind] = n * 10
	case "ifs":
		var xs []any
		for i := range min(n, 12) {
			xs = append(xs, S{"if": S{"properties": S{"k": S{"const": i}}}, "then": S{"properties": S{"v": leaf(i)}}})
		}
		s["type"], s["allOf"], s["properties"], s["required"] = "object", xs, S{"k": S{"enum": []any{0, 1, 2, 30}}}, []any{"k"}
	}
	c := robustCase{Doc: raw(s), Seed: seedOf(t), N: 2, Tags: []string{"wide " + kind}}
	c.Opts = robustOpts(t)
	return c
}

func init() {
	register("C15",
		mkFacet("wide", "one keyword with 9 to 300 members, or chains of up to 60 references, within other limits; same rule", 600, 15000, 4, genWide, decideRobust),
	)
}
