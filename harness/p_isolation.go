package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sync"

	chaff "github.com/ryanolee/go-chaff"
	crand "github.com/ryanolee/go-chaff/rand"
	"pgregory.net/rapid"
)

// isoCase: a schema (without patterns, formats and free strings, as for C20),
// generated from by two generators, only one of which has something done to it.
type isoCase struct {
	Schema json.RawMessage `json:"schema"`
	Other  json.RawMessage `json:"other,omitempty"`
	Opts   *GenOpts        `json:"opts,omitempty"`
	Noise  []GenOpts       `json:"noise,omitempty"`
	Seed   int64           `json:"seed"`
	N      int             `json:"n"`
	Tags   []string        `json:"tags,omitempty"`
}

func (c isoCase) value(p parsed, i int) any {
	seedGlobals(c.Seed + int64(i))
	return p.g.Generate(optsFor(c.Opts, c.Seed+int64(i)*7919))
}

func plainJSON(v any) string {
	js, err := json.Marshal(plainGiveUps(v))
	if err != nil {
		return err.Error()
	}
	return string(js)
}

// scramble changes every part of a value that is shared by reference.
func scramble(v any) {
	switch x := v.(type) {
	case map[string]any:
		for k, w := range x {
			scramble(w)
			if k != "" {
				x[k] = "scrambled"
			}
		}
		x["scrambled"] = []any{"scrambled"}
	case []any:
		for i, w := range x {
			scramble(w)
			x[i] = map[string]any{"scrambled": i}
		}
		_ = append(x, "scrambled")
		if cap(x) > len(x) {
			x[:cap(x)][len(x)] = "scrambled"
		}
	}
}

// parts collects what a value is made of, and says what is in it twice.
func parts(v any, seen map[uintptr]bool) string {
	switch x := v.(type) {
	case map[string]any:
		p := reflect.ValueOf(x).Pointer()
		if seen[p] {
			return plainJSON(x)
		}
		seen[p] = true
		for _, k := range sortedKeys(x) {
			if s := parts(x[k], seen); s != "" {
				return s
			}
		}
	case []any:
		if len(x) == 0 {
			return ""
		}
		p := reflect.ValueOf(x).Pointer()
		if seen[p] {
			return plainJSON(x)
		}
		seen[p] = true
		for _, w := range x {
			if s := parts(w, seen); s != "" {
				return s
			}
		}
	}
	return ""
}

func compound(v any) bool {
	switch v.(type) {
	case map[string]any, []any:
		return true
	}
	return false
}

// decideScramble: what a caller does to a value changes no other value.
func decideScramble(c isoCase) Result {
	res := Result{Labels: c.Tags, Evals: c.N}
	schema := append([]byte{}, c.Schema...)
	seedGlobals(c.Seed)
	p := parseWith(schema, nil)
	seedGlobals(c.Seed)
	q := parseWith(c.Schema, nil)
	if p.err != nil || q.err != nil {
		return res.label("rejected")
	}
	// the text of the schema is the caller's again once it is parsed
	for i := range schema {
		schema[i] = '#'
	}
	var kept []any
	var texts []string
	for i := 0; i < c.N; i++ {
		v, w := c.value(p, i), c.value(q, i)
		a, b := plainJSON(v), plainJSON(w)
		if a != b {
			return viol("value %d is %s when the values before it have been changed by the caller, and %s when they have not", i+1, clip(a, 300), clip(b, 300))
		}
		if twice := parts(w, map[uintptr]bool{}); twice != "" {
			return viol("%s is in %s twice, a change to the one is a change to the other", clip(twice, 300), clip(b, 300))
		}
		kept, texts = append(kept, w), append(texts, b)
		if compound(v) {
			res.Nontrivial = true
			scramble(v)
		}
	}
	for i, w := range kept {
		if now := plainJSON(w); now != texts[i] {
			return viol("value %d was %s when it was returned, and is %s after others were", i+1, clip(texts[i], 300), clip(now, 300))
		}
	}
	return res
}

// decideHistory: values do not depend on what was generated or parsed before.
func decideHistory(c isoCase) Result {
	res := Result{Labels: c.Tags, Evals: c.N}
	po := &chaff.ParserOptions{}
	seedGlobals(c.Seed)
	p := parseWith(c.Schema, po)
	seedGlobals(c.Seed)
	q := parseWith(c.Schema, nil)
	if p.err != nil || q.err != nil {
		return res.label("rejected")
	}
	other := parseWith(c.Other, po)
	distinct := map[string]bool{}
	for i := 0; i < c.N; i++ {
		if i < len(c.Noise) {
			p.g.Generate(optsFor(&c.Noise[i], c.Seed^int64(i)))
			p.g.GenerateWithDefaults()
			if other.err == nil {
				other.g.Generate(optsFor(&c.Noise[i], int64(i)))
			}
			parseWith(c.Schema, po)
			_ = p.g.String()
		}
		a, b := plainJSON(c.value(p, i)), plainJSON(c.value(q, i))
		distinct[a] = true
		if a != b {
			return viol("value %d is %s of a generator that was used before, and %s of one that was not", i+1, clip(a, 300), clip(b, 300))
		}
	}
	// nor do those of a schema that is parsed after others
	seedGlobals(c.Seed)
	late := parseWith(c.Schema, nil)
	if late.err != nil {
		return viol("the schema is not parsed any more after others were: %v", late.err)
	}
	for i := 0; i < c.N; i++ {
		a, b := plainJSON(c.value(late, i)), plainJSON(c.value(q, i))
		if a != b {
			return viol("value %d is %s when the schema is parsed after others, and %s when it is parsed before them", i+1, clip(a, 300), clip(b, 300))
		}
	}
	res.Nontrivial = len(distinct) > 1
	return res
}

// decideConcurrent: parsing and generating by several goroutines, each with
// options of its own, yields what it yields one after another.
func decideConcurrent(c isoCase) Result {
	res := Result{Labels: c.Tags, Evals: 4 * c.N}
	schemas := [][]byte{c.Schema, c.Other, c.Schema, c.Other}
	run := func(shared []parsed, k int) []string {
		p := parseWith(schemas[k], nil)
		if k >= 2 {
			p = shared[k]
		}
		if p.err != nil {
			return nil
		}
		r := crand.NewRandUtil(c.Seed + int64(k))
		var out []string
		for i := 0; i < c.N; i++ {
			o := optsFor(c.Opts, 0)
			o.Rand = r
			out = append(out, plainJSON(p.g.Generate(o)))
			// with a source of its own
			p.g.GenerateWithDefaults()
		}
		return out
	}
	shared := []parsed{{}, {}, parseWith(c.Schema, nil), parseWith(c.Other, nil)}
	want := make([][]string, len(schemas))
	for k := range schemas {
		want[k] = run(shared, k)
	}
	const rounds = 2
	got := make([][]string, rounds*len(schemas))
	var wg sync.WaitGroup
	panics := make([]any, len(got))
	for k := range got {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { panics[k] = recover() }()
			got[k] = run(shared, k%len(schemas))
		}()
	}
	wg.Wait()
	for k := range got {
		if panics[k] != nil {
			return viol("panic: %v", panics[k])
		}
		w := want[k%len(schemas)]
		if !reflect.DeepEqual(w, got[k]) {
			return viol("generated %s next to other goroutines, and %s without", clip(fmt.Sprint(got[k]), 300), clip(fmt.Sprint(w), 300))
		}
		res.Nontrivial = res.Nontrivial || len(w) > 1 && w[0] != w[1]
	}
	return res
}

// inputsCase: what the caller hands over.
type inputsCase struct {
	Schema json.RawMessage `json:"schema"`
	Opts   GenOpts         `json:"opts"`
	Hosts  []string        `json:"hosts"`
	Paths  []string        `json:"paths"`
	RelTo  string          `json:"rel_to"`
	HTTP   bool            `json:"http"`
	FS     bool            `json:"fs"`
	Depth  int             `json:"depth"`
	Str    *regexOpts      `json:"str,omitempty"`
	Prop   *regexOpts      `json:"prop,omitempty"`
	Seed   int64           `json:"seed"`
}

// spare is the same list with room behind it, marked.
func spare(xs []string) []string {
	out := append(make([]string, 0, len(xs)+3), xs...)
	return append(out, "marked", "marked", "marked")[:len(xs)]
}

func decideInputs(c inputsCase) Result {
	build := func() *chaff.ParserOptions {
		po := &chaff.ParserOptions{RelativeTo: c.RelTo, MaxParseDepth: c.Depth}
		po.DocumentFetchOptions.HTTPFetchOptions = chaff.HTTPFetchOptions{Enabled: c.HTTP, AllowedHosts: spare(c.Hosts)}
		po.DocumentFetchOptions.FileSystemFetchOptions = chaff.FileSystemFetchOptions{Enabled: c.FS, AllowedPaths: spare(c.Paths)}
		v := reflect.ValueOf(po).Elem()
		setRegexOpts(v.FieldByName("RegexStringOptions"), c.Str)
		setRegexOpts(v.FieldByName("RegexPatternPropertyOptions"), c.Prop)
		return po
	}
	seedGlobals(c.Seed)
	po, same := build(), build()
	schema := append([]byte{}, c.Schema...)
	whole := func(xs []string) []string { return xs[:cap(xs)][:len(xs)+3] }
	check := func(when string) string {
		switch {
		case !bytes.Equal(schema, c.Schema):
			return "the text of the schema is changed by " + when
		case !reflect.DeepEqual(po, same):
			return "the parser options are changed by " + when
		case !reflect.DeepEqual(whole(po.DocumentFetchOptions.HTTPFetchOptions.AllowedHosts), whole(same.DocumentFetchOptions.HTTPFetchOptions.AllowedHosts)),
			!reflect.DeepEqual(whole(po.DocumentFetchOptions.FileSystemFetchOptions.AllowedPaths), whole(same.DocumentFetchOptions.FileSystemFetchOptions.AllowedPaths)):
			return "memory behind a list of the parser options is changed by " + when
		}
		return ""
	}
	p := parseWith(schema, po)
	if why := check("parsing"); why != "" {
		return Result{Viol: why}
	}
	if p.err != nil {
		return Result{}.label("rejected")
	}
	o := optsFor(&c.Opts, c.Seed)
	before := *o
	p.g.Generate(o)
	p.g.Generate(o)
	if !reflect.DeepEqual(before, *o) {
		return viol("the generator options are changed by generating: %+v, were %+v", *o, before)
	}
	if why := check("generating"); why != "" {
		return Result{Viol: why}
	}
	return Result{Nontrivial: p.clean()}
}

func genIsoSchema(t *rapid.T, tags *[]string) json.RawMessage {
	obj := func(l string) any {
		return pick[any](t, l, S{"a": S{"b": []any{1, 2}}}, []any{S{"c": 1}, []any{true}}, S{}, []any{}, []any{[]any{[]any{}}}, S{"kind": "x", "v": []any{nil, S{"w": nil}}})
	}
	if chance(t, "values", 1, 2) {
		var s S
		switch intIn(t, "vals", 0, 3) {
		case 0:
			s = S{"const": obj("const")}
		case 1:
			s = S{"enum": []any{obj("e1"), S{"z": obj("e2")}, 3}}
		case 2:
			s = S{"anyOf": []any{S{"const": obj("c1")}, S{"enum": []any{S{"z": obj("c2")}, []any{obj("c3"), "only"}}}}}
		case 3:
			s = S{"allOf": []any{S{"enum": []any{obj("e1"), S{"z": obj("e2")}, 3}}, S{"enum": []any{S{"z": obj("e2b")}, obj("e1b"), 3, 4}}}}
		}
		for i := intIn(t, "wraps", 0, 2); i > 0; i-- {
			switch intIn(t, "wrap"+itoa(i), 0, 7) {
			case 0:
				s = S{"type": "array", "items": s, "minItems": 2, "maxItems": 4}
			case 1:
				s = S{"type": "object", "properties": S{"a": s, "b": s}, "required": []any{"a"}}
			case 2:
				s = S{"type": "array", "prefixItems": []any{s, s}, "minItems": 2}
			case 3:
				s = S{"type": "object", "additionalProperties": s, "minProperties": 2}
			case 4:
				s = S{"$ref": "#/$defs/d" + itoa(i), "$defs": S{"d" + itoa(i): s}}
				if i > 1 {
					s = S{"type": "object", "properties": S{"a": s["$defs"].(S)["d"+itoa(i)]}, "required": []any{"a"}}
				}
			case 5:
				s = S{"oneOf": []any{S{"type": "object", "properties": S{"k": S{"const": 1}, "v": s}, "required": []any{"k", "v"}}, S{"type": "object", "properties": S{"k": S{"const": 2}, "v": s}, "required": []any{"k"}}}}
			case 6:
				s = S{"type": "array", "contains": s, "minContains": 1, "maxItems": 3}
			case 7:
				s = S{"type": "object", "properties": S{"k": S{"type": "boolean"}}, "required": []any{"k"}, "if": S{"properties": S{"k": S{"const": true}}}, "then": S{"properties": S{"v": s}, "required": []any{"v"}}}
			}
		}
		*tags = append(*tags, "const and enum values")
		return raw(s)
	}
	d := genDet(t)
	*tags = append(*tags, d.Tags...)
	return d.Schema
}

func genIso(other bool) func(t *rapid.T) isoCase {
	return func(t *rapid.T) isoCase {
		c := isoCase{Seed: seedOf(t), N: 8}
		c.Schema = genIsoSchema(t, &c.Tags)
		if other {
			c.Other = pick(t, "other", genMixRaw, func(t *rapid.T) json.RawMessage { return genDet(t).Schema })(t)
			for i := intIn(t, "noise", 1, 4); i > 0; i-- {
				l := "noise" + itoa(i)
				c.Noise = append(c.Noise, GenOpts{MaximumGenerationSteps: intIn(t, l+"mgs", 0, 20), CutoffGenerationSteps: intIn(t, l+"cgs", 0, 30), BypassCyclicReferenceCheck: chance(t, l+"byp", 1, 2),
					MaximumReferenceDepth: intIn(t, l+"mrd", 0, 3), MaximumUniqueGeneratorAttempts: intIn(t, l+"mua", 0, 3), MaximumIfAttempts: intIn(t, l+"mia", 0, 3), MaximumOneOfAttempts: intIn(t, l+"moa", 0, 3), DefaultArrayMaxItems: intIn(t, l+"dama", 0, 3)})
			}
		}
		if chance(t, "steps", 1, 6) {
			c.Opts = &GenOpts{MaximumGenerationSteps: intIn(t, "mgs", 1, 40), CutoffGenerationSteps: intIn(t, "cgs", 40, 200)}
		}
		return c
	}
}

func genMixRaw(t *rapid.T) json.RawMessage { return genMix(t).Schema }

func genConcurrent(t *rapid.T) isoCase {
	c := isoCase{Seed: seedOf(t), N: 4}
	no := func(l string) json.RawMessage {
		js := genIsoSchema(t, &c.Tags)
		if bytes.Contains(js, []byte(`"not"`)) { // might generate free strings
			js = raw(S{"type": "array", "items": S{"enum": []any{1, S{"a": []any{}}, "x"}}, "uniqueItems": chance(t, l, 1, 2)})
		}
		return js
	}
	c.Schema, c.Other = no("u1"), no("u2")
	return c
}

func genInputs(t *rapid.T) inputsCase {
	c := inputsCase{Seed: seedOf(t), Schema: pick(t, "schema", genMixRaw, func(t *rapid.T) json.RawMessage { return genRef(false)(t).Schema })(t)}
	strs := func(l string) []string {
		out := []string{}
		for i := intIn(t, l, 0, 3); i > 0; i-- {
			out = append(out, pick(t, l+itoa(i), "example.com", "EXAMPLE.com:80", "http://example.com/a", "b.example"))
		}
		return out
	}
	c.Hosts, c.Paths = strs("hosts"), []string{"testdata", "./x/../y", "/verif-none/"}[:intIn(t, "paths", 0, 3)]
	c.RelTo = pick(t, "relto", "", "", "file:///verif-none/a.json", "http://127.0.0.1:9/a.json")
	c.HTTP, c.FS = chance(t, "http", 1, 2), chance(t, "fs", 1, 2)
	c.Depth = pick(t, "depth", 0, 3, 50)
	ro := func(l string) *regexOpts {
		if chance(t, l, 1, 2) {
			return nil
		}
		return &regexOpts{Max: uint(intIn(t, l+"max", 0, 5)), Suppress: chance(t, l+"s", 1, 2), ASCII: chance(t, l+"a", 1, 2)}
	}
	c.Str, c.Prop = ro("str"), ro("prop")
	c.Opts = GenOpts{DefaultArrayMaxItems: intIn(t, "dama", 0, 3), MaximumGenerationSteps: intIn(t, "mgs", 0, 20), CutoffGenerationSteps: intIn(t, "cgs", 0, 30), BypassCyclicReferenceCheck: chance(t, "byp", 1, 2)}
	return c
}

func init() {
	conc := mkFacet("concurrent", "eight goroutines, four that parse and generate and four that share two generators, all of them with options and sources of randomness of their own, under the race detector: values are those of one goroutine at a time; non-trivial: a goroutine's first two values differ", 300, 4000, 2, genConcurrent, decideConcurrent)
	conc.race = true
	register("C19",
		mkFacet("scramble", "schemas with values that are objects and arrays, whose values the caller changes all over once returned; eight values after one another are those of a generator whose values are left alone; non-trivial: a value that can be changed", 3000, 60000, 4, genIso(false), decideScramble),
		mkFacet("history", "generation and parsing with other options, other schemas and the same parser options in between: values are those of a fresh generator; non-trivial: two different values", 1500, 30000, 4, genIso(true), decideHistory),
		mkFacet("inputs", "schemas and every field of parser and generator options; lists with room behind them; all of it is as it was after parsing and after generating; non-trivial: parsed without errors", 1500, 30000, 4, genInputs, decideInputs),
		conc,
	)
}
