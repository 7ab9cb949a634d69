package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"unicode/utf8"

	chaff "github.com/ryanolee/go-chaff"
	"pgregory.net/rapid"
)

// sizeCase: an array or object schema with or without bounds of its own, and defaults from the options.
type sizeCase struct {
	Object   bool `json:"object,omitempty"`
	Min      *int `json:"min,omitempty"`
	Max      *int `json:"max,omitempty"`
	Required int  `json:"required,omitempty"`
	Optional int  `json:"optional,omitempty"`
	Extra    int  `json:"extra,omitempty"` // additionalProperties: 0 absent, 1 a schema, 2 false
	DefMin   int  `json:"def_min"`
	DefMax   int  `json:"def_max"`
	Seed     int64
	N        int
}

func orDefault(a, b int) int {
	if a == 0 {
		return b
	}
	return a
}

func decideSize(c sizeCase) Result {
	var res Result
	s := S{"type": "array", "items": S{"type": "integer"}}
	kw := "Items"
	if c.Object {
		kw = "Properties"
		props, req := S{}, []any{}
		for i := 0; i < c.Required+c.Optional; i++ {
			props["p"+itoa(i)] = S{"type": "integer"}
			if i < c.Required {
				req = append(req, "p"+itoa(i))
			}
		}
		s = S{"type": "object", "properties": props, "required": req}
		switch c.Extra {
		case 1:
			s["additionalProperties"] = S{"type": "boolean"}
		case 2:
			s["additionalProperties"] = false
		}
	}
	o := &GenOpts{MaximumGenerationSteps: 1 << 31, CutoffGenerationSteps: 1 << 32}
	defMin, defMax := c.DefMin, orDefault(c.DefMax, 10)
	if c.Object {
		o.DefaultObjectMinProperties, o.DefaultObjectMaxProperties = c.DefMin, c.DefMax
	} else {
		o.DefaultArrayMinItems, o.DefaultArrayMaxItems = c.DefMin, c.DefMax
	}
	lo, hi := defMin, defMax
	if c.Min != nil {
		s["min"+kw] = *c.Min
		lo = orDefault(*c.Min, defMin)
	}
	switch {
	case c.Max != nil:
		s["max"+kw] = *c.Max
		hi = *c.Max
		lo = min(lo, hi)
	case c.Object && hi < lo || !c.Object:
		// a maximum that is a default makes way for the minimum, by that much
		hi += lo
	}
	exact := true
	if c.Object {
		lo, hi = max(lo, c.Required), max(hi, c.Required)
		switch c.Extra {
		case 0: // values not asked for are suppressed, those to make up a minimum are not
			hi = max(lo, min(hi, c.Required+c.Optional))
		case 2:
			lo = min(lo, c.Required+c.Optional)
			hi = min(hi, c.Required+c.Optional)
		}
	}
	js := raw(s)
	orc, err := newOracle(js)
	if err != nil {
		panic(harnessError{err.Error()})
	}
	seedGlobals(c.Seed)
	p := parseWith(js, nil)
	if !p.clean() {
		return viol("satisfiable schema is reported as unusable: %s", p.why())
	}
	seen := map[int]bool{}
	for i := 0; i < c.N; i++ {
		js, err := json.Marshal(p.g.Generate(optsFor(o, c.Seed+int64(i)*7919)))
		if err != nil {
			return viol("generated value cannot be serialised: %v", err)
		}
		if why := orc.check(js); why != "" {
			return viol("generated %s: %s", clip(string(js), 300), clip(why, 300))
		}
		var v any
		json.Unmarshal(js, &v)
		n := reflect.ValueOf(v).Len()
		seen[n] = true
		if n < lo || n > hi {
			return viol("generated %d of them, %d to %d are to be expected of the schema and the options: %s", n, lo, hi, clip(string(js), 300))
		}
	}
	res.Evals = c.N
	if exact && hi-lo < 12 {
		for _, n := range []int{lo, hi} {
			if !seen[n] {
				return viol("none of %d values has %d of them, %d to %d are to be expected of the schema and the options", c.N, n, lo, hi)
			}
		}
		res = res.label("both ends reached")
	}
	res.Nontrivial = hi > lo
	return res
}

func genSize(t *rapid.T) sizeCase {
	c := sizeCase{Object: chance(t, "object", 1, 2), Seed: seedOf(t), N: 400}
	c.DefMin = intIn(t, "defmin", 0, 4)
	c.DefMax = intIn(t, "defmax", 0, 5)
	if chance(t, "hasmin", 1, 3) {
		m := intIn(t, "min", 0, 4)
		c.Min = &m
	}
	if chance(t, "hasmax", 1, 3) {
		m := intIn(t, "max", 0, 6)
		c.Max = &m
		if c.Min != nil && *c.Min > m {
			c.Min = &m
		}
	}
	if c.Object {
		c.Extra = intIn(t, "extra", 0, 2)
		c.Required = intIn(t, "required", 0, 3)
		c.Optional = intIn(t, "optional", 0, 4)
		if c.Max != nil {
			c.Required = min(c.Required, *c.Max)
		}
		if c.Extra == 2 && c.Min != nil {
			c.Optional = max(c.Optional, *c.Min-c.Required)
		}
	}
	return c
}

// regexCase: options for the strings of patterns, and for the names of patternProperties.
type regexCase struct {
	Str  *regexOpts `json:"str,omitempty"`
	Prop *regexOpts `json:"prop,omitempty"`
	Tail string     `json:"tail,omitempty"` // a pattern that has neither x nor y
	Seed int64      `json:"seed"`
	N    int        `json:"n"`
}

type regexOpts struct {
	Min      uint `json:"min,omitempty"`
	Max      uint `json:"max,omitempty"`
	Suppress bool `json:"suppress,omitempty"`
	ASCII    bool `json:"ascii,omitempty"`
}

// The type of the options is internal to go-chaff, its fields are not.
func setRegexOpts(field reflect.Value, o *regexOpts) {
	if o == nil {
		return
	}
	p := reflect.New(field.Type().Elem())
	e := p.Elem()
	e.FieldByName("MinUnboundedRepeatCount").SetUint(uint64(o.Min))
	e.FieldByName("MaxUnboundedRepeatCount").SetUint(uint64(o.Max))
	e.FieldByName("SuppressRandomBytes").SetBool(o.Suppress)
	e.FieldByName("LimitToAscii").SetBool(o.ASCII)
	f := e.FieldByName("Flags")
	f.Set(reflect.ValueOf(regexFlags).Convert(f.Type()))
	field.Set(p)
}

// (syntax.PerlX, as go-chaff sets by default)
const regexFlags = uint16(64)

func decideRegexOpts(c regexCase) Result {
	var res Result
	po := &chaff.ParserOptions{}
	v := reflect.ValueOf(po).Elem()
	setRegexOpts(v.FieldByName("RegexStringOptions"), c.Str)
	setRegexOpts(v.FieldByName("RegexPatternPropertyOptions"), c.Prop)
	pat := "^x*" + c.Tail + "y+$"
	js := raw(S{"type": "object", "properties": S{"s": S{"type": "string", "pattern": pat}}, "required": []any{"s"},
		"patternProperties": S{pat: S{"type": "integer"}}, "additionalProperties": false, "minProperties": 2, "maxProperties": 3})
	orc, err := newOracle(js)
	if err != nil {
		panic(harnessError{err.Error()})
	}
	seedGlobals(c.Seed)
	p := parseWith(js, po)
	if !p.clean() {
		return viol("satisfiable schema is reported as unusable: %s", p.why())
	}
	lens := map[int]bool{}
	for i := 0; i < c.N; i++ {
		val := p.g.Generate(optsFor(nil, c.Seed+int64(i)))
		js, err := json.Marshal(val)
		if err != nil {
			return viol("generated value cannot be serialised: %v", err)
		}
		obj, ok := val.(map[string]any)
		if !ok {
			return viol("generated %s", js)
		}
		for name, w := range obj {
			text, o, what := name, c.Prop, "property name"
			if name == "s" {
				text, o, what = fmt.Sprint(w), c.Str, "string"
			}
			if o == nil {
				o = &regexOpts{Max: 10, Suppress: true}
			}
			if !regexp.MustCompile(pat).MatchString(text) {
				return viol("generated %s %q, which %q does not match", what, clip(text, 200), pat)
			}
			x := len(text) - len(strings.TrimLeft(text, "x"))
			y := len(text) - len(strings.TrimRight(text, "y"))
			lens[x] = true
			// the minimum is for *
			if x < int(o.Min) || x > int(orMax(o.Max)) || y > max(1, int(orMax(o.Max))) {
				return viol("%s %q repeats x %d times and y %d times, the options ask for %d to %d", what, clip(text, 200), x, y, o.Min, o.Max)
			}
			mid := strings.TrimRight(strings.TrimLeft(text, "x"), "y")
			for _, r := range mid {
				word := r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'
				if c.Tail == "-.-" && o.Suppress && !word && r != '-' {
					return viol("%s %q has a random character, which the options suppress", what, clip(text, 200))
				}
				if c.Tail == "-.-" && o.ASCII && r > 127 {
					return viol("%s %q has a character that is not ASCII, which the options ask for", what, clip(text, 200))
				}
			}
			if !utf8.ValidString(text) {
				return viol("%s %q is not valid UTF-8", what, clip(text, 200))
			}
		}
		if orcWhy := orc.check(js); orcWhy != "" {
			return viol("generated %s: %s", clip(string(js), 300), clip(orcWhy, 300))
		}
	}
	res.Evals = c.N
	res.Nontrivial = len(lens) > 1
	return res
}

func orMax(m uint) uint {
	if m == 0 {
		return 4096
	}
	return m
}

func genRegexOpts(t *rapid.T) regexCase {
	opts := func(l string) *regexOpts {
		if chance(t, l+"nil", 1, 4) {
			return nil
		}
		o := &regexOpts{Max: uint(intIn(t, l+"max", 1, 14)), Suppress: chance(t, l+"suppress", 1, 2), ASCII: chance(t, l+"ascii", 1, 2)}
		o.Min = uint(intIn(t, l+"min", 0, int(o.Max)))
		return o
	}
	return regexCase{Str: opts("s"), Prop: opts("p"), Tail: pick(t, "tail", "-", "-.-", "-[^a-f]-", "-[a-c]+-"), Seed: seedOf(t), N: 12}
}

// attemptsCase: schemas nothing satisfies, whose give-up texts say how often it was tried.
type attemptsCase struct {
	Kind     string `json:"kind"`
	Attempts int    `json:"attempts"`
	Seed     int64  `json:"seed"`
}

func decideAttempts(c attemptsCase) Result {
	n := orDefault(c.Attempts, 100)
	o := &GenOpts{MaximumGenerationSteps: 1 << 31, CutoffGenerationSteps: 1 << 32}
	var s S
	want := fmt.Sprintf("after %d attempts", n)
	switch c.Kind {
	case "oneOf":
		o.MaximumOneOfAttempts = c.Attempts
		s = S{"oneOf": []any{S{"enum": []any{1, 2}}, S{"enum": []any{2, 1}}}}
	case "unique":
		o.MaximumUniqueGeneratorAttempts = c.Attempts
		s = S{"type": "array", "items": S{"enum": []any{1, 2}}, "uniqueItems": true, "minItems": 3, "maxItems": 3}
	}
	switch c.Kind {
	case "not":
		o.MaximumUniqueGeneratorAttempts = c.Attempts
		s = S{"type": "boolean", "not": S{"enum": []any{true, false}}}
	case "if":
		o.MaximumIfAttempts = c.Attempts
		s = S{"type": "boolean", "if": S{"enum": []any{true, false}}, "then": S{"not": S{"enum": []any{true, false}}}}
	case "ifs":
		o.MaximumIfAttempts = c.Attempts
		o.MaximumUniqueGeneratorAttempts = 1
		b := S{"if": S{"enum": []any{true, false}}, "then": S{"not": S{"enum": []any{true, false}}}}
		s = S{"type": "boolean", "allOf": []any{b, clone(b)}}
	}
	seedGlobals(c.Seed)
	p := parseWith(raw(s), nil)
	if !p.clean() {
		return Result{}.label("rejected " + c.Kind)
	}
	js, err := json.Marshal(p.g.Generate(optsFor(o, c.Seed)))
	if err != nil {
		return viol("generated value cannot be serialised: %v", err)
	}
	if m := hasGiveUp(js); m == "" {
		return viol("generated %s for a schema nothing satisfies", clip(string(js), 300))
	}
	if !strings.Contains(string(js), want) {
		return viol("%d attempts are asked for, the value says %s", n, clip(string(js), 300))
	}
	return Result{Nontrivial: true}.label(c.Kind)
}

// depthCase: schemas nested Depth deep, and MaxParseDepth.
type depthCase struct {
	Kinds []string `json:"kinds"`
	Limit int      `json:"limit"`
	Seed  int64    `json:"seed"`
}

func decideDepth(c depthCase) Result {
	s := S{"type": "integer"}
	for _, k := range c.Kinds {
		switch k {
		case "items":
			s = S{"type": "array", "items": s, "minItems": 1}
		case "prefix":
			s = S{"type": "array", "prefixItems": []any{s}}
		case "props":
			s = S{"type": "object", "properties": S{"a": s}, "required": []any{"a"}}
		case "addl":
			s = S{"type": "object", "additionalProperties": s, "minProperties": 1}
		case "pattern":
			s = S{"type": "object", "patternProperties": S{"^a$": s}, "minProperties": 1}
		}
	}
	limit := orDefault(c.Limit, 100)
	depth := len(c.Kinds) + 1
	p := parseWith(raw(s), &chaff.ParserOptions{MaxParseDepth: c.Limit})
	switch {
	case depth <= limit && !p.clean():
		return viol("%d levels are reported, %d are allowed: %s", depth, limit, p.why())
	case depth > limit && p.clean():
		return viol("%d levels are not reported, %d are allowed", depth, limit)
	}
	seedGlobals(c.Seed)
	if _, err := json.Marshal(p.g.Generate(optsFor(nil, c.Seed))); err != nil {
		return viol("generated value cannot be serialised: %v", err)
	}
	return Result{Nontrivial: depth >= limit-1}
}

func genDepthLimit(t *rapid.T) depthCase {
	c := depthCase{Limit: pick(t, "limit", 0, 1, 2, 5, 20, 99, 150), Seed: seedOf(t)}
	n := max(0, orDefault(c.Limit, 100)+intIn(t, "off", -3, 2)-1)
	one := chance(t, "one", 1, 3)
	k := pick(t, "kind", "items", "prefix", "props", "addl", "pattern")
	for i := 0; i < n; i++ {
		if !one {
			k = pick(t, "kind"+itoa(i), "items", "prefix", "props", "addl", "pattern")
		}
		c.Kinds = append(c.Kinds, k)
	}
	return c
}

// genMixOpts: compositions of keywords with any options for sizes.
func genMixOpts(t *rapid.T) confCase {
	c := genMix(t)
	small := func(l string) int { return pick(t, l, 0, 0, 1, 2, 5, 12) }
	c.Opts = &GenOpts{
		DefaultArrayMinItems: small("ami"), DefaultArrayMaxItems: small("ama"),
		DefaultObjectMinProperties: small("omi"), DefaultObjectMaxProperties: small("oma"),
		DefaultStringMinLength: small("smi"), DefaultStringMaxLength: small("sma"),
		DefaultNumberMinimum: small("nmi"), DefaultNumberMaximum: small("nma"),
		SuppressFallbackValues: chance(t, "suppress", 1, 2),
		MaximumGenerationSteps: pick(t, "mgs", 0, 5, 1<<31), CutoffGenerationSteps: 1 << 32,
	}
	c.SomeOK = false
	c.Markers = true
	return c
}

// scalarCase: numbers and strings without bounds and the defaults of the options for them.
type scalarCase struct {
	Type string `json:"type"`
	Min  int    `json:"min"`
	Max  int    `json:"max"`
	Seed int64  `json:"seed"`
}

func decideScalar(c scalarCase) Result {
	seedGlobals(c.Seed)
	p := parseWith(raw(S{"type": c.Type}), nil)
	o := &GenOpts{DefaultNumberMinimum: c.Min, DefaultNumberMaximum: c.Max, DefaultStringMinLength: c.Min, DefaultStringMaxLength: c.Max}
	var n float64
	switch x := p.g.Generate(optsFor(o, c.Seed)).(type) {
	case string:
		n = float64(utf8.RuneCountInString(x))
	case int:
		n = float64(x)
	case float64:
		n = x
	}
	if n < float64(c.Min) || n > float64(c.Max) {
		return viol("generated %v, the options ask for %d to %d", n, c.Min, c.Max)
	}
	return Result{Nontrivial: true}
}

func init() {
	register("C18",
		mkFacet("sizes", "arrays and objects with and without bounds of their own, defaults for both; 400 values have to stay within and reach both ends; non-trivial: more than one size is possible", 1500, 20000, 4, genSize, decideSize),
		mkFacet("regex", "one pattern as string and as name of patternProperties with options for each: repeats, random bytes, ASCII; non-trivial: different lengths", 2000, 40000, 2, genRegexOpts, decideRegexOpts),
		mkFacet("attempts", "oneOf, uniqueItems, if and not nothing satisfies, and how often to try: the text says as much; non-trivial: taken without errors", 300, 2000, 1, func(t *rapid.T) attemptsCase {
			return attemptsCase{Kind: pick(t, "kind", "oneOf", "unique", "not", "if", "ifs"), Attempts: pick(t, "n", 0, 1, 2, 3, 7, 50, 250), Seed: seedOf(t)}
		}, decideAttempts),
		mkFacet("depth", "arrays and objects nested as deep as MaxParseDepth, up to three levels less and two more; non-trivial: at most one level less", 400, 6000, 2, genDepthLimit, decideDepth),
		mkFacet("valid", "compositions of keywords (as in C14) with any options for sizes: values are valid all the same", 1500, 40000, 4, genMixOpts, decideConf),
		mkFacet("scalars", "DefaultNumber... and DefaultString... options (a listed finding: replayed, not searched)", 0, 0, 1, func(t *rapid.T) scalarCase {
			return scalarCase{Type: "number", Min: 200, Max: 300, Seed: seedOf(t)}
		}, decideScalar),
	)
}
