package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// --- lengths ----------------------------------------------------------------

func strSchemaLen(t *rapid.T) S {
	s := S{}
	if chance(t, "typed", 3, 4) {
		s["type"] = "string"
	}
	hi := pick(t, "magn", 6, 6, 6, 40, 40, 40, 120, 120, 700, 700, 5000, 60000)
	lo := intIn(t, "lo", 0, hi)
	up := intIn(t, "up", lo, hi+20)
	form := intIn(t, "form", 0, 2)
	if form != 1 {
		s["minLength"] = lo
	}
	if form != 0 {
		s["maxLength"] = up
	}
	if form == 2 && chance(t, "exact", 1, 4) {
		s["maxLength"] = lo
	}
	return s
}

// --- patterns ---------------------------------------------------------------

// patAtom makes one regex atom; every string regen builds from the fragment
// grammar below matches the pattern by the meaning of the operators.
func patAtom(t *rapid.T, d int) string {
	k := intIn(t, "atom", 0, 9)
	switch {
	case k <= 1:
		return pick(t, "lit", "a", "b", "x", "Z", "7", "_", "-", " ", "foo", "é", "#", "/", "@", ",", ":", "&", "%", "~", "\"", "'", "!", "ß", "日", "ı", "ſ", "ς", "ŉ", "😀")
	case k == 2:
		return pick(t, "esc", `\.`, `\\`, `\/`, `\+`, `\*`, `\?`, `\(`, `\)`, `\[`, `\]`, `\{`, `\}`, `\^`, `\$`, `\|`, `\-`, `\t`)
	case k == 3:
		return pick(t, "perl", `\d`, `\w`, `\s`, `\D`, `\W`, `\S`, `[\s\S]`, `[\d\D]`, `[[:digit:]]`, `[[:^alpha:]]`, `(?i:aB)`, `(?P<n>a|b)`, `(?i:ır)`, `(?i:ſtK)`, `(?i)ß`, `(?i:ǆ|σς)`, `(?s:.)`, `(?-i:b)`, `\x41`, `\x{1F600}`, `\Qa.b\E`, `\Q.[\E`, `(?i:[k-s])`)
	case k == 4:
		return "."
	case k <= 6:
		return patClass(t)
	case k == 7 && d > 0:
		return "(" + patAlt(t, d-1, false) + ")"
	case k == 8 && d > 0:
		return "(?:" + patAlt(t, d-1, false) + ")"
	default:
		return pick(t, "lit2", "q", "0", "k9")
	}
}

func patClass(t *rapid.T) string {
	var b strings.Builder
	b.WriteString("[")
	neg := chance(t, "neg", 1, 5)
	if neg {
		b.WriteString("^")
	}
	n := intIn(t, "nclass", 1, 3)
	for i := 0; i < n; i++ {
		b.WriteString(pick(t, "cls", "a-f", "0-9", "A-Z", "_", "x", ".", `\.`, "@", `\-`, `\d`, `\w`, "+", "*", " ", "(", "$", "!-/", "α-ω", "[:alpha:]", "[:^space:]", `\]`, `\\`, "#"))
	}
	b.WriteString("]")
	return b.String()
}

func patRep(t *rapid.T, d int, top bool) string {
	a := patAtom(t, d)
	// a repetition binds to one rune, so a multi-rune literal is still fine
	q := pick(t, "rep", "", "", "", "?", "*", "+", "{2}", "{0,3}", "{1,4}", "{2,}", "+?", "*?")
	if d == 0 && !strings.Contains(a, "(") && chance(t, "long", 1, 12) {
		q = "{12,}"
	}
	if top && !strings.Contains(a, "(") && chance(t, "longer", 1, 10) { // nested repeats may not add up to more than 1000
		q = pick(t, "times", "{50}", "{64,70}", "{0,130}", "{100}", "{300,}")
	}
	return a + q
}

func patSeq(t *rapid.T, d int, top bool) string {
	n := intIn(t, "nseq", 1, 4)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(patRep(t, d, top))
	}
	return b.String()
}

func patAlt(t *rapid.T, d int, top bool) string {
	n := intIn(t, "nalt", 1, 3)
	parts := []string{}
	for i := 0; i < n; i++ {
		parts = append(parts, patSeq(t, d, top))
	}
	return strings.Join(parts, "|")
}

func genPattern(t *rapid.T) string {
	p := patAlt(t, pick(t, "depth", 0, 1, 1, 2), true)
	switch intIn(t, "anchor", 0, 3) {
	case 0, 1:
		if strings.Contains(p, "|") {
			p = "^(" + p + ")$"
		} else {
			p = "^" + p + "$"
		}
	case 2:
		if strings.Contains(p, "|") {
			p = "(" + p + ")"
		}
		p = "^" + p
	}
	if chance(t, "flags", 1, 8) {
		p = pick(t, "flag", "(?i)", "(?s)", "(?U)", "(?im)", "(?m)") + p
	}
	if _, err := regexp.Compile(p); err != nil {
		panic(harnessError{fmt.Sprintf("generated pattern %q does not compile: %v", p, err)})
	}
	return p
}

// --- formats ----------------------------------------------------------------

var supportedFormats = []string{"date-time", "time", "date", "duration", "email", "idn-email", "hostname",
	"idn-hostname", "ipv4", "ipv6", "uuid", "uri", "uri-reference", "iri", "iri-reference", "uri-template",
	"json-pointer", "relative-json-pointer", "regex"}

// --- enum / const -----------------------------------------------------------

func genJSONValue(t *rapid.T, d int) any {
	max := 6
	if d <= 0 {
		max = 4
	}
	switch intIn(t, "jv", 0, max) {
	case 0:
		return nil
	case 1:
		return chance(t, "jb", 1, 2)
	case 2:
		if chance(t, "jexact", 1, 5) {
			return exactNumber(t)
		}
		return json.Number(itoa(intIn(t, "ji", -50, 50)))
	case 3:
		return dec(rapid.Int64Range(-5000, 5000).Draw(t, "jf"), intIn(t, "jp", 1, 3))
	case 4:
		return pick(t, "js", "", "a", "foo", "bar baz", "é", "0", "null", "日本", "<&>", "a\"b\\c", "10.0.0.1", "2020-01-01")
	case 5:
		n := intIn(t, "jan", 0, 3)
		a := []any{}
		for i := 0; i < n; i++ {
			a = append(a, genJSONValue(t, d-1))
		}
		return a
	default:
		n := intIn(t, "jon", 0, 3)
		o := S{}
		for i := 0; i < n; i++ {
			o[pick(t, "jk", "a", "b", "c", "k y", "é")] = genJSONValue(t, d-1)
		}
		if chance(t, "jref", 1, 6) {
			// looks like a reference or an id, and is neither
			o[pick(t, "jrk", "$ref", "$id", "$anchor")] = pick(t, "jrv", "#", "#/$defs/nope", "color", "other.json", "https://example.com/x.json")
		}
		return o
	}
}

// exactNumber is one of the numbers no float64 is the same as: identifiers of
// 17 to 22 digits, their neighbours, and decimals with as many.
func exactNumber(t *rapid.T) json.Number {
	if chance(t, "jedge", 1, 3) {
		return pick(t, "jneighbour", json.Number("9007199254740993"), json.Number("9007199254740992"), json.Number("-9007199254740993"),
			json.Number("9223372036854775807"), json.Number("9223372036854775808"), json.Number("18446744073709551615"), json.Number("1e22"), json.Number("123456789e40"))
	}
	n := intIn(t, "jdigits", 17, 22)
	b := []byte{byte('1' + intIn(t, "jd0", 0, 8))}
	for len(b) < n {
		b = append(b, byte('0'+intIn(t, "jd", 0, 9)))
	}
	if b[n-1] == '0' {
		b[n-1] = '1'
	}
	if chance(t, "jdecimal", 1, 3) {
		at := intIn(t, "jat", 1, n-1)
		b = append(b[:at], append([]byte{'.'}, b[at:]...)...)
	}
	if chance(t, "jneg", 1, 3) {
		b = append([]byte{'-'}, b...)
	}
	return json.Number(string(b))
}

func isExactOnly(v any) bool {
	n, ok := v.(json.Number)
	return ok && len(n) > 15
}

// canon writes equal JSON values as equal texts.
func canon(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(harnessError{err.Error()})
	}
	x, err := decodeNum(b)
	if err != nil {
		panic(harnessError{err.Error()})
	}
	var walk func(any) any
	walk = func(v any) any {
		switch x := v.(type) {
		case json.Number:
			r, ok := new(big.Rat).SetString(string(x))
			if !ok {
				panic(harnessError{"number " + string(x)})
			}
			return map[string]any{"\x00number": r.RatString()}
		case []any:
			for i := range x {
				x[i] = walk(x[i])
			}
		case map[string]any:
			for k := range x {
				x[k] = walk(x[k])
			}
		}
		return v
	}
	b, _ = json.Marshal(walk(x))
	return string(b)
}

func distinctValues(t *rapid.T, n, depth int) []any {
	out := []any{}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		v := genJSONValue(t, depth)
		c := canon(v)
		if !seen[c] {
			seen[c] = true
			out = append(out, v)
		}
	}
	return out
}

func jsonType(v any) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return "boolean"
	case string:
		return "string"
	case json.Number:
		if !strings.Contains(string(x), ".") {
			return "integer"
		}
		return "number"
	case []any:
		return "array"
	case S:
		return "object"
	}
	return "?"
}

// enumSchema lists values plus sibling keywords that keep at least one of them.
func enumSchema(t *rapid.T) S {
	vals := distinctValues(t, intIn(t, "nenum", 1, 8), 2)
	s := S{"enum": vals}
	if chance(t, "formatted", 1, 8) {
		f := rapid.SampledFrom(notFormats).Draw(t, "format")
		s["enum"] = uniqAny([]any{formatText(t, "is", f, true), formatText(t, "isnt", f, false), formatText(t, "is2", f, true), formatText(t, "isnt2", f, false)})
		s["format"] = f
		return s
	}
	if chance(t, "typed", 1, 2) {
		keep := vals[intIn(t, "keep", 0, len(vals)-1)]
		ty := jsonType(keep)
		s["type"] = ty
		if chance(t, "multi", 1, 3) {
			other := jsonType(vals[intIn(t, "keep2", 0, len(vals)-1)])
			if other != ty {
				s["type"] = []any{ty, other}
			}
		}
		switch ty {
		case "string":
			if chance(t, "sib", 1, 2) {
				s["minLength"] = intIn(t, "ml", 0, len([]rune(keep.(string))))
			}
		case "integer", "number":
			// bounds are float64 in go-chaff, values are not
			if chance(t, "sib", 1, 2) && !isExactOnly(keep) {
				s["minimum"] = keep
			}
		case "array":
			if chance(t, "sib", 1, 2) {
				s["maxItems"] = len(keep.([]any))
			}
		case "object":
			if chance(t, "sib", 1, 2) {
				s["maxProperties"] = len(keep.(S))
			}
		}
		if chance(t, "const", 1, 8) {
			s["const"] = keep
		}
	} else if chance(t, "const", 1, 8) {
		s["const"] = vals[intIn(t, "which", 0, len(vals)-1)]
	}
	return s
}

func constSchema(t *rapid.T) S {
	v := genJSONValue(t, 3)
	s := S{"const": v}
	if chance(t, "typed", 1, 2) {
		s["type"] = jsonType(v)
	}
	return s
}

func init() {
	register("C02",
		mkFacet("length", "string schemas with minLength/maxLength drawn over 0..720 (absent, equal, zero); non-trivial: accepted and at least two different strings judged", 3000, 60000, 2, func(t *rapid.T) confCase {
			return confNested(t, strSchemaLen(t), 12, true, false)
		}, decideConf),
		mkFacet("format", "one of the 19 formats the generator supports, typed or untyped; non-trivial: at least two different strings judged", 1000, 10000, 2, func(t *rapid.T) confCase {
			f := rapid.SampledFrom(supportedFormats).Draw(t, "format")
			s := S{"format": f}
			if chance(t, "typed", 1, 2) {
				s["type"] = "string"
			}
			return confNested(t, s, 500, true, false, f)
		}, decideConf),
	)
	register("C03",
		mkFacet("pattern", "regular expressions built from a grammar of literals, escapes, classes, groups, alternation, greedy and lazy repetition, with or without anchors; non-trivial: accepted and at least two different strings judged", 24000, 400000, 4, func(t *rapid.T) confCase {
			s := S{"pattern": genPattern(t)}
			if chance(t, "typed", 1, 2) {
				s["type"] = "string"
			}
			return confNested(t, s, 10, true, false)
		}, decideConf),
	)
	register("C04",
		mkFacet("enum", "enum of 1..8 distinct JSON values up to depth 2, half with type and bound siblings that leave at least one member; non-trivial: two different members seen", 3000, 60000, 1, func(t *rapid.T) confCase {
			return confNested(t, enumSchema(t), 15, true, false)
		}, decideConf),
		mkFacet("members", "the same; every member that is valid for the schema has to come out within 400 values (45 for each member of lists of up to 60); non-trivial: two or more members", 2000, 40000, 1, func(t *rapid.T) reachCase {
			s := enumSchema(t)
			if chance(t, "many", 1, 8) {
				s = S{"enum": distinctValues(t, intIn(t, "nmany", 9, 60), 1)}
			}
			o, err := newOracle(raw(s))
			if err != nil {
				panic(harnessError{err.Error()})
			}
			c := reachCase{Schema: raw(s), Seed: seedOf(t), N: 400}
			c.N = max(c.N, 45*len(s["enum"].([]any)))
			if chance(t, "branch", 1, 3) {
				c.Schema = raw(S{"allOf": []any{s, S{"enum": s["enum"]}}})
			}
			for _, m := range s["enum"].([]any) {
				if o.satisfied(raw(m)) {
					c.Reach = append(c.Reach, raw(S{"const": m}))
				}
			}
			return c
		}, decideReach),
		mkFacet("const", "const of any JSON value up to depth 3, half with its type; non-trivial: value judged", 1500, 30000, 1, func(t *rapid.T) confCase {
			return confNested(t, constSchema(t), 3, true, false)
		}, func(c confCase) Result { r := decideConf(c); r.Nontrivial = r.Evals > 0; return r }),
	)
}
