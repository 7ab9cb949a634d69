package main

import (
	"encoding/json"
	"fmt"
	"slices"
	"strings"

	"pgregory.net/rapid"
)

// genSteps lets retry-based generators use their full budget: the retries of
// a nested schema otherwise run into the (documented) "bare minimum" mode.
var genSteps = &GenOpts{MaximumGenerationSteps: 1 << 30, CutoffGenerationSteps: 1 << 31}

// steps applies genSteps, unless the case has options of its own.
func (c *confCase) steps() {
	if c.Opts == nil {
		c.Opts = genSteps
	}
}

// splittable is a satisfiable single-kind schema whose keywords can be spread
// over the branches of an allOf.
func splittable(t *rapid.T, d int) S {
	kinds := 7
	if d > 0 {
		kinds = 9
	}
	switch intIn(t, "split", 0, kinds) {
	case 0, 1:
		lo := intIn(t, "smin", -30, 30)
		s := S{"type": pick(t, "nt", "integer", "number"), "minimum": lo, "maximum": lo + 60}
		if chance(t, "sm", 1, 2) {
			s["multipleOf"] = pick(t, "smv", 1, 2, 3, 5, 6)
		}
		if chance(t, "sx", 1, 2) {
			s["exclusiveMinimum"] = lo + intIn(t, "sxv", -3, 3)
		}
		return s
	case 2:
		lo := intIn(t, "slo", 0, 9)
		return S{"type": "string", "minLength": lo, "maxLength": lo + intIn(t, "sw", 0, 9)}
	case 3:
		return S{"type": "string", "format": pick(t, "lfmt", "date", "ipv4", "uuid", "email")}
	case 4:
		vals := distinctValues(t, intIn(t, "sen", 2, 6), 1)
		return S{"enum": vals}
	case 5:
		return S{"type": pick(t, "stl", []any{"integer", "null"}, []any{"string", "boolean"}, []any{"null", "boolean", "string"})}
	case 6:
		return S{"type": "string", "pattern": pick(t, "lpat", "^[a-z]{2,5}$", "^x[0-9]+$", "^(foo|bar)-\\d{2}$")}
	case 7:
		return S{"const": genJSONValue(t, 1)}
	case 8:
		s := S{"type": "object"}
		props := S{}
		n := intIn(t, "sop", 1, 4)
		for i := 0; i < n; i++ {
			props[pick(t, "spn", "a", "b", "c", "d", "e")] = splittable(t, d-1)
		}
		s["properties"] = props
		req := []any{}
		for _, k := range sortedKeys(props) {
			if chance(t, "sreq:"+k, 1, 2) {
				req = append(req, k)
			}
		}
		if len(req) > 0 {
			s["required"] = req
		}
		if chance(t, "smaxp", 1, 3) {
			s["maxProperties"] = len(props) + 1
		}
		if chance(t, "sminp", 1, 3) {
			s["minProperties"] = intIn(t, "sminpv", 0, len(props))
		}
		switch intIn(t, "sap", 0, 4) {
		case 0:
			s["additionalProperties"] = false
		case 1:
			s["additionalProperties"] = splittable(t, d-1)
		}
		return s
	default:
		s := S{"type": "array"}
		if chance(t, "spre", 1, 2) {
			n := intIn(t, "spn2", 1, 3)
			pre := []any{}
			for i := 0; i < n; i++ {
				pre = append(pre, splittable(t, d-1))
			}
			s["prefixItems"] = pre
		}
		if chance(t, "sit", 2, 3) {
			s["items"] = splittable(t, d-1)
		}
		if chance(t, "smi", 1, 2) {
			s["minItems"] = intIn(t, "smiv", 0, 4)
		}
		if chance(t, "sma", 1, 2) {
			s["maxItems"] = 4 + intIn(t, "smav", 0, 3)
		}
		return s
	}
}

// weaken gives a keyword value every value of which is implied by kw: v.
func weaken(t *rapid.T, kw string, v any) (any, bool) {
	asInt := func() (int, bool) {
		switch x := v.(type) {
		case int:
			return x, true
		}
		return 0, false
	}
	switch kw {
	case "minimum", "exclusiveMinimum", "minLength", "minItems", "minProperties":
		x, ok := asInt()
		if !ok {
			return nil, false
		}
		w := x - intIn(t, "weak", 0, 5)
		if w < 0 && kw != "minimum" && kw != "exclusiveMinimum" {
			w = 0
		}
		return w, true
	case "maximum", "exclusiveMaximum", "maxLength", "maxItems", "maxProperties":
		x, ok := asInt()
		if !ok {
			return nil, false
		}
		return x + intIn(t, "weak", 0, 5), true
	case "multipleOf":
		x, ok := asInt()
		if !ok {
			return nil, false
		}
		ds := []int{}
		for d := 1; d <= x; d++ {
			if x%d == 0 {
				ds = append(ds, d)
			}
		}
		return rapid.SampledFrom(ds).Draw(t, "weakm"), true
	case "type":
		s, ok := v.(string)
		if !ok {
			if l, ok := v.([]any); ok {
				return append(append([]any{}, l...), "object"), true
			}
			return nil, false
		}
		switch intIn(t, "weakt", 0, 2) {
		case 0:
			return s, true
		case 1:
			if s == "integer" {
				return "number", true
			}
			return []any{s, "null"}, s != "null"
		default:
			return []any{"boolean", s}, s != "boolean"
		}
	case "enum":
		l := v.([]any)
		out := append(append([]any{S{"zz": "not in any enum"}}, l...), "another one")
		for _, m := range l { // what reads the same, and is not
			if !chance(t, "alike", 1, 3) {
				continue
			}
			switch m.(type) {
			case string, int, float64, json.Number:
				continue
			}
			for _, x := range []string{fmt.Sprint(m), string(raw(m))} {
				if !strings.Contains(string(raw(out)), string(raw(x))) {
					out = append(out, x)
				}
			}
		}
		return out, true
	case "const":
		return v, true
	case "required":
		l := v.([]any)
		k := intIn(t, "weakr", 0, len(l))
		return append([]any{}, l[:k]...), true
	case "pattern", "format":
		return v, true
	}
	return nil, false
}

// split spreads the keywords of s over the branches of an allOf, duplicating
// some in a weakened form. The conjunction is equivalent to s.
func split(t *rapid.T, s S, d int) S {
	n := intIn(t, "nbranch", 1, 3)
	branches := make([]S, n)
	for i := range branches {
		branches[i] = S{}
	}
	base := S{}
	target := func(label string) S {
		k := rapid.IntRange(-1, n-1).Draw(t, label)
		if k < 0 {
			return base
		}
		return branches[k]
	}
	// additionalProperties looks at the properties next to it, items at the
	// prefixItems next to it: those stay together.
	group := map[string]S{}
	for _, kw := range sortedKeys(s) {
		v := s[kw]
		if _, closed := s["additionalProperties"]; closed && (kw == "properties" || kw == "additionalProperties") {
			if group["o"] == nil {
				group["o"] = target("grp:o")
			}
			group["o"][kw] = v
			// the same properties may be named elsewhere too, with weaker schemas
			if kw == "properties" && chance(t, "alsoprops", 1, 3) {
				other := target("alsoprops-where")
				if _, ok := other["properties"]; !ok {
					w := S{}
					for _, k := range sortedKeys(v.(S)) {
						if chance(t, "also:"+k, 1, 2) {
							w[k] = weakenSchema(t, v.(S)[k])
						}
					}
					other["properties"] = w
				}
			}
			continue
		}
		if _, both := s["items"]; both && (kw == "items" || kw == "prefixItems") {
			if group["a"] == nil {
				group["a"] = target("grp:a")
			}
			group["a"][kw] = v
			continue
		}
		if kw == "properties" && d > 0 {
			// split the properties, and the schemas of some, over branches
			for _, k := range sortedKeys(v.(S)) {
				ps := v.(S)[k].(S)
				a, b := target("prop:"+k), target("prop2:"+k)
				addProp := func(x S, ps any) {
					m, ok := x["properties"].(S)
					if !ok {
						m = S{}
						x["properties"] = m
					}
					m[k] = ps
				}
				addProp(a, ps)
				_, hadB := b["properties"]
				sameB := false
				if hadB {
					_, sameB = b["properties"].(S)[k]
				}
				if chance(t, "dup:"+k, 1, 3) && !sameB {
					addProp(b, weakenSchema(t, ps))
				}
			}
			continue
		}
		where := target("kw:" + kw)
		where[kw] = v
		if chance(t, "dup:"+kw, 1, 3) {
			other := target("dupw:" + kw)
			if _, ok := other[kw]; !ok {
				if w, ok := weaken(t, kw, v); ok {
					other[kw] = w
				}
			}
		}
	}
	aa := []any{}
	for _, b := range branches {
		var x any = b
		if chance(t, "nest", 1, 5) {
			x = S{"allOf": []any{b}}
		}
		aa = append(aa, x)
	}
	base["allOf"] = rapid.Permutation(aa).Draw(t, "order")
	return base
}

func weakenSchema(t *rapid.T, s any) any {
	m, ok := s.(S)
	if !ok {
		return s
	}
	out := S{}
	for _, kw := range sortedKeys(m) {
		if chance(t, "wk:"+kw, 1, 2) {
			if w, ok := weaken(t, kw, m[kw]); ok {
				out[kw] = w
			}
		}
	}
	return out
}

func genAllOf(t *rapid.T) confCase {
	s := splittable(t, 2)
	sp := split(t, s, 2)
	setAllOf(t, sp, sp["allOf"].([]any))
	c := conf(t, sp, 12, true, false)
	c.steps()
	c.Oracle = raw(s)
	return c
}

// decideSplit judges values by the unsplit schema and checks first, on the
// values themselves, that both say the same.
func decideSplit(c confCase) Result {
	orc, err := newOracle(c.Oracle)
	if err != nil {
		panic(harnessError{err.Error()})
	}
	o2, err := newOracle(c.Schema)
	if err != nil {
		panic(harnessError{err.Error()})
	}
	r := decideConfWith(c, orc, nil)
	// the split schema must be at least as strong as the judge
	if r.Viol == "" {
		p := parseWith(c.Schema, nil)
		if p.clean() {
			js, _ := json.Marshal(p.g.Generate(optsFor(c.Opts, c.Seed)))
			if (o2.check(js) == "") != (orc.check(js) == "") && hasGiveUp(js) == "" {
				panic(harnessError{"split schema is not equivalent to the original: " + string(c.Schema) + " value " + string(js)})
			}
		}
	}
	return r
}

// genCross: lists of alternatives that have to hold together; which values
// are left is worked out here.
func genCross(t *rapid.T) reachCase {
	universe := distinctValues(t, intIn(t, "values", 3, 9), 1)
	for i, u := range universe { // numbers and texts that read like them are the same to the judge
		switch u.(type) {
		case int, float64, json.Number, string:
			universe[i] = "value " + itoa(i)
		}
	}
	seen := map[string]bool{}
	universe = slices.DeleteFunc(universe, func(u any) bool {
		k := string(raw(u))
		dup := seen[k]
		seen[k] = true
		return dup
	})
	n := len(universe)
	witness := intIn(t, "witness", 0, n-1)
	left := make([]bool, n)
	for i := range left {
		left[i] = true
	}
	var lists []S
	tags := []string{}
	size := intIn(t, "size", 1, 4)
	for k, nk := 0, pick(t, "lists", 2, 2, 2, 3); k < nk; k++ {
		l := "l" + itoa(k)
		kw := pick(t, l+"kw", "anyOf", "anyOf", "oneOf")
		alts := size
		if chance(t, l+"other size", 1, 3) {
			alts = intIn(t, l+"size", 1, 4)
		}
		at := intIn(t, l+"at", 0, alts-1)
		count := make([]int, n)
		var as []any
		for a := range alts {
			var in []any
			for i, u := range universe {
				has := chance(t, l+"in", 1, 3)
				if i == witness {
					has = a == at || kw == "anyOf" && has
				}
				if has {
					in, count[i] = append(in, u), count[i]+1
				}
			}
			if len(in) == 0 {
				in = []any{"nothing of " + l + itoa(a)}
			}
			as = append(as, S{"enum": in})
		}
		for i := range left {
			left[i] = left[i] && (count[i] == 1 || count[i] > 1 && kw == "anyOf")
		}
		lists = append(lists, S{kw: as})
		tags = append(tags, kw, "alternatives "+itoa(alts))
	}
	var all []any
	s := S{}
	for i, x := range lists {
		if i == 0 && chance(t, "outside", 1, 3) {
			s = x
			continue
		}
		all = append(all, x)
	}
	s["allOf"] = all
	c := reachCase{Schema: raw(s), Opts: genSteps, Seed: seedOf(t), N: 3000, Tags: tags}
	var members []any
	for i, ok := range left {
		if ok {
			members = append(members, universe[i])
			c.Reach = append(c.Reach, raw(S{"const": universe[i]}))
		}
	}
	c.Oracle = raw(S{"enum": members})
	return c
}

func init() {
	register("C08",
		mkFacet("split", "a satisfiable schema (numbers, strings, enums, type lists, objects, arrays to depth 2) whose keywords are spread over the branches of an allOf and the schema next to it, some repeated in a weaker form; judged by the unsplit schema; non-trivial: accepted and two different values judged", 5000, 100000, 4, genAllOf, decideSplit),
		mkFacet("cross", "two or three lists of up to four alternatives (anyOf, oneOf), enums of up to nine values, that have to hold together through allOf; each value that all of them leave has to come out, and no other; non-trivial: two or more are left", 2000, 40000, 3, genCross, decideReach),
	)
}

// genInterplay writes allOf branches whose keywords act across branches: a
// closed branch forbids what another one names, items apply at the positions
// another branch's prefixItems describe, alternatives of several branches have
// to hold together.
func genInterplay(t *rapid.T) confCase {
	kind := intIn(t, "kind", 0, 7)
	tag := ""
	var aa []any
	base := S{}
	num := func(label string) S { return S{"type": "integer", "minimum": intIn(t, label, 0, 10), "maximum": 40} }
	numw := func(label string) S {
		return pick(t, label, S{"minimum": 5}, S{"maximum": 20}, S{"type": "number"}, S{"multipleOf": 2}, S{"type": []any{"integer", "string"}}, S{})
	}
	switch kind {
	case 0: // a closed branch and extra optional properties elsewhere
		tag = "closed-props"
		a := S{"properties": S{"a": num("a"), "b": S{"type": "string"}}}
		switch intIn(t, "ap", 0, 2) {
		case 0:
			a["additionalProperties"] = false
		case 1:
			a["additionalProperties"] = numw("apw")
		default:
			a["additionalProperties"] = true
		}
		b := S{"properties": S{"c": num("c"), "a": numw("aw")}}
		if chance(t, "pp", 1, 3) {
			a["patternProperties"] = S{"^X_[a-z]{3,6}$": num("xp")}
		}
		if chance(t, "pp2", 1, 3) {
			b["patternProperties"] = S{"^Y[0-9]{4,}$": num("yp")}
		}
		if chance(t, "pp3", 1, 3) { // for a name the other branch declares, or both do
			b["patternProperties"] = S{pick(t, "pp3n", "^[ab]$", "^a", "^a$", "^[abc]$"): pick(t, "pp3v", S{"type": []any{"integer", "string"}}, S{"maximum": 20}, S{"minimum": 7}, S{"multipleOf": 2})}
		}
		if chance(t, "pp4", 1, 3) {
			a["patternProperties"] = S{pick(t, "pp4n", "^c$", "^[c]{1}$", "^[a-c]$", "^[bc]$"): pick(t, "pp4v", S{"maximum": 20}, S{"minimum": 7}, S{"multipleOf": 2}, S{})}
		}
		if chance(t, "bap", 1, 3) {
			b["additionalProperties"] = pick(t, "bapv", any(S{}), any(true), any(S{"type": []any{"integer", "string"}}))
		}
		if chance(t, "req", 1, 2) {
			b["required"] = []any{"a"}
		}
		if chance(t, "minp", 1, 2) {
			b["minProperties"] = intIn(t, "minpv", 0, 2)
		}
		aa = []any{a, b}
		base["type"] = "object"
	case 1: // prefixItems in one branch, items in another
		tag = "prefix-items"
		a := S{"prefixItems": []any{num("p0"), num("p1")}}
		b := S{"items": numw("it")}
		if chance(t, "bpre", 1, 3) {
			b["prefixItems"] = []any{numw("bp")}
		}
		if chance(t, "ait", 1, 2) {
			a["items"] = numw("ai")
		}
		if chance(t, "min", 1, 2) {
			b["minItems"] = intIn(t, "minv", 0, 4)
		}
		aa = []any{a, b}
		base["type"] = "array"
	case 2: // items: false in one branch
		tag = "items-false"
		n := intIn(t, "nf", 1, 3)
		pre := []any{}
		for i := 0; i < n; i++ {
			pre = append(pre, numw("fp"))
		}
		a := S{"prefixItems": pre, "items": false}
		b := S{}
		switch intIn(t, "bk", 0, 3) {
		case 0:
			b["prefixItems"] = []any{num("q0"), num("q1"), num("q2"), num("q3")}
		case 1:
			b["items"] = num("q")
		case 2:
			b["minItems"] = n
		default:
			b["uniqueItems"] = false
		}
		aa = []any{a, b}
		base["type"] = "array"
	case 3: // alternatives in several branches
		tag = "alternatives"
		alt := func(l string) (string, []any) {
			switch intIn(t, l, 0, 2) {
			case 0:
				return "anyOf", []any{S{"minimum": 50}, S{"multipleOf": 3}, S{"type": "string"}}
			case 1:
				return "oneOf", []any{S{"minimum": 30}, S{"maximum": 29}}
			default:
				return "anyOf", []any{S{"type": "integer", "maximum": 60}, S{"type": "number", "minimum": 55}}
			}
		}
		n := intIn(t, "nalts", 1, 3)
		for i := 0; i < n; i++ {
			k, l := alt("alt")
			aa = append(aa, S{k: l})
		}
		base["type"] = "integer"
		base["minimum"], base["maximum"] = 0, 100
		if chance(t, "basealt", 1, 2) {
			k, l := alt("balt")
			base[k] = l
		}
	case 4: // contains in several branches
		tag = "contains"
		a := S{"contains": S{"type": "integer", "minimum": 5}}
		b := S{"contains": S{"type": "integer", "maximum": 20}}
		if chance(t, "items", 1, 2) {
			b["items"] = S{"type": "integer", "minimum": 0, "maximum": 30}
		}
		if chance(t, "minc", 1, 2) {
			a["minContains"] = intIn(t, "mincv", 1, 3)
		}
		if chance(t, "mini", 1, 2) {
			b["minItems"] = intIn(t, "miniv", 0, 4)
		}
		aa = []any{a, b}
		base["type"] = "array"
	case 5: // multiples of two numbers, of which the range holds some
		tag = "multiples"
		places := intIn(t, "mpl", 0, 2)
		a, b := int64(intIn(t, "ma", 1, 30)), int64(intIn(t, "mb", 1, 30))
		g, h := a, b
		for h != 0 {
			g, h = h, g%h
		}
		l := a / g * b
		k := int64(intIn(t, "mk", -4, 4))
		lo := k*l - int64(intIn(t, "mlo", 0, 5))
		hi := k*l + int64(intIn(t, "mhi", 0, 5))
		aa = []any{S{"multipleOf": dec(a, places)}, S{"multipleOf": dec(b, places)}}
		base["type"] = "number"
		base["minimum"], base["maximum"] = dec(lo, places), dec(hi, places)
	case 6: // the same keys required by several branches
		tag = "required"
		aa = []any{S{"required": []any{"a", "b"}}, S{"required": []any{"b"}, "properties": S{"a": num("ra")}}, S{"required": []any{"b", "a"}}}
		base["type"] = "object"
		base["maxProperties"] = 2
	default: // uniqueItems in one branch only, next to a branch that says false
		tag = "unique"
		a := S{"uniqueItems": true}
		b := S{"items": rangeInt(t, 6), "minItems": intIn(t, "um", 0, 5)}
		if chance(t, "uf", 1, 2) {
			b["uniqueItems"] = false
		}
		aa = []any{a, b}
		base["type"] = "array"
	}
	setAllOf(t, base, rapid.Permutation(aa).Draw(t, "order"))
	if chance(t, "wrap", 1, 4) {
		base = hoistDefs(base, S{"type": "object", "properties": S{"w": base}, "required": []any{"w"}})
	}
	c := conf(t, base, 15, true, false, tag)
	c.steps()
	return c
}

// genBranchContains: contains, minContains and maxContains spread over the branches of an
// allOf, some of which have bounds that mean nothing (without contains, or minContains 0).
func genBranchContains(t *rapid.T) confCase {
	// 6 and 18 match any of these
	preds := []S{{"minimum": 5}, {"multipleOf": 2}, {"maximum": 20}, {"multipleOf": 3}, {"enum": []any{3, 6, 8, 18}}, {"type": "integer"}}
	n := intIn(t, "branches", 2, 4)
	aa := []any{}
	room, maxed := 0, false
	kinds := map[string]bool{}
	for i := 0; i < n; i++ {
		l := itoa(i)
		b := S{}
		if chance(t, "c"+l, 3, 4) {
			p := rapid.SampledFrom(preds).Draw(t, "p"+l)
			b["contains"] = clone(p)
			minc := 1
			if chance(t, "hasmin"+l, 1, 2) {
				minc = intIn(t, "min"+l, 0, 3)
				b["minContains"] = minc
			}
			if chance(t, "hasmax"+l, 1, 4) {
				b["maxContains"] = minc + intIn(t, "max"+l, 0, 3)
				maxed = true
			}
			if minc > 0 || b["maxContains"] != nil {
				kinds[string(raw(p))] = true
			}
			room = max(room, minc)
		} else {
			b[pick(t, "bare"+l, "minContains", "maxContains")] = intIn(t, "barev"+l, 0, 3)
			if chance(t, "type"+l, 1, 2) {
				b["type"] = "array"
			}
		}
		aa = append(aa, b)
	}
	base := S{"type": "array", "items": S{"type": "integer", "minimum": 0, "maximum": 24}}
	if chance(t, "some", 1, 3) {
		base["minItems"] = intIn(t, "mini", 0, 3)
	}
	setAllOf(t, base, aa)
	if maxed {
		// whatever the bounds ask for might be more than one of them allows
		c := conf(t, base, 15, false, true, "maxContains")
		c.steps()
		return c
	}
	c := conf(t, base, 15, true, false, "kinds:"+itoa(len(kinds)))
	c.steps()
	return c
}

func init() {
	register("C08",
		mkFacet("contains", "contains, minContains and maxContains spread over up to four allOf branches; judged by the schema itself; non-trivial: accepted and two different values judged", 3000, 60000, 1, genBranchContains, decideConf),
		mkFacet("interplay", "allOf branches acting on each other: closed branches next to properties and patternProperties of others, items next to prefixItems of others, items false, anyOf/oneOf in several branches, several contains, uniqueItems; judged by the schema itself; non-trivial: accepted and two different values judged", 4000, 80000, 3, genInterplay, decideConf),
	)
}
