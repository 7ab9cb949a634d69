package main

import (
	"fmt"

	"pgregory.net/rapid"
)

// leafSchema is a satisfiable schema whose generator needs no retries.
func leafSchema(t *rapid.T) any {
	switch intIn(t, "leaf", 0, 11) {
	case 0:
		return S{"type": "boolean"}
	case 1:
		return S{"type": "null"}
	case 2:
		return S{"type": "integer", "minimum": intIn(t, "lmin", -20, 20)}
	case 3:
		lo := intIn(t, "lmin", -20, 20)
		return S{"type": "integer", "minimum": lo, "maximum": lo + intIn(t, "lspan", 0, 9)}
	case 4:
		return S{"type": "number", "minimum": intIn(t, "lmin", -20, 20)}
	case 5:
		return S{"type": "number", "multipleOf": dec(int64(intIn(t, "lm", 1, 30)), 1)}
	case 6:
		lo := intIn(t, "lo", 0, 12)
		return S{"type": "string", "minLength": lo, "maxLength": lo + intIn(t, "lw", 0, 9)}
	case 7:
		return S{"type": "string", "pattern": pick(t, "lpat", "^[a-z]{2,5}$", "^x[0-9]+$", "^(foo|bar)-\\d{2}$", "[A-Z]{3}")}
	case 8:
		return S{"type": "string", "format": pick(t, "lfmt", "date", "ipv4", "uuid", "email", "date-time")}
	case 9:
		return S{"enum": distinctValues(t, intIn(t, "le", 1, 4), 1)}
	case 10:
		return S{"const": genJSONValue(t, 1)}
	default:
		return S{"type": []any{"integer", "null"}}
	}
}

// treeSchema nests objects and arrays above leaves.
func treeSchema(t *rapid.T, d int) any {
	if d <= 0 {
		return leafSchema(t)
	}
	switch intIn(t, "tree", 0, 5) {
	case 0, 1:
		return objectSchema(t, d-1)
	case 2:
		return arraySchema(t, d-1)
	default:
		return leafSchema(t)
	}
}

var propNames = []string{"a", "b", "c", "name", "id", "é", "k y", "foo/bar", "$x", "a.b", "0", "n-1", "~t", "%25", "type", "items", "required", "$ref", "$id", "enum", "const", "default", "properties", "not", "anyOf", "$defs"}

func propName(t *rapid.T) string { return rapid.SampledFrom(propNames).Draw(t, "pname") }

// patterns whose languages are disjoint from each other, from propNames and
// from the filler names the generator invents.
var keyPatterns = []string{"^X_[a-z]{3,6}$", "^Y[0-9]{4,}$", "^Z-(p|q|r)[A-F]{3}$", "^W\\.[a-z]+$"}
var keyPatternSample = map[string][]string{
	"^X_[a-z]{3,6}$":      {"X_abc", "X_zzzz"},
	"^Y[0-9]{4,}$":        {"Y0000", "Y12345"},
	"^Z-(p|q|r)[A-F]{3}$": {"Z-pABC"},
	"^W\\.[a-z]+$":        {"W.abc"},
}

func objectSchema(t *rapid.T, d int) S {
	s := S{}
	if chance(t, "otyped", 3, 4) {
		s["type"] = "object"
	}
	props := S{}
	np := intIn(t, "nprops", 0, 5)
	for i := 0; i < np; i++ {
		props[propName(t)] = treeSchema(t, d)
	}
	if len(props) > 0 || chance(t, "emptyprops", 1, 4) {
		s["properties"] = props
	}
	pats := []string{}
	if chance(t, "pats", 1, 3) {
		pp := S{}
		n := intIn(t, "npats", 1, 3)
		for i := 0; i < n; i++ {
			p := rapid.SampledFrom(keyPatterns).Draw(t, "kpat")
			if _, ok := pp[p]; !ok {
				pats = append(pats, p)
			}
			pp[p] = treeSchema(t, d)
		}
		s["patternProperties"] = pp
	}
	closed := false
	switch intIn(t, "addl", 0, 5) {
	case 0, 1:
		s["additionalProperties"] = false
		closed = true
	case 2:
		s["additionalProperties"] = true
	case 3, 4:
		s["additionalProperties"] = treeSchema(t, d)
	}
	req := []any{}
	names := sortedKeys(props)
	for _, k := range names {
		if chance(t, "req:"+k, 1, 3) {
			req = append(req, k)
		}
	}
	if chance(t, "reqextra", 1, 4) {
		if len(pats) > 0 {
			p := pats[intIn(t, "rp", 0, len(pats)-1)]
			req = append(req, rapid.SampledFrom(keyPatternSample[p]).Draw(t, "rps"))
		} else if !closed {
			req = append(req, pick(t, "rx", "other", "Ω", "zz top"))
		}
	}
	if len(req) > 0 || chance(t, "emptyreq", 1, 6) {
		s["required"] = req
	}
	// capacity: how many distinct keys can exist
	capacity := len(props)
	if !closed {
		capacity = len(props) + 6
	} else if len(pats) > 0 {
		capacity = len(props) + 4
		for _, r := range req {
			if _, ok := props[r.(string)]; !ok {
				capacity++
			}
		}
	}
	if len(pats) > 0 && len(req) > capacity {
		capacity = len(req)
	}
	lo := 0
	if chance(t, "minp", 1, 2) {
		lo = intIn(t, "minpv", 0, capacity)
		s["minProperties"] = lo
	}
	if chance(t, "maxp", 1, 2) {
		base := len(req)
		if lo > base {
			base = lo
		}
		s["maxProperties"] = base + intIn(t, "maxpx", 0, 4)
	}
	if len(s) == 0 || (s["type"] == nil && s["properties"] == nil && s["patternProperties"] == nil && s["required"] == nil && s["minProperties"] == nil && s["maxProperties"] == nil) {
		s["type"] = "object"
	}
	return s
}

func init() {
	register("C05",
		mkFacet("flat", "object schemas over leaf members: properties, disjoint patternProperties, additionalProperties absent/true/false/schema, required (also of names only patternProperties or additionalProperties describe), min/maxProperties within the reachable count; non-trivial: accepted and at least two different objects judged", 4000, 80000, 2, func(t *rapid.T) confCase {
			return confNested(t, objectSchema(t, 0), 12, true, false)
		}, decideConf),
		mkFacet("nested", "the same with objects and arrays nested up to depth 2", 1500, 40000, 3, func(t *rapid.T) confCase {
			return confNested(t, objectSchema(t, 2), 6, true, false)
		}, decideConf),
	)
}

var _ = fmt.Sprint

// Names and patterns that meet: declared names a pattern matches, patterns that match the same names,
// languages of a few names only, and names the generator would come up with itself.
var (
	metNames    = []string{"a", "b", "c", "d", "ab", "ac", "abc", "K1", "K2", "L1", "additional_0", "additional_1", "fallback_0", "min_filler_0", "min_filler_1", "min_filler_2", "required_a_0", "X"}
	metPatterns = []struct {
		re    string
		names []string // the whole language, or some of it
	}{
		{"^[ab]$", []string{"a", "b"}},
		{"^(c|d)$", []string{"c", "d"}},
		{"^[a-d]{1,2}$", []string{"a", "b", "c", "d", "aa", "ab", "ac", "ad", "ba", "bb", "bc", "bd", "ca", "cb", "cc", "cd", "da", "db", "dc", "dd"}},
		{"^K[12]$", []string{"K1", "K2"}},
		{"^(L1|L2|L3)$", []string{"L1", "L2", "L3"}},
		{"^L1$", []string{"L1"}},
		{"^min_filler_[0-9]$", []string{"min_filler_0", "min_filler_1", "min_filler_2", "min_filler_3", "min_filler_4", "min_filler_5"}},
		{"^additional_[01]$", []string{"additional_0", "additional_1"}},
		{"^fallback_[0-9]+$", []string{"fallback_0", "fallback_1", "fallback_2", "fallback_30"}},
		{"^ab$", []string{"ab"}},
	}
)

// metSchema allows for 12.
func metSchema(t *rapid.T) S {
	switch intIn(t, "met", 0, 9) {
	case 0:
		return S{"type": "integer"}
	case 1:
		return S{"type": pick(t, "metl", "integer", "number"), "minimum": intIn(t, "metlo", -3, 12)}
	case 2:
		return S{"type": "integer", "maximum": intIn(t, "methi", 12, 20)}
	case 3:
		return S{"type": "integer", "multipleOf": pick(t, "metm", 2, 3, 4, 6)}
	case 4:
		return S{"enum": []any{12, 24, "x"}}
	case 5:
		return S{"const": 12}
	case 6:
		return S{"type": []any{"integer", "string"}}
	case 7:
		return S{"type": "number", "exclusiveMaximum": 13}
	case 8:
		return S{"type": "integer", "minimum": 10, "maximum": intIn(t, "methi", 12, 20)}
	default:
		return S{"minimum": intIn(t, "metlo", 0, 12)}
	}
}

func genMet(t *rapid.T) confCase {
	s := S{"type": "object"}
	props := S{}
	for i, n := 0, intIn(t, "nprops", 0, 4); i < n; i++ {
		props[rapid.SampledFrom(metNames).Draw(t, "pname")] = metSchema(t)
	}
	s["properties"] = props
	matched := map[string]int{}
	filler := false
	if n := intIn(t, "npats", 0, 3); n > 0 {
		pp := S{}
		for i := 0; i < n; i++ {
			p := metPatterns[intIn(t, "pat", 0, len(metPatterns)-1)]
			if _, ok := pp[p.re]; ok {
				continue
			}
			pp[p.re] = metSchema(t)
			filler = filler || p.re == "^min_filler_[0-9]$"
			for _, name := range p.names {
				matched[name]++
			}
		}
		s["patternProperties"] = pp
	}
	closed := false
	switch intIn(t, "addl", 0, 3) {
	case 0, 1:
		s["additionalProperties"] = false
		closed = true
	case 2:
		s["additionalProperties"] = metSchema(t)
	}
	allowed := sortedKeys(props)
	capacity, many := len(props), 0
	for _, name := range sortedKeys(matched) {
		if _, ok := props[name]; ok {
			continue
		}
		allowed = append(allowed, name)
		if matched[name] == 1 { // the generator leaves the names of several patterns out
			if len(name) == 2 && name[0] < 'e' { // one of many, which take too long to find all of
				many++
			} else {
				capacity++
			}
		}
	}
	capacity += min(many, 4)
	if !closed {
		allowed = append(allowed, metNames...)
	}
	req, seen := []any{}, map[string]bool{}
	for i, n := 0, intIn(t, "nreq", 0, 3); i < n && len(allowed) > 0; i++ {
		name := rapid.SampledFrom(allowed).Draw(t, "req")
		if seen[name] {
			continue
		}
		seen[name] = true
		req = append(req, name)
		if _, ok := props[name]; !ok && matched[name] != 1 {
			capacity++
		}
	}
	if len(req) > 0 {
		s["required"] = req
	}
	if !closed {
		capacity += 4
	}
	lo := 0
	if chance(t, "minp", 2, 3) {
		if lo = intIn(t, "minpv", 0, capacity); chance(t, "all", 1, 3) {
			lo = capacity
		}
		s["minProperties"] = lo
	}
	if chance(t, "maxp", 1, 2) {
		s["maxProperties"] = max(lo, len(req)) + intIn(t, "maxpx", 0, 3)
	}
	tag := "open"
	if closed {
		tag = "closed"
	}
	if filler {
		tag += " filler"
	}
	return confNested(t, s, 12, true, false, tag)
}

func init() {
	register("C05",
		mkFacet("meeting", "objects of which patterns match declared names, names of each other and names the generator makes up, with few names to go round and minProperties up to all of them; every value schema allows for 12; non-trivial: accepted and at least two different objects judged", 3000, 60000, 2, genMet, decideConf),
	)
}
