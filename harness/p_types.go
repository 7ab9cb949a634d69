package main

import (
	"pgregory.net/rapid"
)

var allTypes = []string{"null", "boolean", "integer", "number", "string", "array", "object"}

// typeKeywords is a satisfiable group of keywords that only constrains one
// type of value.
func typeKeywords(t *rapid.T, ty string) S {
	switch ty {
	case "integer":
		lo := intIn(t, "tk", -9, 9)
		return pick(t, "tki", S{"minimum": lo}, S{"maximum": lo}, S{"minimum": lo, "maximum": lo + 7}, S{"multipleOf": 3}, S{"exclusiveMinimum": lo, "exclusiveMaximum": lo + 2})
	case "number":
		lo := intIn(t, "tk", -9, 9)
		return pick(t, "tkn", S{"minimum": lo}, S{"maximum": lo}, S{"minimum": lo, "maximum": lo + 7}, S{"multipleOf": 3}, S{"exclusiveMinimum": lo, "exclusiveMaximum": lo + 2})
	case "string":
		return pick(t, "tks", S{"minLength": 4}, S{"maxLength": 3}, S{"minLength": 2, "maxLength": 2}, S{"pattern": "^[a-c]{2,4}$"}, S{"format": "ipv4"})
	case "array":
		return pick(t, "tka", S{"minItems": 3}, S{"maxItems": 2}, S{"items": S{"type": "boolean"}}, S{"prefixItems": []any{S{"type": "null"}}}, S{"contains": S{"type": "integer"}}, S{"items": S{"type": "integer"}, "minItems": 2, "uniqueItems": true})
	case "object":
		return pick(t, "tko", S{"minProperties": 2}, S{"maxProperties": 1}, S{"properties": S{"a": S{"type": "string"}}, "required": []any{"a"}}, S{"required": []any{"q"}}, S{"additionalProperties": S{"type": "integer"}, "minProperties": 1}, S{"patternProperties": S{"^X[0-9]+$": S{"type": "boolean"}}, "additionalProperties": false})
	}
	return S{}
}

func mergeS(dst, src S) {
	for k, v := range src {
		dst[k] = v
	}
}

// genTypes names one or several types and adds keywords of any types.
func genTypes(t *rapid.T) confCase {
	s := S{}
	n := intIn(t, "ntypes", 0, 4)
	chosen := []any{}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		ty := rapid.SampledFrom(allTypes).Draw(t, "type")
		if !seen[ty] {
			seen[ty] = true
			chosen = append(chosen, ty)
		}
	}
	tag := "typelist"
	switch {
	case len(chosen) == 0:
		tag = "untyped"
	case len(chosen) == 1 && chance(t, "single", 3, 4):
		s["type"] = chosen[0]
		tag = "single"
	default:
		s["type"] = chosen
	}
	k := intIn(t, "nkw", 0, 3)
	for i := 0; i < k; i++ {
		ty := rapid.SampledFrom(allTypes[2:]).Draw(t, "kwtype")
		kw := typeKeywords(t, ty)
		clash := false
		for key := range kw {
			if _, ok := s[key]; ok {
				clash = true
			}
		}
		// numeric groups of two draws could exclude each other, as could array
		// and object ones: one group per family
		fam := ty
		if fam == "integer" {
			fam = "number"
		}
		if clash || seen["kw:"+fam] {
			continue
		}
		seen["kw:"+fam] = true
		mergeS(s, kw)
	}
	return confNested(t, s, 20, true, false, tag)
}

// genTypesPartly gives a type list in which some types have contradictory
// keywords: values of the others must still come out.
func genTypesPartly(t *rapid.T) confCase {
	bad := map[string]S{
		"string":  pick(t, "bs", S{"minLength": 5, "maxLength": 2}, S{"minLength": 9, "maxLength": 8}),
		"integer": pick(t, "bi", S{"minimum": 5, "maximum": 2}, S{"minimum": dec(11, 1), "maximum": dec(19, 1)}, S{"minimum": dec(15, 1), "maximum": dec(15, 1)}, S{"exclusiveMinimum": 3, "exclusiveMaximum": 4}, S{"minimum": 8, "maximum": 9, "multipleOf": 7}),
		"array":   pick(t, "ba", S{"minItems": 4, "maxItems": 2}),
		"object":  pick(t, "bo", S{"minProperties": 4, "maxProperties": 2}, S{"required": []any{"a", "b"}, "maxProperties": 1}),
	}
	which := pick(t, "bad", "string", "integer", "array", "object")
	s := S{}
	mergeS(s, bad[which])
	types := []any{which}
	good := 0
	for _, ty := range allTypes {
		if ty == which || (which == "integer" && ty == "number") {
			continue
		}
		if chance(t, "ty:"+ty, 1, 3) {
			types = append(types, ty)
			good++
		}
	}
	if good == 0 {
		types = append(types, "boolean")
	}
	perm := rapid.Permutation(types).Draw(t, "order")
	s["type"] = perm
	return confNested(t, s, 20, true, false, "bad:"+which)
}

func init() {
	register("C07",
		mkFacet("types", "type absent, single or a list of up to four types, next to keyword groups for any types (which must not constrain other types); non-trivial: accepted and two different values judged", 5000, 100000, 2, genTypes, decideConf),
		mkFacet("partly", "type lists in which the keywords of one type contradict each other; values of the remaining types must come out; non-trivial: two different values judged", 2000, 40000, 1, genTypesPartly, decideConf),
	)
}
