package main

import (
	"pgregory.net/rapid"
)

func arraySchema(t *rapid.T, d int) S {
	s := S{}
	if chance(t, "atyped", 3, 4) {
		s["type"] = "array"
	}
	prefix := []any{}
	if chance(t, "prefix", 1, 3) {
		n := intIn(t, "nprefix", 1, 4)
		if chance(t, "long", 1, 6) { // than arrays are by default
			n = intIn(t, "nlong", 8, 16)
		}
		for i := 0; i < n; i++ {
			if i < 4 {
				prefix = append(prefix, treeSchema(t, d))
			} else {
				prefix = append(prefix, prefix[intIn(t, "again"+itoa(i), 0, 3)])
			}
		}
		s["prefixItems"] = prefix
	}
	closed := false
	switch intIn(t, "items", 0, 5) {
	case 0:
		s["items"] = false
		closed = true
		if len(prefix) == 0 {
			delete(s, "items")
			closed = false
		}
	case 1, 2, 3:
		s["items"] = treeSchema(t, d)
	}
	lo := 0
	if chance(t, "mini", 1, 2) {
		lo = intIn(t, "miniv", 0, 6)
		if d == 0 && chance(t, "large", 1, 8) {
			lo = intIn(t, "nlarge", 7, 16)
		}
		if closed && lo > len(prefix) {
			lo = len(prefix)
		}
		s["minItems"] = lo
	}
	if chance(t, "maxi", 1, 2) {
		base := lo
		if len(prefix) > base {
			base = len(prefix)
		}
		s["maxItems"] = base + intIn(t, "maxix", 0, 5)
	}
	if s["type"] == nil && s["items"] == nil && s["prefixItems"] == nil && s["minItems"] == nil && s["maxItems"] == nil {
		s["type"] = "array"
	}
	return s
}

// rangeInt is an integer schema over exactly n values.
func rangeInt(t *rapid.T, n int) S {
	lo := intIn(t, "rlo", -30, 30)
	return S{"type": "integer", "minimum": lo, "maximum": lo + n - 1}
}

func genUnique(t *rapid.T) confCase {
	s := S{"type": "array", "uniqueItems": true}
	tags := []string{}
	lo := 0
	switch intIn(t, "ukind", 0, 4) {
	case 0: // few values, reachable minimum
		n := intIn(t, "un", 1, 5)
		s["items"] = rangeInt(t, n)
		lo = intIn(t, "ulo", 0, n)
		tags = append(tags, "unique-small")
	case 1:
		vals := distinctValues(t, intIn(t, "un", 1, 6), 1)
		s["items"] = S{"enum": vals}
		lo = intIn(t, "ulo", 0, min(len(vals), 5))
		tags = append(tags, "unique-enum")
	case 2:
		n := intIn(t, "un", 20, 200)
		s["items"] = rangeInt(t, n)
		lo = intIn(t, "ulo", 0, 6)
		tags = append(tags, "unique-large")
	case 3: // no item schema
		lo = intIn(t, "ulo", 0, 5)
		tags = append(tags, "unique-any")
	case 4: // tuple first
		n := intIn(t, "utup", 1, 4)
		pre := []any{}
		base := intIn(t, "ubase", 0, 1)
		for i := 0; i < n; i++ {
			if chance(t, "same", 1, 2) {
				pre = append(pre, S{"type": "integer", "minimum": 0, "maximum": 4 + base})
			} else {
				pre = append(pre, pick(t, "utk", S{"type": "boolean"}, S{"type": "null"}, S{"type": "integer", "minimum": 0, "maximum": 9}))
			}
			// at most one null and two booleans can be told apart
			if pre[i].(S)["type"] != "integer" {
				for j := 0; j < i; j++ {
					if pre[j].(S)["type"] == pre[i].(S)["type"] {
						pre[i] = S{"type": "integer", "minimum": 0, "maximum": 9}
					}
				}
			}
		}
		s["prefixItems"] = pre
		s["items"] = S{"type": "string", "pattern": "^[a-z]{4}$"}
		lo = n + intIn(t, "ulo", 0, 3)
		tags = append(tags, "unique-tuple")
	}
	if lo > 0 || chance(t, "umin0", 1, 3) {
		s["minItems"] = lo
	}
	if chance(t, "umax", 1, 2) {
		base := lo
		if p, ok := s["prefixItems"].([]any); ok && len(p) > base {
			base = len(p)
		}
		s["maxItems"] = base + intIn(t, "umaxx", 0, 6)
	}
	return confNested(t, s, 10, true, false, tags...)
}

func genContains(t *rapid.T) confCase {
	s := S{"type": "array"}
	var c S
	itemsKind := intIn(t, "ckind", 0, 4)
	key := "items"
	var item any = S{"type": "null"}
	switch itemsKind {
	case 0, 3: // contains narrows the item schema
		item = S{"type": "integer", "minimum": 0, "maximum": 100}
		s["items"] = item
		c = pick(t, "cnarrow", S{"minimum": 40}, S{"multipleOf": 7}, S{"maximum": 3}, S{"type": "integer", "minimum": 90}, S{"enum": []any{1, 2, 3}}, S{"const": 17})
	case 1:
		item = S{"type": "object", "properties": S{"k": S{"type": "integer"}, "v": S{"type": "string"}}}
		s["items"] = item
		c = pick(t, "cnarrow2", S{"required": []any{"k"}}, S{"properties": S{"k": S{"const": 3}}, "required": []any{"k"}}, S{"minProperties": 1})
	default: // no item schema: other members are null
		c = pick(t, "cfree", S{"type": "integer"}, S{"type": "string", "minLength": 2}, S{"const": "x"}, S{"type": "boolean"}, S{"type": "object", "required": []any{"q"}})
	}
	s["contains"] = c
	minc := 1
	if chance(t, "minc", 1, 2) {
		minc = intIn(t, "mincv", 0, 4)
		s["minContains"] = minc
	}
	if minc == 0 && item.(S)["type"] != "null" && chance(t, "cnone", 1, 2) {
		// none has to match, and none can
		c = pick(t, "cnonev", S{"type": "string"}, S{"const": "a"}, S{"enum": []any{-1, "x"}}, S{"oneOf": []any{S{"type": "null"}, S{"type": "string"}}}, S{"type": "boolean"}, S{"type": "string", "pattern": "^a$"}, S{"type": "integer", "minimum": 300})
		s["contains"] = c
	}
	npre := 0
	mayMatch := false
	if chance(t, "cpre", 1, 3) {
		npre = intIn(t, "cpren", 1, 3)
		pre := []any{}
		for i := 0; i < npre; i++ {
			x := item
			if chance(t, "cprenull"+itoa(i), 1, 3) {
				x = S{"type": "null"}
			} else {
				mayMatch = mayMatch || s["items"] != nil
			}
			pre = append(pre, x)
		}
		s["prefixItems"] = pre
		if itemsKind == 3 && chance(t, "legacy", 1, 2) {
			key = "additionalItems"
		}
	}
	lo := 0
	if chance(t, "cmin", 1, 2) {
		lo = intIn(t, "cminv", 0, 6)
		s["minItems"] = lo
	}
	if chance(t, "cmax", 1, 2) {
		s["maxItems"] = max(lo, npre+minc) + intIn(t, "cmaxx", 0, 4)
	}
	if chance(t, "maxc", 1, 2) {
		s["maxContains"] = minc + intIn(t, "maxcx", 0, 2)
		if npre > 0 && c["type"] == nil && c["enum"] == nil && c["const"] == nil {
			// the null members of a tuple are not to match
			c = clone(c).(S)
			c["type"] = item.(S)["type"]
			s["contains"] = c
		}
	}
	cc := confNested(t, s, 10, true, mayMatch && s["maxContains"] != nil)
	cc.SomeOK = true
	if key != "items" {
		// the same in an older dialect
		cc.Oracle = cc.Schema
		old := clone(s).(S)
		old["additionalItems"], old["items"] = old["items"], old["prefixItems"]
		delete(old, "prefixItems")
		cc = confCase{Schema: raw(old), Oracle: raw(s), Seed: cc.Seed, N: 10, Accept: true, Markers: cc.Markers, SomeOK: true}
	}
	return cc
}

// genClosedContains: contains where only the members of a tuple can match it.
func genClosedContains(t *rapid.T) confCase {
	n := intIn(t, "n", 1, 4)
	pre := []any{}
	can, must := 0, 0
	c := pick(t, "c", S{"minimum": 5}, S{"type": "integer", "multipleOf": 2}, S{"type": "string"}, S{"enum": []any{1, 2, 3, "x"}})
	for i := 0; i < n; i++ {
		l := itoa(i)
		switch intIn(t, "pre"+l, 0, 3) {
		case 0, 1:
			pre = append(pre, S{"type": "integer", "minimum": 0, "maximum": 9})
			can++
			if c["type"] == "string" {
				can--
			}
		case 2:
			pre = append(pre, S{"type": []any{"integer", "string", "null"}, "minimum": 0, "maximum": 9})
			can++
		default:
			pre = append(pre, S{"const": -1})
			if c["type"] == nil && c["enum"] == nil || c["type"] == "integer" {
				// below the minimum, and odd
				continue
			}
		}
	}
	s := S{"type": "array", "prefixItems": pre, "items": false, "contains": c}
	lo := intIn(t, "mincv", 0, min(can, 2))
	if lo != 1 || can == 0 || chance(t, "explicit", 1, 2) {
		s["minContains"] = lo
	}
	if chance(t, "maxc", 1, 2) {
		s["maxContains"] = max(lo+intIn(t, "maxcx", 0, 2), must)
	}
	cc := confNested(t, s, 10, true, true)
	return cc
}

// genLegacy writes tuples as a draft-07 "items" array; the oracle schema says
// the same with prefixItems.
func genLegacy(t *rapid.T) confCase {
	n := intIn(t, "ln", 1, 4)
	tup := []any{}
	for i := 0; i < n; i++ {
		tup = append(tup, leafSchema(t))
	}
	s := S{"$schema": "http://json-schema.org/draft-07/schema#", "items": tup}
	o := S{"prefixItems": tup}
	if chance(t, "ltyped", 3, 4) {
		s["type"], o["type"] = "array", "array"
	} else {
		// "items" as an array is no type hint for the generator: min/maxItems is
		s["maxItems"], o["maxItems"] = n+4, n+4
	}
	lo := 0
	closed := false
	switch intIn(t, "ladd", 0, 3) {
	case 0:
		s["additionalItems"], o["items"] = false, false
		closed = true
	case 1, 2:
		x := leafSchema(t)
		s["additionalItems"], o["items"] = x, x
	}
	if chance(t, "lmin", 1, 2) {
		lo = intIn(t, "lminv", 0, n+2)
		if closed && lo > n {
			lo = n
		}
		s["minItems"], o["minItems"] = lo, lo
	}
	if chance(t, "lmax", 1, 2) {
		v := max(lo, n) + intIn(t, "lmaxv", 0, 3)
		s["maxItems"], o["maxItems"] = v, v
	}
	c := conf(t, s, 10, true, false)
	c.Oracle = raw(o)
	return c
}

func genUnevaluated(t *rapid.T) confCase {
	s := arraySchema(t, 0)
	s["type"] = "array"
	switch intIn(t, "uneval", 0, 2) {
	case 0:
		s["unevaluatedItems"] = false
		if s["items"] == nil {
			n := 0
			if p, ok := s["prefixItems"].([]any); ok {
				n = len(p)
			}
			if m, ok := s["minItems"].(int); ok && m > n {
				s["minItems"] = n
			}
		}
	case 1:
		s["unevaluatedItems"] = leafSchema(t)
	default:
		s["unevaluatedItems"] = true
	}
	return confNested(t, s, 10, true, false)
}

func init() {
	register("C06",
		mkFacet("flat", "array schemas over leaf items: prefixItems, items schema/false/absent, min/maxItems around the tuple length; non-trivial: accepted and at least two different arrays judged", 4000, 80000, 2, func(t *rapid.T) confCase {
			return confNested(t, arraySchema(t, 0), 12, true, false)
		}, decideConf),
		mkFacet("nested", "the same with arrays and objects nested up to depth 2", 1500, 40000, 3, func(t *rapid.T) confCase {
			return confNested(t, arraySchema(t, 2), 6, true, false)
		}, decideConf),
		mkFacet("unique", "uniqueItems over value spaces of 1..200 members, enums, tuples and unconstrained items, with minItems the space can meet; non-trivial: at least two different arrays judged", 3000, 60000, 1, genUnique, decideConf),
		mkFacet("contains", "contains, minContains and maxContains next to items (or additionalItems) schemas it narrows, or alone, with prefixItems that match it or not and bounds that leave room; non-trivial: at least two different arrays judged", 3000, 60000, 1, genContains, decideConf),
		mkFacet("closed", "contains, minContains and maxContains over tuples that nothing may follow, some of whose members match; non-trivial: at least two different arrays judged", 2000, 40000, 1, genClosedContains, decideConf),
		mkFacet("legacy", "draft-07 tuples (items as an array, additionalItems), judged by the equivalent prefixItems schema; non-trivial: at least two different arrays judged", 2000, 40000, 1, genLegacy, decideConf),
		mkFacet("unevaluated", "array schemas with unevaluatedItems false/true/schema; non-trivial: at least two different arrays judged", 2000, 40000, 1, genUnevaluated, decideConf),
	)
}
