package main

import (
	"strings"

	"pgregory.net/rapid"
)

// olderDialect writes a schema the way draft-07 did: tuples as items and
// additionalItems, definitions for $defs.
func olderDialect(root map[string]any) (tuples int) {
	all := []map[string]any{root}
	for _, sp := range spots(root, "", nil) {
		if m, ok := sp.get().(map[string]any); ok {
			all = append(all, m)
		}
	}
	for _, m := range all {
		if p, ok := m["prefixItems"]; ok {
			delete(m, "prefixItems")
			if x, ok := m["items"]; ok {
				m["additionalItems"] = x
			}
			m["items"] = p
			tuples++
		}
		if r, ok := m["$ref"].(string); ok && strings.HasPrefix(r, "#/$defs/") {
			m["$ref"] = "#/definitions/" + strings.TrimPrefix(r, "#/$defs/")
		}
	}
	if d, ok := root["$defs"]; ok {
		delete(root, "$defs")
		root["definitions"] = d
	}
	return tuples
}

func genOlder(t *rapid.T) confCase {
	kinds := []struct {
		name string
		gen  func(*rapid.T) confCase
	}{
		{"mix", genMix}, {"interplay", genInterplay}, {"combo", genCombo}, {"contains", genContains}, {"closed", genClosedContains}, {"nested if", genIfNested}, {"overlap", genOverlap},
	}
	k := kinds[intIn(t, "kind", 0, len(kinds)-1)]
	c := k.gen(t)
	if len(c.Oracle) > 0 {
		c.Schema = c.Oracle
	}
	c.Oracle = c.Schema
	root, ok := decodeS(c.Schema).(map[string]any)
	if !ok {
		return c
	}
	c.Tags = []string{k.name}
	if _, ok := root["$schema"]; ok {
		return c
	}
	if chance(t, "tuple", 1, 2) {
		// a tuple around it, or one that tells alternatives apart
		o := decodeS(c.Schema).(map[string]any)
		defs := map[string]any{}
		for _, k := range []string{"$defs", "definitions"} {
			if d, ok := o[k]; ok {
				defs[k] = d
				delete(o, k)
			}
		}
		switch intIn(t, "around", 0, 3) {
		case 0:
			defs["type"], defs["prefixItems"], defs["minItems"], defs["maxItems"] = "array", []any{o, S{"type": "boolean"}}, 1, 3
		case 1:
			defs["oneOf"] = []any{S{"type": "array", "prefixItems": []any{S{"const": "x"}, o}, "items": false, "minItems": 2}, S{"type": "array", "prefixItems": []any{S{"const": "y"}}, "items": S{"type": "integer"}, "minItems": 1, "maxItems": 3}}
		case 2:
			defs["type"], defs["items"], defs["minItems"], defs["maxItems"] = "array", S{"type": []any{"integer", "string"}}, 1, 4
			defs["if"] = S{"prefixItems": []any{S{"type": "integer"}}}
			defs["then"] = S{"minItems": 2}
			defs["else"] = S{"prefixItems": []any{S{}, S{"type": "integer"}}}
		default:
			defs["anyOf"] = []any{S{"type": "null"}, S{"allOf": []any{S{"type": "array", "prefixItems": []any{o}, "minItems": 1, "maxItems": 2}, S{"prefixItems": []any{S{}, S{"type": "null"}}}}}}
		}
		root = decodeS(raw(defs)).(map[string]any)
		c.Oracle = raw(root)
	}
	n := olderDialect(root)
	if n > 0 {
		c.Tags = append(c.Tags, "tuple")
	}
	js := string(raw(root))
	if !strings.Contains(js, "Contains\"") && !strings.Contains(js, "unevaluated") && chance(t, "dialect", 1, 2) {
		root["$schema"] = pick(t, "schema", "http://json-schema.org/draft-07/schema#", "http://json-schema.org/draft-07/schema", "http://json-schema.org/draft-06/schema#")
		if strings.Contains(js, `"if"`) {
			root["$schema"] = "http://json-schema.org/draft-07/schema#"
		}
	}
	c.Schema = raw(root)
	c.MayReport = "merging items given as a list of schemas is not supported"
	if strings.Contains(js, `"not"`) && n > 0 {
		c.Accept = false // the parts of tuples are not negated, which is reported
	}
	return c
}

func init() {
	register("C06", mkFacet("older", "schemas of seven other facets, half of them with tuples around them, written the way draft-07 did (items and additionalItems for prefixItems and items, definitions for $defs), with and without $schema, judged by the schemas they were written from; non-trivial: two different values judged", 3000, 60000, 3, genOlder, decideConf))
}
