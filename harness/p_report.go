package main

import (
	"encoding/json"
	"fmt"

	"pgregory.net/rapid"
)

// reportCase: a schema with a part nothing satisfies (or nothing supports), and
// the same schema with a part that is all right in its place.
type reportCase struct {
	Bad  json.RawMessage `json:"bad"`
	Good json.RawMessage `json:"good"`
	Tags []string        `json:"tags"`
}

// decideReport: the first is reported, the second is not.
func decideReport(c reportCase) Result {
	res := Result{Labels: c.Tags, Evals: 2}
	if p := parseWith(c.Good, nil); !p.clean() {
		res.Viol = fmt.Sprintf("satisfiable schema is reported as unusable: %s: %s", p.why(), clip(string(c.Good), 400))
		return res
	}
	p := parseWith(c.Bad, nil)
	if p.clean() {
		js, _ := json.Marshal(p.g.Generate(optsFor(nil, 1)))
		res.Viol = fmt.Sprintf("a part that cannot be generated for is not reported, generated %s", clip(string(js), 300))
		return res
	}
	if p.err == nil && !p.g.Metadata.Errors.HasErrors() {
		res.Viol = "HasErrors says there are none"
	}
	res.Nontrivial = true
	return res
}

type pair struct {
	name      string
	bad, good func(t *rapid.T, l string) S
}

func brokenParts() []pair {
	n := func(t *rapid.T, l string) int { return intIn(t, l+"n", 0, 6) }
	k := func(t *rapid.T, l string) int { return intIn(t, l+"k", 1, 5) }
	bounds := func(name, typ, lo, hi string) pair {
		return pair{name,
			func(t *rapid.T, l string) S { a := n(t, l); return S{"type": typ, hi: a, lo: a + k(t, l)} },
			func(t *rapid.T, l string) S { a := n(t, l); return S{"type": typ, lo: a, hi: a + k(t, l)} }}
	}
	str := func(t *rapid.T, l string) S { return S{"type": "string"} }
	integer := func(t *rapid.T, l string) S { return S{"type": "integer"} }
	obj := func(t *rapid.T, l string) S { return S{"type": "object", "properties": S{"a": S{"type": "null"}}} }
	arr := func(t *rapid.T, l string) S { return S{"type": "array", "items": S{"type": "null"}} }
	return []pair{
		bounds("minimum>maximum", "number", "minimum", "maximum"),
		bounds("integer minimum>maximum", "integer", "minimum", "maximum"),
		bounds("minLength>maxLength", "string", "minLength", "maxLength"),
		bounds("minItems>maxItems", "array", "minItems", "maxItems"),
		bounds("minProperties>maxProperties", "object", "minProperties", "maxProperties"),
		{"minContains>maxContains",
			func(t *rapid.T, l string) S {
				a := k(t, l)
				return S{"type": "array", "contains": S{"type": "integer"}, "maxContains": a, "minContains": a + k(t, l)}
			},
			func(t *rapid.T, l string) S {
				return S{"type": "array", "contains": S{"type": "integer"}, "minContains": 2, "maxContains": 5}
			}},
		{"no integer between",
			func(t *rapid.T, l string) S {
				a := n(t, l)
				return S{"type": "integer", "exclusiveMinimum": a, "exclusiveMaximum": a + 1}
			},
			func(t *rapid.T, l string) S {
				a := n(t, l)
				return S{"type": "integer", "exclusiveMinimum": a, "exclusiveMaximum": a + 2}
			}},
		{"no integer at",
			func(t *rapid.T, l string) S {
				a := dec(int64(n(t, l))*10+5, 1)
				return pick(t, l+"at", S{"type": "integer", "minimum": a, "maximum": a}, S{"type": "integer", "multipleOf": 1, "minimum": a, "maximum": a}, S{"type": "integer", "minimum": a, "exclusiveMaximum": dec(int64(n(t, l+"x"))+60, 1), "maximum": a})
			},
			func(t *rapid.T, l string) S {
				a := n(t, l)
				return S{"type": "integer", "minimum": a, "maximum": a}
			}},
		{"none of the types",
			func(t *rapid.T, l string) S {
				return pick(t, l+"none",
					S{"type": []any{"string"}, "minLength": 5, "maxLength": 2},
					S{"type": []any{"integer"}, "minimum": 5, "maximum": 2},
					S{"type": []any{"array"}, "minItems": 5, "maxItems": 2},
					S{"type": []any{"object"}, "minProperties": 5, "maxProperties": 2},
					S{"type": []any{"string", "integer"}, "minLength": 5, "maxLength": 2, "minimum": 3, "maximum": 1},
					S{"type": []any{"object", "array"}, "minProperties": 5, "maxProperties": 2, "minItems": 3, "maxItems": 1},
					S{"type": []any{"number", "string", "array"}, "minimum": 5, "maximum": 2, "minLength": 3, "maxLength": 1, "minItems": 3, "maxItems": 1})
			},
			func(t *rapid.T, l string) S {
				return pick(t, l+"some",
					S{"type": []any{"string"}, "minLength": 2, "maxLength": 5},
					S{"type": []any{"string", "null"}, "minLength": 5, "maxLength": 2},
					S{"type": []any{"boolean", "string", "integer"}, "minLength": 5, "maxLength": 2, "minimum": 3, "maximum": 1})
			}},
		{"no multiple between",
			func(t *rapid.T, l string) S {
				a := k(t, l) + 2
				return S{"type": "integer", "minimum": a*7 + 1, "maximum": a*7 + 2, "multipleOf": a}
			},
			func(t *rapid.T, l string) S {
				a := k(t, l) + 2
				return S{"type": "integer", "minimum": a*7 + 1, "maximum": a * 8, "multipleOf": a}
			}},
		{"pattern does not compile",
			func(t *rapid.T, l string) S {
				return S{"type": "string", "pattern": pick(t, l+"re", "(", "[", "a{2,1}", "*", "(?<x", "\\")}
			},
			func(t *rapid.T, l string) S { return S{"type": "string", "pattern": "^a+$"} }},
		{"patternProperties does not compile",
			func(t *rapid.T, l string) S {
				return S{"type": "object", "patternProperties": S{pick(t, l+"re", "(", "[", "*"): S{"type": "null"}}}
			},
			obj},
		{"reference to nothing",
			func(t *rapid.T, l string) S {
				return S{"$ref": pick(t, l+"ref", "#/$defs/none", "#/$defs/none/properties/a", "#nowhere", "#/properties", "other.json", "http://127.0.0.1:9/x.json", "#/$defs")}
			},
			integer},
		{"dependentRequired", func(t *rapid.T, l string) S { return S{"type": "object", "dependentRequired": S{"a": []any{"b"}}} }, obj},
		{"dependentSchemas", func(t *rapid.T, l string) S {
			return S{"type": "object", "dependentSchemas": S{"a": S{"required": []any{"b"}}}}
		}, obj},
		{"const against type", func(t *rapid.T, l string) S { return S{"type": "string", "const": n(t, l)} }, func(t *rapid.T, l string) S { return S{"type": "integer", "const": n(t, l)} }},
		{"const against bounds", func(t *rapid.T, l string) S { return S{"minimum": 10, "const": n(t, l)} }, func(t *rapid.T, l string) S { return S{"minimum": 10, "const": 10 + n(t, l)} }},
		{"enum against type", func(t *rapid.T, l string) S { return S{"type": "string", "enum": []any{n(t, l), true}} }, func(t *rapid.T, l string) S { return S{"type": "boolean", "enum": []any{n(t, l), true}} }},
		{"required not allowed", func(t *rapid.T, l string) S {
			return S{"type": "object", "additionalProperties": false, "properties": S{"a": S{"type": "null"}}, "required": []any{"a", "b"}}
		}, func(t *rapid.T, l string) S {
			return S{"type": "object", "additionalProperties": false, "properties": S{"a": S{"type": "null"}}, "required": []any{"a"}}
		}},
		{"more required than maxProperties", func(t *rapid.T, l string) S {
			return S{"type": "object", "maxProperties": intIn(t, l+"m", 0, 1), "required": []any{"a", "b"}}
		}, func(t *rapid.T, l string) S {
			return S{"type": "object", "maxProperties": 2, "required": []any{"a", "b"}}
		}},
		{"closed object too small", func(t *rapid.T, l string) S {
			return S{"type": "object", "additionalProperties": false, "properties": S{"a": S{"type": "null"}}, "minProperties": 1 + k(t, l)}
		}, func(t *rapid.T, l string) S {
			return S{"type": "object", "additionalProperties": false, "properties": S{"a": S{"type": "null"}}, "minProperties": 1}
		}},
		{"tuple longer than maxItems", func(t *rapid.T, l string) S {
			return S{"type": "array", "prefixItems": []any{S{"type": "null"}, S{"type": "null"}}, "minItems": 2, "maxItems": intIn(t, l+"m", 0, 1)}
		}, arr},
		{"closed tuple too short", func(t *rapid.T, l string) S {
			return S{"type": "array", "prefixItems": []any{S{"type": "null"}}, "items": false, "minItems": 1 + k(t, l)}
		}, func(t *rapid.T, l string) S {
			return S{"type": "array", "prefixItems": []any{S{"type": "null"}}, "items": false, "minItems": 1}
		}},
		{"contains against items", func(t *rapid.T, l string) S {
			return S{"type": "array", "items": S{"type": "string"}, "contains": S{"type": "integer"}}
		},
			func(t *rapid.T, l string) S {
				return S{"type": "array", "items": S{"type": "string"}, "contains": S{"type": "string", "maxLength": 3}}
			}},
		{"allOf of two types", func(t *rapid.T, l string) S { return S{"allOf": []any{S{"type": "string"}, S{"type": "integer"}}} }, func(t *rapid.T, l string) S { return S{"allOf": []any{S{"type": "number"}, S{"type": "integer"}}} }},
		{"allOf of two constants", func(t *rapid.T, l string) S { return S{"allOf": []any{S{"const": 1}, S{"const": "1"}}} }, func(t *rapid.T, l string) S { return S{"allOf": []any{S{"const": 1}, S{"enum": []any{1, 2}}}} }},
		{"allOf of bounds", func(t *rapid.T, l string) S {
			return S{"type": "integer", "allOf": []any{S{"minimum": 10}, S{"maximum": n(t, l)}}}
		}, func(t *rapid.T, l string) S {
			return S{"type": "integer", "allOf": []any{S{"minimum": 10}, S{"maximum": 10 + n(t, l)}}}
		}},
		{"allOf of lengths", func(t *rapid.T, l string) S {
			return S{"allOf": []any{S{"type": "string", "minLength": 3 + n(t, l)}, S{"type": "string", "maxLength": 2}}}
		}, func(t *rapid.T, l string) S {
			return S{"allOf": []any{S{"type": "string", "minLength": 1}, S{"type": "string", "maxLength": 2}}}
		}},
		{"allOf of array sizes", func(t *rapid.T, l string) S {
			return S{"allOf": []any{S{"type": "array", "minItems": 3 + n(t, l)}, S{"type": "array", "maxItems": 2}}}
		}, func(t *rapid.T, l string) S {
			return S{"allOf": []any{S{"type": "array", "minItems": 1}, S{"type": "array", "maxItems": 2}}}
		}},
		{"allOf of object sizes", func(t *rapid.T, l string) S {
			return S{"allOf": []any{S{"type": "object", "minProperties": 3 + n(t, l)}, S{"maxProperties": 2}}}
		}, func(t *rapid.T, l string) S {
			return S{"allOf": []any{S{"type": "object", "minProperties": 1}, S{"maxProperties": 2}}}
		}},
		{"allOf of a property", func(t *rapid.T, l string) S {
			return S{"allOf": []any{S{"type": "object", "properties": S{"a": S{"type": "string"}}, "required": []any{"a"}}, S{"properties": S{"a": S{"type": "integer"}}}}}
		}, func(t *rapid.T, l string) S {
			return S{"allOf": []any{S{"type": "object", "properties": S{"a": S{"type": "number"}}, "required": []any{"a"}}, S{"properties": S{"a": S{"type": "integer"}}}}}
		}},
		{"allOf of items", func(t *rapid.T, l string) S {
			return S{"allOf": []any{S{"type": "array", "minItems": 1, "items": S{"type": "string"}}, S{"items": S{"type": "integer"}}}}
		}, func(t *rapid.T, l string) S {
			return S{"allOf": []any{S{"type": "array", "minItems": 1, "items": S{"type": "number"}}, S{"items": S{"type": "integer"}}}}
		}},
		{"allOf of tuples", func(t *rapid.T, l string) S {
			return S{"allOf": []any{S{"type": "array", "minItems": 1, "prefixItems": []any{S{"type": "string"}}}, S{"prefixItems": []any{S{"type": "integer"}}}}}
		}, func(t *rapid.T, l string) S {
			return S{"allOf": []any{S{"type": "array", "minItems": 1, "prefixItems": []any{S{"type": "number"}}}, S{"prefixItems": []any{S{"type": "integer"}}}}}
		}},
		{"allOf of enums", func(t *rapid.T, l string) S {
			return S{"allOf": []any{S{"enum": []any{1, 2}}, S{"enum": []any{"1", 3}}}}
		}, func(t *rapid.T, l string) S {
			return S{"allOf": []any{S{"enum": []any{1, 2}}, S{"enum": []any{"1", 2}}}}
		}},
		{"allOf of required and closed", func(t *rapid.T, l string) S {
			return S{"allOf": []any{S{"type": "object", "properties": S{"a": S{}}, "additionalProperties": false}, S{"required": []any{"b"}}}}
		}, func(t *rapid.T, l string) S {
			return S{"allOf": []any{S{"type": "object", "properties": S{"a": S{}}, "additionalProperties": false}, S{"required": []any{"a"}}}}
		}},
		{"allOf of patterns", func(t *rapid.T, l string) S {
			return S{"allOf": []any{S{"type": "string", "pattern": "^a"}, S{"type": "string", "pattern": "^b"}}}
		}, func(t *rapid.T, l string) S {
			return S{"allOf": []any{S{"type": "string", "pattern": "^a"}, S{"type": "string", "pattern": "^a"}}}
		}},
		{"enum against pattern", func(t *rapid.T, l string) S { return S{"enum": []any{"x", "y"}, "pattern": "^a"} }, func(t *rapid.T, l string) S { return S{"enum": []any{"x", "ay"}, "pattern": "^a"} }},
		{"const object against required", func(t *rapid.T, l string) S { return S{"const": S{"a": 1}, "required": []any{"b"}} }, func(t *rapid.T, l string) S { return S{"const": S{"a": 1}, "required": []any{"a"}} }},
		{"anyOf without a way", func(t *rapid.T, l string) S {
			return S{"type": "string", "anyOf": []any{S{"type": "integer"}, S{"type": "null"}}}
		}, func(t *rapid.T, l string) S {
			return S{"type": "string", "anyOf": []any{S{"type": "integer"}, S{"maxLength": 4}}}
		}},
		{"oneOf without a way", func(t *rapid.T, l string) S {
			return S{"type": "string", "oneOf": []any{S{"type": "integer"}, S{"type": "null"}}}
		}, func(t *rapid.T, l string) S {
			return S{"type": "string", "oneOf": []any{S{"type": "integer"}, S{"maxLength": 4}}}
		}},
		{"not of its own type", func(t *rapid.T, l string) S { return S{"type": "string", "not": S{"type": "string"}} }, func(t *rapid.T, l string) S { return S{"type": "string", "not": S{"type": "integer"}} }},
		{"not of its own bound", func(t *rapid.T, l string) S {
			return S{"type": "integer", "minimum": 5, "not": S{"minimum": n(t, l) % 5}}
		}, func(t *rapid.T, l string) S { return S{"type": "integer", "minimum": 5, "not": S{"minimum": 7}} }},
		{"not of its only value", func(t *rapid.T, l string) S { return S{"const": 3, "not": S{"const": 3}} }, func(t *rapid.T, l string) S { return S{"const": 3, "not": S{"const": 4}} }},
		{"format and pattern", func(t *rapid.T, l string) S { return S{"type": "string", "format": "ipv4", "pattern": "^1"} }, str},
		{"format and length", func(t *rapid.T, l string) S { return S{"type": "string", "format": "ipv4", "maxLength": 9} }, str},
		{"pattern and length", func(t *rapid.T, l string) S { return S{"type": "string", "pattern": "^a*$", "minLength": 3} }, str},
		{"unknown type", func(t *rapid.T, l string) S { return S{"type": pick(t, l+"ty", "strin", "Integer", "any", "float")} }, str},
		{"empty enum", func(t *rapid.T, l string) S { return S{"type": "string", "enum": []any{}} }, str},
		{"negative size", func(t *rapid.T, l string) S {
			return pick(t, l+"neg", S{"type": "string", "minLength": -1}, S{"type": "string", "maxLength": -1}, S{"type": "object", "minProperties": -1}, S{"type": "object", "maxProperties": -1}, S{"type": "integer", "multipleOf": -1}, S{"type": "array", "maxItems": -1})
		}, str},
		{"value of the wrong kind", func(t *rapid.T, l string) S {
			return pick(t, l+"wk", S{"type": 3}, S{"minimum": "1"}, S{"properties": []any{}}, S{"required": "a"}, S{"allOf": S{}}, S{"items": 3}, S{"maxLength": 1.5}, S{"pattern": 1}, S{"enum": S{}}, S{"$ref": 1})
		}, str},
	}
}

func genReport(t *rapid.T) reportCase {
	k := 0
	l := func(x string) string { k++; return x + itoa(k) }
	parts := brokenParts()
	p := parts[intIn(t, "part", 0, len(parts)-1)]
	bad, good := p.bad(t, "bad"), p.good(t, "good")
	tags := []string{p.name}
	wrap := func(s S, kind string, def string, x S) S {
		switch kind {
		case "required":
			return S{"type": "object", "properties": S{"a": s, "b": x}, "required": []any{"a"}}
		case "optional":
			return S{"type": "object", "properties": S{"b": x, "opt": s}}
		case "items":
			return S{"type": "array", "items": s, "minItems": 1}
		case "prefix":
			return S{"type": "array", "prefixItems": []any{x, s}}
		case "additional":
			return S{"type": "object", "properties": S{"b": x}, "additionalProperties": s, "minProperties": 3}
		case "patternProperties":
			return S{"type": "object", "patternProperties": S{"^k": s}, "minProperties": 1}
		case "allOf":
			return S{"allOf": []any{S{"title": "t"}, s}}
		case "ref":
			return S{"$ref": "#/$defs/" + def}
		case "allOf ref":
			return S{"allOf": []any{S{"$ref": "#/$defs/" + def}, S{"title": "t"}}}
		case "contains":
			return S{"type": "array", "contains": s}
		case "anyOf":
			return S{"anyOf": []any{s, clone(s)}}
		case "object allOf":
			return S{"allOf": []any{S{"type": "object", "properties": S{"b": x}}, S{"type": "object", "properties": S{"a": s}, "required": []any{"a"}}}}
		case "else":
			return S{"type": "object", "properties": S{"b": S{"const": 1}}, "required": []any{"b"}, "if": S{"properties": S{"b": S{"const": 2}}}, "else": S{"properties": S{"a": s}, "required": []any{"a"}}}
		case "then":
			return S{"type": "object", "properties": S{"b": S{"const": 1}}, "required": []any{"b"}, "if": S{"properties": S{"b": S{"const": 1}}}, "then": S{"properties": S{"a": s}, "required": []any{"a"}}}
		}
		return s
	}
	gd, bd := S{}, S{}
	for i := intIn(t, "depth", 0, 3); i > 0; i-- {
		kind := pick(t, l("ctx"), "required", "optional", "items", "prefix", "additional", "patternProperties", "allOf", "ref", "allOf ref", "contains", "anyOf", "object allOf", "then", "else")
		def := "d" + itoa(i)
		x := pick(t, l("x"), S{"type": "integer"}, S{"enum": []any{1, 2}}, S{"type": "array", "items": S{"type": "null"}})
		if kind == "ref" || kind == "allOf ref" {
			bd[def], gd[def] = bad, good
		}
		bad, good = wrap(bad, kind, def, x), wrap(good, kind, def, x)
		tags = append(tags, "in "+kind)
	}
	if len(bd) > 0 {
		bad["$defs"], good["$defs"] = bd, gd
	}
	return reportCase{Bad: raw(bad), Good: raw(good), Tags: tags}
}

func init() {
	register("C17",
		mkFacet("report", "a part that cannot be generated for at any place of a schema, and one that can in its place; non-trivial: the first is reported, the second is not", 6000, 100000, 4, genReport, decideReport),
	)
}
