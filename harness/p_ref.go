package main

import (
	"strings"

	"pgregory.net/rapid"
)

// refLeaf: a small schema that is recognisable and satisfiable.
func refLeaf(t *rapid.T, l string) S {
	switch intIn(t, l, 0, 7) {
	case 7:
		// members that look like references
		return S{"enum": []any{S{"$ref": "#/nope"}, S{"$id": "color0", "$ref": "nope.json"}, S{"properties": S{"a": S{"$ref": "#"}}}}}
	case 0:
		lo := intIn(t, l+"lo", -50, 50)
		return S{"type": "integer", "minimum": lo, "maximum": lo + intIn(t, l+"w", 1, 40)}
	case 1:
		return S{"enum": []any{"red", "green", "blue"}}
	case 2:
		return S{"type": "string", "pattern": "^[a-f]{2,4}$"}
	case 3:
		return S{"type": "object", "properties": S{"q": S{"type": "integer", "minimum": 3, "maximum": 9}}, "required": []any{"q"}, "additionalProperties": false}
	case 4:
		return S{"type": "array", "items": S{"type": "boolean"}, "minItems": 1, "maxItems": 3}
	case 5:
		return S{"anyOf": []any{S{"type": "null"}, S{"type": "integer", "minimum": 70, "maximum": 80}}}
	default:
		return S{"type": []any{"boolean", "null"}}
	}
}

func ptrEscape(s string) string {
	s = strings.ReplaceAll(s, "~", "~0")
	s = strings.ReplaceAll(s, "/", "~1")
	s = strings.ReplaceAll(s, "%", "%25")
	s = strings.ReplaceAll(s, "#", "%23")
	s = strings.ReplaceAll(s, "?", "%3F")
	s = strings.ReplaceAll(s, " ", "%20")
	s = strings.ReplaceAll(s, "\"", "%22")
	s = strings.ReplaceAll(s, "^", "%5E")
	return s
}

var refNames = []string{"x", "color", "a b", "a/b", "a+b", "m~n", "100%", "items", "not", "0", "allof", "A-b_c.d", "a#b", "é", "$ref", "$id", "enum", "const", "default", "properties", "?"}

// placeLeaf puts leaf somewhere below host (a member of the schema that does
// not constrain the document's own value) and returns the pointer to it.
func placeLeaf(t *rapid.T, l string, root S, props S, leaf S) string {
	name := pick(t, l+"name", refNames...)
	free := func(m S) string {
		if _, taken := m[name]; taken || chance(t, l+"suffix", 1, 2) {
			return name + l
		}
		return name
	}
	switch intIn(t, l+"loc", 0, 17) {
	case 14:
		props["h"+l] = S{"type": "array", "prefixItems": []any{S{"type": "null"}}, "unevaluatedItems": leaf, "maxItems": 3}
		return "#/properties/h" + l + "/unevaluatedItems"
	case 15:
		props["h"+l] = S{"type": "array", "contains": leaf, "minItems": 1, "maxItems": 2}
		return "#/properties/h" + l + "/contains"
	case 16:
		defs := sub(root, "$defs")
		defs["c"+l] = S{"if": S{"type": "string"}, "then": S{"type": "string"}, "else": leaf}
		return "#/$defs/c" + l + "/else"
	case 17:
		defs := sub(root, "$defs")
		defs["c"+l] = S{"if": leaf, "then": S{}, "else": S{"type": "integer"}}
		return "#/$defs/c" + l + "/if"
	case 0, 1:
		defs := sub(root, "$defs")
		name = free(defs)
		defs[name] = leaf
		return "#/$defs/" + ptrEscape(name)
	case 2:
		defs := sub(root, "definitions")
		name = free(defs)
		defs[name] = leaf
		return "#/definitions/" + ptrEscape(name)
	case 3:
		name = free(props)
		props[name] = leaf
		return "#/properties/" + ptrEscape(name)
	case 4:
		props["h"+l] = S{"type": "array", "items": leaf, "maxItems": 2}
		return "#/properties/h" + l + "/items"
	case 5:
		props["h"+l] = S{"type": "array", "prefixItems": []any{S{"type": "null"}, leaf}, "maxItems": 2}
		return "#/properties/h" + l + "/prefixItems/1"
	case 6:
		props["h"+l] = S{"type": "object", "additionalProperties": leaf, "maxProperties": 2}
		return "#/properties/h" + l + "/additionalProperties"
	case 7:
		props["h"+l] = S{"type": "object", "patternProperties": S{"^k[0-9]$": leaf}, "additionalProperties": false}
		return "#/properties/h" + l + "/patternProperties/" + ptrEscape("^k[0-9]$")
	case 8:
		props["h"+l] = S{"anyOf": []any{S{"type": "null"}, leaf}}
		return "#/properties/h" + l + "/anyOf/1"
	case 9:
		props["h"+l] = S{"type": "object", "properties": S{"in": S{"type": "object", "properties": S{"deep": leaf}}}}
		return "#/properties/h" + l + "/properties/in/properties/deep"
	case 10:
		defs := sub(root, "$defs")
		defs["outer"+l] = S{"type": "object", "$defs": S{"inner": leaf}, "properties": S{"z": S{"$ref": "#/$defs/outer" + l + "/$defs/inner"}}}
		return "#/$defs/outer" + l + "/$defs/inner"
	case 11:
		props["h"+l] = S{"oneOf": []any{S{"const": "no"}, leaf}}
		return "#/properties/h" + l + "/oneOf/1"
	case 12:
		defs := sub(root, "$defs")
		defs["c"+l] = S{"if": S{"type": "string"}, "then": leaf, "else": S{"type": "integer"}}
		return "#/$defs/c" + l + "/then"
	default:
		defs := sub(root, "$defs")
		if leaf["anyOf"] != nil {
			defs["n"+l] = leaf
			return "#/$defs/n" + l
		}
		defs["n"+l] = S{"not": leaf}
		return "#/$defs/n" + l + "/not"
	}
}

func sub(s S, k string) S {
	m, ok := s[k].(S)
	if !ok {
		m = S{}
		s[k] = m
	}
	return m
}

// useRef gives a schema that refers to ptr in some position; leaf is what is there.
func useRef(t *rapid.T, l string, root S, ptr string, leaf S, merging bool) S {
	r := S{"$ref": ptr}
	hi := 5
	if merging {
		hi = 11
	}
	switch intIn(t, l+"use", 0, hi) {
	case 0, 1:
		return r
	case 2:
		return S{"type": "array", "items": r, "minItems": 1, "maxItems": 3}
	case 3:
		return S{"type": "array", "prefixItems": []any{r, S{"type": "integer"}}, "minItems": 1, "maxItems": 3}
	case 4:
		return S{"type": "object", "additionalProperties": r, "minProperties": 1, "maxProperties": 3}
	case 5:
		// a chain of references
		sub(root, "$defs")["chain"+l] = r
		return S{"$ref": "#/$defs/chain" + l}
	case 6:
		return S{"allOf": []any{r}}
	case 7:
		if leaf == nil {
			// merging alternatives with themselves leaves impossible pairs behind
			return S{"allOf": []any{r}, "description": "once"}
		}
		return S{"allOf": []any{r, r}}
	case 8:
		return S{"anyOf": []any{r, S{"type": "array", "items": r, "maxItems": 1}}}
	case 9:
		return S{"oneOf": []any{r, S{"const": "no such value"}}}
	case 10:
		return S{"type": "array", "contains": r, "minItems": 1, "maxItems": 2}
	default:
		return S{"anyOf": []any{S{"allOf": []any{r}}}}
	}
}

func genRef(merging bool) func(t *rapid.T) confCase {
	return func(t *rapid.T) confCase {
		props := S{}
		root := S{"type": "object", "properties": props}
		req := []any{}
		n := intIn(t, "n", 1, 3)
		for i := 0; i < n; i++ {
			l := itoa(i)
			leaf := refLeaf(t, "leaf"+l)
			ptr := placeLeaf(t, l, root, props, leaf)
			props["use"+l] = useRef(t, "u"+l, root, ptr, leaf, merging)
			req = append(req, "use"+l)
		}
		root["required"] = req
		tag := "plain-root"
		switch intIn(t, "rootform", 0, 5) {
		case 3:
			root["anyOf"] = []any{S{"minProperties": 1}, S{}}
			tag = "anyOf-root"
		case 4:
			root["allOf"] = []any{S{"maxProperties": 20}}
			tag = "allOf-root"
		case 5:
			root["if"] = S{"required": []any{"use0"}}
			root["then"] = S{"minProperties": 1}
			tag = "if-root"
		}
		if chance(t, "id", 1, 4) {
			root["$id"] = "https://example.com/schemas/root.json"
		}
		c := conf(t, root, 8, true, true, tag)
		c.SomeOK = true
		c.steps()
		return c
	}
}

// genRefId: refer to sub-schemas through their $id.
func genRefId(t *rapid.T) confCase {
	props := S{}
	root := S{"type": "object", "properties": props}
	if chance(t, "rootid", 2, 3) {
		root["$id"] = pick(t, "rid", "https://example.com/schemas/root.json", "https://example.com/", "http://localhost:1234/a/b")
	}
	req := []any{}
	for i, n := 0, intIn(t, "n", 1, 3); i < n; i++ {
		l := itoa(i)
		leaf := refLeaf(t, "leaf"+l)
		id := pick(t, l+"id", "color", "item.json", "sub/shape") + l
		tail := ""
		if chance(t, l+"tail", 1, 3) {
			// a pointer that starts at the sub-schema with the $id; the document has another schema there
			name := pick(t, l+"tailname", "x", "a b", "p/q")
			tail = pick(t, l+"tailin", "$defs", "definitions", "properties")
			decoy := refLeaf(t, l+"decoy")
			at := props
			if tail != "properties" {
				at = sub(root, tail)
			}
			if _, taken := at[name]; !taken {
				at[name] = decoy
			}
			leaf = S{"type": "object", tail: S{name: leaf}}
			tail = "#/" + tail + "/" + ptrEscape(name)
		}
		leaf["$id"] = id
		name := pick(t, l+"at", "d", "d", "p/q", "m~n", "100%", "é", "a#b", "$ref", "enum", "default", "") + pick(t, l+"atsuffix", l, l, "")
		where := sub(root, "$defs")
		below := ""
		var from S
		switch intIn(t, l+"where", 0, 7) {
		case 0, 1:
			where = props
		case 3, 4:
			// below a schema with an $id of its own, in another directory
			at := where
			if chance(t, l+"inprops", 1, 3) {
				at = props
			}
			mid := sub(at, "res"+l)
			below = pick(t, l+"midid", "dir"+l+"/", "far"+l+"/er/")
			mid["$id"] = below + pick(t, l+"midname", "mid.json", "")
			where = sub(mid, pick(t, l+"midin", "$defs", "properties"))
			if chance(t, l+"inmid", 1, 2) {
				// used from there, by what is the name there
				from = mid
			}
		case 2:
			// below a schema without an $id
			where = sub(sub(where, "mid "+l+"/%"), "properties")
		}
		if _, taken := where[name]; taken {
			name += l
		}
		where[name] = leaf
		ref := below + id
		if root["$id"] != nil && chance(t, l+"abs", 1, 4) {
			base := root["$id"].(string)
			ref = base[:strings.LastIndex(base, "/")+1] + below + id
		}
		ref += tail
		if from != nil {
			in := id + tail
			if where := from["$defs"]; where != nil && chance(t, l+"local", 1, 2) {
				// or by a pointer, which starts at the sub-schema with the $id as well
				in = "#/$defs/" + ptrEscape(name) + strings.TrimPrefix(tail, "#")
			}
			from["type"] = "object"
			sub(from, "properties")["use"] = S{"$ref": in}
			from["required"] = []any{"use"}
			ref = from["$id"].(string)
		}
		u := S{"$ref": ref}
		switch intIn(t, l+"use", 0, 3) {
		case 1:
			u = S{"type": "array", "items": u, "minItems": 1, "maxItems": 2}
		case 2:
			u = S{"anyOf": []any{u, S{"type": "array", "maxItems": 0}}}
		case 3:
			u = S{"allOf": []any{u}}
		}
		props["use"+l] = u
		req = append(req, "use"+l)
	}
	root["required"] = req
	c := conf(t, root, 8, true, true)
	c.SomeOK = true
	c.steps()
	return c
}

// genRefSiblings: keywords next to $ref narrow what it refers to.
func genRefSiblings(t *rapid.T) confCase {
	sib := func(l string) (S, S) {
		switch intIn(t, l, 0, 5) {
		case 0:
			return S{"type": "integer", "minimum": 0, "maximum": 100}, S{"minimum": 60}
		case 1:
			return S{"type": "integer", "minimum": 0, "maximum": 100}, S{"multipleOf": 7}
		case 2:
			return S{"type": "string"}, S{"minLength": 4, "maxLength": 6}
		case 3:
			return S{"type": "object", "properties": S{"a": S{"type": "integer"}}}, S{"required": []any{"a"}, "properties": S{"b": S{"const": 1}}}
		case 4:
			return S{"enum": []any{"a", "b", "c", "d"}}, S{"enum": []any{"c", "d", "e"}}
		default:
			return S{"type": "array", "items": S{"type": "integer"}}, S{"minItems": 2, "maxItems": 3}
		}
	}
	root := S{"type": "object"}
	props := S{}
	req := []any{}
	for i, n := 0, intIn(t, "n", 1, 3); i < n; i++ {
		l := itoa(i)
		target, s := sib("s" + l)
		sub(root, "$defs")["d"+l] = target
		u := mergeNew(s, S{"$ref": "#/$defs/d" + l})
		switch intIn(t, l+"use", 0, 4) {
		case 1:
			u = S{"type": "array", "items": u, "minItems": 1, "maxItems": 2}
		case 2:
			u = S{"anyOf": []any{u, S{"type": "boolean"}}}
		case 3:
			u = S{"allOf": []any{u}}
		case 4:
			sub(root, "$defs")["via"+l] = u
			u = S{"$ref": "#/$defs/via" + l}
		}
		props["use"+l] = u
		req = append(req, "use"+l)
	}
	root["properties"] = props
	root["required"] = req
	c := conf(t, root, 8, true, true)
	c.SomeOK = true
	c.steps()
	return c
}

// genRefRecursive: schemas that refer to themselves.
func genRefRecursive(t *rapid.T) confCase {
	val := refLeaf(t, "val")
	var root S
	tag := ""
	switch intIn(t, "shape", 0, 5) {
	case 0:
		tag = "list"
		root = S{"type": "object", "properties": S{"value": val, "next": S{"$ref": "#"}}, "required": []any{"value"}}
	case 1:
		tag = "tree"
		root = S{"$ref": "#/$defs/tree", "$defs": S{"tree": S{"type": "object", "properties": S{"value": val, "kids": S{"type": "array", "items": S{"$ref": "#/$defs/tree"}, "maxItems": 2}}, "required": []any{"value"}}}}
	case 2:
		tag = "mutual"
		root = S{"type": "object", "properties": S{"a": S{"$ref": "#/$defs/a"}}, "required": []any{"a"}, "$defs": S{
			"a": S{"type": "object", "properties": S{"value": val, "b": S{"$ref": "#/$defs/b"}}, "required": []any{"value"}},
			"b": S{"type": "object", "properties": S{"a": S{"$ref": "#/$defs/a"}, "stop": S{"type": "boolean"}}},
		}}
	case 3:
		tag = "anyOf"
		root = S{"$ref": "#/$defs/e", "$defs": S{"e": S{"anyOf": []any{val, S{"type": "object", "properties": S{"op": S{"enum": []any{"+", "-"}}, "arg": S{"$ref": "#/$defs/e"}}, "required": []any{"op"}, "additionalProperties": false}}}}}
	case 4:
		tag = "oneOf"
		root = S{"oneOf": []any{S{"type": "string", "minLength": 1}, S{"type": "array", "items": S{"$ref": "#"}, "maxItems": 2}}}
	default:
		tag = "allOf"
		root = S{"allOf": []any{S{"$ref": "#/$defs/base"}, S{"properties": S{"extra": S{"type": "integer"}}}}, "$defs": S{
			"base": S{"type": "object", "properties": S{"value": val, "child": S{"$ref": "#"}}, "required": []any{"value"}},
		}}
	}
	c := conf(t, root, 12, true, true, tag)
	// optional properties are mostly there, so the others rarely end early;
	// with 64 values, these two do
	if tag == "anyOf" || tag == "oneOf" {
		c.SomeOK = true
		c.N = 64
	}
	o := &GenOpts{}
	if chance(t, "bypass", 1, 2) {
		o.BypassCyclicReferenceCheck = true
	}
	o.MaximumReferenceDepth = intIn(t, "depth", 1, 8)
	o.MaximumGenerationSteps = 1 << 20
	o.CutoffGenerationSteps = 1 << 21
	c.Opts = o
	return c
}

func init() {
	register("C12",
		mkFacet("lazy", "one to three references to sub-schemas anywhere in the document ($defs, definitions, properties, items, prefixItems, additionalProperties, patternProperties, anyOf, oneOf, then, not, nested $defs; names that need escaping), used from properties, arrays, objects and chains, below a plain, anyOf, allOf or if root; non-trivial: accepted without a report and two different values judged", 4000, 80000, 3, genRef(false), decideConf),
		mkFacet("merge", "the same references where they are merged: inside allOf, anyOf, oneOf and contains as well; same rule", 4000, 80000, 3, genRef(true), decideConf),
		mkFacet("id", "references to sub-schemas through their $id, relative or absolute; same rule", 2000, 40000, 2, genRefId, decideConf),
		mkFacet("siblings", "keywords next to a $ref that narrow what it refers to (a listed finding: replayed, not searched)", 0, 0, 2, genRefSiblings, decideConf),
		mkFacet("recursive", "lists, trees, mutual recursion and recursion through anyOf, oneOf and allOf, cyclic reference check on or bypassed, depth limits of 1 to 8; a value is judged unless it holds one of the documented texts for cycles; some value has to be judged; same rule", 2000, 40000, 2, genRefRecursive, decideConf),
	)
}
