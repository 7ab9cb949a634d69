package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"net/url"
	"os"
	"regexp"
	"strings"
	"unicode/utf8"

	sj "github.com/santhosh-tekuri/jsonschema/v6"
)

// ---------------------------------------------------------------------------
// The oracle: is this JSON value valid against this JSON schema?
//
// Two independent deciders: santhosh-tekuri/jsonschema/v6 (draft 2020-12, or
// what $schema says) and the small evaluator `ref` below. A value is called
// invalid only when both say so; if they disagree the harness reports itself
// broken rather than the code under test.
// ---------------------------------------------------------------------------

var oracleDisagreements int

type oracle struct {
	schema any // decoded with json.Number
	comp   *sj.Schema
	re     *refEval
	ownOK  bool // the own evaluator knows every keyword used
}

func decodeNum(b []byte) (any, error) {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var v any
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	if dec.More() {
		return nil, fmt.Errorf("trailing data")
	}
	return v, nil
}

type noLoader struct{}

func (noLoader) Load(url string) (any, error) { return nil, fmt.Errorf("no loading: %s", url) }

func newOracle(schemaJSON []byte) (*oracle, error) {
	return newOracleDocs(schemaJSON, "mem:///root.json", nil)
}

// newOracleDocs compiles a schema given the other documents it may refer to.
func newOracleDocs(schemaJSON []byte, url string, docs map[string][]byte) (*oracle, error) {
	s, err := decodeNum(schemaJSON)
	if err != nil {
		return nil, err
	}
	c := sj.NewCompiler()
	c.UseLoader(noLoader{})
	c.AssertFormat()
	c.DefaultDraft(sj.Draft2020)
	if err := c.AddResource(url, s); err != nil {
		return nil, err
	}
	dm := map[string]any{url: s}
	for u, d := range docs {
		v, err := decodeNum(d)
		if err != nil {
			return nil, err
		}
		dm[u] = v
		if err := c.AddResource(u, v); err != nil {
			return nil, err
		}
	}
	comp, err := c.Compile(url)
	if err != nil {
		return nil, err
	}
	o := &oracle{schema: s, comp: comp}
	o.re = &refEval{docs: dm, base: url, res: map[string]*regexp.Regexp{}}
	o.ownOK = len(docs) == 0 && o.re.supported(s)
	return o, nil
}

// check returns "" when the value conforms, else why not.
func (o *oracle) check(value []byte) string {
	v, err := decodeNum(value)
	if err != nil {
		return "output is not JSON: " + err.Error()
	}
	err = o.comp.Validate(v)
	if o.ownOK {
		own := o.re.valid(o.schema, v, 0)
		if own != (err == nil) {
			// One of the deciders is wrong (the library takes 0 and "0" for equal
			// in uniqueItems, for one): nothing is decided by this value.
			if os.Getenv("VERIF_STRICT") != "" && !strings.Contains(fmt.Sprint(err), "are equal") {
				panic(harnessError{fmt.Sprintf("oracles disagree (santhosh: %v, own valid: %v)\nschema=%s\nvalue=%s", err, own, mustJSON(o.schema), value)})
			}
			oracleDisagreements++
			return ""
		}
	}
	if err != nil {
		return strings.ReplaceAll(err.Error(), "\n", " ")
	}
	return ""
}

// satisfied is check for schemas that describe what to wait for: our own
// evaluator decides where it can.
func (o *oracle) satisfied(value []byte) bool {
	if !o.ownOK {
		return o.check(value) == ""
	}
	v, err := decodeNum(value)
	if err != nil {
		return false
	}
	return o.re.valid(o.schema, v, 0)
}

func mustJSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(harnessError{err.Error()})
	}
	return string(b)
}

// ---------------------------------------------------------------------------
// Own evaluator: a direct transcription of the 2020-12 validation rules for
// the keywords the generators use. Exact rational arithmetic for numbers.
// ---------------------------------------------------------------------------

type refEval struct {
	docs map[string]any
	base string
	res  map[string]*regexp.Regexp
}

var ownKeywords = map[string]bool{
	"type": true, "enum": true, "const": true, "minimum": true, "maximum": true, "exclusiveMinimum": true,
	"exclusiveMaximum": true, "multipleOf": true, "minLength": true, "maxLength": true, "pattern": true,
	"properties": true, "required": true, "additionalProperties": true, "patternProperties": true,
	"minProperties": true, "maxProperties": true, "items": true, "prefixItems": true, "minItems": true,
	"maxItems": true, "uniqueItems": true, "contains": true, "minContains": true, "maxContains": true,
	"allOf": true, "anyOf": true, "oneOf": true, "not": true, "if": true, "then": true, "else": true,
	"$ref": true, "$defs": true, "definitions": true, "title": true, "description": true, "default": true,
	"examples": true, "$comment": true, "readOnly": true, "deprecated": true,
}

func (r *refEval) supported(s any) bool {
	m, ok := s.(map[string]any)
	if !ok {
		_, isb := s.(bool)
		return isb
	}
	for k, v := range m {
		if !ownKeywords[k] {
			return false
		}
		switch k {
		case "properties", "patternProperties", "$defs", "definitions":
			mm, ok := v.(map[string]any)
			if !ok {
				return false
			}
			for _, x := range mm {
				if !r.supported(x) {
					return false
				}
			}
		case "allOf", "anyOf", "oneOf", "prefixItems":
			aa, ok := v.([]any)
			if !ok {
				return false
			}
			for _, x := range aa {
				if !r.supported(x) {
					return false
				}
			}
		case "items":
			if _, isArr := v.([]any); isArr {
				return false
			}
			if !r.supported(v) {
				return false
			}
		case "additionalProperties", "contains", "not", "if", "then", "else":
			if !r.supported(v) {
				return false
			}
		case "$ref":
			s, ok := v.(string)
			if !ok || !strings.HasPrefix(s, "#") {
				return false
			}
		case "pattern":
			if _, err := regexp.Compile(v.(string)); err != nil {
				return false
			}
		}
	}
	return true
}

func rat(v any) (*big.Rat, bool) {
	n, ok := v.(json.Number)
	if !ok {
		return nil, false
	}
	return new(big.Rat).SetString(string(n))
}

func intOf(v any) int {
	x, ok := rat(v)
	if !ok || !x.IsInt() {
		panic(harnessError{fmt.Sprintf("not an integer keyword value: %v", v)})
	}
	if !x.Num().IsInt64() {
		return 1 << 60
	}
	return int(x.Num().Int64())
}

func typeOf(v any) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return "boolean"
	case string:
		return "string"
	case []any:
		return "array"
	case map[string]any:
		return "object"
	case json.Number:
		q, _ := rat(x)
		if q.IsInt() {
			return "integer"
		}
		return "number"
	}
	panic(harnessError{fmt.Sprintf("unexpected decoded value %T", v)})
}

func jsonEqual(a, b any) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case json.Number:
		p, _ := rat(x)
		q, ok := rat(b)
		return ok && p.Cmp(q) == 0
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !jsonEqual(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !jsonEqual(v, w) {
				return false
			}
		}
		return true
	}
	return false
}

func (r *refEval) re(p string) *regexp.Regexp {
	if x, ok := r.res[p]; ok {
		return x
	}
	x := regexp.MustCompile(p)
	r.res[p] = x
	return x
}

func (r *refEval) pointer(ref string) any {
	cur := r.docs[r.base]
	frag := strings.TrimPrefix(ref, "#")
	if frag == "" {
		return cur
	}
	for _, tok := range strings.Split(strings.TrimPrefix(frag, "/"), "/") {
		if u, err := url.PathUnescape(tok); err == nil {
			tok = u
		}
		tok = strings.ReplaceAll(strings.ReplaceAll(tok, "~1", "/"), "~0", "~")
		switch c := cur.(type) {
		case map[string]any:
			nx, ok := c[tok]
			if !ok {
				panic(harnessError{"own oracle: bad ref " + ref})
			}
			cur = nx
		case []any:
			i := 0
			for _, d := range tok {
				i = i*10 + int(d-'0')
			}
			if i >= len(c) {
				panic(harnessError{"own oracle: bad ref " + ref})
			}
			cur = c[i]
		default:
			panic(harnessError{"own oracle: bad ref " + ref})
		}
	}
	return cur
}

func (r *refEval) valid(s, v any, depth int) bool {
	if depth > 400 {
		panic(harnessError{"own oracle: recursion"})
	}
	if b, ok := s.(bool); ok {
		return b
	}
	m := s.(map[string]any)
	sub := func(s2, v2 any) bool { return r.valid(s2, v2, depth+1) }

	if ref, ok := m["$ref"].(string); ok && !sub(r.pointer(ref), v) {
		return false
	}
	if t, ok := m["type"]; ok {
		vt := typeOf(v)
		match := func(x any) bool { return x == vt || (x == "number" && vt == "integer") }
		okT := false
		switch tt := t.(type) {
		case string:
			okT = match(tt)
		case []any:
			for _, x := range tt {
				if match(x) {
					okT = true
				}
			}
		}
		if !okT {
			return false
		}
	}
	if e, ok := m["enum"].([]any); ok {
		found := false
		for _, x := range e {
			if jsonEqual(x, v) {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	if c, ok := m["const"]; ok && !jsonEqual(c, v) {
		return false
	}
	if q, ok := rat(v); ok {
		if x, ok := rat(m["minimum"]); ok && q.Cmp(x) < 0 {
			return false
		}
		if x, ok := rat(m["maximum"]); ok && q.Cmp(x) > 0 {
			return false
		}
		if x, ok := rat(m["exclusiveMinimum"]); ok && q.Cmp(x) <= 0 {
			return false
		}
		if x, ok := rat(m["exclusiveMaximum"]); ok && q.Cmp(x) >= 0 {
			return false
		}
		if x, ok := rat(m["multipleOf"]); ok && x.Sign() > 0 && !new(big.Rat).Quo(q, x).IsInt() {
			return false
		}
	}
	if str, ok := v.(string); ok {
		n := utf8.RuneCountInString(str)
		if x, ok := m["minLength"]; ok && n < intOf(x) {
			return false
		}
		if x, ok := m["maxLength"]; ok && n > intOf(x) {
			return false
		}
		if p, ok := m["pattern"].(string); ok && !r.re(p).MatchString(str) {
			return false
		}
	}
	if arr, ok := v.([]any); ok {
		if x, ok := m["minItems"]; ok && len(arr) < intOf(x) {
			return false
		}
		if x, ok := m["maxItems"]; ok && len(arr) > intOf(x) {
			return false
		}
		pre, _ := m["prefixItems"].([]any)
		for i, x := range arr {
			if i < len(pre) {
				if !sub(pre[i], x) {
					return false
				}
			} else if it, ok := m["items"]; ok && !sub(it, x) {
				return false
			}
		}
		if u, ok := m["uniqueItems"].(bool); ok && u {
			for i := range arr {
				for j := 0; j < i; j++ {
					if jsonEqual(arr[i], arr[j]) {
						return false
					}
				}
			}
		}
		if c, ok := m["contains"]; ok {
			n := 0
			for _, x := range arr {
				if sub(c, x) {
					n++
				}
			}
			lo := 1
			if x, ok := m["minContains"]; ok {
				lo = intOf(x)
			}
			if n < lo {
				return false
			}
			if x, ok := m["maxContains"]; ok && n > intOf(x) {
				return false
			}
		}
	}
	if obj, ok := v.(map[string]any); ok {
		if x, ok := m["minProperties"]; ok && len(obj) < intOf(x) {
			return false
		}
		if x, ok := m["maxProperties"]; ok && len(obj) > intOf(x) {
			return false
		}
		if rq, ok := m["required"].([]any); ok {
			for _, k := range rq {
				if _, ok := obj[k.(string)]; !ok {
					return false
				}
			}
		}
		props, _ := m["properties"].(map[string]any)
		pats, _ := m["patternProperties"].(map[string]any)
		for k, x := range obj {
			covered := false
			if ps, ok := props[k]; ok {
				covered = true
				if !sub(ps, x) {
					return false
				}
			}
			for p, ps := range pats {
				if r.re(p).MatchString(k) {
					covered = true
					if !sub(ps, x) {
						return false
					}
				}
			}
			if !covered {
				if ap, ok := m["additionalProperties"]; ok && !sub(ap, x) {
					return false
				}
			}
		}
	}
	if aa, ok := m["allOf"].([]any); ok {
		for _, x := range aa {
			if !sub(x, v) {
				return false
			}
		}
	}
	if aa, ok := m["anyOf"].([]any); ok {
		hit := false
		for _, x := range aa {
			if sub(x, v) {
				hit = true
				break
			}
		}
		if !hit {
			return false
		}
	}
	if aa, ok := m["oneOf"].([]any); ok {
		n := 0
		for _, x := range aa {
			if sub(x, v) {
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	if x, ok := m["not"]; ok && sub(x, v) {
		return false
	}
	if c, ok := m["if"]; ok {
		if sub(c, v) {
			if th, ok := m["then"]; ok && !sub(th, v) {
				return false
			}
		} else if el, ok := m["else"]; ok && !sub(el, v) {
			return false
		}
	}
	return true
}
