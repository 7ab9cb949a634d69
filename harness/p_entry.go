package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
	"pgregory.net/rapid"
)

// --- entry: which function parses a schema makes no difference --------------

type entryCase struct {
	Schema []byte   `json:"schema"`
	Name   string   `json:"name"` // of the file
	Cwd    string   `json:"cwd"`  // name of the working directory
	Opts   *GenOpts `json:"opts,omitempty"`
	Seed   int64    `json:"seed"`
	N      int      `json:"n"`
	Valid  bool     `json:"valid,omitempty"`  // satisfiable
	Values bool     `json:"values,omitempty"` // all of what is generated comes from the source of the options
	Tags   []string `json:"tags,omitempty"`
}

// anyDocument: documents are named after the file, or at random where there is none.
var anyDocument = regexp.MustCompile(`file:/[^|"\s]*`)

func plainText(s string) string { return anyDocument.ReplaceAllString(s, "file") }

// outcome: what is reported and generated, as text.
func (c entryCase) outcome(p parsed, dir string) (string, error) {
	var b strings.Builder
	norm := func(s string) string {
		return plainText(strings.ReplaceAll(s, dir, "/dir"))
	}
	if p.err != nil {
		return "error", nil
	}
	for _, k := range sortedKeys(p.errs) {
		fmt.Fprintf(&b, "reported at %s\n", norm(k))
	}
	for i := range c.N {
		seedGlobals(c.Seed + int64(i))
		js, err := json.Marshal(plainGiveUps(p.g.Generate(optsFor(c.Opts, c.Seed+int64(i)))))
		if err != nil {
			return "", err
		}
		if c.Values {
			fmt.Fprintf(&b, "%s\n", js)
		}
	}
	return b.String(), nil
}

func decideEntry(c entryCase) Result {
	res := Result{Labels: c.Tags, Evals: c.N}
	dir := scratch()
	defer os.RemoveAll(dir)
	file := writeFileIn(dir, c.Cwd+"/"+c.Name, c.Schema)
	home, err := os.Getwd()
	if err == nil {
		err = os.Chdir(filepath.Join(dir, c.Cwd))
	}
	if err != nil {
		panic(harnessError{err.Error()})
	}
	defer os.Chdir(home)
	ways := []struct {
		name  string
		parse func() (chaff.RootGenerator, error)
	}{
		{"ParseSchema", func() (chaff.RootGenerator, error) { return chaff.ParseSchema(c.Schema, &chaff.ParserOptions{}) }},
		{"ParseSchemaWithDefaults", func() (chaff.RootGenerator, error) { return chaff.ParseSchemaWithDefaults(c.Schema) }},
		{"ParseSchemaString", func() (chaff.RootGenerator, error) {
			return chaff.ParseSchemaString(string(c.Schema), &chaff.ParserOptions{})
		}},
		{"ParseSchemaStringWithDefaults", func() (chaff.RootGenerator, error) { return chaff.ParseSchemaStringWithDefaults(string(c.Schema)) }},
		{"ParseSchemaFile", func() (chaff.RootGenerator, error) { return chaff.ParseSchemaFile(file, &chaff.ParserOptions{}) }},
		{"ParseSchemaFile, relative", func() (chaff.RootGenerator, error) {
			return chaff.ParseSchemaFile(c.Name, &chaff.ParserOptions{})
		}},
		{"ParseSchemaFileWithDefaults", func() (chaff.RootGenerator, error) { return chaff.ParseSchemaFileWithDefaults(file) }},
		{"ParseSchema, RelativeTo", func() (chaff.RootGenerator, error) {
			return chaff.ParseSchema(c.Schema, &chaff.ParserOptions{RelativeTo: "file://" + urlPath(file)})
		}},
	}
	first := ""
	for i, w := range ways {
		seedGlobals(c.Seed)
		p := collect(w.parse())
		got, err := c.outcome(p, dir)
		if err != nil {
			return viol("%s: value cannot be serialised: %v", w.name, err)
		}
		if i == 0 {
			first = got
		} else if got != first {
			res.Viol = fmt.Sprintf("%s: %s; %s: %s", ways[0].name, clip(first, 300), w.name, clip(got, 300))
			return res
		}
		if c.Valid && p.err == nil {
			// the one without options
			js, err := json.Marshal(p.g.GenerateWithDefaults())
			if err != nil {
				return viol("%s: GenerateWithDefaults: %v", w.name, err)
			}
			if orc, err := newOracle(c.Schema); err == nil && hasGiveUp(js) == "" {
				if why := orc.check(js); why != "" {
					res.Viol = fmt.Sprintf("GenerateWithDefaults: %s: %s", clip(string(js), 300), clip(why, 300))
					return res
				}
			}
		}
	}
	res.Nontrivial = true
	if first == "error" {
		res = res.label("error")
	} else if strings.HasPrefix(first, "reported at") {
		res = res.label("reported")
	}
	return res
}

func genEntry(t *rapid.T) entryCase {
	c := entryCase{Name: pick(t, "name", "schema.json", "schema", "a b.json", "ü.json", ".json", "100%.json", "a#b.json", "q?.json"), Cwd: pick(t, "cwd", "d", "d", "a b", "50%", "%41", "a#b?c", "ü"), Seed: seedOf(t), N: intIn(t, "values", 1, 4)}
	switch intIn(t, "kind", 0, 5) {
	case 0, 1:
		d := genDet(t)
		c.Schema, c.Tags, c.Values = d.Schema, append(d.Tags, "values"), true
	case 2:
		m := genMix(t)
		// GenerateWithDefaults may run into its limits
		c.Schema, c.Opts, c.Tags = m.Schema, m.Opts, m.Tags
		c.Valid = true
	case 3:
		r := genReport(t)
		c.Schema, c.Tags = r.Bad, append(c.Tags, "broken part")
	default:
		r := genBytes(t)
		c.Schema, c.Tags = []byte(r.Text), append(c.Tags, "bytes")
		if len(r.Doc) > 0 {
			c.Schema = r.Doc
		}
	}
	if chance(t, "decorated", 1, 4) {
		before := pick(t, "before", "", "\ufeff", " ", "\r\n\t", "\x00", "//\n", "\u00a0", "\xff\xfe")
		after := pick(t, "after", "", "\n", "\r\n ", "\x00", "{}", ",", "]", "//", "\ufeff", "\u2028", "\x1a", "nul")
		c.Schema = append(append([]byte(before), c.Schema...), after...)
		c.Valid = false
		c.Tags = append(c.Tags, "decorated")
	} else if chance(t, "not utf-8", 1, 8) && len(c.Schema) > 0 {
		at := intIn(t, "at", 0, len(c.Schema)-1)
		c.Schema = append(append(append([]byte{}, c.Schema[:at]...), pick(t, "bytes", "\xff", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\r\n", "\t")...), c.Schema[at:]...)
		c.Valid = false
		c.Tags = append(c.Tags, "not UTF-8")
	}
	return c
}

// --- missing: files that cannot be read --------------------------------------

type missingCase struct {
	Kind string `json:"kind"`
}

func decideMissing(c missingCase) Result {
	res := Result{Labels: []string{c.Kind}, Evals: 1, Nontrivial: true}
	dir := scratch()
	defer os.RemoveAll(dir)
	file := dir + "/s.json"
	switch c.Kind {
	case "a directory":
		file = dir
	case "a link to nothing":
		if err := os.Symlink(dir+"/nothing", file); err != nil {
			panic(harnessError{err.Error()})
		}
	case "a link to itself":
		if err := os.Symlink(file, file); err != nil {
			panic(harnessError{err.Error()})
		}
	case "below a file":
		file = writeFileIn(dir, "f", []byte("{}")) + "/s.json"
	case "empty":
		writeFileIn(dir, "s.json", nil)
	case "no name":
		file = ""
	case "zero byte":
		file += "\x00"
	}
	if _, err := chaff.ParseSchemaFile(file, &chaff.ParserOptions{}); err == nil {
		res.Viol = "ParseSchemaFile of a file that cannot be read: no error"
	}
	if _, err := chaff.ParseSchemaFileWithDefaults(file); err == nil {
		res.Viol = "ParseSchemaFileWithDefaults of a file that cannot be read: no error"
	}
	return res
}

// --- annotated: what does not constrain values does not change them ----------

type annotCase struct {
	Schema json.RawMessage `json:"schema"`
	With   json.RawMessage `json:"with"` // the same, annotated
	Opts   *GenOpts        `json:"opts,omitempty"`
	Seed   int64           `json:"seed"`
	N      int             `json:"n"`
	Values bool            `json:"values,omitempty"` // all of what is generated comes from the source of the options
	Tags   []string        `json:"tags,omitempty"`
}

func decideAnnotated(c annotCase) Result {
	res := Result{Labels: c.Tags, Evals: c.N}
	seedGlobals(c.Seed)
	plain := parseWith(c.Schema, nil)
	seedGlobals(c.Seed)
	with := parseWith(c.With, nil)
	if !plain.clean() {
		return res.label("reported")
	}
	if !with.clean() {
		res.Viol = "with annotations the schema is reported: " + with.why()
		return res
	}
	orc, err := newOracle(c.Schema)
	if err != nil {
		panic(harnessError{err.Error()})
	}
	for i := range c.N {
		gen := func(p parsed) string {
			seedGlobals(c.Seed + int64(i))
			js, err := json.Marshal(p.g.Generate(optsFor(c.Opts, c.Seed+int64(i))))
			if err != nil {
				return "not serialisable: " + err.Error()
			}
			return string(js)
		}
		a, b := gen(plain), gen(with)
		if hasGiveUp([]byte(a)) != "" || hasGiveUp([]byte(b)) != "" {
			res.Inconclusive = "give-up text"
			continue
		}
		if a == b {
			continue
		}
		if !c.Values && orc.check([]byte(b)) == "" {
			continue
		}
		if why := orc.check([]byte(b)); why != "" && orc.check([]byte(a)) == "" {
			res.Viol = fmt.Sprintf("with annotations %s is generated: %s", clip(b, 300), clip(why, 300))
			return res
		}
		if !c.Values { // wrong with and without
			continue
		}
		res.Viol = fmt.Sprintf("with annotations %s is generated in place of %s", clip(b, 300), clip(a, 300))
		return res
	}
	res.Nontrivial = !bytes.Equal(c.Schema, c.With)
	return res
}

var schemaMaps = map[string]bool{"properties": true, "patternProperties": true, "$defs": true, "definitions": true, "dependentSchemas": true}
var schemaLists = map[string]bool{"allOf": true, "anyOf": true, "oneOf": true, "prefixItems": true, "items": true}
var schemaOnes = map[string]bool{"items": true, "additionalProperties": true, "additionalItems": true, "unevaluatedItems": true, "unevaluatedProperties": true, "not": true, "if": true, "then": true, "else": true, "contains": true, "propertyNames": true}

// eachSchema calls f for each object that is a schema.
func eachSchema(v any, f func(s S)) {
	s, ok := v.(S)
	if !ok {
		return
	}
	for _, k := range sortedKeys(s) {
		switch x := s[k].(type) {
		case S:
			if schemaMaps[k] {
				for _, n := range sortedKeys(x) {
					eachSchema(x[n], f)
				}
			} else if schemaOnes[k] {
				eachSchema(x, f)
			}
		case []any:
			if schemaLists[k] {
				for _, w := range x {
					eachSchema(w, f)
				}
			}
		}
	}
	f(s)
}

var keywordsLike = []string{"type", "enum", "const", "minimum", "maximum", "minLength", "maxLength", "pattern", "required", "properties", "items", "minItems", "maxItems", "uniqueItems", "minProperties", "maxProperties", "additionalProperties", "allOf", "anyOf", "oneOf", "not", "if", "then", "else", "multipleOf", "format", "contains", "prefixItems", "$ref"}

func genAnnotated(t *rapid.T) annotCase {
	m := genMix(t)
	c := annotCase{Schema: m.Schema, Opts: m.Opts, Seed: seedOf(t), N: 3}
	if chance(t, "values", 1, 2) {
		c.Schema, c.Values = raw(withoutStrings(decodeAny(m.Schema))), true
	}
	v := decodeAny(c.Schema)
	n := 0
	with := map[string]bool{}
	odd := chance(t, "unknown keywords", 1, 2)
	eachSchema(v, func(s S) {
		n++
		l := "at" + itoa(n)
		for range pick(t, l, 0, 0, 1, 1, 2, 4) {
			n++
			l := "an" + itoa(n)
			anything := func() any { return genJSONValue(t, 2) }
			k := pick(t, l, "title", "description", "default", "examples", "$comment", "deprecated", "readOnly", "writeOnly", "contentMediaType", "x-vendor", "$defs", "odd", "odd")
			var w any
			switch k {
			case "title", "description", "$comment":
				w = pick(t, l+"text", "", "a text", `#/$defs/x "quoted" \ %`, "file:///nowhere", "$ref")
			case "default", "x-vendor":
				w = anything()
			case "examples":
				w = []any{anything(), anything()}
			case "deprecated", "readOnly", "writeOnly":
				w = chance(t, l+"flag", 1, 2)
			case "contentMediaType":
				w = "application/json"
			case "$defs":
				if _, has := s["$defs"]; has || s["definitions"] != nil {
					continue
				}
				w = S{"unused" + itoa(n): S{"type": "string", "maxLength": 3}}
			default:
				if !odd {
					continue
				}
				// not one of the keywords, however much like it
				name := pick(t, l+"like", keywordsLike...)
				k = pick(t, l+"form", "length", "size", "x-"+name, name+"s", "_"+name, "$"+name, strings.ToUpper(name), strings.ToUpper(name[:1])+name[1:], strings.ToLower(name), "my."+name, name+"/"+name, name+" ")
				if k == name || schemaMaps[k] || schemaOnes[k] || k == "$defs" {
					continue
				}
				if name == "$ref" {
					w = pick(t, l+"where", "#/$defs/nowhere", "http://nowhere.invalid/x", "")
					break
				}
				w = pick[any](t, l+"value", "null", 1, true, nil, S{"type": "null"}, []any{"a"}, []any{}, S{}, -3, []any{S{"const": 1}})
			}
			if _, has := s[k]; !has {
				s[k] = w
				with[k] = true
			}
		}
	})
	for k := range with {
		if len(k) < 20 {
			c.Tags = append(c.Tags, "with "+k)
		}
	}
	if len(c.Tags) > 6 {
		c.Tags = c.Tags[:0]
		c.Tags = append(c.Tags, "with many")
	}
	c.With = raw(v)
	return c
}

func init() {
	register("C28",
		mkFacet("entry", "schemas of C14 and C17, damaged schemas and bytes, parsed in seven ways from memory and from files with unusual names; what is reported and generated has to be the same; all count as non-trivial", 1500, 25000, 4, genEntry, decideEntry),
		mkFacet("missing", "files that cannot be read as a schema; all count as non-trivial", 40, 40, 1, func(t *rapid.T) missingCase {
			return missingCase{pick(t, "kind", "nothing there", "a directory", "a link to nothing", "a link to itself", "below a file", "empty", "no name", "zero byte")}
		}, decideMissing),
	)
	register("C29",
		mkFacet("annotated", "the schemas of C14 with annotations and unknown keywords at random places; non-trivial: there are some, and nothing is reported without them", 2000, 30000, 4, genAnnotated, decideAnnotated),
	)
}
