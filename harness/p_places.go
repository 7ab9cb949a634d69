package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"slices"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
	"pgregory.net/rapid"
)

// placesCase: documents with parts that cannot be generated for at known places.
type placesCase struct {
	// Docs by name, main.json is the one parsed.
	Docs   map[string]json.RawMessage `json:"docs"`
	Places []brokenPlace              `json:"places"`
	// Refs: what is referred to from where.
	Refs []refSite `json:"refs,omitempty"`
	Tags []string  `json:"tags,omitempty"`
}

type refSite struct {
	From brokenPlace `json:"from"`
	To   brokenPlace `json:"to"`
}

type brokenPlace struct {
	Doc  string `json:"doc"`
	Path string `json:"path"`
	What string `json:"what"`
}

// decidePlaces: each broken part has a report at or below its place, and all
// reports are on the way to or below one.
func decidePlaces(c placesCase) Result {
	res := Result{Labels: c.Tags, Evals: 1}
	dir := scratch()
	defer os.RemoveAll(dir)
	for name, doc := range c.Docs {
		writeFileIn(dir, name, doc)
	}
	po := &chaff.ParserOptions{}
	if len(c.Docs) > 1 {
		po.DocumentFetchOptions.FileSystemFetchOptions.Enabled = true
		po.DocumentFetchOptions.FileSystemFetchOptions.AllowedPaths = []string{dir}
	}
	g, err := chaff.ParseSchemaFile(filepath.Join(dir, "main.json"), po)
	if g.Metadata == nil {
		panic(harnessError{"no metadata: " + err.Error()})
	}
	p := collect(g, err)
	if len(c.Places) == 0 {
		if !p.clean() {
			res.Viol = "nothing is broken, reported: " + p.why()
		}
		return res
	}
	type place struct{ doc, path string }
	var reports []place
	for k := range p.errs {
		doc, path, ok := strings.Cut(k, " -> ")
		if !ok {
			return viol("report without a document or without a location: %s", k)
		}
		path = strings.TrimSuffix(path, "/document_parse_error") // a document of which all is lost
		reports = append(reports, place{doc[strings.LastIndex(doc, "/")+1:], path})
	}
	under := func(path, at string) bool { return path == at || strings.HasPrefix(path, at+"/") }
	for _, b := range c.Places {
		found := false
		for _, r := range reports {
			found = found || r.doc == b.Doc && under(r.path, b.Path)
		}
		if !found {
			return viol("%s at %s of %s is not reported there, only at: %s", b.What, b.Path, b.Doc, strings.Join(sortedKeys(p.errs), ", "))
		}
	}
	// what refers to a broken part may well be reported along with it
	near := append([]brokenPlace{}, c.Places...)
	for grown := true; grown; {
		grown = false
		for i := range c.Refs {
			r := &c.Refs[i]
			for _, b := range near {
				if r.From.What == "" && r.To.Doc == b.Doc && under(b.Path, r.To.Path) {
					r.From.What = "reference to what is broken"
					near, grown = append(near, r.From), true
					break
				}
			}
		}
	}
	for _, r := range reports {
		// validators of parts that refer to others need all of the document
		found := len(c.Refs) > 0 && strings.Contains(r.path, "/oneOf/")
		for _, b := range near {
			found = found || r.doc == b.Doc && (under(r.path, b.Path) || under(b.Path, r.path))
		}
		if !found {
			return viol("report at %s of %s, nothing is broken there but at %v", r.path, r.doc, near)
		}
	}
	res.Nontrivial = true
	return res
}

// Parts that keep a whole text from being taken for a schema have no place.
var noPlace = map[string]bool{"value of the wrong kind": true, "unknown type": true, "reference to nothing": true}

func genPlaces(t *rapid.T) placesCase {
	c := placesCase{Docs: map[string]json.RawMessage{}}
	k := 0
	l := func(x string) string { k++; return x + itoa(k) }
	parts := brokenParts()
	docs := []string{"main.json"}
	for i := intIn(t, "ndocs", 0, 4); i > 0; i-- {
		docs = append(docs, "doc"+itoa(i)+".json")
	}
	defs, roots := map[string]S{}, map[string]S{}
	for _, d := range docs {
		defs[d] = S{}
	}
	budget := intIn(t, "budget", 2, 6)
	var build func(doc, path string, depth int) S
	leaf := func(doc, path string) S {
		if budget > 0 && chance(t, l("broken"), 2, 3) {
			p := parts[intIn(t, l("part"), 0, len(parts)-1)]
			if s := p.bad(t, l("bad")); !noPlace[p.name] {
				budget--
				c.Places = append(c.Places, brokenPlace{doc, path, p.name})
				c.Tags = append(c.Tags, p.name)
				return s
			}
		}
		return pick(t, l("fine"), S{"type": "integer"}, S{"enum": []any{1, "a"}}, S{"type": "array", "items": S{"type": "null"}, "maxItems": 2}, S{})
	}
	build = func(doc, path string, depth int) S {
		if depth == 0 {
			return leaf(doc, path)
		}
		switch intIn(t, l("kind"), 0, 10) {
		case 0, 1, 2:
			props, s := S{}, S{"type": "object"}
			for i := intIn(t, l("nprops"), 1, 3); i > 0; i-- {
				n := pick(t, l("name"), "a", "b", "item-1", "If", "x_y", "properties", "enum", "", "a b", "%20", "é", "#", "->", ".") + itoa(i)
				if i == 1 && chance(t, l("bare"), 1, 3) {
					n = strings.TrimSuffix(n, "1") // may be empty
				}
				props[n] = build(doc, path+"/properties/"+n, depth-1)
				if chance(t, l("req"), 1, 3) {
					s["required"] = []any{n}
				}
			}
			s["properties"] = props
			return s
		case 3:
			return S{"type": "object", "additionalProperties": build(doc, path+"/additionalProperties", depth-1), "minProperties": 1}
		case 4:
			return S{"type": "object", "patternProperties": S{"^k": build(doc, path+"/patternProperties/^k", depth-1)}}
		case 5:
			return S{"type": "array", "items": build(doc, path+"/items", depth-1), "minItems": 1}
		case 6:
			return S{"type": "array", "prefixItems": []any{S{"type": "null"}, build(doc, path+"/prefixItems/1", depth-1)}}
		case 7:
			return S{"type": "array", "contains": build(doc, path+"/contains", depth-1)}
		case 10:
			kw := pick(t, l("kw"), "anyOf", "oneOf")
			return S{kw: []any{S{"type": "null"}, S{"type": "object", "properties": S{"p": build(doc, path+"/"+kw+"/1/properties/p", depth-1)}}}}
		case 8:
			kw := pick(t, l("kw"), "$defs", "definitions")
			n := "d" + itoa(k)
			d := sub(defs[doc], kw)
			d[n] = S{}
			c.Refs = append(c.Refs, refSite{brokenPlace{Doc: doc, Path: path}, brokenPlace{Doc: doc, Path: "#/" + kw + "/" + n}})
			d[n] = build(doc, "#/"+kw+"/"+n, depth-1)
			return S{"$ref": "#/" + kw + "/" + n}
		default:
			other := docs[intIn(t, l("doc"), 0, len(docs)-1)]
			n := "r" + itoa(k)
			if roots[other] == nil && slices.Index(docs, other) > slices.Index(docs, doc) { // all of a document
				c.Refs = append(c.Refs, refSite{brokenPlace{Doc: doc, Path: path}, brokenPlace{Doc: other, Path: "#"}})
				roots[other] = S{}
				roots[other] = build(other, "#", depth-1)
				return S{"$ref": pick(t, l("whole"), other, other+"#")}
			}
			d := sub(defs[other], "$defs")
			d[n] = S{}
			c.Refs = append(c.Refs, refSite{brokenPlace{Doc: doc, Path: path}, brokenPlace{Doc: other, Path: "#/$defs/" + n}})
			d[n] = build(other, "#/$defs/"+n, depth-1)
			if other == doc {
				other = ""
			}
			return S{"$ref": other + "#/$defs/" + n}
		}
	}
	depth := intIn(t, "depth", 0, 4)
	var root S
	if chance(t, "star", 1, 6) {
		// something of each of the documents
		props := S{"own": build("main.json", "#/properties/own", intIn(t, "owndepth", 0, 1))}
		for i, d := range docs[1:] {
			n := "x" + itoa(i)
			to := "#/$defs/" + n
			c.Refs = append(c.Refs, refSite{brokenPlace{Doc: "main.json", Path: "#/properties/" + n}, brokenPlace{Doc: d, Path: to}})
			props[n] = S{"$ref": d + to}
			m := sub(defs[d], "$defs")
			m[n] = S{}
			m[n] = build(d, to, intIn(t, "stardepth"+itoa(i), 0, 1))
		}
		root = S{"type": "object", "properties": props}
	} else {
		root = build("main.json", "#", depth)
	}
	c.Tags = append(c.Tags, "depth "+itoa(depth), "broken "+itoa(len(c.Places)))
	for _, d := range docs {
		s := S{}
		if d == "main.json" {
			s = root
		} else if roots[d] != nil {
			s = roots[d]
		}
		for kw, m := range defs[d] {
			s[kw] = m
		}
		c.Docs[d] = raw(s)
	}
	return c
}

func init() {
	register("C31", mkFacet("places", "up to six broken parts of 48 kinds at places reached by up to four of eight keywords and references, in up to five documents; non-trivial: at least one part is broken", 8000, 150000, 4, genPlaces, decidePlaces))
}
