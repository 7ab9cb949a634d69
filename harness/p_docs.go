package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"

	chaff "github.com/ryanolee/go-chaff"
	"pgregory.net/rapid"
)

// docsCase: schemas spread over documents. @DIR@ and @HTTP@ stand for the
// scratch directory and the base URL of the server of the run.
type docsCase struct {
	confCase
	Docs []docFile `json:"docs"`
	// ByFile: parse with ParseSchemaFile, else ParseSchema with RelativeTo
	ByFile  bool `json:"by_file,omitempty"`
	Allowed bool `json:"allowed,omitempty"` // name the directory and the host
}

type docFile struct {
	HTTP bool            `json:"http,omitempty"`
	Path string          `json:"path"`
	Body json.RawMessage `json:"body"`
	// ID: the $id of the document, where that is not where it is
	ID string `json:"id,omitempty"`
	// Moved: the $id is relative and names another directory
	Moved bool `json:"moved,omitempty"`
}

// --- server -----------------------------------------------------------------

type docServer struct {
	*httptest.Server
	mu   sync.Mutex
	docs map[string][]byte
	redi map[string]string
	hits []string
}

func newDocServer() *docServer {
	s := &docServer{docs: map[string][]byte{}, redi: map[string]string{}}
	s.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		s.mu.Lock()
		defer s.mu.Unlock()
		s.hits = append(s.hits, r.URL.String())
		if to, ok := s.redi[r.URL.Path]; ok {
			http.Redirect(w, r, to, http.StatusFound)
			return
		}
		b, ok := s.docs[r.URL.Path]
		if !ok {
			http.NotFound(w, r)
			return
		}
		w.Write(b)
	}))
	return s
}

var (
	srvOnce sync.Once
	srv     *docServer
)

func server() *docServer {
	srvOnce.Do(func() { srv = newDocServer() })
	return srv
}

func (s *docServer) reset() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.docs, s.redi, s.hits = map[string][]byte{}, map[string]string{}, nil
}

func (s *docServer) host() string {
	u, _ := url.Parse(s.URL)
	return u.Host
}

// scratch makes a directory below the working directory, which the runner
// makes for every worker.
func scratch() string {
	wd, err := os.Getwd()
	if err != nil {
		panic(harnessError{err.Error()})
	}
	wd, err = filepath.EvalSymlinks(wd)
	if err != nil {
		panic(harnessError{err.Error()})
	}
	d, err := os.MkdirTemp(wd, "case")
	if err != nil {
		panic(harnessError{err.Error()})
	}
	return d
}

func writeFileIn(dir, name string, b []byte) string {
	p := filepath.Join(dir, filepath.FromSlash(name))
	if !strings.HasPrefix(p, dir+string(filepath.Separator)) {
		panic(harnessError{"path leaves the scratch directory: " + p})
	}
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		panic(harnessError{err.Error()})
	}
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic(harnessError{err.Error()})
	}
	return p
}

func decideDocs(c docsCase) Result {
	dir := scratch()
	defer os.RemoveAll(dir)
	po := &chaff.ParserOptions{}
	fill := func(b []byte) []byte {
		s := strings.ReplaceAll(string(b), "@DIR@", dir)
		if strings.Contains(s, "@HTTP@") {
			s = strings.ReplaceAll(s, "@HTTP@", server().URL)
		}
		return []byte(s)
	}
	anyHTTP, anyFile := false, false
	for _, d := range c.Docs {
		if d.HTTP {
			if !anyHTTP {
				server().reset()
			}
			anyHTTP = true
			s := server()
			s.mu.Lock()
			s.docs["/"+d.Path] = fill(d.Body)
			s.mu.Unlock()
		} else {
			anyFile = true
			writeFileIn(dir, d.Path, fill(d.Body))
		}
	}
	if anyHTTP {
		po.DocumentFetchOptions.HTTPFetchOptions = chaff.HTTPFetchOptions{Enabled: true, AllowInsecure: true}
		if c.Allowed {
			po.DocumentFetchOptions.HTTPFetchOptions.AllowedHosts = []string{"example.org", server().host()}
		}
	}
	if anyFile {
		po.DocumentFetchOptions.FileSystemFetchOptions.Enabled = true
		if c.Allowed {
			po.DocumentFetchOptions.FileSystemFetchOptions.AllowedPaths = []string{dir}
		}
	}
	root := c.Docs[0]
	c.Schema = fill(root.Body)
	orc, err := newOracle(c.Oracle)
	if err != nil {
		panic(harnessError{fmt.Sprintf("bundled schema: %v: %s", err, c.Oracle)})
	}
	parse := func() parsed {
		if root.HTTP {
			po.RelativeTo = server().URL + "/" + urlPath(root.Path)
			return parseWith(c.Schema, po)
		}
		p := filepath.Join(dir, filepath.FromSlash(root.Path))
		if c.ByFile {
			return collect(chaff.ParseSchemaFile(p, po))
		}
		po.RelativeTo = "file://" + urlPath(p)
		return parseWith(c.Schema, po)
	}
	return decideConfParsed(c.confCase, orc, parse)
}

// --- generator --------------------------------------------------------------

var docPaths = []string{"b.json", "sub/c.json", "sub/deep/d.json", "other/e-f.json", "v1..2.json", "sub/b.json", "noext"}

// names that are not the same in a URL
var oddDocPaths = []string{"my docs/a b.json", "ü/é.json", "100%.json", "sub/x%20y.json", "q?a#b.json", "a+b&c=d.json", "[1].json", "my docs/%2e%2e.json"}

func urlPath(p string) string { return (&url.URL{Path: p}).EscapedPath() }

// placeholder for a reference: "@@<doc>|<style>|<pointer>"
func ph(doc int, style string, ptr string) string { return fmt.Sprintf("@@%d|%s|%s", doc, style, ptr) }

func relPath(from, to string) string {
	r, err := filepath.Rel(path.Dir("/"+from), "/"+to)
	if err != nil {
		panic(harnessError{err.Error()})
	}
	return filepath.ToSlash(r)
}

func mapRefs(v any, f func(string) string, dropID bool) any { return mapRefsIn(v, f, dropID, false) }

// named: v holds schemas by name
func mapRefsIn(v any, f func(string) string, dropID, named bool) any {
	switch x := v.(type) {
	case S:
		o := S{}
		for k, w := range x {
			if k == "$ref" {
				if s, ok := w.(string); ok {
					o[k] = f(s)
					continue
				}
			}
			if _, ok := w.(string); ok && k == "$id" && dropID {
				continue
			}
			if k == "const" || k == "enum" {
				if _, schema := w.(S); !schema || k == "const" && !named {
					o[k] = w
					continue
				}
			}
			o[k] = mapRefsIn(w, f, dropID, !named && (k == "properties" || k == "patternProperties" || k == "$defs" || k == "definitions"))
		}
		return o
	case []any:
		o := []any{}
		for _, w := range x {
			o = append(o, mapRefs(w, f, dropID))
		}
		return o
	}
	return v
}

func parsePh(s string) (doc int, style, ptr string, ok bool) {
	if !strings.HasPrefix(s, "@@") {
		return 0, "", "", false
	}
	p := strings.SplitN(s[2:], "|", 3)
	fmt.Sscan(p[0], &doc)
	return doc, p[1], p[2], true
}

func renderRef(docs []docFile, from int, s string) string {
	doc, style, ptr, ok := parsePh(s)
	if !ok {
		return s
	}
	f, to := docs[from], docs[doc]
	tail := ptr
	if i := strings.Index(style, "emb="); i >= 0 {
		// from within a sub-schema whose $id lies in another directory
		id, self, _ := strings.Cut(style[i+4:], ";")
		if self != "" {
			return self
		}
		if f.Moved {
			f.Path = path.Join(path.Dir(f.Path), "moved", "x")
		}
		f.Path = path.Join(path.Dir(f.Path), id)
	} else if f.Moved && doc != from {
		style = "abs"
	}
	if i := strings.Index(style, "id="); i >= 0 && doc == from {
		// through the $id of the sub-schema, resolved against the document
		id := style[i+3:]
		return id
	}
	if tail == "#" && strings.Contains(style, "bare") {
		tail = ""
	}
	if doc == from && strings.Contains(style, "local") {
		return ptr
	}
	if f.ID != "" { // relative references are relative to it
		if doc == from {
			id := strings.TrimSuffix(f.ID, "#")
			if !strings.Contains(style, "abs") {
				id = path.Base(id)
			}
			return id + tail
		}
		style = "abs"
	}
	abs := "file://@DIR@/" + urlPath(to.Path)
	if to.HTTP {
		abs = "@HTTP@/" + urlPath(to.Path)
	}
	if f.HTTP != to.HTTP || strings.Contains(style, "abs") {
		return abs + tail
	}
	if to.HTTP && strings.Contains(style, "root") {
		return "/" + urlPath(to.Path) + tail
	}
	r := urlPath(relPath(f.Path, to.Path))
	if strings.Contains(style, "dot") && !strings.HasPrefix(r, "..") {
		r = "./" + r
	}
	return r + tail
}

func bundle(contents []S) S {
	defs := S{}
	for i, c := range contents {
		defs["doc"+itoa(i)] = mapRefs(c, func(s string) string {
			doc, _, ptr, ok := parsePh(s)
			if !ok {
				doc, ptr = i, s
			}
			return "#/$defs/doc" + itoa(doc) + strings.TrimPrefix(ptr, "#")
		}, true)
	}
	return S{"$ref": "#/$defs/doc0", "$defs": defs}
}

func genDocs(transport string, cyclic bool) func(t *rapid.T) docsCase {
	return func(t *rapid.T) docsCase {
		n := intIn(t, "ndocs", 2, 4)
		docs := make([]docFile, n)
		paths, roots := docPaths, []string{"root.json", "sub/root.json"}
		if chance(t, "odd names", 1, 4) {
			paths, roots = append(oddDocPaths, docPaths[:2]...), []string{"root.json", "my docs/root 1.json", "50%/root.json"}
		}
		names := rapid.Permutation(paths).Draw(t, "names")
		contents := make([]S, n)
		for i := range docs {
			h := transport == "http" || transport == "mixed" && chance(t, "http"+itoa(i), 1, 2)
			docs[i] = docFile{HTTP: h, Path: names[i]}
		}
		docs[0].Path = pick(t, "rootpath", roots...)
		styles := func(l string) string {
			return pick(t, l, "rel", "rel", "dot", "abs", "root", "bare", "abs bare")
		}
		// merging a cyclic schema with itself grows without end
		once := func(leaf S) S {
			if cyclic {
				return nil
			}
			return leaf
		}
		type target struct {
			doc  int
			ref  string
			leaf S // nil: holds alternatives
		}
		var later []target
		for i := n - 1; i >= 0; i-- {
			li := "d" + itoa(i)
			var own []target
			root := S{}
			if i > 0 && chance(t, li+"leafroot", 1, 3) {
				root = refLeaf(t, li+"root")
				leaf := root
				if leaf["anyOf"] != nil {
					leaf = nil
				}
				own = append(own, target{i, ph(i, styles(li+"rs"), "#"), leaf})
			} else {
				root = S{"type": "object"}
			}
			for k, nk := 0, intIn(t, li+"ndefs", 1, 3); k < nk; k++ {
				lk := li + "k" + itoa(k)
				kw := pick(t, lk+"kw", "$defs", "$defs", "definitions")
				name := pick(t, lk+"name", "x", "a b", "a+b", "p/q", "x", "100%", "é", "$ref", "$id", "const", "enum", "default")
				if _, taken := sub(root, kw)[name]; taken || chance(t, lk+"suffix", 1, 2) {
					name += itoa(k)
				}
				leaf := refLeaf(t, lk)
				st := styles(lk + "st")
				if leaf["anyOf"] == nil && chance(t, lk+"cond", 1, 6) {
					// the condition adds nothing, so that the leaf still rules out other types
					c := clone(leaf).(S)
					c["if"], c["then"], c["else"] = S{"type": "integer"}, leaf, leaf
					leaf = c
				} else if chance(t, lk+"id", 1, 6) {
					leaf["$id"] = "shape-" + lk + ".json"
					if chance(t, lk+"byid", 1, 2) {
						st = "id=shape-" + lk + ".json"
					}
				}
				if len(later) > 0 && chance(t, lk+"fwd", 1, 3) {
					// a definition that passes on to another document
					if strings.HasPrefix(st, "id=") {
						st = "rel"
					}
					tg := later[intIn(t, lk+"fwdto", 0, len(later)-1)]
					sub(root, kw)[name] = useRef(t, lk+"f", root, tg.ref, once(tg.leaf), true)
					leaf = nil
				} else {
					sub(root, kw)[name] = leaf
					if leaf["anyOf"] != nil {
						leaf = nil
					}
				}
				if chance(t, lk+"emb", 1, 6) {
					// a sub-schema with an $id in another directory, and references inside of it
					id := pick(t, lk+"embid", "emb/"+lk+"/r.json", "emb-"+lk+".json", "../emb/"+lk+".json")
					if path.Dir(docs[i].Path) == "." {
						id = strings.TrimPrefix(id, "../") // do not leave the directory of the case
					}
					res := S{"$id": id, "type": "object", "$defs": S{"in": refLeaf(t, lk+"embleaf")}}
					ps := S{"self": S{"$ref": ph(i, "emb="+id+";#/$defs/in", "#/$defs/emb"+lk+"/$defs/in")}}
					req := []any{"self"}
					if len(later) > 0 {
						tg := later[intIn(t, lk+"embto", 0, len(later)-1)]
						d, _, ptr, _ := parsePh(tg.ref)
						ps["out"] = S{"$ref": ph(d, "emb="+id+";", ptr)}
						req = append(req, "out")
					}
					if cyclic && chance(t, lk+"embcyc", 1, 2) {
						ps["again"] = S{"$ref": ph(i, "emb="+id+";#", "#/$defs/emb"+lk)}
					}
					if chance(t, lk+"embdeep", 1, 3) {
						// a part of it with an $id of its own
						deep := refLeaf(t, lk+"embdeepleaf")
						at := "#/$defs/emb" + lk + "/$defs/deep"
						ps["deep"] = S{"$ref": ph(i, "emb="+id+";deep/"+lk+".json", at)}
						req = append(req, "deep")
						inner := deep
						if deep["anyOf"] != nil {
							inner = nil
						}
						deep["$id"] = "deep/" + lk + ".json"
						sub(res, "$defs")["deep"] = deep
						own = append(own, target{i, ph(i, pick(t, lk+"embdeepst", "rel", "id="+path.Join(path.Dir(id), "deep", lk+".json")), at), inner})
					}
					res["properties"], res["required"] = ps, req
					sub(root, "$defs")["emb"+lk] = res
					own = append(own, target{i, ph(i, pick(t, lk+"embst", "rel", "id="+id), "#/$defs/emb"+lk), nil})
					inner := sub(res, "$defs")["in"].(S)
					if inner["anyOf"] != nil {
						inner = nil
					}
					own = append(own, target{i, ph(i, "id="+id+"#/$defs/in", "#/$defs/emb"+lk+"/$defs/in"), inner})
				}
				own = append(own, target{i, ph(i, st, "#/"+kw+"/"+ptrEscape(name)), leaf})
			}
			if root["type"] == "object" && root["additionalProperties"] == nil {
				props := S{}
				req := []any{}
				pool := append(append([]target{}, own...), later...)
				for k, nk := 0, intIn(t, li+"nuse", 1, 3); k < nk; k++ {
					lk := li + "u" + itoa(k)
					tg := pool[intIn(t, lk+"to", 0, len(pool)-1)]
					if len(later) > 0 && k == 0 {
						tg = later[intIn(t, lk+"tolater", 0, len(later)-1)]
					}
					props[lk] = useRef(t, lk, root, tg.ref, once(tg.leaf), true)
					req = append(req, lk)
				}
				if chance(t, li+"odd", 1, 4) {
					props[pick(t, li+"oddname", "$ref", "$id", "const", "enum", "default", "$defs")] = refLeaf(t, li+"oddleaf")
				}
				root["properties"] = props
				root["required"] = req
				own = append(own, target{i, ph(i, styles(li+"rs2"), "#"), nil})
			}
			if cyclic && i < n-1 && chance(t, li+"cyc", 2, 3) {
				// a later document points back at this one
				j := intIn(t, li+"from", i+1, n-1)
				if p, ok := contents[j]["properties"].(S); ok {
					p["back"+itoa(i)] = S{"$ref": ph(i, styles(li+"back"), "#")}
				}
			}
			contents[i] = root
			later = append(later, own...)
		}
		for i := range docs {
			if !chance(t, "rootid"+itoa(i), 1, 3) {
				continue
			}
			switch intIn(t, "whichid"+itoa(i), 0, 3) {
			case 3:
				docs[i].Moved = true
				contents[i]["$id"] = "moved/" + urlPath(path.Base(docs[i].Path))
			case 0:
				contents[i]["$id"] = urlPath(path.Base(docs[i].Path))
			case 1:
				contents[i]["$id"] = "file://@DIR@/" + urlPath(docs[i].Path)
				if docs[i].HTTP {
					contents[i]["$id"] = "@HTTP@/" + urlPath(docs[i].Path)
				}
			case 2:
				docs[i].ID = "https://example.org/schemas/doc" + itoa(i) + ".json" + pick(t, "idend"+itoa(i), "", "", "#")
				contents[i]["$id"] = docs[i].ID
			}
		}
		if chance(t, "rootallof", 1, 5) {
			contents[0]["allOf"] = []any{S{"maxProperties": 20}}
		}
		for i := range docs {
			docs[i].Body = raw(mapRefs(contents[i], func(s string) string { return renderRef(docs, i, s) }, false))
		}
		c := docsCase{confCase: conf(t, nil, 6, true, true), Docs: docs}
		c.Schema = nil
		c.Oracle = raw(bundle(contents))
		c.SomeOK = !cyclic
		c.ByFile = !docs[0].HTTP && chance(t, "byfile", 2, 3)
		c.Allowed = chance(t, "allowed", 1, 2)
		c.steps()
		if cyclic {
			c.Opts = &GenOpts{MaximumGenerationSteps: 2000, CutoffGenerationSteps: 1 << 21, MaximumReferenceDepth: intIn(t, "depth", 1, 6), BypassCyclicReferenceCheck: chance(t, "bypass", 1, 2)}
		}
		return c
	}
}

func init() {
	register("C13",
		mkFacet("file", "two to four documents on disk, in different directories, referring to each other (relative, ./, ../, file URL, whole document, pointer) from properties, items, allOf, anyOf, oneOf, contains and definitions that pass on; judged by one bundled schema; non-trivial: accepted without a report and two different values judged", 2000, 40000, 4, genDocs("file", false), decideDocs),
		mkFacet("http", "the same documents behind a web server on the loopback interface, also referred to by path; same rule", 1500, 30000, 4, genDocs("http", false), decideDocs),
		mkFacet("mixed", "documents on disk and behind the web server referring to each other; same rule", 1500, 30000, 4, genDocs("mixed", false), decideDocs),
		mkFacet("cyclic", "documents on disk that refer to each other in cycles, with and without the cyclic reference check; a value is judged unless it holds a documented text for cycles; same rule", 1500, 30000, 4, genDocs("file", true), decideDocs),
	)
}
