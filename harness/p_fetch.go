package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"time"

	chaff "github.com/ryanolee/go-chaff"
	"pgregory.net/rapid"
)

// fetchCase: a schema whose properties refer to documents, each over a chain
// of documents, and what may be fetched. Each document is referred to once.
// @DIR@ stands for the scratch directory, @H0@ @H1@ for the hosts of servers
// over http, @T0@ @T1@ over https.
type fetchCase struct {
	Refs   []fetchRef `json:"refs"`
	Extra  S          `json:"extra,omitempty"` // more keywords of the root
	Cwd    string     `json:"cwd"`
	Enter  string     `json:"enter,omitempty"` // the working directory by way of a link
	Rel    string     `json:"rel,omitempty"`
	ByFile string     `json:"by_file,omitempty"`
	FS     *fsCfg     `json:"fs,omitempty"`
	HTTP   *httpCfg   `json:"http,omitempty"`
	NoOpts bool       `json:"no_opts,omitempty"` // parse with defaults
	CLI    bool       `json:"cli,omitempty"`     // by the command line tool, FS and HTTP as its flags
	Seed   int64      `json:"seed"`
	Tags   []string   `json:"tags,omitempty"`
}

type fsCfg struct {
	Paths   []string `json:"paths,omitempty"`
	Outside bool     `json:"outside,omitempty"`
}

type httpCfg struct {
	Hosts    []string `json:"hosts,omitempty"`
	Insecure bool     `json:"insecure,omitempty"`
}

type fetchRef struct {
	Use  string `json:"use"`
	Hops []hop  `json:"hops"`
}

type hop struct {
	Ref    string   `json:"ref"`              // how the document is referred to
	Real   string   `json:"real"`             // where it is: @DIR@/... or a URL
	Access string   `json:"access,omitempty"` // a file: the path referred to; "" for Real
	Link   string   `json:"link,omitempty"`   // a file: a symbolic link to make to Real
	Via    []string `json:"via,omitempty"`    // URLs that redirect, one to the next and to Real
	Code   int      `json:"code,omitempty"`
	Plain  bool     `json:"plain,omitempty"` // has to be found if it is allowed
	Bad    string   `json:"bad,omitempty"`   // there is no document at all
	Inner  bool     `json:"inner,omitempty"` // refer to #/$defs/m
}

var fetchDirs = []string{"cwd", "cwd/sub", "cwd/sub/deep", "cwd/..dots", "cwd-evil", "outside", "outside/deep", "allowed", "allowed/in", "allowed..b", "cwd/my docs", "outside/my docs", "outside/my", "cwd/%2e%2e", "allowed/%2e%2e"}

// links to directories: where they are, where they lead to
var fetchLinks = [][2]string{{"cwd/outlink", "outside"}, {"cwd/sub/uplink", "allowed"}, {"outside/back", "cwd"}, {"allowed/esc", "outside"}, {"cwd/inlink", "cwd/sub"}, {"cwd-evil/two", "cwd/outlink"}}

// --- servers ----------------------------------------------------------------

type spyServers struct {
	mu    sync.Mutex
	hosts map[string]string // placeholder -> host
	docs  map[string][]byte // scheme://host/path -> body
	redi  map[string][2]string
	hits  []string // scheme://host/path
	conns map[string]int
	ids   []*httptest.Server
}

var (
	spyOnce sync.Once
	spy     *spyServers
)

func spies() *spyServers {
	spyOnce.Do(func() {
		spy = &spyServers{hosts: map[string]string{}, conns: map[string]int{}}
		cert := selfSigned()
		for _, name := range []string{"@H0@", "@H1@", "@T0@", "@T1@"} {
			scheme := "http"
			if name[1] == 'T' {
				scheme = "https"
			}
			s := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				spy.serve(w, r, scheme)
			}))
			s.Config.ConnState = func(_ net.Conn, st http.ConnState) {
				if st == http.StateNew {
					spy.mu.Lock()
					spy.conns[name]++
					spy.mu.Unlock()
				}
			}
			s.Config.ErrorLog = log.New(io.Discard, "", 0)
			if scheme == "https" { // on the same port, what is not TLS is answered over http
				s.TLS = &tls.Config{Certificates: []tls.Certificate{cert}}
				both := newConnSplit(s.Listener)
				s.Listener = both
				over := &http.Server{ErrorLog: s.Config.ErrorLog, ConnState: s.Config.ConnState, Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					spy.serve(w, r, "http")
				})}
				go over.Serve(both.plain)
				s.StartTLS()
			} else {
				s.Start()
			}
			u, _ := url.Parse(s.URL)
			spy.hosts[name] = u.Host
			spy.ids = append(spy.ids, s)
		}
	})
	return spy
}

// connSplit gives the connections that start with a TLS handshake, and has plain
// give the others.
type connSplit struct {
	net.Listener
	tls   chan net.Conn
	plain *plainConns
}

type plainConns struct {
	net.Listener
	ch chan net.Conn
}

func (p *plainConns) Accept() (net.Conn, error) { return <-p.ch, nil }
func (s *connSplit) Accept() (net.Conn, error)      { return <-s.tls, nil }

type peeked struct {
	net.Conn
	first []byte
}

func (p *peeked) Read(b []byte) (int, error) {
	if len(p.first) > 0 && len(b) > 0 {
		b[0], p.first = p.first[0], nil
		return 1, nil
	}
	return p.Conn.Read(b)
}

func newConnSplit(l net.Listener) *connSplit {
	s := &connSplit{Listener: l, tls: make(chan net.Conn), plain: &plainConns{Listener: l, ch: make(chan net.Conn)}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				first := make([]byte, 1)
				if _, err := io.ReadFull(c, first); err != nil {
					first = nil
				}
				if p := (&peeked{Conn: c, first: first}); len(first) > 0 && first[0] == 0x16 {
					s.tls <- p
				} else {
					s.plain.ch <- p
				}
			}()
		}
	}()
	return s
}

// selfSigned makes a certificate and has this process trust it.
func selfSigned() tls.Certificate {
	fail := func(err error) {
		if err != nil {
			panic(harnessError{"certificate: " + err.Error()})
		}
	}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	fail(err)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(72 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, IsCA: true, BasicConstraintsValid: true,
		DNSNames: []string{"localhost"}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
	fail(err)
	wd, err := os.Getwd()
	fail(err)
	file := filepath.Join(wd, "ca.pem")
	fail(os.WriteFile(file, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600))
	os.Setenv("SSL_CERT_FILE", file)
	os.Setenv("SSL_CERT_DIR", wd)
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
}

func (s *spyServers) serve(w http.ResponseWriter, r *http.Request, scheme string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.hits = append(s.hits, scheme+"://"+r.Host+r.URL.Path)
	key := scheme + "://" + r.Host + r.URL.Path
	if to, ok := s.redi[key]; ok {
		code := 0
		fmt.Sscan(to[1], &code)
		http.Redirect(w, r, to[0], code)
		return
	}
	b, ok := s.docs[key]
	if !ok {
		http.NotFound(w, r)
		return
	}
	if code, body, ok := strings.Cut(string(b), ":status:"); ok {
		n := 500
		fmt.Sscan(code, &n)
		w.WriteHeader(n)
		io.WriteString(w, body)
		return
	}
	w.Write(b)
}

func (s *spyServers) reset() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.docs, s.redi, s.hits, s.conns = map[string][]byte{}, map[string][2]string{}, nil, map[string]int{}
}

// --- policy -----------------------------------------------------------------

// under: p is d or below it, by the names on the way.
func under(p, d string) bool {
	ps, ds := strings.Split(p, "/"), strings.Split(strings.TrimSuffix(d, "/"), "/")
	if len(ps) < len(ds) {
		return false
	}
	for i := range ds {
		if ps[i] != ds[i] {
			return false
		}
	}
	return true
}

func mustReal(p string) string {
	r, err := filepath.EvalSymlinks(p)
	if err != nil {
		panic(harnessError{err.Error()})
	}
	return r
}

func (c fetchCase) fileAllowed(real, cwd string, fill func(string) string) bool {
	if c.FS == nil {
		return false
	}
	if len(c.FS.Paths) == 0 {
		return c.FS.Outside || under(real, cwd)
	}
	for _, p := range c.FS.Paths {
		p = fill(p)
		if !strings.HasPrefix(p, "/") {
			p = cwd + "/" + p
		}
		if under(real, mustReal(p)) {
			return true
		}
	}
	return false
}

func (c fetchCase) urlAllowed(s string, fill func(string) string) bool {
	u, err := url.Parse(s)
	if err != nil || c.HTTP == nil || u.Scheme != "http" && u.Scheme != "https" {
		return false
	}
	if u.Scheme == "http" && !c.HTTP.Insecure {
		return false
	}
	for _, h := range c.HTTP.Hosts {
		h = fill(h)
		if i := strings.Index(h, "://"); i >= 0 {
			h, _, _ = strings.Cut(h[i+3:], "/")
		}
		if h == u.Host {
			return true
		}
	}
	return len(c.HTTP.Hosts) == 0
}

func isURL(s string) bool { return strings.HasPrefix(s, "http") }

// --- decision ---------------------------------------------------------------

func useSchema(use string, target any, mark string) S {
	switch use {
	case "lazy":
		return target.(S)
	case "allOf":
		return S{"allOf": []any{target}}
	case "anyOf":
		return S{"anyOf": []any{target, S{"const": "other"}}}
	case "oneOf":
		return S{"oneOf": []any{target, S{"const": "other"}}}
	case "not":
		return S{"enum": []any{"ok", mark}, "not": target}
	case "if":
		return S{"enum": []any{"ok", mark}, "if": target, "then": S{"const": mark}, "else": S{"const": "ok"}}
	case "items":
		return S{"type": "array", "items": target, "minItems": 1}
	case "contains":
		return S{"type": "array", "contains": target, "minItems": 1}
	case "then":
		return S{"if": S{"type": "string"}, "then": target, "type": "string"}
	case "additional":
		return S{"type": "object", "additionalProperties": target, "minProperties": 1}
	}
	panic(harnessError{"use " + use})
}

// decideFetch: a connection might be one that an earlier case was not in need
// of any more, so those are looked for again.
func decideFetch(c fetchCase) Result {
	res := decideFetchOnce(c)
	if strings.HasPrefix(res.Viol, connected) {
		time.Sleep(300 * time.Millisecond)
		res = decideFetchOnce(c)
	}
	return res
}

const connected = "a connection was made to "

func decideFetchOnce(c fetchCase) Result {
	flags := c
	if c.CLI { // without hosts or paths there is nothing to allow
		if c.HTTP != nil && len(c.HTTP.Hosts) == 0 {
			c.HTTP = nil
		}
		if c.FS != nil && !c.FS.Outside && len(c.FS.Paths) == 0 {
			c.FS = nil
		}
	}
	res := Result{Labels: c.Tags, Evals: 1}
	dir := scratch()
	defer os.RemoveAll(dir)
	sp := spies()
	sp.reset()
	home, err := os.Getwd()
	if err != nil {
		panic(harnessError{err.Error()})
	}
	fill := func(s string) string {
		s = strings.ReplaceAll(s, "@DIR@", dir)
		for k, h := range sp.hosts {
			s = strings.ReplaceAll(s, k, h)
			s = strings.ReplaceAll(s, "@P"+k[1:], h[strings.LastIndex(h, ":")+1:])
		}
		return s
	}
	must := func(err error) {
		if err != nil {
			panic(harnessError{err.Error()})
		}
	}
	inside := func(p string) string {
		p = filepath.Clean(p)
		if !strings.HasPrefix(p, dir+"/") {
			panic(harnessError{"path leaves the scratch directory: " + p})
		}
		return p
	}
	for _, d := range fetchDirs {
		must(os.MkdirAll(filepath.Join(dir, d), 0o755))
	}
	for _, l := range fetchLinks {
		must(os.Symlink(filepath.Join(dir, l[1]), filepath.Join(dir, l[0])))
	}
	// documents, from the last of each chain
	type target struct {
		hop     hop
		real    string
		allowed bool
	}
	type chain struct {
		targets []target
		mark    string
		load    bool
	}
	cwd := filepath.Join(dir, c.Cwd)
	var chains []chain
	root, bundle := S{"type": "object", "properties": S{}}, S{"type": "object", "properties": S{}}
	var required []any
	for i, r := range c.Refs {
		ch := chain{mark: fmt.Sprintf("mark-%d-secret", i), load: true}
		var body any
		for k := len(r.Hops) - 1; k >= 0; k-- {
			h := r.Hops[k]
			if k == len(r.Hops)-1 {
				body = S{"const": ch.mark}
			} else {
				next := r.Hops[k+1]
				body = S{"$ref": fill(next.Ref) + innerPtr(next)}
			}
			if h.Inner {
				body = S{"const": "not this", "$defs": S{"m": body}}
			}
			js := mustBytes(body)
			real := fill(h.Real)
			switch h.Bad {
			case "missing":
				js = nil
			case "broken":
				js = js[:len(js)-1]
			case "":
			default:
				js = []byte(h.Bad + ":status:" + string(js))
			}
			if isURL(real) {
				sp.mu.Lock()
				if js != nil {
					sp.docs[real] = js
				}
				for n, v := range h.Via {
					to := real
					if n+1 < len(h.Via) {
						to = fill(h.Via[n+1])
					}
					sp.redi[fill(v)] = [2]string{to, fmt.Sprint(max(h.Code, 302))}
				}
				sp.mu.Unlock()
			} else {
				p := inside(real)
				if h.Bad != "" && h.Bad != "missing" && h.Bad != "broken" { // not a file at all
					must(os.MkdirAll(p, 0o755))
				} else if js != nil {
					must(os.WriteFile(p, js, 0o644))
				}
				if h.Link != "" {
					must(os.Symlink(p, inside(fill(h.Link))))
				}
				for n, v := range h.Via { // redirected to the file
					to := "file://" + real
					if n+1 < len(h.Via) {
						to = fill(h.Via[n+1])
					}
					sp.mu.Lock()
					sp.redi[fill(v)] = [2]string{to, fmt.Sprint(max(h.Code, 302))}
					sp.mu.Unlock()
				}
			}
		}
		name := "p" + itoa(i)
		root["properties"].(S)[name] = useSchema(r.Use, S{"$ref": fill(r.Hops[0].Ref) + innerPtr(r.Hops[0])}, ch.mark)
		bundle["properties"].(S)[name] = useSchema(r.Use, S{"const": ch.mark}, ch.mark)
		required = append(required, name)
		chains = append(chains, ch)
	}
	for i := range chains { // with all of the files there
		ch := &chains[i]
		for _, h := range c.Refs[i].Hops {
			t := target{hop: h, real: fill(h.Real)}
			if isURL(t.real) {
				t.allowed = c.urlAllowed(t.real, fill) && len(h.Via) <= 9
				for _, v := range h.Via {
					t.allowed = t.allowed && c.urlAllowed(fill(v), fill)
				}
			} else {
				t.allowed = c.fileAllowed(t.real, cwd, fill) && len(h.Via) == 0
			}
			ch.load = ch.load && t.allowed && h.Plain && h.Bad == ""
			ch.targets = append(ch.targets, t)
		}
	}
	root["required"], bundle["required"] = required, required
	for k, v := range c.Extra {
		if s, ok := v.(string); ok {
			v = fill(s)
		}
		root[k] = v
	}

	must(os.Chdir(cwd))
	defer os.Chdir(home)
	if c.Enter != "" { // as a shell that came here through a link would tell
		if mustReal(fill(c.Enter)) != mustReal(cwd) {
			panic(harnessError{"not the working directory: " + c.Enter})
		}
		old := os.Getenv("PWD")
		must(os.Setenv("PWD", fill(c.Enter)))
		defer os.Setenv("PWD", old)
	}
	po := &chaff.ParserOptions{RelativeTo: fill(c.Rel)}
	if c.FS != nil {
		var ps []string
		for _, p := range c.FS.Paths {
			ps = append(ps, fill(p))
		}
		po.DocumentFetchOptions.FileSystemFetchOptions = chaff.FileSystemFetchOptions{Enabled: true, AllowedPaths: ps, AllowOutsideCwd: c.FS.Outside}
	}
	if c.HTTP != nil {
		var hs []string
		for _, h := range c.HTTP.Hosts {
			hs = append(hs, fill(h))
		}
		po.DocumentFetchOptions.HTTPFetchOptions = chaff.HTTPFetchOptions{Enabled: true, AllowedHosts: hs, AllowInsecure: c.HTTP.Insecure}
	}
	schema := mustBytes(root)
	if c.ByFile != "" {
		must(os.WriteFile(inside(fill(c.ByFile)), schema, 0o644))
	}

	// nothing may open the files that are not allowed
	w := newOpenWatch()
	defer w.close()
	for _, ch := range chains {
		for _, t := range ch.targets {
			if !isURL(t.real) && !c.fileAllowed(t.real, cwd, fill) && t.hop.Bad != "missing" {
				w.add(t.real)
			}
		}
	}
	w.opened()
	seedGlobals(c.Seed)
	var p parsed
	var values []string
	if c.CLI {
		var crash string
		if p, values, crash = flags.runTool(cwd, schema, fill); crash != "" {
			return viol("%s", crash)
		}
	} else {
		p, values, err = c.runLibrary(schema, po, fill)
		if err != nil {
			return viol("value cannot be serialised: %v", err)
		}
	}
	if o := w.opened(); len(o) > 0 {
		res.Viol = fmt.Sprintf("file that is not allowed was opened: %s (working directory %s, reported: %s)", o[0], cwd, clip(p.why(), 200))
		return res
	}
	sp.mu.Lock()
	hits, conns := sp.hits, sp.conns
	sp.mu.Unlock()
	for _, h := range hits {
		if !c.urlAllowed(h, fill) {
			res.Viol = fmt.Sprintf("%s was requested, which is not allowed (reported: %s)", h, clip(p.why(), 200))
			return res
		}
	}
	for name, n := range conns {
		h := sp.hosts[name]
		allowed := false
		for _, to := range []string{h, "localhost" + h[strings.LastIndex(h, ":"):]} {
			allowed = allowed || c.urlAllowed("http://"+to, fill) || c.urlAllowed("https://"+to, fill)
		}
		if n > 0 && !allowed {
			res.Viol = fmt.Sprintf(connected+"%s, which is not allowed", name)
			return res
		}
	}
	loads, refuses := 0, ""
	for i, ch := range chains {
		if ch.load {
			loads++
			continue
		}
		refused := false
		for _, t := range ch.targets {
			if !t.allowed || t.hop.Bad != "" {
				refused, refuses = true, t.hop.Ref
			}
		}
		for _, v := range values {
			if u := c.Refs[i].Use; u != "not" && u != "if" && refused && strings.Contains(v, ch.mark) {
				res.Viol = fmt.Sprintf("value %s has in it what is in a document that is not allowed", clip(v, 300))
				return res
			}
		}
	}
	if refuses != "" && p.clean() {
		res.Viol = fmt.Sprintf("nothing is reported about a reference that cannot be followed: %s", refuses)
		return res
	}
	if loads == len(chains) {
		if !p.clean() {
			res.Viol = "documents that are allowed are reported: " + p.why()
			return res
		}
		orc, err := newOracle(mustBytes(bundle))
		if err != nil {
			panic(harnessError{err.Error()})
		}
		for _, v := range values {
			if why := orc.check([]byte(v)); why != "" && hasGiveUp([]byte(v)) == "" {
				res.Viol = fmt.Sprintf("generated %s: %s", clip(v, 300), clip(why, 300))
				return res
			}
		}
		res = res.label("loaded")
	}
	if refuses != "" {
		res = res.label("refused")
	}
	res.Nontrivial = refuses != "" || loads == len(chains)
	return res
}

// runLibrary parses the schema and generates values.
func (c fetchCase) runLibrary(schema []byte, po *chaff.ParserOptions, fill func(string) string) (p parsed, values []string, err error) {
	switch {
	case c.ByFile != "" && c.NoOpts:
		p = collect(chaff.ParseSchemaFileWithDefaults(fill(c.ByFile)))
	case c.ByFile != "":
		p = collect(chaff.ParseSchemaFile(fill(c.ByFile), po))
	case c.NoOpts:
		p = collect(chaff.ParseSchemaWithDefaults(schema))
	default:
		p = parseWith(schema, po)
	}
	for i := 0; i < 4 && p.err == nil; i++ {
		js, err := json.Marshal(p.g.Generate(optsFor(nil, c.Seed+int64(i))))
		if err != nil {
			return p, nil, err
		}
		values = append(values, string(js))
	}
	return p, values, nil
}

// runTool has the command line tool do the same: once telling what is
// reported, then for values.
func (c fetchCase) runTool(cwd string, schema []byte, fill func(string) string) (p parsed, values []string, crash string) {
	args := []string{"-maximum-generation-steps", steps, "-cutoff-generation-steps", steps}
	if c.HTTP != nil {
		if len(c.HTTP.Hosts) > 0 {
			args = append(args, "-allowed-hosts", fill(strings.Join(c.HTTP.Hosts, ",")))
		}
		if c.HTTP.Insecure {
			args = append(args, "-allow-insecure")
		}
	}
	if c.FS != nil {
		if len(c.FS.Paths) > 0 {
			args = append(args, "-allowed-paths", fill(strings.Join(c.FS.Paths, ",")))
		}
		if c.FS.Outside {
			args = append(args, "-allow-outside-cwd")
		}
	}
	var stdin []byte
	if c.ByFile == "" {
		stdin = schema
	} else {
		file := fill(c.ByFile)
		if c.Seed%2 == 0 {
			if rel, err := filepath.Rel(cwd, file); err == nil {
				file = rel
			}
		}
		args = append(args, "-file", file)
	}
	const told = "Passed schema failed to fully compile with the following errors:"
	r := runCLI(cwd, stdin, append(args, "-verbose")...)
	if crash = r.crashed(); crash != "" {
		return p, nil, crash
	}
	if at := strings.Index(r.out, told); at >= 0 {
		p.errs = map[string]error{"told": fmt.Errorf("%s", r.out[at+len(told):])}
	}
	if r.code != 0 {
		p.err = fmt.Errorf("%s", r.err)
		return p, nil, ""
	}
	for range 2 {
		r := runCLI(cwd, stdin, args...)
		if crash = r.crashed(); crash != "" {
			return p, nil, crash
		}
		if r.code != 0 {
			p.err = fmt.Errorf("%s", r.err)
			return p, values, ""
		}
		values = append(values, r.out)
	}
	return p, values, ""
}

func innerPtr(h hop) string {
	if h.Inner {
		return "#/$defs/m"
	}
	return ""
}

func mustBytes(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(harnessError{err.Error()})
	}
	return b
}

// --- generator --------------------------------------------------------------

type fetchGen struct {
	t    *rapid.T
	c    *fetchCase
	fs   bool
	http bool
	odd  bool
}

var fetchUses = []string{"lazy", "lazy", "allOf", "anyOf", "oneOf", "not", "if", "items", "contains", "then", "additional"}

// escapePath makes a part of a URL of a path.
func escapePath(p string) string {
	return strings.ReplaceAll(strings.ReplaceAll(p, "%", "%25"), " ", "%20")
}

// file makes a hop to a file, referred to from base (a path or a URL).
func (g *fetchGen) file(l, name, base string) hop {
	t := g.t
	d := pick(t, l+"dir", fetchDirs...)
	h := hop{Real: "@DIR@/" + d + "/" + name, Plain: true}
	access := h.Real
	switch intIn(t, l+"link", 0, 5) {
	case 0: // through a link to a directory
		var ls [][2]string
		for _, ln := range fetchLinks {
			if under(d, ln[1]) || ln[1] == "cwd/outlink" && under(d, "outside") {
				ls = append(ls, ln)
			}
		}
		if len(ls) > 0 {
			ln := ls[intIn(t, l+"which", 0, len(ls)-1)]
			rest := strings.TrimPrefix(strings.TrimPrefix(d, ln[1]), "outside")
			access = "@DIR@/" + ln[0] + rest + "/" + name
			g.c.Tags = append(g.c.Tags, "through a directory link")
		}
	case 1:
		h.Link = "@DIR@/" + pick(t, l+"ldir", fetchDirs...) + "/l" + name
		access = h.Link
		g.c.Tags = append(g.c.Tags, "through a link")
	}
	if access != h.Real {
		h.Access = access
	}
	if isURL(base) || base == "" {
		h.Ref = "file://" + access
	} else {
		rel, err := filepath.Rel(path.Dir(base), access)
		if err != nil {
			panic(harnessError{err.Error()})
		}
		h.Ref = pick(t, l+"style", rel, "./"+rel, access, "file://"+access, "file://"+path.Dir(access)+"/../"+path.Base(path.Dir(access))+"/"+name)
		if h.Link != "" && strings.HasPrefix(h.Ref, "file://") {
			h.Ref = "file://" + access
		}
		if strings.Contains(h.Ref, "/../") && strings.HasPrefix(h.Ref, "file://") {
			h.Plain = false
		}
	}
	if strings.ContainsAny(h.Ref, " %") {
		g.c.Tags = append(g.c.Tags, "escaped characters")
		if chance(t, l+"escaped", 5, 6) {
			h.Ref = escapePath(h.Ref)
		} else {
			h.Plain = false
		}
	}
	if g.odd && chance(t, l+"odd", 1, 4) {
		h.Plain = false
		g.c.Tags = append(g.c.Tags, "odd spelling")
		h.Ref = pick(t, l+"oddref",
			"file://"+strings.ReplaceAll(access, "/", "%2f"), "FILE://"+access, "file:"+access, "file://localhost"+access,
			"/proc/self/root"+access, "/proc/self/cwd/../../"+strings.TrimPrefix(access, "@DIR@/"), "//"+access, "file:////"+access,
			"file://"+access+"?x=y", access+"/", "file://"+access+"/../"+name, "%2e%2e/"+strings.TrimPrefix(access, "@DIR@/"),
			"sub/../../"+strings.TrimPrefix(access, "@DIR@/"), "file://./../"+strings.TrimPrefix(access, "@DIR@/"), "file:///proc/self/cwd/../"+strings.TrimPrefix(access, "@DIR@/"),
			"outlink/../"+strings.TrimPrefix(access, "@DIR@/"), "..\\"+strings.TrimPrefix(access, "@DIR@/"), "file://@DIR@/cwd/../"+strings.TrimPrefix(access, "@DIR@/"), "./"+access, " "+access)
	}
	return h
}

func (g *fetchGen) url(l, name, base string) hop {
	t := g.t
	host := func(l string) string {
		return pick(t, l, "http://@H0@", "http://@H1@", "https://@T0@", "https://@T1@", "http://@T0@", "https://@T0@")
	}
	srv := host(l + "srv")
	h := hop{Real: srv + pick(t, l+"path", "/", "/sub/", "/sub/deep/") + name, Plain: true}
	h.Ref = h.Real
	if isURL(base) && chance(t, l+"rel", 2, 3) {
		b, err := url.Parse(strings.ReplaceAll(base, "@", ""))
		if err != nil {
			panic(harnessError{err.Error()})
		}
		parts := strings.SplitN(base, "/", 4)
		same := parts[0] + "//" + parts[2]
		if strings.HasPrefix(h.Real, same+"/") {
			h.Ref = pick(t, l+"style", strings.TrimPrefix(h.Real, same), relPath(strings.TrimPrefix(b.Path, "/"), strings.TrimPrefix(h.Real, same+"/")))
		} else if strings.HasPrefix(h.Real, parts[0]+"//") {
			h.Ref = strings.TrimPrefix(h.Real, parts[0])
		}
	}
	if chance(t, l+"redirect", 1, 3) {
		n := pick(t, l+"via", 1, 1, 1, 2, 3, 9, 12)
		for i := 0; i < n; i++ {
			h.Via = append(h.Via, host(l+"v"+itoa(min(i, 3)))+"/r"+itoa(i)+name)
		}
		h.Code = pick(t, l+"code", 301, 302, 303, 307, 308)
		h.Ref = h.Via[0]
		g.c.Tags = append(g.c.Tags, "redirect")
	}
	if g.odd && chance(t, l+"odd", 1, 4) {
		h.Plain = false
		g.c.Tags = append(g.c.Tags, "odd spelling")
		scheme, rest, _ := strings.Cut(h.Ref, "://")
		if rest == "" {
			scheme, rest, _ = strings.Cut(h.Real, "://")
		}
		hs, pa, _ := strings.Cut(rest, "/")
		other := pick(t, l+"other", "@H0@", "@T0@")
		h.Ref = pick(t, l+"oddref",
			scheme+"://"+other+"@"+rest, scheme+"://user:pass@"+rest, strings.ToUpper(scheme)+"://"+rest, scheme+":"+rest, scheme+":/"+rest, scheme+":///"+rest,
			scheme+"://localhost:@P"+hs[1:]+"/"+pa, scheme+"://"+hs+"/"+pa+"?h="+other, scheme+"://"+hs+"/../"+pa, scheme+"://"+other+"\\@"+rest,
			scheme+"://"+hs+"."+"/"+pa, scheme+"://127.0.0.1.:@P"+hs[1:]+"/"+pa, scheme+"://2130706433:@P"+hs[1:]+"/"+pa, scheme+"://[::ffff:127.0.0.1]:@P"+hs[1:]+"/"+pa, "//"+rest, "///"+rest, "\\\\"+rest, " "+scheme+"://"+rest)
	}
	return h
}

func genFetch(mode string) func(t *rapid.T) fetchCase {
	return func(t *rapid.T) fetchCase {
		c := fetchCase{Cwd: pick(t, "cwd", "cwd", "cwd", "cwd", "cwd/sub", "outside", "outside/my docs", "cwd/%2e%2e"), Seed: seedOf(t)}
		if e := map[string]string{"cwd": "@DIR@/outside/back", "cwd/sub": "@DIR@/cwd/inlink", "outside": "@DIR@/cwd/outlink"}[c.Cwd]; e != "" && chance(t, "enter", 1, 4) {
			c.Enter = e
			c.Tags = append(c.Tags, "working directory by a link")
		}
		g := &fetchGen{t: t, c: &c, odd: chance(t, "odd", 1, 3)}
		switch mode {
		case "fs":
			g.fs = true
			c.FS = &fsCfg{Outside: chance(t, "outside", 1, 4)}
			g.http = chance(t, "and http", 1, 6)
			if g.http && chance(t, "http allowed", 1, 2) {
				c.HTTP = &httpCfg{Insecure: true}
			}
		case "http":
			g.http = true
			c.HTTP = &httpCfg{Insecure: chance(t, "insecure", 2, 3)}
			g.fs = chance(t, "and fs", 1, 6)
			if g.fs && chance(t, "fs allowed", 1, 2) {
				c.FS = &fsCfg{Outside: chance(t, "outside", 1, 4)}
			}
		case "cli":
			c.CLI = true
			g.fs, g.http = chance(t, "files", 2, 3), chance(t, "urls", 2, 3)
			g.fs = g.fs || !g.http
			if chance(t, "fs flags", 3, 4) {
				c.FS = &fsCfg{Outside: chance(t, "outside", 1, 3)}
			}
			if chance(t, "http flags", 3, 4) {
				c.HTTP = &httpCfg{Insecure: chance(t, "insecure", 2, 3)}
			}
		default:
			g.fs, g.http = true, true
			switch intIn(t, "enabled", 0, 3) {
			case 0:
				c.FS = &fsCfg{Outside: true}
			case 1:
				c.HTTP = &httpCfg{Insecure: true}
			case 2:
				c.NoOpts = true
			}
		}
		// where the schema is
		base := "@DIR@/" + c.Cwd + "/root.json"
		switch {
		case c.NoOpts:
			if chance(t, "by file", 1, 2) {
				base = "@DIR@/" + pick(t, "root dir", fetchDirs...) + "/root.json"
				c.ByFile = base
			}
		case c.CLI:
			if chance(t, "by file", 1, 2) {
				base = "@DIR@/" + pick(t, "root dir", fetchDirs...) + "/root.json"
				c.ByFile = base
			}
		case g.http && chance(t, "base http", 1, 2):
			base = pick(t, "base host", "http://@H0@", "https://@T0@", "https://@T0@") + pick(t, "base path", "/root.json", "/sub/root.json")
			c.Rel = base
		case chance(t, "base", 2, 3):
			base = "@DIR@/" + pick(t, "root dir", fetchDirs...) + "/root.json"
			if chance(t, "by file", 1, 2) {
				c.ByFile = base
			} else {
				c.Rel = "file://" + escapePath(base)
			}
		}
		n := pick(t, "refs", 1, 1, 1, 2, 3)
		for i := 0; i < n; i++ {
			l := "ref" + itoa(i)
			r := fetchRef{Use: pick(t, l+"use", fetchUses...)}
			from := base
			hops := pick(t, l+"hops", 1, 1, 2, 2, 3)
			for k := 0; k < hops; k++ {
				hl := l + "hop" + itoa(k)
				name := fmt.Sprintf("d%d-%d.json", i, k)
				var h hop
				if g.http && (!g.fs || chance(t, hl+"kind", 2, 3)) {
					h = g.url(hl, name, from)
				} else {
					h = g.file(hl, name, from)
				}
				h.Inner = chance(t, hl+"inner", 1, 4)
				if k == hops-1 && chance(t, hl+"bad", 1, 16) {
					h.Bad = pick(t, hl+"how", "missing", "broken", "500", "400", "401", "403", "410", "503")
				}
				r.Hops = append(r.Hops, h)
				from = h.Real
				if h.Access != "" || len(h.Via) > 0 {
					// which of both locations references are relative to is not specified
					from = ""
				}
			}
			c.Refs = append(c.Refs, r)
		}
		if c.FS != nil && chance(t, "paths", 1, 2) {
			for i := range intIn(t, "npaths", 1, 3) {
				l := "path" + itoa(i)
				d := pick(t, l, fetchDirs...)
				p := "@DIR@/" + d
				switch intIn(t, l+"form", 0, 5) {
				case 0:
					p += "/"
				case 1:
					rel, _ := filepath.Rel("@DIR@/"+c.Cwd, p)
					if c.Enter == "" || !strings.HasPrefix(rel, "..") {
						p = rel
					}
				case 2:
					p = "@DIR@/" + fetchLinks[intIn(t, l+"link", 0, len(fetchLinks)-1)][0]
				case 3:
					r := c.Refs[intIn(t, l+"r", 0, len(c.Refs)-1)]
					if h := r.Hops[len(r.Hops)-1]; !isURL(h.Real) && h.Bad == "" {
						p = h.Real
					}
				case 4:
					p = "@DIR@/cwd/../" + d + "/."
				}
				c.FS.Paths = append(c.FS.Paths, p)
			}
			c.Tags = append(c.Tags, "allowed paths")
		}
		if c.HTTP != nil && chance(t, "hosts", 2, 3) {
			for i := range intIn(t, "nhosts", 1, 2) {
				l := "host" + itoa(i)
				h := pick(t, l, "@H0@", "@H1@", "@T0@", "@T1@")
				switch intIn(t, l+"form", 0, 4) {
				case 0:
					h = "http://" + h
				case 1:
					h = "https://" + h + "/some/path"
				}
				c.HTTP.Hosts = append(c.HTTP.Hosts, h)
			}
			if chance(t, "more hosts", 1, 3) {
				c.HTTP.Hosts = append(c.HTTP.Hosts, pick(t, "which", "example.org", "localhost", "127.0.0.1", "*", "schemas.example.com:8443", "x@H0@", "@H0@0", "x.@T0@", "@T0@0", "@H1@.example.org"))
			}
			c.Tags = append(c.Tags, "allowed hosts")
		}
		if c.Enter != "" { // where .. leads to from there is not specified
			for i := range c.Refs {
				for k := range c.Refs[i].Hops {
					if h := &c.Refs[i].Hops[k]; strings.HasPrefix(strings.TrimPrefix(h.Ref, "./"), "..") {
						h.Plain = false
					}
				}
			}
		}
		// what names other documents without being a reference
		if chance(t, "extra", 1, 6) {
			last := c.Refs[0].Hops[len(c.Refs[0].Hops)-1]
			at := last.Real
			if !isURL(at) {
				at = "file://" + at
			}
			c.Extra = S{}
			switch intIn(t, "which extra", 0, 3) {
			case 0:
				c.Extra["$schema"] = at
				c.Refs[0].Hops[0].Plain = false
			case 1:
				c.Extra["$comment"] = at
			case 2:
				c.Extra["$id"] = "https://example.org/" + pick(t, "id", "root.json", "a/b")
				for i := range c.Refs {
					c.Refs[i].Hops[0].Plain = false
				}
			case 3:
				c.Extra["title"] = at
			}
			c.Tags = append(c.Tags, "extra")
		}
		for _, h := range c.Refs {
			c.Tags = append(c.Tags, "use "+h.Use, "hops "+itoa(len(h.Hops)))
		}
		return c
	}
}

const fetchRule = "; one to three references from eleven keywords over up to three documents each, spelled relative, absolute, as URL or oddly, some through symbolic links or redirects; files are watched for being opened, servers for being connected to; non-trivial: all references have to work, or one has to be refused"

func init() {
	register("C23", mkFacet("fs", "documents in fifteen directories (some with names that have to be escaped in a URL) in and outside of the working directory, allowed paths in six forms"+fetchRule, 4000, 60000, 4, genFetch("fs"), decideFetch))
	register("C24", mkFacet("http", "documents on four servers over http and https, allowed hosts in three forms, insecure connections allowed or not"+fetchRule, 3000, 40000, 4, genFetch("http"), decideFetch))
	register("C27", mkFacet("flags", "the command line tool: schemas from a file or stdin with -allowed-paths, -allow-outside-cwd, -allowed-hosts and -allow-insecure in all combinations, three runs each"+fetchRule, 1500, 20000, 4, genFetch("cli"), decideFetch))
	register("C25", mkFacet("off", "file system and http access both off, or only the other one on"+fetchRule, 3000, 40000, 4, genFetch("off"), decideFetch))
}
