package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	chaff "github.com/ryanolee/go-chaff"
	"pgregory.net/rapid"
)

// cliRun is one run of the command line tool.
type cliRun struct {
	code     int
	out, err string
}

// runCLI runs the tool in dir. Without a schema on it there is no input at all.
func runCLI(dir string, stdin []byte, args ...string) cliRun {
	exe := os.Getenv("VERIF_CLI")
	if exe == "" {
		panic(harnessError{"VERIF_CLI is not set"})
	}
	cmd := exec.Command(exe, args...)
	cmd.Dir = dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if stdin != nil {
		cmd.Stdin = bytes.NewReader(stdin)
	}
	if err := cmd.Start(); err != nil {
		panic(harnessError{"cli: " + err.Error()})
	}
	timer := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	timer.Stop()
	r := cliRun{out: out.String(), err: errb.String()}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		r.code = ee.ExitCode()
	} else if err != nil {
		panic(harnessError{"cli: " + err.Error()})
	}
	return r
}

func (r cliRun) crashed() string {
	if r.code != 0 && r.code != 1 || strings.Contains(r.err, "panic:") || strings.Contains(r.err, "goroutine ") {
		return fmt.Sprintf("the tool ends with exit status %d: %s", r.code, clip(r.err, 400))
	}
	return ""
}

const steps = "100000000"

// --- value: what is written is a value of the schema ------------------------

type cliCase struct {
	Schema  json.RawMessage `json:"schema"`
	Oracle  json.RawMessage `json:"oracle,omitempty"`
	Stdin   bool            `json:"stdin,omitempty"`
	Format  bool            `json:"format,omitempty"`
	Output  bool            `json:"output,omitempty"`
	Verbose bool            `json:"verbose,omitempty"`
	N       int             `json:"n"`
	Markers bool            `json:"markers,omitempty"`
	Tags    []string        `json:"tags,omitempty"`
}

func decideCLIValue(c cliCase) Result {
	res := Result{Labels: c.Tags}
	dir := scratch()
	defer os.RemoveAll(dir)
	o := c.Oracle
	if len(o) == 0 {
		o = c.Schema
	}
	orc, err := newOracle(o)
	if err != nil {
		panic(harnessError{err.Error()})
	}
	args := []string{"-maximum-generation-steps", steps, "-cutoff-generation-steps", steps}
	var stdin []byte
	if c.Stdin {
		stdin = c.Schema
	} else {
		args = append(args, "-file", writeFileIn(dir, "schema.json", c.Schema))
	}
	if c.Format {
		args = append(args, "-format")
	}
	if c.Verbose {
		args = append(args, "--verbose")
	}
	for i := range c.N {
		a := append([]string{}, args...)
		file := filepath.Join(dir, "out"+itoa(i))
		if c.Output {
			a = append(a, "-output", file)
		}
		r := runCLI(dir, stdin, a...)
		if why := r.crashed(); why != "" {
			return viol("%s", why)
		}
		if r.code != 0 {
			res.Viol = "the tool fails for a satisfiable schema: " + r.err
			return res
		}
		text := r.out
		if c.Verbose {
			// what is told comes first, on lines of its own
			at := strings.Index(text, "\n")
			if !strings.HasPrefix(text, "Schema compiled successfully") || at < 0 {
				res.Viol = "-verbose tells nothing about the generators: " + clip(text, 200)
				return res
			}
			if strings.Contains(text, "failed to fully compile with the following errors") {
				res.Viol = "satisfiable schema is reported as unusable: " + clip(text, 600)
				return res
			}
			text = text[at+1:]
			// generators may be described on several lines
			for !json.Valid([]byte(text)) && strings.Contains(text, "\n") && !c.Output {
				text = text[strings.Index(text, "\n")+1:]
			}
		}
		if c.Output {
			if !c.Verbose && r.out != "" {
				res.Viol = "with -output there is something on stdout as well: " + clip(r.out, 200)
				return res
			}
			b, err := os.ReadFile(file)
			if err != nil {
				res.Viol = "-output: " + err.Error()
				return res
			}
			text = string(b)
		}
		if !json.Valid([]byte(text)) {
			res.Viol = fmt.Sprintf("what is written is not one JSON value: %s", clip(text, 300))
			return res
		}
		var b bytes.Buffer
		if c.Format {
			json.Indent(&b, []byte(text), "", "    ")
		} else {
			json.Compact(&b, []byte(text))
		}
		if strings.TrimSuffix(text, "\n") != b.String() {
			res.Viol = fmt.Sprintf("written with -format=%v: %s", c.Format, clip(text, 300))
			return res
		}
		res.Evals++
		if why := orc.check([]byte(text)); why != "" {
			if m := hasGiveUp([]byte(text)); m != "" && c.Markers {
				res.Inconclusive = m
				continue
			}
			res.Viol = fmt.Sprintf("generated %s: %s", clip(text, 300), clip(why, 300))
			return res
		}
		res.Nontrivial = true
	}
	return res
}

// genTexts has values and names of characters that are escaped in JSON, in HTML, in formats or not at all.
func genTexts(t *rapid.T) confCase {
	text := func(l string) string {
		out := ""
		for i, n := 0, intIn(t, l+"n", 0, 4); i < n; i++ {
			out += pick(t, l, "<b>", "&", "'", "\"", "\\", "%d", "%", "%%", "\u2028", "\u2029", "\n", "\t", "\r", "\u0001", "\u001f", "\u007f", "é", "😀", "\ufffd", "\ufeff", "\\u003c", "\\n", " ", "map[", "}", "a", "//", "\u0085")
		}
		return out
	}
	var s S
	switch intIn(t, "textkind", 0, 3) {
	case 0:
		s = S{"const": text("c")}
	case 1:
		s = S{"enum": []any{text("e1") + "1", text("e2") + "2", S{text("ek"): text("ev")}}}
	case 2:
		s = S{"type": "object", "properties": S{text("p1") + "1": S{"const": text("v1")}, text("p2") + "2": S{"enum": []any{text("v2"), nil}}}, "minProperties": 2}
	default:
		s = S{"type": "array", "prefixItems": []any{S{"const": []any{text("i1"), S{}}}, S{"const": S{text("ik"): []any{}}}}, "items": false, "minItems": 2}
	}
	return conf(t, s, 2, true, false, "texts")
}

func genCLIValue(t *rapid.T) cliCase {
	var cc confCase
	switch intIn(t, "from", 0, 7) {
	case 6, 7:
		cc = genTexts(t)
	case 0:
		cc = genTypes(t)
	case 1:
		cc = genAllOf(t)
	case 2:
		cc = genCombo(t)
	case 3:
		cc = genIfSingle(t)
	default:
		cc = genMix(t)
	}
	if !cc.Accept {
		cc = genMix(t)
	}
	return cliCase{Schema: cc.Schema, Oracle: cc.Oracle, Stdin: chance(t, "stdin", 1, 2), Format: chance(t, "format", 1, 2), Output: chance(t, "output", 1, 3), Verbose: chance(t, "verbose", 1, 4), N: 2, Markers: cc.Markers, Tags: cc.Tags}
}

// --- output: no file that is there is written to ----------------------------

type outCase struct {
	Kind  string `json:"kind"`
	Procs int    `json:"procs"`
	Size  int    `json:"size"` // of the value
	Bad   bool   `json:"bad,omitempty"`
	Old   string `json:"old"`
	Rel   bool   `json:"rel,omitempty"`
}

func snapshotDir(dir string) map[string]string {
	m := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			to, _ := os.Readlink(p)
			m[rel] = "link " + to
		case fi.IsDir():
			m[rel] = "dir"
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			m[rel] = "file " + string(b)
		}
		return nil
	})
	if err != nil {
		panic(harnessError{err.Error()})
	}
	return m
}

func decideOut(c outCase) Result {
	res := Result{Labels: []string{c.Kind, "procs" + itoa(c.Procs)}, Evals: c.Procs, Nontrivial: true}
	dir := scratch()
	defer os.RemoveAll(dir)
	arg := "out.json"
	switch c.Kind {
	case "new":
	case "file":
		writeFileIn(dir, "out.json", []byte(c.Old))
	case "link":
		writeFileIn(dir, "kept.json", []byte(c.Old))
		os.Symlink("kept.json", filepath.Join(dir, "out.json"))
	case "dir":
		os.Mkdir(filepath.Join(dir, "out.json"), 0o755)
	case "below a file":
		writeFileIn(dir, "kept.json", []byte(c.Old))
		arg = "kept.json/out.json"
	case "missing dir":
		arg = "no/such/out.json"
	case "other spelling":
		writeFileIn(dir, "d/out.json", []byte(c.Old))
		arg = "d/../d/./out.json"
	}
	if !c.Rel {
		arg = filepath.Join(dir, "x") // keeps the spelling
		arg = strings.TrimSuffix(arg, "x") + map[bool]string{true: "d/../d/./out.json"}[c.Kind == "other spelling"]
		switch c.Kind {
		case "other spelling":
		case "below a file":
			arg += "kept.json/out.json"
		case "missing dir":
			arg += "no/such/out.json"
		default:
			arg += "out.json"
		}
	}
	want := strings.Repeat("a", c.Size)
	schema := mustBytes(S{"const": want})
	if c.Bad {
		schema = schema[:len(schema)-1]
	}
	before := snapshotDir(dir)
	runs := make([]cliRun, c.Procs)
	var wg sync.WaitGroup
	for i := range runs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			runs[i] = runCLI(dir, schema, "-output", arg)
		}()
	}
	wg.Wait()
	wins := 0
	for _, r := range runs {
		if why := r.crashed(); why != "" {
			return viol("%s", why)
		}
		if r.code == 0 {
			wins++
		} else if r.err == "" {
			return viol("the tool fails without a word")
		}
		if r.out != "" {
			return viol("with -output there is something on stdout: %s", clip(r.out, 200))
		}
	}
	after := snapshotDir(dir)
	if c.Kind == "new" && !c.Bad {
		if wins != 1 {
			res.Viol = fmt.Sprintf("%d of %d runs wrote to the same new file", wins, c.Procs)
			return res
		}
		before["out.json"] = "file " + string(mustBytes(want))
	} else if wins > 0 {
		res.Viol = "the tool succeeds without writing a new file"
		return res
	}
	for k := range after {
		if after[k] != before[k] {
			res.Viol = fmt.Sprintf("%s was %q and is %q", k, clip(before[k], 60), clip(after[k], 60))
			return res
		}
	}
	if len(after) != len(before) {
		res.Viol = "a file is gone"
	}
	return res
}

func genOut(t *rapid.T) outCase {
	return outCase{
		Kind:  pick(t, "kind", "new", "new", "new", "file", "file", "link", "dir", "below a file", "missing dir", "other spelling"),
		Procs: pick(t, "procs", 1, 1, 4, 8), Size: pick(t, "size", 0, 1, 100, 100000), Bad: chance(t, "bad", 1, 8), Rel: chance(t, "rel", 1, 2),
		Old: pick(t, "old", "", "old", `{"a":1}`, strings.Repeat("z", 5000)),
	}
}

// --- errors: the exit status says whether the schema was taken --------------

func decideCLIError(c robustCase) Result {
	res := Result{Labels: c.Tags, Evals: 1}
	dir := scratch()
	defer os.RemoveAll(dir)
	b := []byte(c.Text)
	if len(c.Doc) > 0 {
		b = c.Doc
	}
	p := parseWith(b, &chaff.ParserOptions{})
	var r cliRun
	if c.Seed%2 == 0 {
		r = runCLI(dir, b)
	} else {
		r = runCLI(dir, nil, "-file", writeFileIn(dir, "s.json", b))
	}
	if why := r.crashed(); why != "" {
		return viol("%s", why)
	}
	switch {
	case p.err != nil && r.code == 0:
		res.Viol = fmt.Sprintf("exit status 0 for what the parser fails for: %v", p.err)
	case p.err == nil && r.code != 0:
		res.Viol = "exit status 1 for what the parser takes: " + r.err
	case r.code != 0 && r.out != "":
		res.Viol = "there is something on stdout next to the failure: " + clip(r.out, 200)
	case r.code != 0 && strings.TrimSpace(r.err) == "":
		res.Viol = "the tool fails without a word"
	case r.code == 0 && !json.Valid([]byte(r.out)):
		res.Viol = "what is written is not JSON: " + clip(r.out, 200)
	}
	res = res.label("exit" + itoa(r.code))
	res.Nontrivial = true
	return res
}

// --- flags: the limits given are those generated by -------------------------

type flagCase struct {
	Schema json.RawMessage `json:"schema"`
	Flag   string          `json:"flag"`
	N      int             `json:"n"`
	Bypass bool            `json:"bypass,omitempty"`
	Stdin  bool            `json:"stdin,omitempty"`
	Kind   string          `json:"kind"`
}

// documentID: where the document of a reference is, as the texts about giving up name it.
var documentID = regexp.MustCompile(`file://[^|"]*\|`)

// decideFlag: the values of these schemas follow from the limits alone.
func decideFlag(c flagCase) Result {
	res := Result{Labels: []string{c.Kind, c.Flag}, Evals: 1}
	dir := scratch()
	defer os.RemoveAll(dir)
	// the documented defaults of the flags
	o := GenOpts{MaximumReferenceDepth: 10, MaximumIfAttempts: 100, MaximumOneOfAttempts: 100, MaximumGenerationSteps: 1000, CutoffGenerationSteps: 2000, BypassCyclicReferenceCheck: c.Bypass}
	switch c.Flag {
	case "maximum-reference-depth":
		o.MaximumReferenceDepth = c.N
	case "maximum-if-attempts":
		o.MaximumIfAttempts = c.N
	case "maximum-oneof-attempts":
		o.MaximumOneOfAttempts = c.N
	case "maximum-generation-steps":
		o.MaximumGenerationSteps = c.N
	case "cutoff-generation-steps":
		o.CutoffGenerationSteps = c.N
	}
	p := parseWith(c.Schema, &chaff.ParserOptions{})
	if p.err != nil {
		panic(harnessError{"flags: " + p.err.Error()})
	}
	a, b := mustBytes(p.g.Generate(optsFor(&o, 1))), mustBytes(p.g.Generate(optsFor(&o, 2)))
	if !bytes.Equal(documentID.ReplaceAll(a, nil), documentID.ReplaceAll(b, nil)) {
		return res.label("not determined")
	}
	var args []string
	if c.Flag != "" {
		args = append(args, "-"+c.Flag, itoa(c.N))
	}
	if c.Bypass {
		args = append(args, "-bypass-cyclic-reference-check")
	}
	var stdin []byte
	if c.Stdin {
		stdin = c.Schema
	} else {
		args = append(args, "-file", writeFileIn(dir, "s.json", c.Schema))
	}
	r := runCLI(dir, stdin, args...)
	if why := r.crashed(); why != "" {
		return viol("%s", why)
	}
	if r.code != 0 {
		return viol("the tool fails: %s", r.err)
	}
	if documentID.ReplaceAllString(strings.TrimSuffix(r.out, "\n"), "") != documentID.ReplaceAllString(string(a), "") {
		res.Viol = fmt.Sprintf("%v makes %s, the option makes %s", args, clip(r.out, 300), clip(string(a), 300))
	}
	res.Nontrivial = true
	return res
}

func genFlag(t *rapid.T) flagCase {
	c := flagCase{Stdin: chance(t, "stdin", 1, 2), Bypass: chance(t, "bypass", 1, 2)}
	null := S{"type": "null"}
	var s S
	switch c.Kind = pick(t, "kind", "recursion", "recursion", "never one", "never one", "cut off", "minimised", "if"); c.Kind {
	case "recursion":
		c.Flag, c.N = pick(t, "flag", "maximum-reference-depth", "maximum-reference-depth", ""), intIn(t, "n", 1, 30)
		s = S{"$ref": "#/$defs/n", "$defs": S{"n": S{"type": "object", "properties": S{"n": S{"$ref": "#/$defs/n"}}, "required": []any{"n"}, "additionalProperties": false}}}
	case "never one":
		c.Flag, c.N = pick(t, "flag", "maximum-oneof-attempts", "maximum-oneof-attempts", ""), intIn(t, "n", 1, 300)
		x := S{"const": 1}
		s = S{"oneOf": []any{x, S{"enum": []any{1}}}}
	case "cut off":
		n := intIn(t, "len", 20, 80)
		c.Flag, c.N = pick(t, "flag", "cutoff-generation-steps", "cutoff-generation-steps", ""), intIn(t, "n", 1, 150)
		s = S{"type": "array", "minItems": n, "maxItems": n, "items": S{"type": "array", "minItems": 1, "maxItems": 1, "items": null}}
	case "minimised":
		// the first part takes all of the steps, what comes after has room to grow
		c.Flag, c.N = pick(t, "flag", "maximum-generation-steps", "maximum-generation-steps", ""), intIn(t, "n", 1, 60)
		k := c.N
		if c.Flag == "" {
			k = 1000
		}
		s = S{"type": "array", "minItems": 2, "maxItems": 2, "items": false, "prefixItems": []any{
			S{"type": "array", "minItems": k + 5, "maxItems": k + 5, "items": S{"type": "array", "minItems": 1, "maxItems": 1, "items": S{"type": "null"}}},
			S{"type": "array", "minItems": 1, "maxItems": 40, "items": null}}}
	default:
		c.Flag, c.N = pick(t, "flag", "maximum-if-attempts", "maximum-if-attempts", ""), intIn(t, "n", 1, 300)
		s = S{"const": 1, "if": S{"const": 1}, "then": S{"const": 2}}
		s = S{"type": "integer", "minimum": 1, "maximum": 1, "if": S{"minimum": 1}, "then": S{"multipleOf": 2}}
	}
	c.Schema = raw(s)
	return c
}

func init() {
	register("C26",
		mkFacet("value", "the schemas of C07, C08, C09, C10 and C14 from a file or stdin, with and without -format, -output and -verbose, two runs each; non-trivial: a value was judged", 400, 6000, 4, genCLIValue, decideCLIValue),
		mkFacet("output", "-output with a new or an existing file, link or directory, spelled in several ways, by one to eight processes at once; all of them count as non-trivial", 300, 5000, 2, genOut, decideOut),
		mkFacet("errors", "damaged schemas and arbitrary bytes, as for C15; all of them count as non-trivial", 600, 8000, 4, genBytes, decideCLIError),
		mkFacet("flags", "schemas whose one value follows from the limits, with random limits; non-trivial: the library makes the same value twice", 400, 5000, 4, genFlag, decideFlag),
	)
}
