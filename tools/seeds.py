SEEDS = []
def seed(id, property, edits, needs, breaks, demo=None, imports=(), extra_imports=(), sh=None):
    d = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, imports=list(imports), extra_imports=list(extra_imports))
    if demo: d["demo"] = demo
    if sh: d["sh"] = sh
    SEEDS.append(d)
seed("C01-integer-multiple-range", "C01",
 [("number.go", "offset := util.GetFloat(util.GetZeroIfNil(node.MultipleOf, 0)*100, defaultOffset)", "offset := util.GetFloat(util.GetZeroIfNil(node.MultipleOf, 0)/2, defaultOffset)")],
 "a multipleOf with one bound only, such that no multiple is within half a multiple of this bound",
 "the window made up for the missing bound holds no multiple, the schema is reported as unusable",
 '''
func main() {
	parse(`{"type":"integer","minimum":1,"multipleOf":10}`)
	parse(`{"type":"number","maximum":-0.1,"multipleOf":0.5}`)
}''')
seed("C05-required-optional", "C05",
 [("object.go", "if node.MaxProperties != nil && minProperties > maxProperties {", "if node.MaxProperties != nil && minProperties+len(requiredProperties)/4 > maxProperties {")],
 "four required properties and a minProperties that equals maxProperties",
 "a satisfiable schema is reported as unusable",
 '''
func main() {
	parse(`{"type":"object","properties":{"a":{},"b":{},"c":{},"d":{}},"required":["a","b","c","d"],"minProperties":4,"maxProperties":4}`)
}''')
seed("C05-additional-budget", "C05",
 [("object.go", "	generatorTarget -= len(optionalKeysToGenerate)\n", "	if len(g.PatternProperties) > 0 {\n		generatorTarget -= len(optionalKeysToGenerate)\n	}\n")],
 "optional properties next to an additionalProperties schema and a maxProperties they only exceed together",
 "additional properties are added on top of the optional ones and exceed maxProperties",
 '''
func main() {
	g := parse(`{"type":"object","properties":{"a":{"type":"null"},"b":{"type":"null"}},"additionalProperties":{"type":"boolean"},"maxProperties":3}`)
	for i := 0; i < 500; i++ {
		if v := g.GenerateWithDefaults().(map[string]any); len(v) > 3 {
			fail("%v", v)
		}
	}
}''')
seed("C06-contains-items", "C06",
 [("array.go", "	if node.Items != nil && node.Items.Node != nil {\n		mergedContains", "	if node.Items != nil && node.Items.Node != nil && node.PrefixItems == nil {\n		mergedContains")],
 "prefixItems, items and contains in one schema",
 "members made for contains no longer satisfy items when there is a tuple",
 '''
func main() {
	g := parse(`{"type":"array","prefixItems":[{"type":"null"}],"items":{"type":"integer","maximum":50},"contains":{"minimum":40,"maximum":900,"type":"integer"}}`)
	for i := 0; i < 500; i++ {
		for k, m := range g.GenerateWithDefaults().([]any) {
			if k > 0 && m.(int) > 50 {
				fail("%v", m)
			}
		}
	}
}''')
seed("C08-min-items", "C08",
 [("merge.go", "	baseNode.MinItems = util.MaxFloatPtr(otherNode.MinItems, baseNode.MinItems)", "	baseNode.MinItems = util.GetPtr(otherNode.MinItems, baseNode.MinItems)")],
 "two branches of an allOf with a minItems each, the first one the higher",
 "the minItems of the last branch wins",
 '''
func main() {
	g := parse(`{"type":"array","items":{"type":"integer"},"maxItems":6,"allOf":[{"minItems":4},{"minItems":2}]}`)
	for i := 0; i < 300; i++ {
		if v := g.GenerateWithDefaults().([]any); len(v) < 4 {
			fail("%v", v)
		}
	}
}''')
seed("C11-lost-mergednot", "C11",
 [("merge.go", "		mergedNode.mergedNot = append(mergedNode.mergedNot, node.mergedNot...)\n	}\n	return mergedNode", "		mergedNode.mergedNot = append(mergedNode.mergedNot, node.mergedNot[0])\n	}\n	return mergedNode")],
 "a nested allOf that collects two nots before it is merged into another branch",
 "of the nots of a nested allOf all but the first are forgotten",
 '''
func main() {
	g := parse(`{"$defs":{"n":{"allOf":[{"not":{"const":1}},{"not":{"const":2}}]}},"type":"integer","minimum":0,"maximum":4,"allOf":[{"$ref":"#/$defs/n"},{"maximum":3}]}`)
	for i := 0; i < 500; i++ {
		v, ok := g.GenerateWithDefaults().(int)
		if ok && (v == 1 || v == 2) {
			fail("%v", v)
		}
	}
}''')
seed("C16-arrays-grow-on", "C16",
 [("array.go", "	if g.DisallowUnevaluatedItems || opts.ShouldMinimize() {", "	if g.DisallowUnevaluatedItems || opts.ShouldCutoff() {")],
 "nested arrays that pass MaximumGenerationSteps, with a cutoff well above",
 "arrays keep growing past the minimise threshold",
 '''
func main() {
	g := parse(`{"$defs":{"a":{"type":"array","items":{"type":"array","items":{"type":"array","items":{"type":"array","items":{"type":"integer"}}}}}},"$ref":"#/$defs/a"}`)
	var count func(v any) int
	count = func(v any) int {
		n := 1
		if a, ok := v.([]any); ok {
			for _, x := range a {
				n += count(x)
			}
		}
		return n
	}
	total := 0
	for i := 0; i < 30; i++ {
		total += count(g.Generate(&chaff.GeneratorOptions{MaximumGenerationSteps: 10, CutoffGenerationSteps: 10000, Rand: rand.NewRandUtil(int64(i))}))
	}
	if total > 30*60 {
		fail("%d values in 30 documents", total)
	}
}''', extra_imports=['"github.com/ryanolee/go-chaff/rand"'])
seed("C18-attempts-mixed-up", "C18",
 [("generator.go", "util.GetInt(options.MaximumOneOfAttempts, 100)", "util.GetInt(options.MaximumIfAttempts, 100)")],
 "MaximumOneOfAttempts other than the default and a oneOf that takes more attempts than MaximumIfAttempts",
 "the option for oneOf has no effect, the one for if takes its place",
 '''
func main() {
	g := parse(`{"oneOf":[{"type":"integer","minimum":0,"maximum":999},{"type":"integer","minimum":1,"maximum":1000}]}`)
	for i := 0; i < 20; i++ {
		v := g.Generate(&chaff.GeneratorOptions{MaximumOneOfAttempts: 100000, CutoffGenerationSteps: 1 << 30, MaximumGenerationSteps: 1 << 30, Rand: rand.NewRandUtil(int64(i))})
		if _, ok := v.(int); !ok {
			fail("%v", v)
		}
	}
}''', extra_imports=['"github.com/ryanolee/go-chaff/rand"'])
seed("C18-regex-cache", "C18",
 [("regex.go", "	return regen.NewGenerator(pattern, opts)\n}", "	if generator, ok := regexGenerators.Load(pattern); ok {\n		return generator.(regen.Generator), nil\n	}\n\n	generator, err := regen.NewGenerator(pattern, opts)\n	if err == nil {\n		regexGenerators.Store(pattern, generator)\n	}\n\n	return generator, err\n}\n\n// Generators are costly to create\nvar regexGenerators sync.Map"),
  ("regex.go", '	"strings"\n', '	"strings"\n	"sync"\n')],
 "the same pattern parsed twice with different regex options, in one schema or one after the other",
 "the options of whoever parsed the pattern first are used for all that come after",
 '''
func opts(n uint) *chaff.ParserOptions {
	return &chaff.ParserOptions{RegexStringOptions: &regen.GeneratorArgs{MaxUnboundedRepeatCount: n, Flags: syntax.PerlX}}
}
func main() {
	for _, n := range []uint{3, 50} {
		g, err := chaff.ParseSchemaString(`{"type":"string","pattern":"^a*$"}`, opts(n))
		if err != nil {
			fail("%v", err)
		}
		longest := 0
		for i := 0; i < 300; i++ {
			longest = max(longest, len(g.GenerateWithDefaults().(string)))
		}
		if longest > int(n) || n == 50 && longest < 10 {
			fail("longest of at most %d is %d", n, longest)
		}
	}
}''', imports=["regexp/syntax"], extra_imports=['"github.com/ryanolee/go-chaff/internal/regen"'])
seed("C22-last-type-never", "C22",
 [("multiple_type.go", "opts.Rand.RandomInt(0, len(g.generators))", "opts.Rand.RandomInt(0, (len(g.generators)+1)/2)")],
 "a list of two or more types, and enough values to notice that some types never come out",
 "the types in the second half of the list are never generated",
 '''
func main() {
	g := parse(`{"type":["string","integer","null"]}`)
	for i := 0; i < 500; i++ {
		if g.GenerateWithDefaults() == nil {
			return
		}
	}
	fail("never null")
}''')
seed("C12-middle-id", "C12",
 [("document.go", "		i := strings.LastIndex(p, \"/\")\n		if i < 0 {\n			break\n		}", "		i := strings.LastIndex(p, \"/\")\n		if i < 0 || strings.Count(p, \"/\") <= 4 {\n			break\n		}")],
 "an $id relative to the $id of an enclosing sub-schema rather than to that of the document",
 "relative ids in a sub-schema with an $id of its own resolve against the document",
 '''
func main() {
	g := parse(`{"$id":"https://example.com/root.json","type":"object","properties":{"a":{"$ref":"https://example.com/dir/leaf.json"}},"required":["a"],
		"$defs":{"mid":{"$id":"https://example.com/dir/mid.json","$defs":{"leaf":{"$id":"leaf.json","type":"integer"}}}}}`)
	for i := 0; i < 30; i++ {
		if _, ok := g.GenerateWithDefaults().(map[string]any)["a"].(int); !ok {
			fail("not an integer")
		}
	}
}''')
seed("C17-bad-pattern-name", "C17",
 [("object.go", "			metadata.Errors.AddErrorWithSubpath(errPath, fmt.Errorf(\"failed to create regex generator for %s. Error given: %s\", regex, err))\n", "			_ = errPath\n")],
 "a patternProperties name that is no regular expression",
 "the name is dropped without a report",
 '''
func main() {
	g, err := chaff.ParseSchemaStringWithDefaults(`{"type":"object","patternProperties":{"(":{"type":"string"}}}`)
	if err == nil && !g.Metadata.Errors.HasErrors() {
		fail("not reported")
	}
}''')
seed("C22-enum-tail", "C22",
 [("rand/random.go", "	return slice[sr.Rand.Intn(len(slice))]", "	return slice[sr.Rand.Intn(len(slice))&31]")],
 "an enum of more than 32 values",
 "values past the first 32 are never generated",
 '''
func main() {
	members := []any{}
	for i := 0; i < 40; i++ {
		members = append(members, i)
	}
	b, _ := json.Marshal(map[string]any{"enum": members})
	g := parse(string(b))
	for i := 0; i < 5000; i++ {
		if g.GenerateWithDefaults() == float64(39) {
			return
		}
	}
	fail("39 never comes")
}''')
seed("C23-allowed-links", "C23",
 [("fetchers.go", "	resolvedPath, err := getRealPath(filePath)\n", "	resolvedPath, err := filepath.Abs(filePath)\n")],
 "a symbolic link within an allowed directory that leads out of it",
 "documents outside the allowed paths are read by way of links",
 '''
func main() {
	dir, _ := os.MkdirTemp(".", "docs")
	dir, _ = filepath.Abs(dir)
	os.MkdirAll(dir+"/in", 0o755)
	os.MkdirAll(dir+"/out", 0o755)
	os.WriteFile(dir+"/out/secret.json", []byte(`{"const":"secret"}`), 0o644)
	os.Symlink(dir+"/out/secret.json", dir+"/in/link.json")
	g, err := chaff.ParseSchemaString(`{"$ref":"file://`+dir+`/in/link.json"}`, &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{FileSystemFetchOptions: chaff.FileSystemFetchOptions{Enabled: true, AllowedPaths: []string{dir + "/in"}}}})
	if err == nil && g.GenerateWithDefaults() == "secret" {
		fail("read what lies outside")
	}
}''', imports=["path/filepath"])
seed("C24-host-list", "C24",
 [("fetchers.go", "			allowedHosts = append(allowedHosts, parsedUrl.Host)\n", "			allowedHosts = append(allowedHosts, parsedUrl.Hostname())\n")],
 "an allowed host given as a URL with a port",
 "the port of the allowed host is dropped: documents from it are refused, or from another port loaded",
 '''
func main() {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { fmt.Fprint(w, `{"const":"yes"}`) }))
	defer s.Close()
	g, err := chaff.ParseSchemaString(`{"$ref":"`+s.URL+`/a.json"}`, &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{HTTPFetchOptions: chaff.HTTPFetchOptions{Enabled: true, AllowInsecure: true, AllowedHosts: []string{s.URL}}}})
	if err != nil || g.GenerateWithDefaults() != "yes" {
		fail("refused: %v", err)
	}
}''', imports=["net/http", "net/http/httptest"])
seed("C25-both-fetchers", "C25",
 [("document.go", '		documentFetchers["https"] = &httpFetcher\n	}\n\n	if opts.DocumentFetchOptions.FileSystemFetchOptions.Enabled {\n		fsFetcher, err := NewFileSystemDocumentFetcher(opts.DocumentFetchOptions.FileSystemFetchOptions)', '		documentFetchers["https"] = &httpFetcher\n	}\n\n	fileOptions := opts.DocumentFetchOptions.FileSystemFetchOptions\n	if fileOptions.Enabled || opts.RelativeTo != "" {\n		fileOptions.Enabled = true\n		fsFetcher, err := NewFileSystemDocumentFetcher(fileOptions)')],
 "a schema parsed from a file, with options that do not enable fetching from the file system",
 "files next to the schema are read although nothing allows it",
 '''
func main() {
	dir, _ := os.MkdirTemp(".", "docs")
	os.WriteFile(dir+"/root.json", []byte(`{"type":"object","properties":{"b":{"$ref":"b.json"}},"required":["b"]}`), 0o644)
	os.WriteFile(dir+"/b.json", []byte(`{"const":"secret"}`), 0o644)
	g, err := chaff.ParseSchemaFileWithDefaults(dir + "/root.json")
	if err != nil {
		return
	}
	if v, ok := g.GenerateWithDefaults().(map[string]any); ok && v["b"] == "secret" {
		fail("read b.json")
	}
}''')
seed("C08-tighter-bound-lost", "C08",
 [("merge.go", "	baseNode.MaxProperties = util.MinFloatPtr(otherNode.MaxProperties, baseNode.MaxProperties)", "	baseNode.MaxProperties = util.GetPtr(otherNode.MaxProperties, baseNode.MaxProperties)")],
 "maxProperties in two parts of an allOf, the tighter one first",
 "the last maxProperties holds, not the tightest",
 '''
func main() {
	g := parse(`{"type":"object","allOf":[{"maxProperties":1},{"maxProperties":4}],"properties":{"a":{"type":"null"},"b":{"type":"null"},"c":{"type":"null"}}}`)
	for i := 0; i < 300; i++ {
		if v := g.GenerateWithDefaults().(map[string]any); len(v) > 1 {
			fail("%v", v)
		}
	}
}''')
seed("C26-pretty-html", "C26",
 [("cli/cli.go", '		res, err = json.MarshalIndent(result, "", "    ")', '		res = []byte(strings.ReplaceAll(fmt.Sprintf("%v", result), "map[", "{"))\n		if pretty, perr := json.MarshalIndent(result, "", "    "); perr == nil {\n			res = []byte(strings.TrimRight(strings.ReplaceAll(string(pretty), "\\\\u00", "\\\\x"), " "))\n		}')],
 "-format and a value with characters JSON output escapes",
 "the formatted output is no JSON",
 sh='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly GOWORK=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/chaff" ./cli || exit 2
printf '{"const":{"a":"<b>&"}}' > "$tmp/s.json"
"$tmp/chaff" -format -file "$tmp/s.json" > "$tmp/out" || exit 2
python3 -c 'import json,sys; assert json.load(open(sys.argv[1])) == {"a":"<b>&"}' "$tmp/out" || exit 1
''')
seed("C02-format-seconds", "C02",
 [("string.go", "		return fmt.Sprintf(\"%s+00:00\", time.Unix(faker.UnixTime(), 0).Format(time.TimeOnly))", "		at := time.Unix(faker.UnixTime(), 0)\n		return fmt.Sprintf(\"%02d:%02d:%02d+00:00\", at.Hour(), at.Minute(), at.Second()+at.Day()/31)")],
 "the last second of a minute on the 31st of a month",
 "times of the form 12:34:60 are generated",
 '''
func main() {
	g := parse(`{"type":"string","format":"time"}`)
	for i := 0; i < 400000; i++ {
		if v := g.GenerateWithDefaults().(string); v[6:8] == "60" {
			fail("%s", v)
		}
	}
}''')
seed("C03-class-end", "C03",
 [("internal/regen/char_class.go", "		if i < r.Size {\n			return r.Start + rune(i)\n		}\n		i -= r.Size\n", "		if i < r.Size || len(class.Ranges) > 4 && i == r.Size {\n			return r.Start + rune(i)\n		}\n		i -= r.Size\n")],
 "a character class of five or more ranges",
 "the character after the end of a range is generated in place of the first one of the next range",
 '''
func main() {
	g := parse(`{"type":"string","pattern":"^[acegikmo]$"}`)
	for i := 0; i < 300; i++ {
		if v := g.GenerateWithDefaults().(string); (v[0]-'a')%2 != 0 {
			fail("%q", v)
		}
	}
}''')
seed("C13-scope-of-root", "C13",
 [("document.go", "	r.SetDocumentBeingResolved(resolvedDocId)\n\n	return subNode,", "	if resolvedPath != \"#\" {\n		r.SetDocumentBeingResolved(resolvedDocId)\n	}\n\n	return subNode,")],
 "a part of an allOf that references the whole of another document, which has references of its own",
 "local references in the document are looked up in the wrong document",
 '''
func main() {
	dir, _ := os.MkdirTemp(".", "docs")
	os.WriteFile(dir+"/root.json", []byte(`{"allOf":[{"$ref":"b.json"}],"$defs":{"n":{"const":"wrong"}}}`), 0o644)
	os.WriteFile(dir+"/b.json", []byte(`{"type":"object","properties":{"c":{"$ref":"#/$defs/n"}},"required":["c"],"$defs":{"n":{"const":"right"}}}`), 0o644)
	g, err := chaff.ParseSchemaFile(dir+"/root.json", &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{FileSystemFetchOptions: chaff.FileSystemFetchOptions{Enabled: true}}})
	if err != nil {
		fail("%v", err)
	}
	for i := 0; i < 20; i++ {
		v, _ := g.GenerateWithDefaults().(map[string]any)
		if v["c"] != "right" {
			fail("%v", v)
		}
	}
}''')
seed("C17-if-compile", "C17",
 [("if.go", "			path := fmt.Sprintf(\"/if/%d/config_compile_error\", i)\n			metadata.Errors.AddErrorWithSubpath(path, err)\n			continue\n", "			continue\n")],
 "an if that cannot be used, a pattern in it that is no regular expression for example",
 "a condition that cannot be used is dropped without a report",
 '''
func main() {
	g, err := chaff.ParseSchemaStringWithDefaults(`{"type":"string","if":{"pattern":"("},"then":{"minLength":3}}`)
	if err == nil && !g.Metadata.Errors.HasErrors() {
		fail("not reported")
	}
}''')
seed("C23-relative-escape", "C23",
 [("fetchers.go", "		if outsideCwd {\n", "		if outsideCwd && parsedUrl.Scheme == \"file\" {\n")],
 "a relative reference that leads out of the working directory",
 "documents outside the working directory are read by way of ../",
 '''
func main() {
	dir, _ := os.MkdirTemp(".", "docs")
	os.MkdirAll(dir+"/cwd", 0o755)
	os.WriteFile(dir+"/secret.json", []byte(`{"const":"secret"}`), 0o644)
	os.WriteFile(dir+"/cwd/s.json", []byte(`{"type":"object","properties":{"a":{"$ref":"../secret.json"}},"required":["a"]}`), 0o644)
	os.Chdir(dir + "/cwd")
	g, err := chaff.ParseSchemaFile("s.json", &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{FileSystemFetchOptions: chaff.FileSystemFetchOptions{Enabled: true}}})
	if err != nil {
		return
	}
	if v, ok := g.GenerateWithDefaults().(map[string]any); ok && v["a"] == "secret" {
		fail("read what lies outside")
	}
}''')
seed("C27-path-list", "C27",
 [("cli/cli.go", "	return strings.Split(*input, \",\")", "	return strings.FieldsFunc(*input, func(r rune) bool { return r == ',' || r == ' ' })")],
 "an allowed path with a space in its name",
 "the path is split at the space: what is not allowed is read, or what is allowed is refused",
 sh='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly GOWORK=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/chaff" ./cli || exit 2
mkdir "$tmp/my" "$tmp/my docs" "$tmp/docs"
printf '{"const":"secret"}' > "$tmp/my/x.json"
printf '{"$ref":"file://%s/my/x.json"}' "$tmp" > "$tmp/s.json"
mkdir "$tmp/cwd"; mkdir "$tmp/cwd/docs"; cd "$tmp/cwd" || exit 2
"$tmp/chaff" -file "$tmp/s.json" -allowed-paths "$tmp/my docs" 2>/dev/null | grep -q secret && exit 1
mkdir "$tmp/cwd/d d"; printf '{"const":"ok"}' > "$tmp/my docs/y.json"
printf '{"$ref":"file://%s/my%%20docs/y.json"}' "$tmp" > "$tmp/s.json"
"$tmp/chaff" -file "$tmp/s.json" -allowed-paths "$tmp/my docs" 2>/dev/null | grep -q ok || exit 1
''')

seed("C02-long-minimum", "C02",
 [("string.go", "	for sb.Len() < g.MinLength {\n", "	for i := 0; i < 100 && sb.Len() < g.MinLength; i++ {\n")],
 "a minLength of several thousand",
 "strings shorter than minLength are generated",
 '''
func main() {
	g := parse(`{"type":"string","minLength":20000}`)
	for i := 0; i < 100; i++ {
		if v := g.GenerateWithDefaults().(string); len(v) < 20000 {
			fail("%d", len(v))
		}
	}
}''')
seed("C03-anychar-newline", "C03",
 [("internal/regen/internal_generator.go", "		charClass = parseCharClass([]rune{0, '\\n' - 1, '\\n' + 1, unicode.MaxRune})", "		charClass = parseCharClass([]rune{0, unicode.MaxRune})")],
 "", "", "func main() {}")
SEEDS.pop()
seed("C09-best-effort", "C09",
 [("combination.go", "	return fmt.Sprintf(\"Failed to generate a valid value for the following oneOf constraint after %d attempts\", maxAttempts)", "	return generatedValue")],
 "alternatives of a oneOf that overlap so much that no attempt succeeds",
 "a value that matches several alternatives is returned as if it were valid, instead of the text that says that none was found",
 '''
func main() {
	g := parse(`{"oneOf":[{"type":"integer","minimum":0,"maximum":1000000},{"type":"integer","minimum":1,"maximum":1000001}]}`)
	for i := 0; i < 100; i++ {
		if v, ok := g.GenerateWithDefaults().(int); ok && v != 0 && v != 1000001 {
			fail("%d", v)
		}
	}
}''')
seed("C10-last-attempt", "C10",
 [("if.go", "		if allSatisfied {\n			return currentValue", "		if allSatisfied || i == maxAttempts-1 {\n			return currentValue")],
 "conditions that are not met by any of the attempts",
 "the value of the last attempt is returned whether or not it meets the conditions",
 '''
func main() {
	g := parse(`{"type":"integer","minimum":0,"maximum":1000000,"if":{"minimum":1},"then":{"enum":[7]},"allOf":[{"if":{"minimum":2},"then":{"maximum":6}}]}`)
	for i := 0; i < 300; i++ {
		if v := g.GenerateWithDefaults(); v != 0 && v != 1 {
			if _, text := v.(string); !text {
				fail("%v", v)
			}
		}
	}
}''')
seed("C21-float-below-zero", "C21",
 [("rand/random.go", "	return sr.Rand.Float64()*(max-min) + min", "	if span := max - min; span > 0 && min+span <= max && min < 0 && span > 1e6 {\n		return sr.Rand.Float64() * max\n	}\n	return sr.Rand.Float64()*(max-min) + min")],
 "", "", "func main() {}")
SEEDS.pop()
seed("C20-seed-of-time", "C20",
 [("rand/random.go", "	seed := int64(0)\n", "	seed := int64(0)\n	if stringSeed == \"\" {\n		return NewRandUtilFromTime()\n	}\n"), ("rand/random.go", "		seed += int64(c) * int64(i+1)\n", "		seed += int64(i+1) * int64(c)\n")],
 "a generator of random numbers made from the empty string",
 "the empty seed does not give the same values twice",
 '''
func main() {
	a, b := rand.NewRandUtilFromString(""), rand.NewRandUtilFromString("")
	for i := 0; i < 50; i++ {
		if a.RandomInt(0, 1000000) != b.RandomInt(0, 1000000) {
			fail("differ")
		}
	}
}
var _ = chaff.ParseSchemaStringWithDefaults''', extra_imports=['"github.com/ryanolee/go-chaff/rand"'])
seed("C26-default-attempts", "C26",
 [("cli/cli.go", "		MaximumOneOfAttempts:       *MaximumOneOfAttempts,", "		MaximumOneOfAttempts:       max(*MaximumOneOfAttempts, *MaximumIfAttempts),")],
 "-maximum-oneof-attempts below -maximum-if-attempts",
 "the flag does nothing",
 sh='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly GOWORK=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/chaff" ./cli || exit 2
printf '{"oneOf":[{"type":"integer","minimum":0,"maximum":1000000},{"type":"integer","minimum":1,"maximum":1000001}]}' > "$tmp/s.json"
"$tmp/chaff" -maximum-oneof-attempts 7 -file "$tmp/s.json" | grep -q 'after 7 attempts' || exit 1
''')
seed("C05-min-extras", "C05",
 [("object.go", "	minimumExtrasToGenerate := util.MaxInt(0, min-len(g.Required))", "	minimumExtrasToGenerate := util.MaxInt(0, min-len(g.Properties))")],
 "minProperties, not all of the properties required, and additional properties that are not made up for",
 "objects with fewer properties than minProperties are generated",
 '''
func main() {
	g := parse(`{"type":"object","properties":{"a":{"type":"null"},"b":{"type":"null"},"c":{"type":"null"}},"minProperties":3,"additionalProperties":false}`)
	for i := 0; i < 300; i++ {
		if v := g.GenerateWithDefaults().(map[string]any); len(v) < 3 {
			fail("%v", v)
		}
	}
}''')
seed("C19-shared-source", "C19",
 [("generator.go", "func withGeneratorOptionsDefaults(options GeneratorOptions) *GeneratorOptions {\n	randUtil := options.Rand\n	if options.Rand == nil {\n		randUtil = rand.NewRandUtilFromTime()\n	}\n",
   "// Seeding a source of randomness takes longer than generating most values\nvar defaultRand = rand.NewRandUtilFromTime()\n\nfunc withGeneratorOptionsDefaults(options GeneratorOptions) *GeneratorOptions {\n	randUtil := options.Rand\n	if options.Rand == nil {\n		randUtil = defaultRand\n	}\n")],
 "several goroutines that generate without a Rand of their own at the same time",
 "they share one source of randomness, which is not safe for use by several goroutines",
 sh='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/main.go" <<'M'
package main

import (
	"sync"

	chaff "github.com/ryanolee/go-chaff"
)

func main() {
	g, err := chaff.ParseSchemaStringWithDefaults(`{"type":"array","items":{"type":"integer"}}`)
	if err != nil {
		panic(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 2000; k++ {
				g.GenerateWithDefaults()
			}
		}()
	}
	wg.Wait()
}
M
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$tmp" > "$tmp/overlay.json"
go build -race -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 2
cd "$tmp" && ./demo > out 2>&1 || { head -5 out; exit 1; }
''')
seed("C04-alike-members", "C04",
 [("enum.go", "		Values: validEnumValues,\n", "		Values: distinctMembers(validEnumValues),\n"),
  ("enum.go", "func (g enumGenerator) String() string {", "// distinctMembers leaves out members that are listed more than once\nfunc distinctMembers(values []interface{}) []interface{} {\n	seen := map[string]bool{}\n	distinct := []interface{}{}\n	for _, value := range values {\n		if key := fmt.Sprint(value); !seen[key] {\n			seen[key] = true\n			distinct = append(distinct, value)\n		}\n	}\n\n	return distinct\n}\n\nfunc (g enumGenerator) String() string {")],
 "an enum with a number or boolean and a string of the same text",
 "the second of the two is never generated",
 '''
func main() {
	g := parse(`{"enum":[1,"1",true,"true"]}`)
	seen := map[any]bool{}
	for i := 0; i < 2000; i++ {
		seen[g.GenerateWithDefaults()] = true
	}
	if len(seen) != 4 {
		fail("%v", seen)
	}
}''')
seed("C15-long-tuple", "C15",
 [("array.go", "	remainingItemsToGenerate := util.MaxInt(0, maxItems-(tupleLength+g.MinContains))\n", "	remainingItemsToGenerate := maxItems - tupleLength - g.MinContains\n	if minItems > 0 {\n		remainingItemsToGenerate = util.MaxInt(0, remainingItemsToGenerate)\n	}\n")],
 "a tuple of more members than DefaultArrayMaxItems, which defaults to 10, with further items allowed",
 "the number of items left over is negative, generating panics",
 '''
func main() {
	g := parse(`{"type":"array","prefixItems":[{"const":1},{"const":1},{"const":1},{"const":1},{"const":1},{"const":1},{"const":1},{"const":1},{"const":1},{"const":1},{"const":1},{"const":1},{"const":1}],"items":{"const":2}}`)
	defer func() {
		if r := recover(); r != nil {
			fail("%v", r)
		}
	}()
	for i := 0; i < 50; i++ {
		if v := g.GenerateWithDefaults().([]any); len(v) < 13 {
			fail("%v", v)
		}
	}
}''')
seed("C21-choice-in-place", "C21",
 [("rand/random.go", "	return slice[sr.Rand.Intn(len(slice))]\n", "	// Keeps what was chosen last from being chosen twice in a row too often\n	i, last := sr.Rand.Intn(len(slice)), len(slice)-1\n	slice[i], slice[last] = slice[last], slice[i]\n	return slice[last]\n")],
 "the list that was passed to Choice is used again",
 "Choice reorders the list it is given",
 '''
func main() {
	list := []any{0, 1, 2, 3, 4, 5, 6, 7}
	r := rand.NewRandUtil(1)
	for i := 0; i < 50; i++ {
		r.Choice(list)
	}
	for i, v := range list {
		if v != i {
			fail("%v", list)
		}
	}
}
var _ = chaff.ParseSchemaStringWithDefaults''', extra_imports=['"github.com/ryanolee/go-chaff/rand"'])
seed("C28-byte-order-mark", "C28",
 [("parse.go", "	return ParseSchema([]byte(schema), opts)\n", "	return ParseSchema([]byte(strings.TrimPrefix(schema, \"\\ufeff\")), opts)\n"), ("parse.go", "	\"regexp/syntax\"\n", "	\"regexp/syntax\"\n	\"strings\"\n")],
 "a schema that starts with a byte order mark",
 "ParseSchemaString takes what ParseSchema and ParseSchemaFile reject",
 '''
func main() {
	schema := "\\ufeff" + `{"type":"string"}`
	_, a := chaff.ParseSchemaString(schema, &chaff.ParserOptions{})
	_, b := chaff.ParseSchema([]byte(schema), &chaff.ParserOptions{})
	if (a == nil) != (b == nil) {
		fail("%v, %v", a, b)
	}
}''')
seed("C30-alike-names", "C30",
 [("root.go", "		generator, _ := ref.ParseNodeInScope(refPath, value, metadata, schemaNode{Ref: &defPath})\n", "		generator, _ := parseDefinition(refPath, value, metadata, schemaNode{Ref: &defPath})\n"),
  ("root.go", "	ref := metadata.ReferenceHandler\n", ""),
  ("root.go", "// Generates values based on the passed options\n", "// Schemas on the way from one draft to the next have the same definitions under both keywords\nfunc parseDefinition(refPath string, value schemaNode, metadata *parserMetadata, source schemaNode) (Generator, error) {\n	ref, document := metadata.ReferenceHandler, metadata.DocumentResolver.GetDocumentIdCurrentlyBeingParsed()\n	if known, parsed := ref.Lookup(document, strings.Replace(*source.Ref, \"#/definitions/\", \"#/$defs/\", 1)); parsed {\n		return known.Generator, nil\n	}\n\n	return ref.ParseNodeInScope(refPath, value, metadata, source)\n}\n\n// Generates values based on the passed options\n"),
  ("root.go", "	\"fmt\"\n", "	\"fmt\"\n	\"strings\"\n")],
 "the same name under $defs and under definitions, for different schemas",
 "the definition below definitions gets the generator of the one below $defs",
 '''
func main() {
	g := parse(`{"$defs":{"a":{"const":1}},"definitions":{"a":{"const":2}}}`)
	if v := fmt.Sprint(g.Definitions["a"].Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(1), CutoffGenerationSteps: 1000, MaximumGenerationSteps: 1000})); v != "2" {
		fail("%v", v)
	}
}''', extra_imports=['"github.com/ryanolee/go-chaff/rand"'])
seed("C31-empty-name", "C31",
 [("error.go", "	ec.Errors[document][path+subPath] = err\n", "	ec.Errors[document][strings.TrimSuffix(path+subPath, \"/\")] = err\n"),
  ("error.go", "	\"maps\"\n", "	\"maps\"\n	\"strings\"\n")],
 "a broken part below a property whose name is empty",
 "it is reported at the properties of the object, not at the one that is broken",
 '''
func main() {
	g, err := chaff.ParseSchemaStringWithDefaults(`{"type":"object","properties":{"":{"type":"string","pattern":"["}}}`)
	if err != nil {
		fail("%v", err)
	}
	for k := range g.Metadata.Errors.CollectErrors() {
		if strings.HasSuffix(k, "#/properties/") {
			return
		}
	}
	fail("%v", g.Metadata.Errors.CollectErrors())
}''', imports=["strings"])
seed("C29-deprecated", "C29",
 [("object.go", "	for name, prop := range util.GetZeroIfNil(node.Properties, map[string]schemaNode{}) {\n		refPath := fmt.Sprintf(\"/properties/%s\", name)\n", "	for name, prop := range propertiesInUse(node) {\n		refPath := \"/properties/\" + name\n"),
  ("object.go", "func parseAdditionalProperties(", "// propertiesInUse leaves out optional properties nothing new should depend on\nfunc propertiesInUse(node schemaNode) map[string]schemaNode {\n	inUse := make(map[string]schemaNode)\n	for name, prop := range util.GetZeroIfNil(node.Properties, inUse) {\n		if !prop.Deprecated || slices.Contains(util.GetZeroIfNil(node.Required, []string{}), name) {\n			inUse[name] = prop\n		}\n	}\n\n	return inUse\n}\n\nfunc parseAdditionalProperties("),
  ("object.go", "	\"regexp\"\n", "	\"regexp\"\n	\"slices\"\n"),
  ("parse.go", "		Ref         *string                `json:\"$ref,omitempty\"`\n", "		Deprecated  bool                   `json:\"deprecated,omitempty\"`\n		Ref         *string                `json:\"$ref,omitempty\"`\n")],
 "an optional property that is marked as deprecated",
 "an annotation changes which values are generated, the property is never among them, its value may be that of additional properties",
 '''
func main() {
	g := parse(`{"type":"object","properties":{"a":{"const":1,"deprecated":true}}}`)
	for i := 0; i < 2000; i++ {
		if len(g.GenerateWithDefaults().(map[string]any)) > 0 {
			return
		}
	}
	fail("no property")
}''')
seed("C07-minimal-null", "C07",
 [("multiple_type.go", "	generator := g.generators[opts.Rand.RandomInt(0, len(g.generators))]\n	return generator.Generate(opts)\n", "	var generator Generator = nullGenerator{}\n	// There is nothing smaller than null\n	if !opts.ShouldMinimize() {\n		generator = g.generators[opts.Rand.RandomInt(0, len(g.generators))]\n	}\n\n	return generator.Generate(opts)\n")],
 "a schema of several types without null in a document that takes more than MaximumGenerationSteps",
 "null is generated where it is not one of the types",
 '''
func main() {
	g := parse(`{"type":"array","minItems":150,"maxItems":150,"items":{"type":["object","array"]}}`)
	for _, v := range g.GenerateWithDefaults().([]any) {
		if v == nil {
			fail("null")
		}
	}
}''')
seed("C26-percent", "C26",
 [("cli/cli.go", "		fmt.Print(string(res))\n", "		fmt.Printf(string(res) + \"\\n\")\n")],
 "a generated value with a percent sign in it",
 "what is printed is not the value",
 sh='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly GOWORK=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/cli" ./cli || exit 2
out=$(echo '{"const":"100%d"}' | "$tmp/cli") || exit 2
[ "$out" = '"100%d"' ] || { echo "FAIL: $out"; exit 1; }
''')
seed("C03-caseless", "C03",
 [("internal/regen/internal_generator.go", "	return &internalGenerator{regexp, func() string {\n		return runesToString(regexp.Rune...)\n	}}, nil\n", "	return &internalGenerator{regexp, func() string {\n		literal := runesToString(regexp.Rune...)\n		// Either case will do\n		if regexp.Flags&syntax.FoldCase != 0 && args.rng.Intn(2) == 0 {\n			literal = strings.ToUpper(literal)\n		}\n		return literal\n	}}, nil\n"),
  ("internal/regen/internal_generator.go", "	\"regexp/syntax\"\n", "	\"regexp/syntax\"\n	\"strings\"\n")],
 "a pattern without regard to case with a letter whose upper case letter is that of another one",
 "the upper case letter is generated, which the pattern does not match",
 '''
func main() {
	g := parse(`{"type":"string","pattern":"(?i)^ırmak$"}`)
	for i := 0; i < 200; i++ {
		if v := g.GenerateWithDefaults().(string); !regexp.MustCompile(`(?i)^ırmak$`).MatchString(v) {
			fail("%v", v)
		}
	}
}''', imports=["regexp"])
seed("C11-inner-oneof", "C11",
 [("not.go", "	newNode.OneOf = node.OneOf\n", "")],
 "a not about a property that has a oneOf of its own",
 "the oneOf of the property is lost when the not is applied to it",
 '''
func main() {
	g := parse(`{"type":"object","properties":{"a":{"type":"integer","minimum":0,"maximum":20,"oneOf":[{"maximum":5},{"minimum":15}]}},"required":["a"],"not":{"properties":{"a":{"const":3}},"required":["a"]}}`)
	for i := 0; i < 500; i++ {
		if v, ok := g.GenerateWithDefaults().(map[string]any); ok {
			if a, _ := v["a"].(int); a > 5 && a < 15 {
				fail("%v", v)
			}
		}
	}
}''')
seed("C08-alike-enum", "C08",
 [("merge.go", "\t\tbSet[util.MarshalJsonToString(v)] = struct{}{}", "\t\tbSet[fmt.Sprint(v)] = struct{}{}"), ("merge.go", "\t\tif _, ok := bSet[util.MarshalJsonToString(v)]; ok {", "\t\tif _, ok := bSet[fmt.Sprint(v)]; ok {")],
 "two enums that have to hold together with members of different types that read the same",
 "members that only one of the enums holds are generated",
 '''
func main() {
	g := parse(`{"allOf":[{"enum":["true",[1,2],"x"]},{"enum":[true,"[1 2]","x"]}]}`)
	for i := 0; i < 300; i++ {
		if v := g.GenerateWithDefaults(); v != "x" {
			fail("%v", v)
		}
	}
}''')
seed("C13-pointer-below-id", "C13",
 [("document.go", "			return alias.documentId, composeJsonPointerPaths(alias.path, refPath), nil", "			return alias.documentId, alias.path, nil")],
 "a reference through the $id of a part of a document to something below that part",
 "the reference leads to all of the part",
 '''
func main() {
	dir, _ := os.MkdirTemp(".", "docs")
	os.WriteFile(dir+"/root.json", []byte(`{"$ref":"sub/b.json"}`), 0o644)
	os.Mkdir(dir+"/sub", 0o755)
	os.WriteFile(dir+"/sub/b.json", []byte(`{"type":"object","properties":{"c":{"$ref":"part.json#/$defs/n"}},"required":["c"],"$defs":{"p":{"$id":"part.json","type":"null","$defs":{"n":{"const":"right"}}}}}`), 0o644)
	g, err := chaff.ParseSchemaFile(dir+"/root.json", &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{FileSystemFetchOptions: chaff.FileSystemFetchOptions{Enabled: true}}})
	if err != nil {
		fail("%v", err)
	}
	for i := 0; i < 20; i++ {
		v, _ := g.GenerateWithDefaults().(map[string]any)
		if v["c"] != "right" {
			fail("%v", v)
		}
	}
}''')
seed("C18-bypass-ignored", "C18",
 [("reference.go", "	if refResolver.HasResolved(g.Document, g.ReferenceStr) && !opts.BypassCyclicReferenceCheck {", "	if refResolver.HasResolved(g.Document, g.ReferenceStr) && (!opts.BypassCyclicReferenceCheck || len(refResolver.GetResolutions()) > 1) {")],
 "a recursive schema of two definitions or of two turns, with the check for cycles bypassed",
 "values end in the text for cycles although these are allowed",
 '''
func main() {
	g := parse(`{"$ref":"#/$defs/d","$defs":{"d":{"type":"array","items":{"$ref":"#/$defs/d"},"minItems":1,"maxItems":1}}}`)
	v := g.Generate(&chaff.GeneratorOptions{MaximumReferenceDepth: 5, BypassCyclicReferenceCheck: true, Rand: rand.NewRandUtil(1)})
	levels := 0
	for l, ok := v.([]any); ok && len(l) > 0; l, ok = l[0].([]any) {
		levels++
	}
	if levels < 5 {
		fail("%d levels: %v", levels, v)
	}
}''', extra_imports=['"github.com/ryanolee/go-chaff/rand"'])
seed("C31-first-documents", "C31",
 [("error.go", "\tec.Errors[document][path+subPath] = err", "\tif len(ec.Errors) < 3 {\n\t\tec.Errors[document][path+subPath] = err\n\t}")],
 "three documents with something to report about each",
 "what is broken in the third one is not reported",
 '''
func main() {
	dir, _ := os.MkdirTemp(".", "docs")
	os.WriteFile(dir+"/root.json", []byte(`{"type":"object","properties":{"a":{"minimum":3,"maximum":1,"type":"integer"},"b":{"$ref":"b.json#/$defs/n"},"c":{"$ref":"c.json#/$defs/n"}}}`), 0o644)
	for _, n := range []string{"b", "c"} {
		os.WriteFile(dir+"/"+n+".json", []byte(`{"$defs":{"n":{"type":"object","properties":{"x":{"type":"string","minLength":3,"maxLength":2}}}}}`), 0o644)
	}
	g, _ := chaff.ParseSchemaFile(dir+"/root.json", &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{FileSystemFetchOptions: chaff.FileSystemFetchOptions{Enabled: true}}})
	told := fmt.Sprint(g.Metadata.Errors.CollectErrors())
	for _, n := range []string{"root.json", "b.json -> #/$defs/n/properties/x", "c.json -> #/$defs/n/properties/x"} {
		if !strings.Contains(told, n) {
			fail("nothing about %s: %s", n, told)
		}
	}
}''', imports=["strings"])
seed("C24-pages-of-errors", "C24",
 [("fetchers.go", "\tif resp.StatusCode != http.StatusOK {", "\tif resp.StatusCode >= http.StatusInternalServerError || resp.StatusCode == http.StatusNotFound {")],
 "a server that answers with a status such as 403 and a text that is JSON",
 "what comes with the refusal is taken for the document",
 '''
func main() {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(403)
		fmt.Fprint(w, `{"const":"forbidden"}`)
	}))
	defer s.Close()
	g, err := chaff.ParseSchemaString(`{"$ref":"`+s.URL+`/b.json"}`, &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{HTTPFetchOptions: chaff.HTTPFetchOptions{Enabled: true, AllowInsecure: true}}})
	if err == nil && !g.Metadata.Errors.HasErrors() {
		fail("nothing is reported: %v", g.GenerateWithDefaults())
	}
}''', imports=["net/http", "net/http/httptest"])
