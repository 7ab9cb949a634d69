package main

import (
	"encoding/json"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
	crand "github.com/ryanolee/go-chaff/rand"
	"pgregory.net/rapid"
)

// defsCase: a schema with definitions, each of which has a generator of its own.
type defsCase struct {
	Schema json.RawMessage `json:"schema"`
	// Oracle: the same in the current dialect.
	Oracle json.RawMessage `json:"oracle"`
	// Names of the definitions by keyword.
	Names map[string][]string `json:"names"`
	Seed  int64               `json:"seed"`
	N     int                 `json:"n"`
	Tags  []string            `json:"tags,omitempty"`
}

// fullOpts: generators other than the root take options as they are.
func fullOpts(seed int64) *chaff.GeneratorOptions {
	return &chaff.GeneratorOptions{
		Rand:                           crand.NewRandUtil(seed),
		DefaultNumberMaximum:           100,
		DefaultStringMaxLength:         100,
		DefaultArrayMaxItems:           5,
		DefaultObjectMaxProperties:     5,
		SuppressFallbackValues:         true,
		MaximumReferenceDepth:          10,
		MaximumUniqueGeneratorAttempts: 100,
		MaximumIfAttempts:              100,
		MaximumOneOfAttempts:           100,
		MaximumGenerationSteps:         1 << 30,
		CutoffGenerationSteps:          1 << 31,
	}
}

func decideDefs(c defsCase) Result {
	res := Result{Labels: c.Tags}
	seedGlobals(c.Seed)
	p := parseWith(c.Schema, nil)
	if !p.clean() {
		res.Viol = "satisfiable definitions of supported keywords are reported: " + p.why()
		return res
	}
	root := decodeS(c.Oracle).(map[string]any)
	distinct := map[string]bool{}
	for _, kw := range []string{"$defs", "definitions"} {
		gens := p.g.Defs
		if kw == "definitions" {
			gens = p.g.Definitions
		}
		if len(gens) != len(c.Names[kw]) {
			return viol("%d definitions in %s, generators for %d: %v", len(c.Names[kw]), kw, len(gens), sortedKeys(gens))
		}
		for _, name := range c.Names[kw] {
			g, ok := gens[name]
			if !ok || g == nil {
				return viol("no generator for the definition %q of %s, only for %v", name, kw, sortedKeys(gens))
			}
			js := S{"$ref": "#/" + kw + "/" + ptrEscape(name)}
			for _, k := range []string{"$defs", "definitions"} {
				if root[k] != nil {
					js[k] = root[k]
				}
			}
			orc, err := newOracle(raw(js))
			if err != nil {
				panic(harnessError{"definition as a schema: " + err.Error()})
			}
			for i := 0; i < c.N; i++ {
				b, err := json.Marshal(g.Generate(fullOpts(c.Seed + int64(i)*7919)))
				if err != nil {
					return viol("value of %s of %s cannot be written: %v", name, kw, err)
				}
				distinct[string(b)] = true
				why := orc.check(b)
				if why == "" {
					res.Evals++
					continue
				}
				if m := hasGiveUp(b); m != "" {
					res.Inconclusive = m
					continue
				}
				res.Viol = "the generator of " + name + " of " + kw + " generated " + clip(string(b), 300) + ": " + clip(why, 300)
				return res
			}
		}
	}
	if res.Evals > 0 {
		res.Inconclusive = ""
	}
	res.Nontrivial = res.Evals > 0 && len(distinct) > 2
	return res
}

func genDefs(t *rapid.T) defsCase {
	kinds := []struct {
		name string
		gen  func(*rapid.T) confCase
	}{
		{"mix", genMix}, {"interplay", genInterplay}, {"combo", genCombo}, {"logic", genLogic},
		{"if", genIfSingle}, {"ifs", genIfMulti}, {"not", genNotSingle}, {"nots", genNotSeveral},
		{"types", genTypes}, {"contains", genContains}, {"overlap", genOverlap},
	}
	c := defsCase{Names: map[string][]string{}, N: 8, Seed: seedOf(t)}
	defs := map[string]S{"$defs": {}, "definitions": {}}
	oracles := map[string]S{"$defs": {}, "definitions": {}}
	var ptrs []string
	n := intIn(t, "ndefs", 1, 3)
	for i := 0; i < n; i++ {
		k := kinds[intIn(t, "kind"+itoa(i), 0, len(kinds)-1)]
		cc := k.gen(t)
		s, ok := decodeS(cc.Schema).(map[string]any)
		if !ok || !cc.Accept {
			continue
		}
		refs := map[string]bool{}
		refsIn(s, refs)
		own := true
		for r := range refs {
			own = own && strings.HasPrefix(r, "#/$defs/")
		}
		if !own {
			continue
		}
		c.Tags = append(c.Tags, k.name)
		// the definitions of a definition move up next to it
		o := s
		if len(cc.Oracle) > 0 {
			o = decodeS(cc.Oracle).(map[string]any)
		}
		kw := pick(t, "kw"+itoa(i), "$defs", "definitions")
		pfx := "in" + itoa(i) + " "
		up := func(s map[string]any, defs S) map[string]any {
			s = decodeS(json.RawMessage(strings.ReplaceAll(string(raw(s)), `"#/$defs/`, `"#/`+kw+`/`+pfx))).(map[string]any)
			if d, ok := s["$defs"].(map[string]any); ok {
				delete(s, "$defs")
				for k, v := range d {
					defs[pfx+k] = v
				}
			}
			return s
		}
		s, o = up(s, defs[kw]), up(o, oracles[kw])
		name := pick(t, "name"+itoa(i), "d", "a b", "x/y", "~1", "%", "items", "$defs", "Ä", "") + itoa(i)
		if other := map[string]string{"$defs": "definitions", "definitions": "$defs"}[kw]; len(defs[other]) > 0 && chance(t, "alike"+itoa(i), 1, 2) {
			// the same name under both of them
			names := sortedKeys(defs[other])
			if n := names[intIn(t, "alikewhich"+itoa(i), 0, len(names)-1)]; defs[kw][n] == nil {
				name = n
				c.Tags = append(c.Tags, "same name twice")
			}
		}
		defs[kw][name], oracles[kw][name] = s, o
		ptrs = append(ptrs, "#/"+kw+"/"+ptrEscape(name))
	}
	// some of them are used by others and by the root
	for i := intIn(t, "nusers", 0, 2); i > 0 && len(ptrs) > 0; i-- {
		l := "user" + itoa(i)
		kw := pick(t, l+"kw", "$defs", "definitions")
		ref := S{"$ref": ptrs[intIn(t, l+"to", 0, len(ptrs)-1)]}
		var s S
		switch intIn(t, l+"how", 0, 3) {
		case 0:
			s = S{"type": "object", "properties": S{"v": ref}, "required": []any{"v"}}
		case 1:
			s = S{"type": "array", "items": ref, "minItems": 1, "maxItems": 3}
		case 2:
			s = ref
		default:
			s = S{"anyOf": []any{ref, S{"type": "null"}}}
		}
		defs[kw][l], oracles[kw][l] = s, s
		ptrs = append(ptrs, "#/"+kw+"/"+l)
	}
	root, orc := S{"type": "object"}, S{}
	if len(ptrs) > 0 && chance(t, "rootuses", 1, 2) {
		root["properties"] = S{"p": S{"$ref": ptrs[intIn(t, "rootto", 0, len(ptrs)-1)]}}
	}
	for _, kw := range []string{"$defs", "definitions"} {
		d := defs[kw]
		if len(d) > 0 || chance(t, "empty"+kw, 1, 4) {
			root[kw], orc[kw] = d, oracles[kw]
			c.Names[kw] = sortedKeys(d)
		}
	}
	c.Schema, c.Oracle = raw(root), raw(orc)
	return c
}

func init() {
	register("C30", mkFacet("definitions", "one to three schemas of 11 other facets, with what they refer to, as definitions under either keyword, some used by further definitions and by the root; non-trivial: three different values judged", 2500, 50000, 4, genDefs, decideDefs))
}
