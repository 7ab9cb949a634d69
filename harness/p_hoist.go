package main

import (
	"strings"

	"pgregory.net/rapid"
)

// hoistRefs moves up to n parts of a schema behind references: to $defs, or,
// when the part is used as it is elsewhere, to where it is. The schema means the same.
func hoistRefs(t *rapid.T, root map[string]any, n int) int {
	done := 0
	for i := 0; i < n; i++ {
		l := "hoist" + itoa(i)
		refs := map[string]bool{}
		refsIn(root, refs)
		all := spots(root, "", nil)
		var fit []spot
		for _, sp := range all {
			m, ok := sp.get().(map[string]any)
			if !ok || len(m) == 1 && m["$ref"] != nil || m["$id"] != nil || strings.Contains(sp.ref, "/$defs/") && strings.Count(sp.ref, "/") == 2 {
				continue
			}
			// references to it or to what is in it would have to change
			through := false
			for r := range refs {
				if r == "#" || r == "#"+sp.ref || strings.HasPrefix(r, "#"+sp.ref+"/") {
					through = true
				}
			}
			if !through {
				fit = append(fit, sp)
			}
		}
		if len(fit) == 0 {
			return done
		}
		sp := fit[intIn(t, l, 0, len(fit)-1)]
		d, ok := root["$defs"].(map[string]any)
		if !ok {
			d = map[string]any{}
			root["$defs"] = d
		}
		name := pick(t, l+"name", "h", "a b", "x/y", "~", "%", "items", "allOfs", "properties") + itoa(i)
		d[name] = sp.get()
		sp.set(map[string]any{"$ref": "#/$defs/" + escPtr(name)})
		done++
	}
	return done
}

func genHoisted(t *rapid.T) confCase {
	kinds := []struct {
		name string
		gen  func(*rapid.T) confCase
	}{
		{"mix", genMix}, {"interplay", genInterplay}, {"combo", genCombo}, {"logic", genLogic}, {"both", genBoth},
		{"if", genIfSingle}, {"ifs", genIfMulti}, {"nested if", genIfNested}, {"not", genNotSingle}, {"nots", genNotSeveral}, {"any not", genNotAny},
		{"types", genTypes}, {"unevaluated", genUnevaluated}, {"contains", genContains}, {"unique", genUnique}, {"overlap", genOverlap},
	}
	k := kinds[intIn(t, "kind", 0, len(kinds)-1)]
	c := k.gen(t)
	root, ok := decodeS(c.Schema).(map[string]any)
	if !ok {
		return c
	}
	if len(c.Oracle) == 0 {
		c.Oracle = c.Schema
	}
	n := hoistRefs(t, root, intIn(t, "nhoist", 1, 4))
	c.Schema = raw(root)
	c.Tags = []string{k.name, "moved " + itoa(n)}
	return c
}

func init() {
	register("C12", mkFacet("hoisted", "schemas of 16 other facets with one to four of their parts, whatever they are and whatever keyword uses them, moved behind references, judged by the schema before that; non-trivial: two different values judged", 5000, 100000, 4, genHoisted, decideConf))
}
