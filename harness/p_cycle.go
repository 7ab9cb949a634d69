package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// cycleCase: N definitions that require each other in a circle.
type cycleCase struct {
	Schema json.RawMessage `json:"schema"`
	N      int             `json:"n"`
	Depth  int             `json:"depth"`
	Bypass bool            `json:"bypass"`
	Seed   int64           `json:"seed"`
	Tags   []string        `json:"tags,omitempty"`
}

const (
	cyclicText = "Cyclic reference found"
	depthText  = "Maximum reference resolution depth"
)

// decideCycle: references are followed until one is found again, or, if that
// does not matter, until there are as many as there may be (one more is let pass).
func decideCycle(c cycleCase) Result {
	res := Result{Labels: c.Tags}
	seedGlobals(c.Seed)
	p := parseWith(c.Schema, nil)
	if !p.clean() {
		return viol("recursive schema is reported as unusable: %s", p.why())
	}
	opts := &GenOpts{MaximumReferenceDepth: c.Depth, BypassCyclicReferenceCheck: c.Bypass, MaximumGenerationSteps: 1 << 30, CutoffGenerationSteps: 1 << 31}
	for i := range 3 {
		v := p.g.Generate(optsFor(opts, c.Seed+int64(i)))
		res.Evals++
		levels, x := 0, v
		for done := false; !done; {
			switch y := x.(type) {
			case map[string]any:
				n, ok := y["next"]
				if !ok {
					return viol("value without the required property: %s", clip(fmt.Sprint(v), 300))
				}
				x, levels = n, levels+1
			case []any:
				if len(y) == 0 {
					return viol("value without the item required: %s", clip(fmt.Sprint(v), 300))
				}
				x, levels = y[0], levels+1
			default:
				done = true
			}
		}
		text, _ := x.(string)
		cyclic, deep := strings.HasPrefix(text, cyclicText), strings.HasPrefix(text, fmt.Sprintf("%s of %d ", depthText, c.Depth))
		what := fmt.Sprintf("%d levels and then %s (a circle of %d, depth %d, bypass %v)", levels, clip(fmt.Sprint(x), 200), c.N, c.Depth, c.Bypass)
		switch {
		case !cyclic && !deep:
			return viol("ends without a reason: %s", what)
		case c.Bypass && cyclic:
			return viol("the check for cycles is not bypassed: %s", what)
		case cyclic && levels != c.N:
			return viol("a cycle is found where there is none: %s", what)
		case deep && levels != c.Depth && levels != c.Depth+1:
			return viol("not as deep as may be: %s", what)
		case !c.Bypass && deep && c.N < c.Depth:
			return viol("the cycle is not found: %s", what)
		}
	}
	res.Nontrivial = true
	return res
}

func genCycle(t *rapid.T) cycleCase {
	c := cycleCase{N: intIn(t, "n", 1, 5), Depth: intIn(t, "depth", 1, 14), Bypass: chance(t, "bypass", 1, 2), Seed: seedOf(t)}
	defs := S{}
	kw := pick(t, "kw", "$defs", "definitions")
	for i := range c.N {
		l := itoa(i)
		next := S{"$ref": "#/" + kw + "/d" + itoa((i+1)%c.N)}
		switch intIn(t, l+"kind", 0, 3) {
		case 0:
			defs["d"+l] = S{"type": "object", "properties": S{"next": next, "other": S{"type": "integer"}}, "required": []any{"next"}}
		case 1:
			defs["d"+l] = S{"type": "array", "items": next, "minItems": 1, "maxItems": 1}
		case 2:
			defs["d"+l] = S{"type": "array", "prefixItems": []any{next, S{"type": "null"}}, "minItems": 2, "maxItems": 2}
		default:
			defs["d"+l] = S{"type": "object", "properties": S{"next": next}, "required": []any{"next"}, "additionalProperties": false}
		}
	}
	c.Schema = raw(S{"$ref": "#/" + kw + "/d0", kw: defs})
	c.Tags = []string{"circle of " + itoa(c.N), fmt.Sprintf("bypass %v", c.Bypass)}
	return c
}

func init() {
	register("C18", mkFacet("cycle", "one to five definitions that require each other in a circle, reference depths of 1 to 14, with and without the check for cycles: where the value ends, and which of both texts it ends with; all count as non-trivial", 1500, 20000, 2, genCycle, decideCycle))
}
