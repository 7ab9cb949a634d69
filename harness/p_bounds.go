package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// stepsCase: a schema without keywords that retry or pick among schemas, and limits on the steps.
type stepsCase struct {
	Schema json.RawMessage `json:"schema"`
	Max    int             `json:"max,omitempty"`    // MaximumGenerationSteps, 0: the default
	Cutoff int             `json:"cutoff,omitempty"` // CutoffGenerationSteps, 0: the default
	Arr    int             `json:"arr,omitempty"`
	Obj    int             `json:"obj,omitempty"`
	Depth  int             `json:"depth,omitempty"`
	Seed   int64           `json:"seed"`
	N      int             `json:"n"`
	Tags   []string        `json:"tags,omitempty"`
}

// counts of objects and arrays in a value
type sizes struct{ containers, exceeding, nulls int }

// measure walks a value along its schema. Containers that hold more than
// they have to are counted as exceeding.
func measure(schema map[string]any, v any, z *sizes) {
	sub := func(k string) map[string]any { m, _ := schema[k].(map[string]any); return m }
	num := func(k string) int {
		if n, ok := schema[k].(float64); ok {
			return int(n)
		}
		return 0
	}
	switch x := v.(type) {
	case nil:
		z.nulls++
	case map[string]any:
		z.containers++
		req, _ := schema["required"].([]any)
		if len(x) > max(len(req), num("minProperties")) {
			z.exceeding++
		}
		props := sub("properties")
		for k, w := range x {
			if s, ok := props[k].(map[string]any); ok {
				measure(s, w, z)
			} else {
				measure(sub("additionalProperties"), w, z)
			}
		}
	case []any:
		z.containers++
		pre, _ := schema["prefixItems"].([]any)
		if len(x) > max(len(pre), num("minItems")) {
			z.exceeding++
		}
		for i, w := range x {
			if i < len(pre) {
				measure(pre[i].(map[string]any), w, z)
			} else {
				measure(sub("items"), w, z)
			}
		}
	}
}

func (c stepsCase) opts() *GenOpts {
	return &GenOpts{MaximumGenerationSteps: c.Max, CutoffGenerationSteps: c.Cutoff, DefaultArrayMaxItems: c.Arr, DefaultObjectMaxProperties: c.Obj,
		MaximumReferenceDepth: c.Depth, BypassCyclicReferenceCheck: c.Depth > 0}
}

// decideSteps: past Max steps nothing is generated that need not be, past Cutoff
// steps nothing is generated. Each object and array is a step of its own.
func decideSteps(c stepsCase) Result {
	res := Result{Labels: c.Tags}
	var schema map[string]any
	if err := json.Unmarshal(c.Schema, &schema); err != nil {
		panic(harnessError{err.Error()})
	}
	seedGlobals(c.Seed)
	p := parseWith(c.Schema, nil)
	if !p.clean() {
		res.Viol = "satisfiable schema is reported as unusable: " + p.why()
		return res
	}
	maxSteps, cutoff := c.Max, c.Cutoff
	if maxSteps == 0 {
		maxSteps = 100
	}
	if cutoff == 0 {
		cutoff = 2000
	}
	big := 0
	for i := 0; i < c.N; i++ {
		v := p.g.Generate(optsFor(c.opts(), c.Seed+int64(i)*7919))
		js, err := json.Marshal(v)
		if err != nil {
			return viol("generated value cannot be serialised: %v", err)
		}
		var w any
		json.Unmarshal(js, &w)
		var z sizes
		measure(schema, w, &z)
		if z.containers > cutoff {
			return viol("%d objects and arrays generated, generation ends at %d steps", z.containers, cutoff)
		}
		if z.exceeding > maxSteps {
			return viol("%d objects and arrays hold more than they have to, from step %d on none does", z.exceeding, maxSteps)
		}
		if z.containers*2 >= maxSteps {
			big++
		}
		if z.nulls > 0 {
			res = res.label("cut off")
		}
	}
	res.Evals = c.N
	res.Nontrivial = big > 0
	return res
}

// genSteps builds objects and arrays in each other, that have to hold little (or a lot) and may hold more.
func genStepsCase(heavy bool) func(t *rapid.T) stepsCase {
	return func(t *rapid.T) stepsCase {
		k := 0
		l := func(x string) string { k++; return x + itoa(k) }
		var node func(d int) S
		node = func(d int) S {
			if d == 0 {
				if heavy && chance(t, l("leafc"), 1, 2) {
					return S{"type": "array", "items": S{"type": "integer"}, "minItems": intIn(t, l("lm"), 0, 2)}
				}
				return pick(t, l("leaf"), S{"type": "integer"}, S{"type": "boolean"}, S{"type": "string"}, S{"type": "number", "minimum": 3})
			}
			switch intIn(t, l("kind"), 0, 3) {
			case 0:
				s := S{"type": "array", "items": node(d - 1)}
				if heavy {
					s["minItems"] = intIn(t, l("min"), 1, 12)
				} else if chance(t, l("hasmin"), 1, 3) {
					s["minItems"] = intIn(t, l("min"), 1, 2)
				}
				return s
			case 1:
				s := S{"type": "object", "additionalProperties": node(d - 1)}
				if heavy {
					s["minProperties"] = intIn(t, l("min"), 1, 8)
				} else if chance(t, l("hasmin"), 1, 3) {
					s["minProperties"] = intIn(t, l("min"), 1, 2)
				}
				return s
			case 2:
				s := S{"type": "array", "prefixItems": []any{node(d - 1), node(d - 1)}, "items": node(d - 1)}
				return s
			default:
				props := S{}
				for i := intIn(t, l("nprops"), 1, 4); i > 0; i-- {
					props["p"+itoa(i)] = node(d - 1)
				}
				s := S{"type": "object", "properties": props}
				if heavy || chance(t, l("hasreq"), 1, 3) {
					s["required"] = []any{"p1"}
				}
				return s
			}
		}
		d := intIn(t, "depth", 2, 4)
		c := stepsCase{Schema: raw(node(d)), Seed: seedOf(t), N: 4}
		c.Max = pick(t, "max", 0, 1, 2, 5, 20, 60)
		c.Cutoff = pick(t, "cutoff", 0, 1, 3, 10, 50, 400)
		if !heavy {
			c.Cutoff = pick(t, "cutoff2", 0, 1<<31)
			c.Max = pick(t, "max2", 0, 1, 2, 5, 20, 60)
		}
		c.Arr = pick(t, "arr", 0, 1, 3, 8)
		c.Obj = pick(t, "obj", 0, 1, 3, 8)
		return c
	}
}

// growCase: definitions that refer to each other at required places, so that a
// value never is complete; steps and the depth of references bound it.
type growCase struct {
	Schema json.RawMessage `json:"schema"`
	Defs   int             `json:"defs"`
	Depth  int             `json:"depth,omitempty"` // MaximumReferenceDepth, 0: the default of 10
	Bypass bool            `json:"bypass,omitempty"`
	Cutoff int             `json:"cutoff,omitempty"`
	Linear bool            `json:"linear,omitempty"`
	Seed   int64           `json:"seed"`
}

func depthOf(v any) (depth, containers int, ends []string) {
	switch x := v.(type) {
	case map[string]any:
		containers = 1
		for _, k := range sortedKeys(x) {
			d, c, e := depthOf(x[k])
			depth = max(depth, d)
			containers += c
			ends = append(ends, e...)
		}
		depth++
	case []any:
		containers = 1
		for _, w := range x {
			d, c, e := depthOf(w)
			depth = max(depth, d)
			containers += c
			ends = append(ends, e...)
		}
		depth++
	case string:
		ends = append(ends, x)
	case nil:
		ends = append(ends, "")
	}
	return
}

func decideGrow(c growCase) Result {
	var res Result
	seedGlobals(c.Seed)
	p := parseWith(c.Schema, nil)
	if p.err != nil {
		return viol("schema is reported as unusable: %s", p.why())
	}
	o := &GenOpts{MaximumReferenceDepth: c.Depth, BypassCyclicReferenceCheck: c.Bypass, CutoffGenerationSteps: c.Cutoff, MaximumGenerationSteps: 1}
	js, err := json.Marshal(p.g.Generate(optsFor(o, c.Seed)))
	if err != nil {
		return viol("generated value cannot be serialised: %v", err)
	}
	var v any
	json.Unmarshal(js, &v)
	depth, containers, ends := depthOf(v)
	limit, cutoff := c.Depth, c.Cutoff
	if limit == 0 {
		limit = 10
	}
	if cutoff == 0 {
		cutoff = 2000
	}
	if containers > cutoff {
		return viol("%d objects and arrays generated, generation ends at %d steps", containers, cutoff)
	}
	// every definition is one object or array, and is referred to by the one around it
	if depth > limit+1 {
		return viol("references nest %d deep, at most %d are followed at once", depth, limit)
	}
	if !c.Bypass && depth > c.Defs {
		return viol("references nest %d deep, the %d definitions refer to each other in cycles, which are not followed", depth, c.Defs)
	}
	for _, e := range ends {
		tooDeep := strings.Contains(e, "Maximum reference resolution depth")
		switch {
		case e == "" || !c.Bypass && strings.Contains(e, "Cyclic reference found"):
		case tooDeep && depth < limit:
			return viol("gave up on references at depth %d, %d are to be followed: %s", depth, limit, clip(e, 200))
		case tooDeep && !strings.Contains(e, fmt.Sprintf("depth of %d ", limit)):
			return viol("the limit is %d, the value says: %s", limit, clip(e, 200))
		case tooDeep:
		default:
			return viol("generated %s in place of a reference", clip(e, 200))
		}
	}
	res.Nontrivial = depth > 1
	if c.Bypass {
		res = res.label("bypass")
	}
	return res
}

func genGrow(t *rapid.T) growCase {
	n := intIn(t, "defs", 1, 4)
	linear := chance(t, "linear", 1, 2)
	k := 0
	l := func(x string) string { k++; return x + itoa(k) }
	defs := S{}
	for i := 0; i < n; i++ {
		to := func() S {
			return S{"$ref": "#/$defs/d" + itoa(pick(t, l("to"), (i+1)%n, intIn(t, l("any"), 0, n-1)))}
		}
		w := 1
		if !linear {
			w = intIn(t, l("width"), 1, 4)
		}
		switch intIn(t, l("kind"), 0, 4) {
		case 0, 1:
			props, req := S{}, []any{}
			for j := 0; j < w; j++ {
				props["p"+itoa(j)] = to()
				req = append(req, "p"+itoa(j))
			}
			defs["d"+itoa(i)] = S{"type": "object", "properties": props, "required": req}
		case 2:
			defs["d"+itoa(i)] = S{"type": "array", "items": to(), "minItems": w, "maxItems": w}
		case 3:
			pre := []any{}
			for j := 0; j < w; j++ {
				pre = append(pre, to())
			}
			defs["d"+itoa(i)] = S{"type": "array", "prefixItems": pre, "maxItems": w}
		default:
			defs["d"+itoa(i)] = S{"type": "object", "additionalProperties": to(), "minProperties": w, "maxProperties": w}
		}
	}
	return growCase{Schema: raw(S{"$ref": "#/$defs/d0", "$defs": defs}), Defs: n, Linear: linear,
		Depth: pick(t, "limit", 0, 1, 2, 3, 7, 30), Bypass: chance(t, "bypass", 3, 4),
		Cutoff: pick(t, "cutoff", 0, 0, 20, 100, 1000), Seed: seedOf(t)}
}

// genRetry: keywords that try again nested in each other, none of which can succeed.
func genRetry(t *rapid.T) robustCase {
	k := 0
	l := func(x string) string { k++; return x + itoa(k) }
	kinds := []string{}
	var node func(d int) S
	node = func(d int) S {
		if d == 0 {
			return S{"enum": []any{1, 2}}
		}
		x := node(d - 1)
		kind := pick(t, l("kind"), "oneOf", "unique", "if", "not", "contains", "object")
		kinds = append(kinds, kind)
		switch kind {
		case "oneOf":
			return S{"type": "array", "minItems": 1, "items": S{"oneOf": []any{x, clone(x), S{"type": "integer"}, S{"type": "number"}}}}
		case "unique":
			return S{"type": "array", "items": x, "uniqueItems": true, "minItems": intIn(t, l("min"), 2, 20)}
		case "if":
			return S{"type": "array", "minItems": 2, "items": x, "if": S{"minItems": 1}, "then": S{"contains": S{"const": "never"}}}
		case "not":
			return S{"type": "array", "minItems": 2, "items": x, "not": S{"type": "array", "items": S{"type": pick(t, l("nt"), "array", "integer")}, "contains": S{}}}
		case "contains":
			return S{"type": "array", "items": x, "contains": clone(x), "minContains": 3, "uniqueItems": true}
		default:
			return S{"type": "object", "patternProperties": S{"^[ab]$": x}, "additionalProperties": false, "minProperties": 2}
		}
	}
	c := robustCase{Doc: raw(node(intIn(t, "depth", 1, 5))), Seed: seedOf(t), N: 1, Tags: kinds}
	c.Opts = &GenOpts{
		MaximumOneOfAttempts: pick(t, "moa", 0, 0, 1, 1000), MaximumIfAttempts: pick(t, "mia", 0, 0, 1, 1000), MaximumUniqueGeneratorAttempts: pick(t, "mua", 0, 0, 1, 300),
	}
	return c
}

func init() {
	register("C16",
		mkFacet("minimise", "objects and arrays nested two to four deep that need to hold little and may hold more, MaximumGenerationSteps 1 to 100; at most that many of them hold more than they have to; non-trivial: a value with at least half as many objects and arrays", 3000, 60000, 4, genStepsCase(false), decideSteps),
		mkFacet("cutoff", "objects and arrays that need to hold many others, CutoffGenerationSteps 1 to 2000: no more than that many come out; same rule", 1500, 30000, 4, genStepsCase(true), decideSteps),
		mkFacet("grow", "one to four definitions that require each other without an end, every reference depth, with and without the cycle check; non-trivial: at least two levels", 3000, 60000, 4, genGrow, decideGrow),
		mkFacet("retry", "keywords that try again nested up to five deep, none of which can succeed: generation ends all the same; non-trivial: no error is returned", 400, 6000, 4, genRetry, decideRobust),
	)
}
