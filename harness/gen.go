package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"

	"pgregory.net/rapid"
)

type S = map[string]any

func pick[T any](t *rapid.T, label string, xs ...T) T {
	return rapid.SampledFrom(xs).Draw(t, label)
}

func chance(t *rapid.T, label string, num, den int) bool {
	// written so that shrinking goes towards "false"
	return rapid.IntRange(0, den-1).Draw(t, label) >= den-num
}

func intIn(t *rapid.T, label string, lo, hi int) int {
	return rapid.IntRange(lo, hi).Draw(t, label)
}

func seedOf(t *rapid.T) int64 { return rapid.Int64Range(1, 1<<40).Draw(t, "seed") }

func raw(v any) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		panic(harnessError{err.Error()})
	}
	return b
}

// dec is a decimal number n * 10^-places, marshalled as such.
func dec(n int64, places int) json.Number {
	if places == 0 {
		return json.Number(strconv.FormatInt(n, 10))
	}
	p := int64(1)
	for i := 0; i < places; i++ {
		p *= 10
	}
	q := new(big.Rat).SetFrac64(n, p)
	s := q.FloatString(places)
	// canonical: no trailing zeros
	for len(s) > 0 && s[len(s)-1] == '0' {
		s = s[:len(s)-1]
	}
	if s[len(s)-1] == '.' {
		s = s[:len(s)-1]
	}
	if s == "-0" {
		s = "0"
	}
	return json.Number(s)
}

func conf(t *rapid.T, schema any, n int, accept, markers bool, tags ...string) confCase {
	c := confCase{Schema: raw(schema), Seed: seedOf(t), N: n, Accept: accept, Markers: markers, Tags: tags}
	// values past MaximumGenerationSteps are made as small as can be, and are held to the schema all the same
	if chance(t, "minimise", 1, 8) {
		c.Opts = &GenOpts{MaximumGenerationSteps: intIn(t, "steps", 1, 30), CutoffGenerationSteps: 1 << 31}
		c.Tags = append(c.Tags, "minimised")
	}
	return c
}

// confNested is conf for a schema that is, now and then, a part of another.
func confNested(t *rapid.T, schema S, n int, accept, markers bool, tags ...string) confCase {
	if !chance(t, "nested", 1, 6) {
		return conf(t, schema, n, accept, markers, tags...)
	}
	tags = append(tags, "nested")
	inner := S{}
	outer := S{}
	for k, v := range schema {
		if k == "$defs" || k == "$schema" {
			outer[k] = v
		} else {
			inner[k] = v
		}
	}
	n = (n + 2) / 3
	switch intIn(t, "nestkind", 0, 3) {
	case 0:
		outer["type"] = "array"
		outer["items"] = inner
		outer["minItems"] = intIn(t, "nestmin", 1, 5)
		outer["maxItems"] = 5
	case 1:
		outer["type"] = "array"
		outer["prefixItems"] = []any{inner, inner, S{"type": "null"}, inner}
		outer["minItems"] = 4
	case 2:
		outer["type"] = "object"
		outer["properties"] = S{"a": inner, "b": inner, "c": inner}
		outer["required"] = []any{"a", "b", "c"}
	case 3:
		outer["type"] = "object"
		outer["additionalProperties"] = inner
		outer["minProperties"] = 2
		outer["maxProperties"] = 4
	}
	return conf(t, outer, n, accept, markers, tags...)
}

func itoa(i int) string { return strconv.Itoa(i) }

var _ = fmt.Sprint

// clone copies a schema deeply.
func clone(v any) any {
	switch x := v.(type) {
	case S:
		o := S{}
		for k, w := range x {
			o[k] = clone(w)
		}
		return o
	case []any:
		o := make([]any, len(x))
		for i, w := range x {
			o[i] = clone(w)
		}
		return o
	}
	return v
}

// nestBranches rearranges the branches of an allOf without changing what they
// say together: some move into an allOf of their own, some behind a reference.
// Definitions are parsed on their own as well, so they repeat the type.
func nestBranches(t *rapid.T, l string, defs S, typ any, aa []any) []any {
	for round := 0; round < 2 && chance(t, l+"nest"+itoa(round), 1, 3); round++ {
		lr := l + "r" + itoa(round)
		from := intIn(t, lr+"from", 0, len(aa)-1)
		to := intIn(t, lr+"to", from+1, len(aa))
		group := append([]any{}, aa[from:to]...)
		var x any = S{"allOf": group}
		if len(group) == 1 && chance(t, lr+"bare", 1, 2) {
			x = group[0]
		}
		if chance(t, lr+"ref", 1, 2) {
			name := "branch" + l + itoa(round)
			if m, ok := x.(S); ok && typ != nil && m["type"] == nil && m["$ref"] == nil {
				m = clone(m).(S)
				m["type"] = typ
				x = m
			}
			defs[name] = x
			x = S{"$ref": "#/$defs/" + name}
		}
		aa = append(append(append([]any{}, aa[:from]...), x), aa[to:]...)
	}
	return aa
}

// setAllOf gives s the branches, rearranged, with their definitions.
func setAllOf(t *rapid.T, s S, aa []any) {
	defs := S{}
	s["allOf"] = nestBranches(t, "aa", defs, s["type"], aa)
	if len(defs) > 0 {
		s["$defs"] = defs
	}
}

// hoistDefs moves the definitions of a schema to the one around it.
func hoistDefs(inner, outer S) S {
	if d, ok := inner["$defs"]; ok {
		delete(inner, "$defs")
		outer["$defs"] = d
	}
	return outer
}
