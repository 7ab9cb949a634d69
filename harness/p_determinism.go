package main

import (
	"bytes"
	"encoding/json"
	"strings"

	crand "github.com/ryanolee/go-chaff/rand"
	"pgregory.net/rapid"
)

// detCase: a schema, and the same schema written differently. Values that come
// from patterns and formats use sources of randomness of their own, as
// documented, so there are none.
type detCase struct {
	Schema json.RawMessage `json:"schema"`
	Opts   *GenOpts        `json:"opts,omitempty"`
	Seed   int64           `json:"seed"`
	Text   *string         `json:"text,omitempty"` // seeds from a string instead
	N      int             `json:"n"`
	Tags   []string        `json:"tags,omitempty"`
}

// values generates N values from one source of randomness.
func (c detCase) values(schema []byte, globals int64) []string {
	seedGlobals(globals)
	p := parseWith(schema, nil)
	if p.err != nil {
		return nil
	}
	r := crand.NewRandUtil(c.Seed)
	if c.Text != nil {
		r = crand.NewRandUtilFromString(*c.Text)
	}
	var out []string
	for i := 0; i < c.N; i++ {
		o := optsFor(c.Opts, 0)
		o.Rand = r
		js, err := json.Marshal(plainGiveUps(p.g.Generate(o)))
		if err != nil {
			js = []byte(err.Error())
		}
		out = append(out, string(js))
	}
	return out
}

// plainGiveUps leaves of the texts that stand in for values what they are, not
// how they describe the schema.
func plainGiveUps(v any) any {
	switch x := v.(type) {
	case S:
		o := S{}
		for k, w := range x {
			o[k] = plainGiveUps(w)
		}
		return o
	case []any:
		o := make([]any, len(x))
		for i, w := range x {
			o[i] = plainGiveUps(w)
		}
		return o
	case string:
		if m := hasGiveUp([]byte(x)); m != "" {
			return m
		}
	}
	return v
}

// rewritten is the same schema, with the keys of its objects the other way around and white space.
func rewritten(v any) []byte {
	var b bytes.Buffer
	var write func(v any)
	write = func(v any) {
		switch x := v.(type) {
		case S:
			b.WriteString("{ ")
			keys := sortedKeys(x)
			for i := len(keys) - 1; i >= 0; i-- {
				b.Write(raw(keys[i]))
				b.WriteString(" :\n\t")
				write(x[keys[i]])
				if i > 0 {
					b.WriteString(" ,")
				}
			}
			b.WriteString(" }")
		case []any:
			b.WriteString("[ ")
			for i, w := range x {
				if i > 0 {
					b.WriteString(" , ")
				}
				write(w)
			}
			b.WriteString(" ]")
		default:
			b.Write(raw(v))
		}
	}
	write(v)
	return b.Bytes()
}

func decideDet(c detCase) Result {
	res := Result{Labels: c.Tags, Evals: c.N}
	first := c.values(c.Schema, c.Seed)
	if first == nil {
		return res.label("rejected")
	}
	for i, schema := range [][]byte{c.Schema, rewritten(decodeAny(c.Schema)), c.Schema} {
		globals := c.Seed + 1 + int64(i)
		if bytes.Contains(c.Schema, []byte(`"not"`)) {
			globals = c.Seed // what is left of all types might be a string
		}
		again := c.values(schema, globals)
		if len(again) != len(first) {
			return viol("parsed once, and not the other time")
		}
		for k := range first {
			if first[k] != again[k] {
				return viol("value %d from the same seed is %s the first time and %s the next", k+1, clip(first[k], 300), clip(again[k], 300))
			}
		}
	}
	distinct := map[string]bool{}
	for _, v := range first {
		distinct[v] = true
	}
	res.Nontrivial = len(distinct) > 1
	return res
}

func decodeAny(js []byte) any {
	d := json.NewDecoder(bytes.NewReader(js))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		panic(harnessError{err.Error()})
	}
	return v
}

// withoutStrings replaces the strings that are not from an enum or a const.
func withoutStrings(v any) any {
	switch x := v.(type) {
	case S:
		if pp, ok := x["patternProperties"].(S); ok {
			for k := range pp {
				if !strings.HasPrefix(k, "^lit") {
					delete(pp, k)
				}
			}
		}
		delete(x, "pattern")
		delete(x, "format")
		types, _ := x["type"].([]any)
		str := x["type"] == "string"
		for i, ty := range types {
			if ty == "string" {
				types[i] = "null"
			}
		}
		if types != nil {
			types = uniqAny(types)
			x["type"] = types
		}
		if str && x["enum"] == nil && x["const"] == nil {
			for k := range x {
				if k != "if" && k != "then" && k != "else" && k != "not" {
					delete(x, k)
				}
			}
			x["enum"] = []any{"a", "bb", "ccc", "dddd", "eeeee"}
		}
		for k, w := range x {
			if k != "enum" && k != "const" && k != "required" {
				x[k] = withoutStrings(w)
			}
		}
	case []any:
		for i, w := range x {
			x[i] = withoutStrings(w)
		}
	}
	return v
}

func genDet(t *rapid.T) detCase {
	var js json.RawMessage
	c := detCase{Seed: seedOf(t), N: 6}
	switch intIn(t, "family", 0, 3) {
	case 0:
		props, req := S{}, []any{}
		n := intIn(t, "n", 2, 10)
		for i := 0; i < n; i++ {
			props["p"+itoa(i)] = pick(t, "type"+itoa(i), S{"type": "integer"}, S{"type": "number", "multipleOf": 0.5}, S{"type": []any{"null", "boolean", "integer"}}, S{"enum": []any{1, "x", nil, 2.5}})
			if chance(t, "req"+itoa(i), 1, 3) {
				req = append(req, "p"+itoa(i))
			}
		}
		if chance(t, "lit1", 1, 2) {
			req = append(req, "lit1")
		}
		pp := S{}
		for i := intIn(t, "patterns", 0, 4); i > 0; i-- {
			pp["^lit"+pick(t, "end"+itoa(i), itoa(i)+"$", itoa(i), "", "1")] = S{"enum": []any{i, -i, "p"}}
		}
		js = raw(S{"type": "object", "properties": props, "patternProperties": pp, "required": req, "additionalProperties": S{"type": "boolean"}, "minProperties": intIn(t, "min", 0, n+2)})
		c.Tags = []string{"object"}
	case 1:
		aa := []any{}
		for i := intIn(t, "branches", 2, 4); i > 0; i-- {
			props := S{}
			for k := intIn(t, "props"+itoa(i), 1, 4); k > 0; k-- {
				props[pick(t, "name"+itoa(i)+"-"+itoa(k), "a", "b", "c", "d", "e", "f")] = S{"type": pick(t, "ty"+itoa(i)+"-"+itoa(k), "integer", "number"), "minimum": 0}
			}
			aa = append(aa, S{"type": "object", "properties": props, pick(t, "choice"+itoa(i), "anyOf", "oneOf"): []any{S{"required": []any{"a"}}, S{"required": []any{"b"}}, S{"maxProperties": 2}}})
		}
		js = raw(S{"allOf": aa})
		c.Tags = []string{"allOf"}
	case 2:
		js = pick(t, "notkind", genNotSingle, genNotDouble, genNotSeveral, genNotAny)(t).Schema
		c.Tags = []string{"not"}
	default:
		js = genMix(t).Schema
		c.Tags = []string{"mix"}
	}
	c.Schema = raw(withoutStrings(decodeAny(js)))
	if chance(t, "steps", 1, 4) {
		c.Opts = &GenOpts{MaximumGenerationSteps: intIn(t, "mgs", 1, 40), CutoffGenerationSteps: intIn(t, "cgs", 40, 200)}
	}
	if chance(t, "text", 1, 4) {
		text := rapid.StringN(0, 12, 40).Draw(t, "textseed")
		c.Text = &text
	}
	return c
}

func init() {
	register("C20",
		mkFacet("repeat", "schemas without patterns, formats and free strings, parsed four times, once with their keys in another order, with the global sources of randomness seeded otherwise each time: six values of the same seed are the same; non-trivial: two different values among the six", 2500, 60000, 4, genDet, decideDet),
	)
}
