package main

import (
	"fmt"
	"math"
	mrand "math/rand"
	"reflect"
	"sort"
	"strings"

	crand "github.com/ryanolee/go-chaff/rand"
	"pgregory.net/rapid"
)

type randOp struct {
	Op    string   `json:"op"`
	Lo    int      `json:"lo,omitempty"`
	Hi    int      `json:"hi,omitempty"`
	FLo   float64  `json:"flo,omitempty"`
	FHi   float64  `json:"fhi,omitempty"`
	Items []string `json:"items,omitempty"`
	N     int      `json:"n,omitempty"`
}

type randCase struct {
	Seed int64    `json:"seed"`
	Text *string  `json:"text,omitempty"`
	Ops  []randOp `json:"ops"`
}

func (c randCase) util() *crand.RandUtil {
	if c.Text != nil {
		return crand.NewRandUtilFromString(*c.Text)
	}
	return crand.NewRandUtil(c.Seed)
}

// subBag: xs are all part of ys, each as often at the most.
func subBag(xs, ys []string) bool {
	have := map[string]int{}
	for _, y := range ys {
		have[y]++
	}
	for _, x := range xs {
		have[x]--
		if have[x] < 0 {
			return false
		}
	}
	return true
}

func toAny(xs []string) []any {
	out := make([]any, len(xs))
	for i, x := range xs {
		out[i] = x
	}
	return out
}

func fromAny(xs []any) []string {
	out := make([]string, len(xs))
	for i, x := range xs {
		out[i] = fmt.Sprint(x)
	}
	return out
}

// do runs one operation and says what is wrong with its result.
func (o randOp) do(r *crand.RandUtil) (result any, why string) {
	given := append([]string{}, o.Items...)
	switch o.Op {
	case "int":
		n := r.RandomInt(o.Lo, o.Hi)
		if n < o.Lo || n >= o.Hi && o.Lo != o.Hi || n > o.Hi {
			why = fmt.Sprintf("RandomInt(%d, %d) = %d", o.Lo, o.Hi, n)
		}
		result = n
	case "float":
		f := r.RandomFloat(o.FLo, o.FHi)
		if !(f >= o.FLo && f <= o.FHi) {
			why = fmt.Sprintf("RandomFloat(%v, %v) = %v", o.FLo, o.FHi, f)
		}
		result = f
	case "bool":
		result = r.RandomBool()
	case "choice":
		in := toAny(o.Items)
		x := r.Choice(in)
		if !subBag([]string{fmt.Sprint(x)}, o.Items) {
			why = fmt.Sprintf("Choice(%q) = %v", o.Items, x)
		}
		given = fromAny(in)
		result = x
	case "string":
		x := r.StringChoice(&given)
		if !subBag([]string{x}, o.Items) {
			why = fmt.Sprintf("StringChoice(%q) = %q", o.Items, x)
		}
		result = x
	case "multiple":
		xs := r.StringChoiceMultiple(&given, o.N)
		if len(xs) != o.N || !subBag(xs, o.Items) {
			why = fmt.Sprintf("StringChoiceMultiple(%q, %d) = %q", o.Items, o.N, xs)
		}
		result = append([]string{}, xs...)
		if !reflect.DeepEqual(given, append([]string{}, o.Items...)) {
			break
		}
		// what is returned is the caller's
		for i := range xs {
			xs[i] = "\x00"
		}
	case "shuffle":
		in := toAny(o.Items)
		xs := fromAny(r.Shuffle(in))
		if len(xs) != len(o.Items) || !subBag(xs, o.Items) {
			why = fmt.Sprintf("Shuffle(%q) = %q", o.Items, xs)
		}
		given = fromAny(in)
		result = xs
	}
	if why == "" && !reflect.DeepEqual(given, append([]string{}, o.Items...)) {
		why = fmt.Sprintf("%s changes the list it is given from %q to %q", o.Op, o.Items, given)
	}
	return result, why
}

// decideRand: every result is one of those asked for, the same sequence of
// operations has the same results for the same seed, and none of it depends
// on the global source of randomness or another RandUtil.
func decideRand(c randCase) Result {
	a, b := c.util(), c.util()
	noise := crand.NewRandUtil(c.Seed + 1)
	kinds := map[string]bool{}
	var log []string
	for i, o := range c.Ops {
		mrand.Seed(c.Seed)
		x, why := o.do(a)
		if why != "" {
			return Result{Viol: why}
		}
		mrand.Seed(c.Seed + int64(i) + 1)
		c.Ops[len(c.Ops)-1-i].do(noise)
		crand.NewRandUtil(c.Seed)
		y, _ := o.do(b)
		log = append(log, fmt.Sprint(o.Op, "=", x))
		if !reflect.DeepEqual(x, y) {
			return viol("operation %d is %v the first time and %v the next with the same seed: %s", i+1, x, y, clip(strings.Join(log, " "), 300))
		}
		kinds[o.Op] = true
	}
	return Result{Nontrivial: len(kinds) > 2, Evals: len(c.Ops)}
}

// decideSpread: 600 results of one operation on few values miss none of them.
func decideSpread(c randCase) Result {
	r := c.util()
	o := c.Ops[0]
	want, got := map[string]bool{}, map[string]bool{}
	switch o.Op {
	case "int":
		for i := o.Lo; i < max(o.Hi, o.Lo+1); i++ {
			want[fmt.Sprint(i)] = true
		}
	case "bool":
		want["true"], want["false"] = true, true
	case "choice", "string":
		for _, x := range o.Items {
			want[x] = true
		}
	case "multiple", "shuffle":
		n := o.N
		if o.Op == "shuffle" {
			n = len(o.Items)
		}
		for i := 0; i < n; i++ {
			for _, x := range o.Items {
				want[fmt.Sprint(i, ":", x)] = true
			}
		}
	case "float":
		for i := 0; i < 8; i++ {
			want["eighth "+itoa(i)] = true
		}
	}
	for i := 0; i < 600; i++ {
		x, why := o.do(r)
		if why != "" {
			return Result{Viol: why}
		}
		switch v := x.(type) {
		case []string:
			for k, s := range v {
				got[fmt.Sprint(k, ":", s)] = true
			}
		case float64:
			got["eighth "+itoa(min(7, int((v-o.FLo)/(o.FHi-o.FLo)*8)))] = true
		default:
			got[fmt.Sprint(v)] = true
		}
	}
	var missing []string
	for w := range want {
		if !got[w] {
			missing = append(missing, w)
		}
	}
	sort.Strings(missing)
	if len(missing) > 0 {
		return viol("none of 600 results of %s is %s", o.Op, strings.Join(missing, ", "))
	}
	return Result{Nontrivial: len(want) > 1, Evals: 600}.label(o.Op)
}

func genRandOp(t *rapid.T, l string, small bool) randOp {
	o := randOp{Op: pick(t, l, "int", "float", "bool", "choice", "string", "multiple", "shuffle")}
	switch o.Op {
	case "int":
		o.Lo = pick(t, l+"base", 0, 0, 1, -1, -5, 100, -100, 1<<40, -(1 << 40), 1<<61, -(1 << 61))
		o.Hi = o.Lo + intIn(t, l+"n", 0, 8)
		if !small && chance(t, l+"wide", 1, 3) {
			o.Hi = o.Lo + pick(t, l+"w", 1000, 1<<31, 1<<32+1, 1<<60, 1<<62)
		}
	case "float":
		o.FLo = rapid.Float64Range(-1000, 1000).Draw(t, l+"flo")
		o.FHi = o.FLo + rapid.Float64Range(0.5, 1000).Draw(t, l+"fhi")
		if !small && chance(t, l+"wide", 1, 3) {
			o.FHi = pick(t, l+"w", o.FLo, 1e300, math.Nextafter(o.FLo, math.Inf(1)))
		}
	case "choice", "string", "multiple", "shuffle":
		n := intIn(t, l+"len", 1, 6)
		if !small && chance(t, l+"long", 1, 3) {
			n = intIn(t, l+"longlen", 7, 40)
		}
		if !small && (o.Op == "multiple" || o.Op == "shuffle") && chance(t, l+"none", 1, 8) {
			n = 0
		}
		o.Items = []string{}
		for i := 0; i < n; i++ {
			x := "s" + itoa(i)
			if !small && i > 0 && chance(t, l+"dup"+itoa(i), 1, 5) {
				x = o.Items[0]
			}
			o.Items = append(o.Items, x)
		}
		if o.Op == "multiple" {
			o.N = intIn(t, l+"take", 0, n)
		}
	}
	return o
}

func genRand(spread bool) func(t *rapid.T) randCase {
	return func(t *rapid.T) randCase {
		c := randCase{Seed: rapid.Int64().Draw(t, "seed")}
		if chance(t, "text", 1, 3) {
			s := rapid.String().Draw(t, "textseed")
			c.Text = &s
		}
		n := 1
		if !spread {
			n = intIn(t, "ops", 1, 25)
		}
		for i := 0; i < n; i++ {
			c.Ops = append(c.Ops, genRandOp(t, "op"+itoa(i), spread))
		}
		return c
	}
}

func init() {
	register("C21",
		mkFacet("model", "sequences of up to 25 operations on two utilities of the same seed, another and the global source drawn from in between: results are among those asked for, the same for the same seed, arguments are left alone; non-trivial: three kinds of operations", 20000, 400000, 4, genRand(false), decideRand),
		mkFacet("spread", "600 results of one operation on up to eight values: all of them come up, at every position of those that return several; non-trivial: more than one value", 4000, 80000, 4, genRand(true), decideSpread),
	)
}
