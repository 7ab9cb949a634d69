package main

import (
	"math"

	"pgregory.net/rapid"
)

// ratNum gives a decimal on a grid.
func numSchemaInt(t *rapid.T) S {
	s := S{"type": "integer"}
	mag := pick(t, "mag", int64(10), 100, 5000, 1000000, 1<<31, 1<<40, 1<<52)
	lo := rapid.Int64Range(-mag, mag).Draw(t, "lo")
	span := rapid.Int64Range(0, pick(t, "spanmag", int64(3), 20, 1000, 100000)).Draw(t, "span")
	hi := lo + span
	mult := int64(0)
	if chance(t, "mult?", 2, 5) {
		mult = rapid.Int64Range(1, pick(t, "multmag", int64(5), 50, 1000)).Draw(t, "mult")
		// a multiple must exist: put one inside
		k := rapid.Int64Range(-mag/mult-1, mag/mult+1).Draw(t, "k")
		w := k * mult
		lo, hi = aroundMultiple(t, w, mult)
		s["multipleOf"] = mult
	}
	form := intIn(t, "form", 0, 3)
	setLo := func() {
		kinds := 3
		if mag > 1<<40 { // a float64 still holds fractions below that
			kinds = 1
		}
		switch intIn(t, "lokind", 0, kinds) {
		case 0:
			s["minimum"] = lo
		case 1:
			s["exclusiveMinimum"] = lo - 1
		case 2: // fractional bound strictly between lo-1 and lo
			s["minimum"] = dec(lo*10-int64(intIn(t, "fr", 1, 9)), 1)
		case 3:
			s["exclusiveMinimum"] = dec(lo*10-int64(intIn(t, "fr", 1, 9)), 1)
		}
	}
	setHi := func() {
		kinds := 3
		if mag > 1<<40 {
			kinds = 1
		}
		switch intIn(t, "hikind", 0, kinds) {
		case 0:
			s["maximum"] = hi
		case 1:
			s["exclusiveMaximum"] = hi + 1
		case 2:
			s["maximum"] = dec(hi*10+int64(intIn(t, "fr2", 1, 9)), 1)
		case 3:
			s["exclusiveMaximum"] = dec(hi*10+int64(intIn(t, "fr2", 1, 9)), 1)
		}
	}
	switch form {
	case 0:
		setLo()
		setHi()
	case 1:
		setLo()
	case 2:
		setHi()
	}
	return s
}

// aroundMultiple gives bounds around a multiple: often one of them, or both, is the multiple itself.
func aroundMultiple(t *rapid.T, w, mult int64) (lo, hi int64) {
	lo, hi = w, w
	near := func(l string) int64 {
		switch intIn(t, l+"kind", 0, 3) {
		case 0:
			return 0
		case 1:
			return mult - 1
		}
		return rapid.Int64Range(0, 3*mult).Draw(t, l)
	}
	return lo - near("below"), hi + near("above")
}

func numSchemaFloat(t *rapid.T) S {
	s := S{"type": "number"}
	places := intIn(t, "places", 0, 3)
	mag := pick(t, "mag", int64(10), 100, 5000, 1000000)
	lo := rapid.Int64Range(-mag, mag).Draw(t, "lo")
	hi := lo + rapid.Int64Range(1, pick(t, "spanmag", int64(3), 20, 1000, 100000)).Draw(t, "span")
	if chance(t, "mult?", 2, 5) {
		mult := rapid.Int64Range(1, pick(t, "multmag", int64(5), 50, 1000)).Draw(t, "mult")
		k := rapid.Int64Range(-mag/mult-1, mag/mult+1).Draw(t, "k")
		w := k * mult
		lo, hi = aroundMultiple(t, w, mult)
		s["multipleOf"] = dec(mult, places)
		if chance(t, "tight", 1, 2) { // the multiple next to the bounds, which belong to the range
			if lo != w && hi != w {
				lo = w
			}
			s["minimum"], s["maximum"] = dec(lo, places), dec(hi, places)
			return s
		}
		if hi == lo {
			hi++
		}
	}
	if chance(t, "lo?", 3, 4) {
		if chance(t, "loex", 1, 2) {
			s["exclusiveMinimum"] = dec(lo-1, places)
		} else {
			s["minimum"] = dec(lo, places)
		}
	}
	if chance(t, "hi?", 3, 4) {
		if chance(t, "hiex", 1, 2) {
			s["exclusiveMaximum"] = dec(hi+1, places)
		} else {
			s["maximum"] = dec(hi, places)
		}
	}
	return s
}

// numSchemaWide: bounds of any magnitude, several of them at once.
func numSchemaWide(t *rapid.T) S {
	s := S{"type": pick(t, "type", "integer", "number")}
	num := func(l string) float64 {
		m := float64(rapid.Int64Range(-999, 999).Draw(t, l))
		for i, e := 0, intIn(t, l+"e", 0, 40); i < e; i++ {
			m *= 10
		}
		return m
	}
	lo, hi := num("lo"), num("hi")
	if lo > hi {
		lo, hi = hi, lo
	}
	if chance(t, "far?", 1, 4) { // an outer bound close to the largest number there is
		far := rapid.Float64Range(1, 9).Draw(t, "far") * math.Pow(10, float64(intIn(t, "fare", 290, 307)))
		if chance(t, "farhi", 1, 2) {
			hi = far
		} else {
			lo = -far
		}
		if chance(t, "farboth", 1, 4) {
			lo, hi = -far, far
		}
		s["minimum"], s["maximum"] = lo, hi
		return s
	}
	switch intIn(t, "form", 0, 4) {
	case 0:
		s["minimum"] = lo
	case 1:
		s["maximum"] = hi
	default:
		if hi == lo {
			hi = lo + 1 + math.Abs(lo)
		}
		s["minimum"], s["maximum"] = lo, hi
		if hi-lo >= 4 && chance(t, "ex", 1, 2) {
			// both kinds of a bound: the tighter one counts
			s["exclusiveMinimum"] = lo + pick(t, "exd", -1.0, 0, 1)
			s["exclusiveMaximum"] = hi + pick(t, "exe", -1.0, 0, 1)
		}
	}
	return s
}

func init() {
	register("C01",
		mkFacet("integer", "integer schemas with whole or fractional, inclusive, exclusive or missing bounds up to 2^52 and multipleOf, of which at least one value is valid; non-trivial: accepted and at least two different values judged", 3000, 80000, 2, func(t *rapid.T) confCase {
			return confNested(t, numSchemaInt(t), 25, true, false)
		}, decideConf),
		mkFacet("number", "number schemas with bounds and multipleOf of up to three decimals; same rule", 3000, 80000, 2, func(t *rapid.T) confCase {
			return confNested(t, numSchemaFloat(t), 25, true, false)
		}, decideConf),
		mkFacet("wide", "integer and number schemas with bounds up to 1e42, inclusive and exclusive ones together; same rule", 2000, 40000, 2, func(t *rapid.T) confCase {
			return confNested(t, numSchemaWide(t), 25, true, false)
		}, decideConf),
	)
}
