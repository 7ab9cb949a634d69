From f7fbbf4f065f00305a5273ffe76509131314884a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:56 +0000
Subject: [PATCH 01/77] fix: accept every integer range that holds an integer,
 keep exclusive bounds exclusive

An integer range holding exactly one integer (minimum == maximum) was rejected,
a fractional exclusive bound skipped the integer next to it, and the offset used
for exclusive float bounds vanished for larger magnitudes.
---
 number.go | 49 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/number.go b/number.go
index 374dda9..207d3b8 100644
--- a/number.go
+++ b/number.go
@@ -68,22 +68,14 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 	var min float64 = math.Inf(-1)
 	var max float64 = math.Inf(1)
 
-	// For integers, exclusive bounds need an offset of 1 so that
-	// math.Ceil / math.Floor produce a value strictly inside the bound.
-	// For floats the tiny infinitesimal offset is sufficient.
-	exclusiveOffset := infinitesimal
-	if mustBeAnInteger {
-		exclusiveOffset = 1.0
-	}
-
 	// Initial Validation
 	min = util.GetZeroIfNil(
-		util.MaxFloatPtr(node.Minimum, addIfNotNilFloat64(node.ExclusiveMinimum, exclusiveOffset)),
+		util.MaxFloatPtr(node.Minimum, smallestAbove(node.ExclusiveMinimum, mustBeAnInteger)),
 		math.Inf(-1),
 	)
 
 	max = util.GetZeroIfNil(
-		util.MinFloatPtr(node.Maximum, addIfNotNilFloat64(node.ExclusiveMaximum, -exclusiveOffset)),
+		util.MinFloatPtr(node.Maximum, largestBelow(node.ExclusiveMaximum, mustBeAnInteger)),
 		math.Inf(1),
 	)
 
@@ -110,13 +102,15 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 
 	// If we are an integer type, round min and max to the nearest integers
 	if mustBeAnInteger {
-		// If min and max are both non-integer values and round to the same integer
-		if math.Floor(min) == math.Floor(max) {
+		ceilMin, floorMax := math.Ceil(min), math.Floor(max)
+
+		// If min and max both fall strictly between two consecutive integers
+		if min <= max && ceilMin > floorMax {
 			return 0, 0, fmt.Errorf("minimum and maximum do not allow for any integers (min: %f, max: %f)", min, max)
 		}
 
-		min = math.Ceil(min)
-		max = math.Floor(max)
+		min = ceilMin
+		max = floorMax
 	}
 
 	// Validate min and max
@@ -144,6 +138,33 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 	return min, max, nil
 }
 
+// Resolves an exclusive minimum to the smallest inclusive bound that is strictly above it
+func smallestAbove(exclusiveMinimum *float64, mustBeAnInteger bool) *float64 {
+	if exclusiveMinimum == nil {
+		return nil
+	}
+
+	bound := math.Floor(*exclusiveMinimum) + 1
+	if !mustBeAnInteger {
+		// The infinitesimal offset disappears for larger magnitudes
+		bound = math.Max(*exclusiveMinimum+infinitesimal, math.Nextafter(*exclusiveMinimum, math.Inf(1)))
+	}
+	return &bound
+}
+
+// Resolves an exclusive maximum to the largest inclusive bound that is strictly below it
+func largestBelow(exclusiveMaximum *float64, mustBeAnInteger bool) *float64 {
+	if exclusiveMaximum == nil {
+		return nil
+	}
+
+	bound := math.Ceil(*exclusiveMaximum) - 1
+	if !mustBeAnInteger {
+		bound = math.Min(*exclusiveMaximum-infinitesimal, math.Nextafter(*exclusiveMaximum, math.Inf(-1)))
+	}
+	return &bound
+}
+
 func countMultiplesInRange(min float64, max float64, multiple float64) int {
 	if min == 0 {
 		return int(math.Floor(max / multiple))
-- 
2.43.0


From 7826281e9fca4dd3caa6acfdcf1a4e051affdcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:40 +0000
Subject: [PATCH 02/77] fix: generate every multiple of multipleOf in range,
 and only those

The multiples counted for a range missed its first or last member, so valid
ranges were rejected and some multiples never generated, and rounding to a
multiple of 1e-14 reintroduced floating point noise (34.2 -> 34.20000000000001).
---
 internal/util/util.go | 17 ++++++--------
 number.go             | 52 ++++++++++++++++++++++---------------------
 2 files changed, 34 insertions(+), 35 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 5eb7fee..9b404a1 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math"
 	"regexp"
+	"strconv"
 	"strings"
 
 	"github.com/thoas/go-funk"
@@ -99,9 +100,10 @@ func Round(x, unit float64) float64 {
 	// Snap to the number of decimal places implied by `unit` to eliminate
 	// trailing floating-point noise (e.g. 0.6000000000000001 → 0.6).
 	if unit != 0 {
-		prec := decimalPrecision(unit)
-		pow := math.Pow(10, float64(prec))
-		r = math.Round(r*pow) / pow
+		rounded, err := strconv.ParseFloat(strconv.FormatFloat(r, 'f', decimalPrecision(unit), 64), 64)
+		if err == nil {
+			r = rounded
+		}
 	}
 	return r
 }
@@ -109,13 +111,8 @@ func Round(x, unit float64) float64 {
 // decimalPrecision returns the number of decimal digits needed to represent v.
 // e.g. 0.1 → 1, 0.25 → 2, 5 → 0.
 func decimalPrecision(v float64) int {
-	v = math.Abs(v)
-	prec := 0
-	for v != math.Floor(v) && prec < 15 {
-		v *= 10
-		prec++
-	}
-	return prec
+	_, decimals, _ := strings.Cut(strconv.FormatFloat(v, 'f', -1, 64), ".")
+	return len(decimals)
 }
 
 // Returns the true if value or defaultValue are true
diff --git a/number.go b/number.go
index 207d3b8..aa45ac5 100644
--- a/number.go
+++ b/number.go
@@ -23,7 +23,9 @@ const (
 	// Anything smaller than this and Golangs math.Floor and math.Ceil functions
 	// begin to misbehave due to floating point precision issues
 	infinitesimal = 0.1e-13
-	maxRoundFloat = 1e290 // Bound to slightly less than the max float64 value to avoid unserializable inf values
+
+	// The most multiples to consider in a range, every whole number up to here is an exact float64
+	maxMultiples = 1 << 53
 
 	// Bound to slightly less than the max float64 value to avoid unserializable inf values
 	upperBound = math.MaxFloat64 / 1000
@@ -119,11 +121,11 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 	}
 
 	// Validate multipleOf
-	if node.MultipleOf != nil {
+	if node.MultipleOf != nil && *node.MultipleOf != 0 {
 		multipleOf := *node.MultipleOf
 		if multipleOf < 0 {
 			return 0, 0, errors.New("multipleOf cannot be negative")
-		} else if multipleOf != 0 && multipleOf < infinitesimal {
+		} else if multipleOf < infinitesimal {
 			return 0, 0, fmt.Errorf("multipleOf must be at least %e", infinitesimal)
 		} else if mustBeAnInteger && math.Trunc(multipleOf) != multipleOf {
 			return 0, 0, errors.New("integer type cannot have a non-integer multipleOf")
@@ -166,11 +168,8 @@ func largestBelow(exclusiveMaximum *float64, mustBeAnInteger bool) *float64 {
 }
 
 func countMultiplesInRange(min float64, max float64, multiple float64) int {
-	if min == 0 {
-		return int(math.Floor(max / multiple))
-	}
-
-	return int(math.Floor(max/multiple)) - int(math.Floor(min/multiple))
+	count := lastMultipleWithin(max, multiple) - firstMultipleWithin(min, multiple) + 1
+	return int(math.Max(0, math.Min(count, maxMultiples)))
 }
 
 func generateMultipleOf(rand rand.RandUtil, min float64, max float64, multiple float64) float64 {
@@ -180,18 +179,29 @@ func generateMultipleOf(rand rand.RandUtil, min float64, max float64, multiple f
 		return 0
 	}
 
-	lowerBound := math.Floor(min/multiple) * multiple
-	randomMultiple := float64(rand.RandomInt(1, multiplesInRange)) * multiple
-	return lowerBound + randomMultiple
+	return (firstMultipleWithin(min, multiple) + float64(rand.RandomInt(0, multiplesInRange))) * multiple
+}
+
+// The smallest k for which k * multiple is at least min
+func firstMultipleWithin(min float64, multiple float64) float64 {
+	k := nearestMultiple(min, multiple)
+	if util.Round(k*multiple, multiple) < min {
+		k++
+	}
+	return k
 }
 
-func roundToInfinitesimal(f float64) float64 {
-	// Dividing by infinitesimal (1e-14) amplifies the value by 1e14.
-	// Skip rounding for values whose magnitude would overflow to ±Inf.
-	if math.IsInf(f, 0) || math.Abs(f) > maxRoundFloat {
-		return f
+// The largest k for which k * multiple is at most max
+func lastMultipleWithin(max float64, multiple float64) float64 {
+	k := nearestMultiple(max, multiple)
+	if util.Round(k*multiple, multiple) > max {
+		k--
 	}
-	return math.Round(f/infinitesimal) * infinitesimal
+	return k
+}
+
+func nearestMultiple(bound float64, multiple float64) float64 {
+	return math.Max(-math.MaxFloat64, math.Min(math.Round(bound/multiple), math.MaxFloat64))
 }
 
 func (g *numberGenerator) Generate(opts *GeneratorOptions) interface{} {
@@ -219,14 +229,6 @@ func (g *numberGenerator) Generate(opts *GeneratorOptions) interface{} {
 		return int(result)
 	}
 
-	// MultipleOf arithmetic can accumulate tiny floating-point errors that
-	// push the result just outside the min/max bounds. Snap to the nearest
-	// infinitesimal to eliminate them. Plain floats (no multipleOf) don't
-	// need this — and applying it would destroy sub-infinitesimal values.
-	if g.MultipleOf != 0 {
-		return roundToInfinitesimal(result)
-	}
-
 	return result
 }
 
-- 
2.43.0


From 7bc169df3c39998cab3bca0da75c39ffec394c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 03/77] fix: honour maxLength 0

---
 string.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 42bef19..39d94b6 100644
--- a/string.go
+++ b/string.go
@@ -78,7 +78,7 @@ func parseString(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, fmt.Errorf("min/max length cannot be negative")
 	}
 
-	if minLength > maxLength && maxLength != 0 {
+	if minLength > maxLength && node.MaxLength != nil {
 		return nullGenerator{}, fmt.Errorf("minLength cannot be greater than maxLength")
 	}
 
@@ -88,6 +88,11 @@ func parseString(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, fmt.Errorf("cannot have both pattern/format based builder and min/max length set at the same time")
 	}
 
+	// The empty string is the only one with a maxLength of 0
+	if node.MaxLength != nil && maxLength == 0 {
+		return constGenerator{Value: ""}, nil
+	}
+
 	generator := stringGenerator{
 		Format:    stringFormat(util.GetZeroIfNil(node.Format, "")),
 		Pattern:   util.GetZeroIfNil(node.Pattern, ""),
-- 
2.43.0


From 66dba8b5203a74a59e6d6dd3e848ed2b4cddf47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 04/77] fix: keep dots in character classes of patterns literal

SuppressRandomBytes replaced every unescaped dot with \w, including dots inside
character classes (where they are literal) and dots after an escaped backslash.
---
 regex.go | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/regex.go b/regex.go
index c5f964b..e642cf9 100644
--- a/regex.go
+++ b/regex.go
@@ -6,14 +6,39 @@ import (
 	"github.com/ryanolee/go-chaff/internal/regen"
 )
 
-const fullStringLiteral = "[~{FULL_STOP_LITERAL}~]"
-
 func newRegexGenerator(pattern string, opts *regen.GeneratorArgs) (regen.Generator, error) {
 	if opts.SuppressRandomBytes {
-		pattern = strings.ReplaceAll(pattern, "\\.", fullStringLiteral)
-		pattern = strings.ReplaceAll(pattern, ".", "\\w")
-		pattern = strings.ReplaceAll(pattern, fullStringLiteral, "\\.")
+		pattern = replaceAnyCharacter(pattern, "\\w")
 	}
 
 	return regen.NewGenerator(pattern, opts)
 }
+
+// Replaces every "." that stands for "any character" in the pattern. Escaped dots
+// and dots within a character class (e.g. "[.]") are literals and are left as they are.
+func replaceAnyCharacter(pattern string, replacement string) string {
+	var sb strings.Builder
+	escaped, inClass := false, false
+	classStart := 0
+
+	for i, char := range pattern {
+		switch {
+		case escaped:
+			escaped = false
+		case char == '\\':
+			escaped = true
+		case inClass:
+			// A "]" closes the class unless it is the first character in it (e.g. "[]a]" or "[^]a]")
+			isFirst := pattern[classStart:i] == "[" || pattern[classStart:i] == "[^"
+			inClass = char != ']' || isFirst
+		case char == '[':
+			inClass, classStart = true, i
+		case char == '.':
+			sb.WriteString(replacement)
+			continue
+		}
+		sb.WriteRune(char)
+	}
+
+	return sb.String()
+}
-- 
2.43.0


From 72f8e943d13cb10d0b3d04e801982ef69e4a5de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 05/77] fix: keep objects within their schema for undeclared
 required keys, maxProperties 0 and closed pattern properties

Required keys that only patternProperties or additionalProperties describe got
arbitrary strings, required keys used up the budget for optional ones so that
minProperties could be missed, colliding pattern property names were topped up
with disallowed filler keys, and default options overruled maxProperties.
---
 object.go | 79 ++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 24 deletions(-)

diff --git a/object.go b/object.go
index 635f96b..5b4db91 100644
--- a/object.go
+++ b/object.go
@@ -2,6 +2,7 @@ package chaff
 
 import (
 	"fmt"
+	"regexp"
 
 	"github.com/ryanolee/go-chaff/internal/regen"
 	"github.com/ryanolee/go-chaff/internal/util"
@@ -21,9 +22,10 @@ type (
 
 		FallbackGenerator Generator
 
-		MinProperties int
-		MaxProperties int
-		Required      []string
+		MinProperties    int
+		MaxProperties    int
+		HasMaxProperties bool
+		Required         []string
 	}
 )
 
@@ -73,9 +75,10 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	patternProperties, patternPropertiesRegex := parsePatternProperties(node, metadata)
 
 	objectGenerator := objectGenerator{
-		Required:      requiredProperties,
-		MinProperties: minProperties,
-		MaxProperties: maxProperties,
+		Required:         funk.UniqString(requiredProperties),
+		MinProperties:    minProperties,
+		MaxProperties:    maxProperties,
+		HasMaxProperties: node.MaxProperties != nil,
 
 		Properties:             parseProperties(node, metadata),
 		PatternProperties:      patternProperties,
@@ -167,24 +170,28 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// Generate Required Properties
 	generatedValues := make(map[string]interface{})
 	for _, key := range g.Required {
-		// If no properties are defined, generate a nil value
-		if g.Properties == nil {
-			generatedValues[key] = fmt.Sprintf("required_%s_%d", key, opts.Rand.RandomInt(0, 9999999))
-		} else if _, ok := g.Properties[key]; !ok {
-			generatedValues[key] = fmt.Sprintf("required_%s_%d", key, opts.Rand.RandomInt(0, 9999999))
+		if propertyGenerator := g.generatorForProperty(key); propertyGenerator != nil {
+			generatedValues[key] = propertyGenerator.Generate(opts)
 		} else {
-			// Generate the required property
-			generatedValues[key] = g.Properties[key].Generate(opts)
+			generatedValues[key] = fmt.Sprintf("required_%s_%d", key, opts.Rand.RandomInt(0, 9999999))
 		}
 	}
 
 	// Generate A random distribution of optional properties, pattern properties, and additional properties
 	// (Using a fallback generator if none are available)
-	optionalKeys := funk.UniqString(append(g.Required, funk.Keys(g.Properties).([]string)...))
+	optionalKeys := funk.FilterString(funk.Keys(g.Properties).([]string), func(key string) bool {
+		return !funk.ContainsString(g.Required, key)
+	})
 
 	min := util.GetInt(g.MinProperties, opts.DefaultObjectMinProperties)
 	max := util.GetInt(g.MaxProperties, opts.DefaultObjectMaxProperties)
 
+	// Options only provide defaults so the bounds of the schema always win
+	if g.HasMaxProperties {
+		max = g.MaxProperties
+		min = util.MinInt(min, max)
+	}
+
 	// Make sure the max is always greater than the min
 	if max < min {
 		max = min + max
@@ -193,7 +200,7 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	minimumExtrasToGenerate := util.MaxInt(0, min-len(g.Required))
 	maximumExtrasToGenerate := util.MaxInt(0, max-len(g.Required))
 
-	generatorTarget := opts.Rand.RandomInt(minimumExtrasToGenerate, maximumExtrasToGenerate)
+	generatorTarget := opts.Rand.RandomInt(minimumExtrasToGenerate, maximumExtrasToGenerate+1)
 
 	if opts.ShouldMinimize() {
 		generatorTarget = minimumExtrasToGenerate
@@ -204,13 +211,7 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 
 	// Generate any optional keys
 	for _, key := range optionalKeysToGenerate {
-		if g.Properties == nil {
-			generatedValues[key] = fmt.Sprintf("optional_%s_%d", key, opts.Rand.RandomInt(0, 9999999))
-		} else if _, ok := g.Properties[key]; !ok {
-			generatedValues[key] = fmt.Sprintf("optional_%s_%d", key, opts.Rand.RandomInt(0, 9999999))
-		} else {
-			generatedValues[key] = g.Properties[key].Generate(opts)
-		}
+		generatedValues[key] = g.Properties[key].Generate(opts)
 	}
 
 	generatorTarget -= len(optionalKeysToGenerate)
@@ -220,8 +221,15 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// Failing that generate any fallback properties
 	if len(g.PatternProperties) > 0 {
 		for i := 0; i < generatorTarget; i++ {
-			regex, value := g.GeneratePatternProperty(opts)
-			generatedValues[regex] = value
+			g.addPatternProperty(opts, generatedValues)
+		}
+
+		if g.DisallowAdditionalProperties {
+			// Different attempts might have ended up with the same property name
+			for i := 0; i < opts.MaximumUniqueGeneratorAttempts && len(generatedValues) < min; i++ {
+				g.addPatternProperty(opts, generatedValues)
+			}
+			return generatedValues
 		}
 	} else if g.DisallowAdditionalProperties {
 		return generatedValues
@@ -257,6 +265,29 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	return generatedValues
 }
 
+// Resolves the generator for the value of a named property. (nil if any value would do)
+func (g objectGenerator) generatorForProperty(name string) Generator {
+	if generator, ok := g.Properties[name]; ok {
+		return generator
+	}
+
+	for pattern, generator := range g.PatternProperties {
+		if matches, err := regexp.MatchString(pattern, name); err == nil && matches {
+			return generator
+		}
+	}
+
+	return g.AdditionalProperties
+}
+
+// Adds a random pattern property unless there already is a property by its name
+func (g objectGenerator) addPatternProperty(opts *GeneratorOptions, generatedValues map[string]interface{}) {
+	name, value := g.GeneratePatternProperty(opts)
+	if _, exists := generatedValues[name]; !exists {
+		generatedValues[name] = value
+	}
+}
+
 func (g objectGenerator) GeneratePatternProperty(opts *GeneratorOptions) (string, interface{}) {
 	if len(g.PatternProperties) == 0 {
 		return "", nil
-- 
2.43.0


From aa1953692a79596764af42f64ff493d087599c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 06/77] fix: keep arrays within maxItems 0, uniqueItems,
 minContains and legacy tuple bounds

maxItems 0 was treated as unbounded, maxItems was overruled by default options,
a unique item that could not be found was replaced by a warning string although
minItems was already met, tuple items ignored uniqueItems, minContains above
minItems was rejected, legacy tuples were left out of the bounds checks and
additionalItems: false without a tuple dropped minItems.
---
 array.go | 63 +++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/array.go b/array.go
index 9cc53a2..84199de 100644
--- a/array.go
+++ b/array.go
@@ -21,6 +21,7 @@ type (
 		MinContains int
 		MinItems    int
 		MaxItems    int
+		HasMaxItems bool
 
 		DisallowAdditional bool
 		schemaNode         schemaNode
@@ -44,9 +45,11 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	maxContains := util.GetZeroIfNil(node.MaxContains, 0)
 	minItems := util.GetZeroIfNil(node.MinItems, 0)
 	maxItems := util.GetZeroIfNil(node.MaxItems, 0)
-	prefixItems := util.GetZeroIfNil(node.PrefixItems, []schemaNode{})
+	prefixItems := tupleNodes(node)
 
-	if minContains == 0 && node.Contains != nil {
+	if node.Contains == nil {
+		minContains = 0
+	} else if minContains == 0 {
 		minContains = 1
 	}
 
@@ -59,10 +62,6 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, err
 	}
 
-	if err := assertLowerUpperBound(minContains, minItems, "minContains", "minItems"); err != nil {
-		return nullGenerator{}, err
-	}
-
 	if err := assertLowerUpperBound(len(prefixItems)+minContains, maxItems, "Tuple items Plus Prefix items. (Note contains does not assume tuple items count towards the total account)", "minItems"); err != nil {
 		return nullGenerator{}, err
 	}
@@ -73,16 +72,24 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, fmt.Errorf("tuple length must be less than or equal to maxItems (tupleLength: %d, maxItems: %d)", tupleLength, node.MaxItems)
 	}
 
-	min := util.GetInt(minItems, minContains)
-	max := util.GetInt(maxItems, min+defaultOffset)
+	if node.MaxItems != nil && maxItems == 0 && (minItems > 0 || minContains > 0) {
+		return nullGenerator{}, fmt.Errorf("maxItems of 0 does not allow for any items (minItems: %d, minContains: %d)", minItems, minContains)
+	}
+
+	min := util.MaxInt(minItems, minContains)
+	max := maxItems
+	hasMax := node.MaxItems != nil
 
-	disallowedAdditionalItems := (node.Items != nil && node.Items.DisallowAdditionalItems) || (node.AdditionalItems != nil && node.AdditionalItems.IsFalse)
+	// "additionalItems" only has a meaning next to a tuple
+	disallowedAdditionalItems := (node.Items != nil && node.Items.DisallowAdditionalItems) ||
+		(node.AdditionalItems != nil && node.AdditionalItems.IsFalse && tupleLength > 0 && (node.Items == nil || node.Items.Node == nil))
 
 	// Force the generator to use only the tuple in the event that additional items
 	// are not allowed
 	if disallowedAdditionalItems {
 		min = tupleLength
 		max = tupleLength
+		hasMax = true
 	}
 
 	var itemGenerator, additionalItemGenerator, containsGenerator, unevaluatedItemsGenerator Generator = nil, nil, nil, nil
@@ -102,7 +109,7 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, fmt.Errorf("error parsing contains generator: %w", err)
 	}
 
-	if tupleGenerators, err = parseTupleGeneratorFromSchemaNode(node, metadata); err != nil {
+	if tupleGenerators, err = parseTupleGenerator(prefixItems, metadata); err != nil {
 		return nullGenerator{}, fmt.Errorf("error parsing tuple generator: %w", err)
 	}
 
@@ -127,8 +134,9 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		MinContains:       minContains,
 		ContainsGenerator: containsGenerator,
 
-		MinItems: min,
-		MaxItems: max,
+		MinItems:    min,
+		MaxItems:    max,
+		HasMaxItems: hasMax,
 
 		UniqueItems: util.GetZeroIfNil(node.UniqueItems, false),
 
@@ -136,16 +144,16 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	}, nil
 }
 
-func parseTupleGeneratorFromSchemaNode(node schemaNode, metadata *parserMetadata) ([]Generator, error) {
-
+// Resolves the schemas for the first items of an array.
+func tupleNodes(node schemaNode) []schemaNode {
 	if node.PrefixItems != nil && len(*node.PrefixItems) != 0 {
-		return parseTupleGenerator(*node.PrefixItems, metadata)
+		return *node.PrefixItems
 		// Legacy support given "items" when passed as an array
 		// has the same meaning as "prefixItems"
-	} else if node.Items != nil && node.Items.Nodes != nil && len(*node.Items.Nodes) != 0 {
-		return parseTupleGenerator(*node.Items.Nodes, metadata)
+	} else if node.Items != nil && node.Items.Nodes != nil {
+		return *node.Items.Nodes
 	}
-	return nil, nil
+	return []schemaNode{}
 }
 
 func parseTupleGenerator(nodes []schemaNode, metadata *parserMetadata) ([]Generator, error) {
@@ -219,7 +227,8 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 
 	if tupleLength != 0 {
 		for _, generator := range g.TupleGenerators {
-			arrayData = append(arrayData, generator.Generate(opts))
+			item, _ := g.generateConsideringUnique(opts, generator, arrayData)
+			arrayData = append(arrayData, item)
 		}
 	}
 
@@ -242,7 +251,13 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	}
 
 	minItems := util.GetInt(g.MinItems, opts.DefaultArrayMinItems)
-	maxItems := util.GetInt(g.MaxItems, opts.DefaultArrayMaxItems)
+	maxItems := minItems + opts.DefaultArrayMaxItems
+
+	// Options only provide defaults so the bounds of the schema always win
+	if g.HasMaxItems {
+		maxItems = g.MaxItems
+		minItems = util.MinInt(minItems, maxItems)
+	}
 
 	// Handle cases where no min items are handled
 	minContains := 0
@@ -262,14 +277,10 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 		arrayData = append(arrayData, item)
 	}
 
-	if maxItems < minItems {
-		maxItems = minItems + opts.DefaultArrayMaxItems
-	}
-
 	// Compute how many items we can generate over the minimum satisfiable set of data)
 	remainingItemsToGenerate := util.MaxInt(0, maxItems-(tupleLength+g.MinContains))
 
-	itemsToGenerate := opts.Rand.RandomInt(0, remainingItemsToGenerate)
+	itemsToGenerate := opts.Rand.RandomInt(0, remainingItemsToGenerate+1)
 
 	// Cull the remaining items if the complexity is too high or unevaluated items are not allowed
 	if g.DisallowUnevaluatedItems || opts.ShouldMinimize() {
@@ -281,7 +292,7 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	for i := 0; i < itemsToGenerate || minItems > len(arrayData); i++ {
 		item, ok := g.generateConsideringUnique(opts, itemGen, arrayData)
 
-		if !ok && i > minItems {
+		if !ok && len(arrayData) >= minItems {
 			// If we are unable to generate a unique item, and we have already satisfied the minimum
 			// bail out early
 			break
-- 
2.43.0


From 286cd8789496456f90944377273a4aa370092d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 07/77] fix: do not treat legacy tuples as an empty items
 schema

---
 json.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index fe5b301..864f211 100644
--- a/json.go
+++ b/json.go
@@ -86,8 +86,12 @@ func (i *itemsData) UnmarshalJSON(data []byte) error {
 		return nodeErr
 	}
 
-	i.Nodes = nodes
-	i.Node = node
+	// A failed attempt to unmarshal might still have allocated its target
+	if nodeErr == nil {
+		i.Node = node
+	} else {
+		i.Nodes = nodes
+	}
 	return nil
 }
 
-- 
2.43.0


From 1ae52c5ded735336d491cfd8156e4cae07ec9cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 08/77] fix: leave out types of a type list that nothing can be
 generated for

---
 multiple_type.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/multiple_type.go b/multiple_type.go
index 4a7864a..db0307f 100644
--- a/multiple_type.go
+++ b/multiple_type.go
@@ -1,6 +1,7 @@
 package chaff
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 
@@ -21,15 +22,23 @@ type (
 //	}
 func parseMultipleType(node schemaNode, metadata *parserMetadata) (multipleTypeGenerator, error) {
 	generators := []Generator{}
+	errs := []error{}
 	for _, nodeType := range node.Type.MultipleTypes {
 		generator, err := parseType(nodeType, node, metadata)
 		if err != nil {
-			generators = append(generators, nullGenerator{})
+			errs = append(errs, fmt.Errorf("%s: %w", nodeType, err))
 		} else {
 			generators = append(generators, generator)
 		}
 	}
 
+	// Types no value can be generated for are left out as long as others remain
+	if len(generators) == 0 {
+		return multipleTypeGenerator{
+			generators: []Generator{nullGenerator{}},
+		}, fmt.Errorf("none of the given types can be generated: %w", errors.Join(errs...))
+	}
+
 	return multipleTypeGenerator{
 		generators: generators,
 	}, nil
-- 
2.43.0


From 0c1e41d02022237b25361e1e308a85ca52d6b62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 09/77] fix: intersect the types of merged schemas

---
 json.go  |  9 +++++++++
 merge.go | 40 ++++++++++++++++++++++++++++++----------
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/json.go b/json.go
index 864f211..461ff39 100644
--- a/json.go
+++ b/json.go
@@ -36,6 +36,15 @@ func newMultipleTypeFromSlice(types []string) multipleType {
 	return multipleType
 }
 
+// Types returns every type that is allowed
+func (m *multipleType) Types() []string {
+	if m.SingleType != "" {
+		return []string{m.SingleType}
+	}
+
+	return m.MultipleTypes
+}
+
 func (m *multipleType) UnmarshalJSON(data []byte) error {
 	if len(data) == 0 {
 		return nil
diff --git a/merge.go b/merge.go
index c71727d..3a83dda 100644
--- a/merge.go
+++ b/merge.go
@@ -38,7 +38,7 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		}
 
 		// Merge Type
-		mergedNode.Type = mergeSchemaTypes(mergedNode.Type, node.Type)
+		mergedNode.Type = mergeSchemaTypes(metadata, mergedNode.Type, node.Type)
 
 		mergedNode = mergeEnumAndConst(metadata, mergedNode, node)
 
@@ -427,21 +427,41 @@ func mergeResolveReference(metadata *parserMetadata, node schemaNode) (schemaNod
 	return newNode, nil
 }
 
-func mergeSchemaTypes(mergedSchemaType *multipleType, nodeType *multipleType) *multipleType {
-	if nodeType == nil {
+// mergeSchemaTypes intersects the types both sides allow. "integer" is the
+// subset of "number" both have in common.
+func mergeSchemaTypes(metadata *parserMetadata, mergedSchemaType *multipleType, nodeType *multipleType) *multipleType {
+	if nodeType == nil || len(nodeType.Types()) == 0 {
 		return mergedSchemaType
 	}
 
-	mergedType := util.GetZeroIfNil(mergedSchemaType, multipleType{})
+	if mergedSchemaType == nil || len(mergedSchemaType.Types()) == 0 {
+		mergedType := *nodeType
+		return &mergedType
+	}
+
+	types := []string{}
+	for _, left := range mergedSchemaType.Types() {
+		for _, right := range nodeType.Types() {
+			shared := left
+			if left == typeNumber && right == typeInteger {
+				shared = typeInteger
+			} else if left != right && !(left == typeInteger && right == typeNumber) {
+				continue
+			}
+
+			if !funk.ContainsString(types, shared) {
+				types = append(types, shared)
+			}
+		}
+	}
 
-	if nodeType.SingleType != "" {
-		mergedType.SingleType = nodeType.SingleType
-		mergedType.MultipleTypes = nil
-	} else if len(nodeType.MultipleTypes) > 0 {
-		mergedType.MultipleTypes = nodeType.MultipleTypes
-		mergedType.SingleType = ""
+	if len(types) == 0 {
+		warnConfigMergeError(metadata, "type", fmt.Errorf("no type satisfies both %v and %v", mergedSchemaType.Types(), nodeType.Types()))
+		mergedType := *nodeType
+		return &mergedType
 	}
 
+	mergedType := newMultipleTypeFromSlice(types)
 	return &mergedType
 }
 
-- 
2.43.0


From 0dd06d42d90c44085494032c1591c7288c91177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:49 +0000
Subject: [PATCH 10/77] fix: apply items to the positions the prefixItems of
 another allOf branch describe

---
 merge.go | 81 +++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 48 insertions(+), 33 deletions(-)

diff --git a/merge.go b/merge.go
index 3a83dda..9f23edf 100644
--- a/merge.go
+++ b/merge.go
@@ -2,7 +2,6 @@ package chaff
 
 import (
 	"fmt"
-	"math"
 
 	"github.com/ryanolee/go-chaff/internal/util"
 	"github.com/thoas/go-funk"
@@ -48,7 +47,7 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		mergedNode.PatternProperties = mergePatternProperties(metadata, mergedNode.PatternProperties, node.PatternProperties)
 
 		// Merge array items
-		mergedNode.PrefixItems = mergePrefixItems(metadata, mergedNode.PrefixItems, node.PrefixItems)
+		mergedNode.PrefixItems = mergePrefixItems(metadata, mergedNode, node)
 		mergedNode.Items = mergeItemsData(metadata, mergedNode.Items, node.Items)
 		mergedNode.AdditionalItems = mergeNodeOrFalse(metadata, mergedNode.AdditionalItems, node.AdditionalItems, "additionalItems")
 		mergedNode.UnevaluatedItems = mergeNodeOrFalse(metadata, mergedNode.UnevaluatedItems, node.UnevaluatedItems, "unevaluatedItems")
@@ -245,32 +244,49 @@ func mergePatternProperties(metadata *parserMetadata, mergedPtr *map[string]sche
 }
 
 // mergePrefixItems merges two prefix-item arrays by position. Where both sides
-// have an entry at the same index they are recursively merged; otherwise the
-// entry from whichever side has it is kept.
-func mergePrefixItems(metadata *parserMetadata, mergedPtr *[]schemaNode, nodePtr *[]schemaNode) *[]schemaNode {
-	if nodePtr == nil {
-		return mergedPtr
+// have an entry at the same index they are recursively merged; an index only one
+// side has an entry for is governed by the "items" of the other side.
+func mergePrefixItems(metadata *parserMetadata, mergedNode schemaNode, node schemaNode) *[]schemaNode {
+	if node.PrefixItems == nil && mergedNode.PrefixItems == nil {
+		return nil
 	}
 
-	prefixItems := util.GetZeroIfNil(nodePtr, []schemaNode{})
-	mergedPrefixItems := util.GetZeroIfNil(mergedPtr, []schemaNode{})
-	length := int(math.Max(float64(len(prefixItems)), float64(len(mergedPrefixItems))))
-	newMergedPrefixItems := make([]schemaNode, length)
+	prefixItems := util.GetZeroIfNil(node.PrefixItems, []schemaNode{})
+	mergedPrefixItems := util.GetZeroIfNil(mergedNode.PrefixItems, []schemaNode{})
+	length := util.MaxInt(len(prefixItems), len(mergedPrefixItems))
+	newMergedPrefixItems := []schemaNode{}
 
 	for i := 0; i < length; i++ {
-		hasMerged := i < len(mergedPrefixItems)
-		hasNew := i < len(prefixItems)
-		if hasMerged && hasNew {
-			merged, err := mergeSchemaNodes(metadata, mergedPrefixItems[i], prefixItems[i])
+		var item schemaNode
+		var other *schemaNode
+		var otherItems *itemsData
+		if i < len(mergedPrefixItems) {
+			item = mergedPrefixItems[i]
+			otherItems = node.Items
+			if i < len(prefixItems) {
+				other = &prefixItems[i]
+			}
+		} else {
+			item = prefixItems[i]
+			otherItems = mergedNode.Items
+		}
+
+		if other == nil && otherItems != nil {
+			if otherItems.DisallowAdditionalItems {
+				break
+			}
+			other = otherItems.Node
+		}
+
+		if other != nil {
+			merged, err := mergeSchemaNodes(metadata, item, *other)
 			if err != nil {
 				warnConfigMergeError(metadata, fmt.Sprintf("prefixItems/%d", i), err)
 			}
-			newMergedPrefixItems[i] = merged
-		} else if hasNew {
-			newMergedPrefixItems[i] = prefixItems[i]
-		} else {
-			newMergedPrefixItems[i] = mergedPrefixItems[i]
+			item = merged
 		}
+
+		newMergedPrefixItems = append(newMergedPrefixItems, item)
 	}
 
 	return &newMergedPrefixItems
@@ -467,30 +483,29 @@ func mergeSchemaTypes(metadata *parserMetadata, mergedSchemaType *multipleType,
 
 // Merges items data (Legacy support for "items" merging not supported)
 func mergeItemsData(parserMetadata *parserMetadata, mergedData *itemsData, nodeData *itemsData) *itemsData {
-	if nodeData == nil || nodeData.Node == nil {
+	if nodeData == nil {
 		return mergedData
 	}
 
-	mergedNodeData := util.GetZeroIfNil(mergedData, itemsData{})
-	if mergedNodeData.DisallowAdditionalItems || nodeData.DisallowAdditionalItems {
+	if mergedData == nil {
+		return nodeData
+	}
+
+	if mergedData.DisallowAdditionalItems || nodeData.DisallowAdditionalItems {
 		// If we are disallowing additional items disregard any other data
 		return &itemsData{
 			DisallowAdditionalItems: true,
 		}
 	}
 
-	if mergedNodeData.Node != nil && nodeData.Node != nil {
-		node, err := mergeSchemaNodes(parserMetadata, *mergedNodeData.Node, *nodeData.Node)
-		if err != nil {
-			warnConfigMergeError(parserMetadata, "items", err)
-		} else {
-			mergedNodeData.Node = &node
-		}
-	} else {
-		mergedNodeData.Node = nodeData.Node
+	if mergedData.Nodes != nil || nodeData.Nodes != nil {
+		warnConfigMergeError(parserMetadata, "items", fmt.Errorf("merging items given as a list of schemas is not supported"))
+		return mergedData
 	}
 
-	return &mergedNodeData
+	return &itemsData{
+		Node: mergeSchemaPtrs(parserMetadata, "items", mergedData.Node, nodeData.Node),
+	}
 }
 
 func mergeNodeOrFalse(metadata *parserMetadata, mergedNode *schemaNodeOrFalse, node *schemaNodeOrFalse, field string) *schemaNodeOrFalse {
-- 
2.43.0


From 89e0576b7952ec75379500cfcc95f1dadd63feaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 11/77] fix: require an alternative of every merged anyOf and
 oneOf list, keep uniqueItems

---
 merge.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/merge.go b/merge.go
index 9f23edf..fba2bea 100644
--- a/merge.go
+++ b/merge.go
@@ -54,8 +54,8 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		mergedNode.Contains = mergeSchemaPtrs(metadata, "contains", mergedNode.Contains, node.Contains)
 
 		// Merge combinators
-		mergedNode.OneOf = util.MergeSlicePtrs(mergedNode.OneOf, node.OneOf)
-		mergedNode.AnyOf = util.MergeSlicePtrs(mergedNode.AnyOf, node.AnyOf)
+		mergedNode.OneOf = mergeAlternatives(mergedNode.OneOf, node.OneOf)
+		mergedNode.AnyOf = mergeAlternatives(mergedNode.AnyOf, node.AnyOf)
 		mergedNode.AllOf = util.MergeSlicePtrs(mergedNode.AllOf, node.AllOf)
 
 		// Merge conditionals
@@ -322,6 +322,28 @@ func mergeNot(mergedNode schemaNode, node schemaNode) schemaNode {
 	return mergedNode
 }
 
+// mergeAlternatives merges two lists of anyOf / oneOf sub-schemas. A value has to
+// match an alternative of each list (exactly one of each, for oneOf), which is
+// to match one of the pairs that can be formed from both.
+func mergeAlternatives(mergedPtr *[]schemaNode, nodePtr *[]schemaNode) *[]schemaNode {
+	if nodePtr == nil || len(*nodePtr) == 0 {
+		return mergedPtr
+	}
+
+	if mergedPtr == nil || len(*mergedPtr) == 0 {
+		return nodePtr
+	}
+
+	alternatives := make([]schemaNode, 0, len(*mergedPtr)*len(*nodePtr))
+	for _, left := range *mergedPtr {
+		for _, right := range *nodePtr {
+			alternatives = append(alternatives, schemaNode{AllOf: &[]schemaNode{left, right}})
+		}
+	}
+
+	return &alternatives
+}
+
 // flattenResidualAllOf iteratively flattens any allOf that survived the main
 // merge loop (from inline schemas that weren't resolved through $ref). This
 // guarantees callers always receive a node with allOf fully absorbed.
@@ -379,8 +401,9 @@ func mergeSchemaNodeSimpleProperties(metadata *parserMetadata, baseNode schemaNo
 	baseNode.Required = util.MergeSlicePtrs(baseNode.Required, otherNode.Required)
 
 	// Simple boolean properties
-	warnIfBothSetAndAreDifferent(metadata, "uniqueItems", baseNode.UniqueItems, otherNode.UniqueItems)
-	baseNode.UniqueItems = util.GetPtr(otherNode.UniqueItems, baseNode.UniqueItems)
+	if baseNode.UniqueItems == nil || !*baseNode.UniqueItems {
+		baseNode.UniqueItems = util.GetPtr(otherNode.UniqueItems, baseNode.UniqueItems)
+	}
 
 	return baseNode
 }
-- 
2.43.0


From 4d6e60f4c437f3bf259bdbe5456268023b17042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 12/77] fix: apply additionalProperties and patternProperties
 of one allOf branch to the properties of others

---
 merge.go | 131 +++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 99 insertions(+), 32 deletions(-)

diff --git a/merge.go b/merge.go
index fba2bea..937e104 100644
--- a/merge.go
+++ b/merge.go
@@ -2,6 +2,7 @@ package chaff
 
 import (
 	"fmt"
+	"regexp"
 
 	"github.com/ryanolee/go-chaff/internal/util"
 	"github.com/thoas/go-funk"
@@ -42,9 +43,10 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		mergedNode = mergeEnumAndConst(metadata, mergedNode, node)
 
 		// Merge object properties
-		mergedNode.Properties = mergeProperties(metadata, mergedNode.Properties, node.Properties)
+		mergedProperties := mergeProperties(metadata, mergedNode, node)
+		mergedPatternProperties := mergePatternProperties(metadata, mergedNode, node)
+		mergedNode.Properties, mergedNode.PatternProperties = mergedProperties, mergedPatternProperties
 		mergedNode.AdditionalProperties = mergeNodeOrFalse(metadata, mergedNode.AdditionalProperties, node.AdditionalProperties, "additionalProperties")
-		mergedNode.PatternProperties = mergePatternProperties(metadata, mergedNode.PatternProperties, node.PatternProperties)
 
 		// Merge array items
 		mergedNode.PrefixItems = mergePrefixItems(metadata, mergedNode, node)
@@ -191,52 +193,117 @@ func mergeEnumAndConst(metadata *parserMetadata, mergedNode schemaNode, node sch
 }
 
 // mergeProperties merges two sets of object properties. When both sides define
-// the same key the values are recursively merged; new keys are assigned directly
-// so that any $ref they contain is preserved for lazy resolution.
-func mergeProperties(metadata *parserMetadata, mergedPtr *map[string]schemaNode, nodePtr *map[string]schemaNode) *map[string]schemaNode {
-	if nodePtr == nil {
-		return mergedPtr
+// the same key the values are recursively merged; a key only one side defines is
+// governed by the patternProperties and additionalProperties of the other side.
+// Keys nothing else governs are assigned directly so that any $ref they contain
+// is preserved for lazy resolution.
+func mergeProperties(metadata *parserMetadata, mergedNode schemaNode, node schemaNode) *map[string]schemaNode {
+	if mergedNode.Properties == nil && node.Properties == nil {
+		return nil
 	}
 
-	nodeProperties := util.GetZeroIfNil(nodePtr, map[string]schemaNode{})
-	mergedProperties := util.GetZeroIfNil(mergedPtr, map[string]schemaNode{})
+	left := util.GetZeroIfNil(mergedNode.Properties, map[string]schemaNode{})
+	right := util.GetZeroIfNil(node.Properties, map[string]schemaNode{})
+	mergedProperties := map[string]schemaNode{}
 
-	for key, value := range nodeProperties {
-		if existing, exists := mergedProperties[key]; exists {
-			merged, err := mergeSchemaNodes(metadata, existing, value)
-			if err != nil {
-				errPath := fmt.Sprintf("/properties/%s/config_merge_error", key)
-				metadata.Errors.AddErrorWithSubpath(errPath, err)
-				warnConfigMergeError(metadata, fmt.Sprintf("properties/%s", key), err)
-			}
-			mergedProperties[key] = merged
-		} else {
-			mergedProperties[key] = value
+	for key, value := range left {
+		other, inBoth := right[key]
+		mergeProperty(metadata, mergedProperties, key, value, other, inBoth, node)
+	}
+
+	for key, value := range right {
+		if _, inBoth := left[key]; !inBoth {
+			mergeProperty(metadata, mergedProperties, key, value, schemaNode{}, false, mergedNode)
 		}
 	}
 
 	return &mergedProperties
 }
 
+// mergeProperty adds a property to the merged properties, along with everything
+// the other side of the merge demands of it.
+func mergeProperty(metadata *parserMetadata, mergedProperties map[string]schemaNode, key string, value schemaNode, other schemaNode, inBoth bool, otherSide schemaNode) {
+	nodes := []schemaNode{value}
+	if inBoth {
+		nodes = append(nodes, other)
+	}
+
+	governed := inBoth
+	for pattern, patternNode := range util.GetZeroIfNil(otherSide.PatternProperties, map[string]schemaNode{}) {
+		regex, err := regexp.Compile(pattern)
+		if err == nil && regex.MatchString(key) {
+			governed = true
+			nodes = append(nodes, patternNode)
+		}
+	}
+
+	if !governed && otherSide.AdditionalProperties != nil {
+		// The other side does not allow for this property at all
+		if otherSide.AdditionalProperties.IsFalse {
+			return
+		}
+
+		if otherSide.AdditionalProperties.Schema != nil {
+			nodes = append(nodes, *otherSide.AdditionalProperties.Schema)
+		}
+	}
+
+	if len(nodes) == 1 {
+		mergedProperties[key] = value
+		return
+	}
+
+	merged, err := mergeSchemaNodes(metadata, nodes...)
+	if err != nil {
+		errPath := fmt.Sprintf("/properties/%s/config_merge_error", key)
+		metadata.Errors.AddErrorWithSubpath(errPath, err)
+		warnConfigMergeError(metadata, fmt.Sprintf("properties/%s", key), err)
+	}
+	mergedProperties[key] = merged
+}
+
 // mergePatternProperties merges two sets of pattern properties using the same
 // strategy as mergeProperties.
-func mergePatternProperties(metadata *parserMetadata, mergedPtr *map[string]schemaNode, nodePtr *map[string]schemaNode) *map[string]schemaNode {
-	if nodePtr == nil {
-		return mergedPtr
+func mergePatternProperties(metadata *parserMetadata, mergedNode schemaNode, node schemaNode) *map[string]schemaNode {
+	if mergedNode.PatternProperties == nil && node.PatternProperties == nil {
+		return nil
 	}
 
-	nodePatternProperties := util.GetZeroIfNil(nodePtr, map[string]schemaNode{})
-	mergedPatternProperties := util.GetZeroIfNil(mergedPtr, map[string]schemaNode{})
+	left := util.GetZeroIfNil(mergedNode.PatternProperties, map[string]schemaNode{})
+	right := util.GetZeroIfNil(node.PatternProperties, map[string]schemaNode{})
+	mergedPatternProperties := map[string]schemaNode{}
 
-	for key, value := range nodePatternProperties {
-		if existing, exists := mergedPatternProperties[key]; exists {
-			merged, err := mergeSchemaNodes(metadata, existing, value)
-			if err != nil {
-				warnConfigMergeError(metadata, fmt.Sprintf("patternProperties/%s", key), err)
+	add := func(pattern string, value schemaNode, other *schemaNode, otherSide schemaNode) {
+		if other == nil && otherSide.AdditionalProperties != nil {
+			if otherSide.AdditionalProperties.IsFalse {
+				return
 			}
-			mergedPatternProperties[key] = merged
+			other = otherSide.AdditionalProperties.Schema
+		}
+
+		if other == nil {
+			mergedPatternProperties[pattern] = value
+			return
+		}
+
+		merged, err := mergeSchemaNodes(metadata, value, *other)
+		if err != nil {
+			warnConfigMergeError(metadata, fmt.Sprintf("patternProperties/%s", pattern), err)
+		}
+		mergedPatternProperties[pattern] = merged
+	}
+
+	for pattern, value := range left {
+		if other, inBoth := right[pattern]; inBoth {
+			add(pattern, value, &other, node)
 		} else {
-			mergedPatternProperties[key] = value
+			add(pattern, value, nil, node)
+		}
+	}
+
+	for pattern, value := range right {
+		if _, inBoth := left[pattern]; !inBoth {
+			add(pattern, value, nil, mergedNode)
 		}
 	}
 
-- 
2.43.0


From 1eb87ff10505cbb1c5d6ea61bc0ec67245c5a4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:23 +0000
Subject: [PATCH 13/77] fix: leave out anyOf and oneOf sub-schemas that
 contradict the schema they are part of

---
 combination.go | 14 +++++++----
 merge.go       | 68 +++++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 62 insertions(+), 20 deletions(-)

diff --git a/combination.go b/combination.go
index 5f18c12..1faaf72 100644
--- a/combination.go
+++ b/combination.go
@@ -1,6 +1,7 @@
 package chaff
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 
@@ -44,6 +45,7 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 	}
 
 	generators := []Generator{}
+	contradictions := []error{}
 
 	for i, subSchema := range target {
 		baseNode, _ := mergeSchemaNodes(metadata, node)
@@ -56,9 +58,10 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 			baseNode.AnyOf = nil
 		}
 
+		// No value matches a sub-schema that contradicts the schema it is part of
 		mergedNode, err := mergeSchemaNodes(metadata, baseNode, subSchema)
 		if err != nil {
-			generators = append(generators, nullGenerator{})
+			contradictions = append(contradictions, err)
 			continue
 		}
 
@@ -73,13 +76,16 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 		}
 	}
 
+	if len(generators) == 0 {
+		return nullGenerator{}, fmt.Errorf("no valid generators could be created for %s: %w", nodeType, errors.Join(contradictions...))
+	}
+
 	if len(oneOf) > 1 {
 		stubNode := newEmptySchemaNode()
 		resolvedNodes := []schemaNode{}
-		for i, node := range oneOf {
+		for _, node := range oneOf {
 			resolvedNode, err := mergeSchemaNodes(metadata, node)
 			if err != nil {
-				metadata.Errors.AddErrorWithSubpath(fmt.Sprintf("oneOf/%d", i), fmt.Errorf("failed to resolve oneOf sub-schema: %w", err))
 				continue
 			}
 
@@ -103,8 +109,6 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 
 	if len(generators) == 1 {
 		return generators[0], nil
-	} else if len(generators) == 0 {
-		return nullGenerator{}, fmt.Errorf("no valid generators could be created for %s", nodeType)
 	}
 
 	return combinationGenerator{
diff --git a/merge.go b/merge.go
index 937e104..2326ea3 100644
--- a/merge.go
+++ b/merge.go
@@ -1,6 +1,7 @@
 package chaff
 
 import (
+	"errors"
 	"fmt"
 	"regexp"
 
@@ -16,6 +17,9 @@ func newEmptySchemaNode() schemaNode {
 func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode, error) {
 	mergedNode := newEmptySchemaNode()
 
+	// Values that nothing can satisfy after the merge
+	contradictions := []error{}
+
 	for _, node := range nodes {
 		node, resolvedReference := mergeResolveNodeRef(metadata, node)
 
@@ -38,9 +42,10 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		}
 
 		// Merge Type
-		mergedNode.Type = mergeSchemaTypes(metadata, mergedNode.Type, node.Type)
-
-		mergedNode = mergeEnumAndConst(metadata, mergedNode, node)
+		var typeErr, enumErr error
+		mergedNode.Type, typeErr = mergeSchemaTypes(mergedNode.Type, node.Type)
+		mergedNode, enumErr = mergeEnumAndConst(mergedNode, node)
+		contradictions = append(contradictions, typeErr, enumErr)
 
 		// Merge object properties
 		mergedProperties := mergeProperties(metadata, mergedNode, node)
@@ -93,7 +98,42 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		}
 	}
 
-	return flattenResidualAllOf(metadata, mergedNode)
+	mergedNode, err := flattenResidualAllOf(metadata, mergedNode)
+	contradictions = append(contradictions, err, assertMergedBounds(mergedNode))
+	return mergedNode, errors.Join(contradictions...)
+}
+
+// assertMergedBounds reports the lower bounds that ended up above the upper bounds
+// for nodes that only allow for a single type of value.
+func assertMergedBounds(node schemaNode) error {
+	if node.Type == nil {
+		return nil
+	}
+
+	switch node.Type.SingleType {
+	case typeInteger, typeNumber:
+		lower := util.MaxFloatPtr(node.Minimum, node.ExclusiveMinimum)
+		upper := util.MinFloatPtr(node.Maximum, node.ExclusiveMaximum)
+		if lower != nil && upper != nil && *lower > *upper {
+			return fmt.Errorf("error merging bounds: nothing is between %v and %v", *lower, *upper)
+		}
+	case typeString:
+		return assertMergedRange("Length", node.MinLength, node.MaxLength)
+	case typeArray:
+		return assertMergedRange("Items", node.MinItems, node.MaxItems)
+	case typeObject:
+		return assertMergedRange("Properties", node.MinProperties, node.MaxProperties)
+	}
+
+	return nil
+}
+
+func assertMergedRange(name string, lower *int, upper *int) error {
+	if lower != nil && upper != nil && *lower > *upper {
+		return fmt.Errorf("error merging bounds: min%s (%d) is greater than max%s (%d)", name, *lower, name, *upper)
+	}
+
+	return nil
 }
 
 // mergeResolveNodeRef resolves any $ref on the node by following the reference
@@ -155,13 +195,13 @@ func collectEnumValues(node schemaNode) *[]interface{} {
 // then intersected. The result is written back as either a const (one value)
 // or an enum (many values). An empty intersection produces a merge error and
 // clears both fields.
-func mergeEnumAndConst(metadata *parserMetadata, mergedNode schemaNode, node schemaNode) schemaNode {
+func mergeEnumAndConst(mergedNode schemaNode, node schemaNode) (schemaNode, error) {
 	left := collectEnumValues(mergedNode)
 	right := collectEnumValues(node)
 
 	// Nothing to merge — neither side constrains allowed values.
 	if left == nil && right == nil {
-		return mergedNode
+		return mergedNode, nil
 	}
 
 	// Only one side has values — adopt it directly.
@@ -173,10 +213,9 @@ func mergeEnumAndConst(metadata *parserMetadata, mergedNode schemaNode, node sch
 	} else {
 		result = intersectEnumSlices(left, right)
 		if len(*result) == 0 {
-			warnConfigMergeError(metadata, "enum/const", fmt.Errorf("enum/const intersection is empty left: %v, right: %v", left, right))
 			mergedNode.Enum = nil
 			mergedNode.Const = nil
-			return mergedNode
+			return mergedNode, fmt.Errorf("error merging field enum/const: enum/const intersection is empty left: %v, right: %v", left, right)
 		}
 	}
 
@@ -189,7 +228,7 @@ func mergeEnumAndConst(metadata *parserMetadata, mergedNode schemaNode, node sch
 		mergedNode.Const = nil
 	}
 
-	return mergedNode
+	return mergedNode, nil
 }
 
 // mergeProperties merges two sets of object properties. When both sides define
@@ -535,14 +574,14 @@ func mergeResolveReference(metadata *parserMetadata, node schemaNode) (schemaNod
 
 // mergeSchemaTypes intersects the types both sides allow. "integer" is the
 // subset of "number" both have in common.
-func mergeSchemaTypes(metadata *parserMetadata, mergedSchemaType *multipleType, nodeType *multipleType) *multipleType {
+func mergeSchemaTypes(mergedSchemaType *multipleType, nodeType *multipleType) (*multipleType, error) {
 	if nodeType == nil || len(nodeType.Types()) == 0 {
-		return mergedSchemaType
+		return mergedSchemaType, nil
 	}
 
 	if mergedSchemaType == nil || len(mergedSchemaType.Types()) == 0 {
 		mergedType := *nodeType
-		return &mergedType
+		return &mergedType, nil
 	}
 
 	types := []string{}
@@ -562,13 +601,12 @@ func mergeSchemaTypes(metadata *parserMetadata, mergedSchemaType *multipleType,
 	}
 
 	if len(types) == 0 {
-		warnConfigMergeError(metadata, "type", fmt.Errorf("no type satisfies both %v and %v", mergedSchemaType.Types(), nodeType.Types()))
 		mergedType := *nodeType
-		return &mergedType
+		return &mergedType, fmt.Errorf("error merging field type: no type satisfies both %v and %v", mergedSchemaType.Types(), nodeType.Types())
 	}
 
 	mergedType := newMultipleTypeFromSlice(types)
-	return &mergedType
+	return &mergedType, nil
 }
 
 // Merges items data (Legacy support for "items" merging not supported)
-- 
2.43.0


From 7d88069e743fc5053657f63378ee7d6f2a75f141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:26 +0000
Subject: [PATCH 14/77] fix: merge multipleOf to the lowest common multiple,
 count repeated required keys once

---
 internal/util/util.go | 30 ++++++++++++------------------
 object.go             |  6 +++---
 2 files changed, 15 insertions(+), 21 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 9b404a1..3b8664b 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -2,7 +2,6 @@ package util
 
 import (
 	"encoding/json"
-	"fmt"
 	"math"
 	"regexp"
 	"strconv"
@@ -175,18 +174,8 @@ func MaxFloatPtr[T Number](a ...*T) *T {
 	return max
 }
 
-func countDecimalPlaces(f float64) float64 {
-	s := strings.Split(strings.TrimRight(strings.TrimRight(fmt.Sprintf("%f", f), "0"), "."), ".")
-	if len(s) < 2 {
-		return 0
-	}
-
-	return float64(len(s[1]))
-}
-
-// FindHcf finds the highest common factor between two float64 pointers
+// FindHcf finds the lowest number both float64 pointers are factors of
 func FindHcf(a *float64, b *float64) *float64 {
-	result := new(float64)
 	// Return one if the other is not set
 	if a == nil || *a == 0 {
 		return b
@@ -206,13 +195,18 @@ func FindHcf(a *float64, b *float64) *float64 {
 	}
 
 	// Normalise both to integers
-	scale := math.Pow(10, float64(math.Max(countDecimalPlaces(*a), countDecimalPlaces(*b))))
-	intA := *a * scale
-	intB := *b * scale
+	scale := math.Pow(10, float64(MaxInt(decimalPrecision(*a), decimalPrecision(*b))))
+	intA := math.Round(*a * scale)
+	intB := math.Round(*b * scale)
+
+	// Otherwise find their lowest common multiple
+	hcf, remainder := intA, intB
+	for remainder > 0 {
+		hcf, remainder = remainder, math.Mod(hcf, remainder)
+	}
 
-	// Otherwise multiply them
-	*result = (intA * intB) / scale
-	return result
+	result := intA / hcf * intB / scale
+	return &result
 }
 
 func GetZeroIfNil[T any](f *T, zeroValue T) T {
diff --git a/object.go b/object.go
index 5b4db91..5e3d2b6 100644
--- a/object.go
+++ b/object.go
@@ -45,7 +45,7 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	// Validator Max and Min Properties
 	minProperties := util.GetZeroIfNil(node.MinProperties, 0)
 	maxProperties := util.GetZeroIfNil(node.MaxProperties, 0)
-	requiredProperties := util.GetZeroIfNil(node.Required, []string{})
+	requiredProperties := funk.UniqString(util.GetZeroIfNil(node.Required, []string{}))
 	properties := util.GetZeroIfNil(node.Properties, map[string]schemaNode{})
 
 	if minProperties < 0 {
@@ -62,7 +62,7 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 
 	// Validate Required Properties
 	if node.MaxProperties != nil && len(requiredProperties) > maxProperties {
-		return nullGenerator{}, fmt.Errorf("required properties must have a length of less than or equal to MaxProperties (Max Properties: %d, Length of required %d)", node.MaxProperties, len(requiredProperties))
+		return nullGenerator{}, fmt.Errorf("required properties must have a length of less than or equal to MaxProperties (Max Properties: %d, Length of required %d)", maxProperties, len(requiredProperties))
 	}
 
 	// Validate additionalProperties
@@ -75,7 +75,7 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	patternProperties, patternPropertiesRegex := parsePatternProperties(node, metadata)
 
 	objectGenerator := objectGenerator{
-		Required:         funk.UniqString(requiredProperties),
+		Required:         requiredProperties,
 		MinProperties:    minProperties,
 		MaxProperties:    maxProperties,
 		HasMaxProperties: node.MaxProperties != nil,
-- 
2.43.0


From 9c82f43c4949cabe6fc98d9caf739bae4db3e914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 15/77] fix: compile every sub schema under a name of its own

---
 schema.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/schema.go b/schema.go
index 9f7ac42..2481799 100644
--- a/schema.go
+++ b/schema.go
@@ -14,6 +14,9 @@ type (
 	schemaManager struct {
 		rootSchemaCompiler *jsonschemaV6.Compiler
 		documentResolver   *documentResolver
+
+		// Number of sub schemas compiled so far
+		subSchemaCount int
 	}
 
 	internalOnlyLoader struct {
@@ -45,11 +48,16 @@ func newSchemaManager(resolver *documentResolver, schemaJson []byte) (*schemaMan
 // Parses a schema node and creates a subdocument in the root schema compiler
 // allowing for reference resolutions back into the original schema from any given sub-schema fragment
 func (sm *schemaManager) ParseSchemaNode(parserMetadata *parserMetadata, node schemaNode, field string) (*jsonschemaV6.Schema, error) {
-	currentPath := sm.normalisePath(fmt.Sprintf("%s/%s", parserMetadata.ReferenceHandler.CurrentPath, field))
+	// Different paths might be the same once normalised, so number them
+	sm.subSchemaCount++
+	currentPath := sm.normalisePath(fmt.Sprintf("%s/%s/%d", parserMetadata.ReferenceHandler.CurrentPath, field, sm.subSchemaCount))
 	deepClonedNode := util.UnmarshalJsonStringToMap(util.MarshalJsonToString(node))
 	referenceUpdatedNode := sm.replaceRefs(deepClonedNode)
 
-	sm.rootSchemaCompiler.AddResource(sm.documentResolver.GetCurrentScope()+currentPath, referenceUpdatedNode)
+	if err := sm.rootSchemaCompiler.AddResource(sm.documentResolver.GetCurrentScope()+currentPath, referenceUpdatedNode); err != nil {
+		return nil, err
+	}
+
 	return sm.CompilePath(currentPath)
 }
 
-- 
2.43.0


From cc881c740b31dc029130f91c4e9972ad635c552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 16/77] fix: write additionalProperties true as true

---
 json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json.go b/json.go
index 461ff39..edc5946 100644
--- a/json.go
+++ b/json.go
@@ -152,7 +152,7 @@ func (s *schemaNodeOrFalse) MarshalJSON() ([]byte, error) {
 		return json.Marshal(s.Schema)
 	}
 
-	return []byte("null"), nil
+	return []byte("true"), nil
 }
 
 // Standard json.Unmarshal treats {"const": null} and an absent "const" key
-- 
2.43.0


From 34d6e1a03519f7084132bc5da864ee95cd756f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 17/77] fix: generate values that satisfy all of several if
 statements, ignore an if without then and else

---
 if.go | 59 ++++++++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 9 deletions(-)

diff --git a/if.go b/if.go
index 9bdbf30..279d658 100644
--- a/if.go
+++ b/if.go
@@ -1,7 +1,6 @@
 package chaff
 
 import (
-	"errors"
 	"fmt"
 	"strings"
 
@@ -11,6 +10,8 @@ import (
 type (
 	ifConstraint struct {
 		conditionFunc func(value any) bool
+		thenFunc      func(value any) bool
+		elseFunc      func(value any) bool
 		thenGenerator Generator
 		elseGenerator Generator
 	}
@@ -60,6 +61,11 @@ func parseIf(node schemaNode, metadata *parserMetadata) (Generator, error) {
 
 	constraints := []ifConstraint{}
 	for i, ifStatement := range mergedIf {
+		// Nothing depends on the outcome of the condition
+		if ifStatement.Then == nil && ifStatement.Else == nil {
+			continue
+		}
+
 		compiled, err := ifStatement.Compile(node, metadata, fmt.Sprintf("/if/%d", i))
 		if err != nil {
 			path := fmt.Sprintf("if/%d/config_compile_error", i)
@@ -71,7 +77,6 @@ func parseIf(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	}
 
 	if len(constraints) == 0 {
-		metadata.Errors.AddErrorWithSubpath("/if/config_compile_error", errors.New("no valid if statements could be compiled"))
 		return internalGenerator, nil
 	}
 
@@ -121,27 +126,58 @@ func (s ifStatement) Compile(node schemaNode, metadata *parserMetadata, field st
 		return ifConstraint{}, fmt.Errorf("if schema must have an if clause")
 	}
 
-	if s.Then == nil && s.Else == nil {
-		return ifConstraint{}, fmt.Errorf("if schema must have either then or else")
+	conditionFunc, err := compileIfFunc(metadata, field, s.If)
+	if err != nil {
+		return ifConstraint{}, fmt.Errorf("failed to compile if sub schema: %w", err)
 	}
 
-	ifSchema, err := metadata.SchemaManager.ParseSchemaNode(metadata, *s.If, fmt.Sprintf("%s/%s", metadata.ReferenceHandler.CurrentPath, field))
+	thenFunc, err := compileIfFunc(metadata, field+"/then", s.Then)
 	if err != nil {
-		return ifConstraint{}, fmt.Errorf("failed to compile if sub schema: %w", err)
+		return ifConstraint{}, fmt.Errorf("failed to compile then sub schema: %w", err)
+	}
+
+	elseFunc, err := compileIfFunc(metadata, field+"/else", s.Else)
+	if err != nil {
+		return ifConstraint{}, fmt.Errorf("failed to compile else sub schema: %w", err)
 	}
 
 	thenGenerator := parseIfBody(metadata, "/then", node, s.Then)
 	elseGenerator := parseIfBody(metadata, "/else", node, s.Else)
 
 	return ifConstraint{
-		conditionFunc: func(value any) bool {
-			return ifSchema.Validate(value) == nil
-		},
+		conditionFunc: conditionFunc,
+		thenFunc:      thenFunc,
+		elseFunc:      elseFunc,
 		thenGenerator: thenGenerator,
 		elseGenerator: elseGenerator,
 	}, nil
 }
 
+// Compiles the given part of an if statement to a function that checks values against it
+func compileIfFunc(metadata *parserMetadata, field string, node *schemaNode) (func(value any) bool, error) {
+	if node == nil {
+		return func(value any) bool { return true }, nil
+	}
+
+	schema, err := metadata.SchemaManager.ParseSchemaNode(metadata, *node, fmt.Sprintf("%s/%s", metadata.ReferenceHandler.CurrentPath, field))
+	if err != nil {
+		return nil, err
+	}
+
+	return func(value any) bool {
+		return schema.Validate(value) == nil
+	}, nil
+}
+
+// IsSatisfied checks if a value already is what the if statement asks for
+func (g ifConstraint) IsSatisfied(value interface{}) bool {
+	if g.conditionFunc(value) {
+		return g.thenFunc(value)
+	}
+
+	return g.elseFunc(value)
+}
+
 // Attempt to satisfy the if constraint by shoving the generated value through the then subschma
 // and attempting to satisfy the clause again with the subsequent value.
 // Returns (value, true) if the constraint was satisfied
@@ -213,6 +249,11 @@ func (g multipleIfConstraints) Apply(generator Generator, generatorOptions *Gene
 			}
 		}
 
+		// What satisfies one if statement might no longer satisfy those before it
+		for _, constraint := range g.constraints {
+			allSatisfied = allSatisfied && constraint.IsSatisfied(currentValue)
+		}
+
 		if allSatisfied {
 			return currentValue
 		}
-- 
2.43.0


From 3bb1685c95dc26d56c64b7fed38c3de7351110e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 18/77] fix: resolve local references of in-memory schemas
 while merging

---
 document.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/document.go b/document.go
index e17130a..e9533a8 100644
--- a/document.go
+++ b/document.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"net/url"
 	"os"
-	"path/filepath"
 	"regexp"
 	"strings"
 
@@ -85,14 +84,14 @@ func newDocumentResolver(opts ParserOptions, rootDocument *schemaNode) (*documen
 			opts.RelativeTo = "file://" + cwd + "/"
 		}
 
-		resolvedRootDocumentId = filepath.Join(opts.RelativeTo, rootDocumentId)
+		resolvedRootDocumentId = opts.RelativeTo + rootDocumentId
 	} else {
 		resolvedRootDocumentId = opts.RelativeTo
 	}
 
 	resolver := &documentResolver{
 		// Setup the root document
-		documentCurrentlyBeingParsedId: opts.RelativeTo,
+		documentCurrentlyBeingParsedId: resolvedRootDocumentId,
 		parsedExternalDocuments: map[string]bool{
 			resolvedRootDocumentId: true,
 		},
@@ -480,6 +479,11 @@ func (r *documentResolver) resolveDocument(ref string) (*schemaNode, error) {
 // resolved $id URI → document + JSON pointer), falling back to I/O-based
 // fetchers only if no alias matches.
 func (r *documentResolver) resolveDocumentRef(documentID string, refPath string) (string, string, error) {
+	// Documents that were loaded already need no fetcher
+	if _, loaded := r.documents[documentID]; loaded {
+		return documentID, refPath, nil
+	}
+
 	// Check $id alias table first — resolves bare-name refs like "color"
 	// to the real document + JSON pointer path with no I/O.
 	resolved := resolveRelativeURI(r.GetCurrentScope(), documentID)
-- 
2.43.0


From 05e9e21c6adb27386e8f0343485ffca9d062fb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 19/77] fix: keep the constraints of merged nodes apart

---
 merge.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/merge.go b/merge.go
index 2326ea3..6d35c3e 100644
--- a/merge.go
+++ b/merge.go
@@ -76,11 +76,11 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		// .constraints on sub-nodes). Accumulate them so that sequential merges
 		// don't lose earlier exclusions.
 		if node.constraints != nil {
-			if mergedNode.constraints == nil {
-				mergedNode.constraints = node.constraints
-			} else {
-				mergedNode.constraints.Merge(node.constraints)
-			}
+			// Collect them in a collection of its own, the nodes still use theirs
+			constraints := newConstraintCollection()
+			constraints.Merge(mergedNode.constraints)
+			constraints.Merge(node.constraints)
+			mergedNode.constraints = &constraints
 		}
 
 		// If the node had a circular $ref that couldn't be inlined during merge,
-- 
2.43.0


From d876462bcbe59875316f8e5feca32fcf49552d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 20/77] fix: check generated values against not, negate bounds,
 multiples and contains without going off by one

---
 constraint.go |  21 ++++-
 not.go        | 253 ++++++++++++++++++++++++++++----------------------
 2 files changed, 161 insertions(+), 113 deletions(-)

diff --git a/constraint.go b/constraint.go
index 4e3ac90..62488ba 100644
--- a/constraint.go
+++ b/constraint.go
@@ -42,6 +42,9 @@ type (
 		// Set of JSON stringified values that the generated value must not be equal to
 		notValueConstraints map[string]struct{}
 
+		// Compiled schemas the generated value must not match
+		notMatchingSchemaConstraints map[string]*jsonschemaV6.Schema
+
 		// Property based constraints
 		mustNotHaveProperties []string
 	}
@@ -57,6 +60,7 @@ func newConstraintCollection() constraintCollection {
 		notMatchingFormatConstraints: make(map[string]func(any) bool),
 		notMatchingRegexConstraints:  make(map[string]regexp.Regexp),
 		notValueConstraints:          make(map[string]struct{}),
+		notMatchingSchemaConstraints: make(map[string]*jsonschemaV6.Schema),
 	}
 }
 
@@ -98,6 +102,10 @@ func (cc *constraintCollection) AddNotMatchingFormatConstraint(format string) er
 	return nil
 }
 
+func (cc *constraintCollection) AddNotMatchingSchemaConstraint(path string, schema *jsonschemaV6.Schema) {
+	cc.notMatchingSchemaConstraints[path] = schema
+}
+
 func (cc *constraintCollection) AddMustNotHaveProperties(properties []string) {
 	cc.mustNotHaveProperties = append(cc.mustNotHaveProperties, properties...)
 }
@@ -116,6 +124,9 @@ func (cc *constraintCollection) Merge(other *constraintCollection) {
 	for k, v := range other.notValueConstraints {
 		cc.notValueConstraints[k] = v
 	}
+	for k, v := range other.notMatchingSchemaConstraints {
+		cc.notMatchingSchemaConstraints[k] = v
+	}
 	cc.mustNotHaveProperties = append(cc.mustNotHaveProperties, other.mustNotHaveProperties...)
 }
 
@@ -143,7 +154,9 @@ func (mc *constraintCollection) Compile() *multiConstraint {
 
 	for format, formatFunc := range mc.notMatchingFormatConstraints {
 		constraintFunctions[fmt.Sprintf("Format: %s", format)] = func(value interface{}) bool {
-			return !formatFunc(value)
+			// Formats only apply to strings
+			strValue, ok := value.(string)
+			return ok && !formatFunc(strValue)
 		}
 	}
 
@@ -155,6 +168,12 @@ func (mc *constraintCollection) Compile() *multiConstraint {
 		}
 	}
 
+	for path, schema := range mc.notMatchingSchemaConstraints {
+		constraintFunctions[fmt.Sprintf("Schema: %s", path)] = func(value interface{}) bool {
+			return schema.Validate(value) != nil
+		}
+	}
+
 	if len(mc.mustNotHaveProperties) > 0 {
 		constraintFunctions[fmt.Sprintf("MustNotHaveProperties: %s", strings.Join(mc.mustNotHaveProperties, ","))] = func(value interface{}) bool {
 			objValue, ok := value.(map[string]interface{})
diff --git a/not.go b/not.go
index 441274f..131d216 100644
--- a/not.go
+++ b/not.go
@@ -3,6 +3,7 @@ package chaff
 import (
 	"fmt"
 	"math"
+	"strings"
 
 	"github.com/ryanolee/go-chaff/internal/util"
 	"github.com/thoas/go-funk"
@@ -83,6 +84,12 @@ func parseNot(node schemaNode, metadata *parserMetadata) (Generator, error) {
 
 	currentNode, allConstraints := applyNotConstraints(metadata, flatNode, notNodes)
 
+	// Negating every keyword on its own does not always negate all of them together
+	// (not all keywords apply to all types for example) so check the generated values too
+	for i, raw := range rawNotNodes {
+		addNotMatchingSchemaConstraint(metadata, &allConstraints, fmt.Sprintf("/not/%d", i), raw)
+	}
+
 	internalGenerator, err := parseNode(currentNode, metadata)
 	if err != nil {
 		return nullGenerator{}, err
@@ -96,6 +103,37 @@ func parseNot(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	}, nil
 }
 
+// addNotMatchingSchemaConstraint compiles a not node, for generated values to be checked against it
+func addNotMatchingSchemaConstraint(metadata *parserMetadata, constraintCollection *constraintCollection, path string, notNode *schemaNode) {
+	if notNode == nil {
+		return
+	}
+
+	node := *notNode
+	if strings.Contains(util.MarshalJsonToString(node), `"$ref"`) {
+		flatNode, err := mergeSchemaNodes(metadata, schemaNode{}, node)
+		if err != nil || len(flatNode.mergedIf) > 0 || len(flatNode.mergedNot) > 0 {
+			return
+		}
+		node = flatNode
+	}
+
+	// Formats are handled on their own. They and further references are not
+	// known to the schema compiler, which might then match any value
+	nodeJson := util.MarshalJsonToString(node)
+	if strings.Contains(nodeJson, `"format"`) || strings.Contains(nodeJson, `"$ref"`) {
+		return
+	}
+
+	schema, err := metadata.SchemaManager.ParseSchemaNode(metadata, node, path)
+	if err != nil {
+		warnField(metadata, path, fmt.Errorf("failed to compile not node: %w", err))
+		return
+	}
+
+	constraintCollection.AddNotMatchingSchemaConstraint(path, schema)
+}
+
 // collectNotNodes gathers all not sub-schemas from a node into a single slice.
 // This includes node.Not (the inline "not" keyword) and node.mergedNot (not
 // nodes accumulated during allOf merges where each branch's "not" must be
@@ -273,12 +311,6 @@ func notApplyString(metadata *parserMetadata, newNode *schemaNode, constraintCol
 //   - exclusiveMaximum
 func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, constraintCollection *constraintCollection, node schemaNode, notNode schemaNode) error {
 
-	// Handle integer verses float64 offsets
-	offsetIncrement := infinitesimal
-	if newNode.Type != nil && nodeTypeContains(newNode, string(generatorTypeInteger)) {
-		offsetIncrement = 1
-	}
-
 	// Handle min/max
 	min, max, alturnateMin, alturnateMax := resolveBoundsFloat64(
 		metadata,
@@ -287,7 +319,6 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 		node.Maximum, node.ExclusiveMaximum,
 		notNode.Minimum, notNode.ExclusiveMinimum,
 		notNode.Maximum, notNode.ExclusiveMaximum,
-		offsetIncrement,
 	)
 
 	newNode.Minimum = min
@@ -298,7 +329,7 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 	notMultipleOf := util.GetZeroIfNil(notNode.MultipleOf, 0)
 
 	couldBeInteger := nodeTypeContains(newNode, string(generatorTypeInteger))
-	explicitDenyInteger := nodeTypeContains(&notNode, string(generatorTypeInteger))
+	explicitDenyInteger := nodeTypeContains(&notNode, string(generatorTypeInteger)) && !notNodeHasValueConstraints(notNode)
 
 	if multipleOf == 0 && couldBeInteger && !explicitDenyInteger {
 		multipleOf = 1
@@ -321,30 +352,25 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 		warnField(metadata, "not/multipleOf", fmt.Errorf("not/multipleOf cannot be a multiple of multipleOf"))
 	} else if notMultipleOf != 0 && notMultipleOf <= infinitesimal {
 		warnField(metadata, "not/multipleOf", fmt.Errorf("multipleOf is too small to enforce in a Not Clause"))
-	} else if notMultipleOf != 0 {
+	} else if notMultipleOf != 0 && multipleOf != 0 {
 		// We handle getting valid values of `not/multipleOf` by precomputing valid values and baking them into an enum
 		// in order to create a valid range of values that can be generated.
-		validValues := []float64{}
-		if multipleOf == 0 {
-			multipleOf = infinitesimal
-		}
-
 		min := util.GetZeroIfNil(min, lowerBound)
 		max := util.GetZeroIfNil(max, upperBound)
 
 		validValues, err := computeValidMultipleOfValues(metadata, min, max, multipleOf, notMultipleOf)
-		if err != nil && alturnateMin != nil || alturnateMax != nil {
+		if err != nil && (alturnateMin != nil || alturnateMax != nil) {
 			alturnateMinVal := util.GetZeroIfNil(alturnateMin, lowerBound)
 			alturnateMaxVal := util.GetZeroIfNil(alturnateMax, upperBound)
 
 			validValues, err = computeValidMultipleOfValues(metadata, alturnateMinVal, alturnateMaxVal, multipleOf, notMultipleOf)
+		}
 
-			// In the event both upper bound computations fail, we warn and exit given there is not
-			// more we can reasonably do to find valid values
-			if err != nil {
-				warnField(metadata, "not/multipleOf", fmt.Errorf("unable to compute valid multipleOf values given the multipleOf and not/multipleOf constraints: %w", err))
-				return nil
-			}
+		// In the event both upper bound computations fail, we warn and exit given there is not
+		// more we can reasonably do to find valid values
+		if err != nil {
+			warnField(metadata, "not/multipleOf", fmt.Errorf("unable to compute valid multipleOf values given the multipleOf and not/multipleOf constraints: %w", err))
+			return nil
 		}
 
 		newNode.MultipleOf = nil
@@ -409,8 +435,8 @@ func notApplyEnum(metadata *parserMetadata, newNode *schemaNode, constraintColle
 		constJsonData := util.MarshalJsonToString(node.Const)
 		if funk.ContainsString(notEnumJsonData, constJsonData) {
 			warnField(metadata, "not/enum", fmt.Errorf("cannot have 'not/enum' contain the same value as 'const'"))
-			return nil
 		}
+		return nil
 	}
 
 	enumJsonData := util.SafeMarshalListToJsonList(node.Enum)
@@ -502,11 +528,17 @@ func notApplyArray(metadata *parserMetadata, newNode *schemaNode, constraintColl
 		warnField(metadata, "not/uniqueItems", fmt.Errorf("cannot have 'not/uniqueItems' set to true. It is very difficult to calculate items that match all clauses and are identical throughout the array"))
 	}
 
-	newNode.UniqueItems = resolveBool("not/uniqueItems", node.UniqueItems, notNode.UniqueItems)
+	newNode.UniqueItems = resolveBool(metadata, "not/uniqueItems", node.UniqueItems, notNode.UniqueItems)
 
 	newNode.PrefixItems = notMergePrefixNodes(metadata, node.PrefixItems, notNode.PrefixItems, util.GetZeroIfNil(newNode.Items, itemsData{}))
+	newNode.AdditionalItems = node.AdditionalItems
 	newNode.UnevaluatedItems = notMergeSchemaNodeOrFalse("/not/unevaluatedItems", metadata, node.UnevaluatedItems, notNode.UnevaluatedItems)
-	newNode.Contains = notMergeSubNodePtr("/not/contains", metadata, node.Contains, notNode.Contains)
+
+	// Items that do not contain a value that matches a schema all do not match it
+	newNode.Contains = node.Contains
+	if notNode.Contains != nil && notNode.MinContains == nil && notNode.MaxContains == nil {
+		newNode.Items = notMergeItemData(metadata, newNode.Items, &itemsData{Node: notNode.Contains})
+	}
 
 	return nil
 }
@@ -527,9 +559,13 @@ func notApplyObject(metadata *parserMetadata, newNode *schemaNode, constraintCol
 		notNode.MinProperties, notNode.MaxProperties,
 	)
 
+	requiredProperties := util.GetZeroIfNil(node.Required, []string{})
+	notRequiredProperties := util.GetZeroIfNil(notNode.Required, []string{})
+
 	// Merge down properties
 	properties := util.MapKeysToStringSlice(node.Properties, notNode.Properties)
 	mergedProperties := map[string]schemaNode{}
+	nodeProperties := util.GetZeroIfNil(node.Properties, map[string]schemaNode{})
 	notProperties := util.GetZeroIfNil(notNode.Properties, map[string]schemaNode{})
 
 	for _, propertyKey := range properties {
@@ -539,17 +575,32 @@ func notApplyObject(metadata *parserMetadata, newNode *schemaNode, constraintCol
 		// and trigger unsupported-feature warnings for fields that aren't
 		// being negated at all.
 		if _, inNot := notProperties[propertyKey]; !inNot {
-			nodeProps := util.GetZeroIfNil(node.Properties, map[string]schemaNode{})
-			if prop, ok := nodeProps[propertyKey]; ok {
+			if prop, ok := nodeProperties[propertyKey]; ok {
 				mergedProperties[propertyKey] = prop
 			}
 			continue
 		}
 
+		// Properties that are left out altogether have no value to exclude anything from
+		if funk.ContainsString(notRequiredProperties, propertyKey) && !funk.ContainsString(requiredProperties, propertyKey) {
+			continue
+		}
+
+		property, inNode := nodeProperties[propertyKey]
+		if !inNode {
+			// The node might not allow for the property, or only with certain values
+			allowedProperties := map[string]schemaNode{}
+			mergeProperty(metadata, allowedProperties, propertyKey, schemaNode{}, schemaNode{}, false, node)
+
+			if property, inNode = allowedProperties[propertyKey]; !inNode {
+				continue
+			}
+		}
+
 		mergedProperties[propertyKey] = notMergeSubNode(
 			fmt.Sprintf("/not/properties/%s", propertyKey),
 			metadata,
-			util.GetObjectKeyOrDefault(node.Properties, propertyKey, schemaNode{}),
+			property,
 			util.GetObjectKeyOrDefault(notNode.Properties, propertyKey, schemaNode{}),
 		)
 	}
@@ -567,8 +618,6 @@ func notApplyObject(metadata *parserMetadata, newNode *schemaNode, constraintCol
 	// Required properties
 	// Required is immutable so we have to handle coercing the object properties into a state where it wont have them
 	newNode.Required = node.Required
-	requiredProperties := util.GetZeroIfNil(node.Required, []string{})
-	notRequiredProperties := util.GetZeroIfNil(notNode.Required, []string{})
 
 	for _, notRequiredProperty := range notRequiredProperties {
 		if funk.ContainsString(requiredProperties, notRequiredProperty) {
@@ -665,17 +714,6 @@ func notMergeSubNode(scope string, metadata *parserMetadata, node schemaNode, no
 	return mergedNode
 }
 
-func notMergeSubNodePtr(scope string, metadata *parserMetadata, nodePtr *schemaNode, notNodePtr *schemaNode) *schemaNode {
-	if nodePtr == nil && notNodePtr == nil {
-		return nil
-	}
-
-	node := util.GetZeroIfNil(nodePtr, schemaNode{})
-	notNode := util.GetZeroIfNil(notNodePtr, schemaNode{})
-	mergedNode := notMergeSubNode(scope, metadata, node, notNode)
-	return &mergedNode
-}
-
 func notMergeItemData(metadata *parserMetadata, nodePtr *itemsData, notNodePtr *itemsData) *itemsData {
 	if nodePtr == nil && notNodePtr == nil {
 		return nil
@@ -754,6 +792,11 @@ func notMergePrefixNodes(metadata *parserMetadata, nodePrefixItemsPtr *[]schemaN
 	notNodePrefixItems := util.GetZeroIfNil(notNodePrefixItemsPtr, []schemaNode{})
 
 	length := int(math.Max(float64(len(nodePrefixItems)), float64(len(notNodePrefixItems))))
+	if additionalItems.DisallowAdditionalItems {
+		// There are no items beyond those to exclude anything from
+		length = len(nodePrefixItems)
+	}
+
 	mergedPrefixItems := []schemaNode{}
 
 	for i := 0; i < length; i++ {
@@ -784,17 +827,23 @@ func notNodeHasValueConstraints(notNode schemaNode) bool {
 		return true
 	}
 	// Object constraints
-	if notNode.Properties != nil || notNode.Required != nil || notNode.MinProperties != nil || notNode.MaxProperties != nil {
+	if notNode.Properties != nil || notNode.Required != nil || notNode.MinProperties != nil || notNode.MaxProperties != nil ||
+		notNode.PatternProperties != nil || notNode.AdditionalProperties != nil || len(notNode.DependentRequired) > 0 || len(notNode.DependentSchemas) > 0 {
 		return true
 	}
 	// Array constraints
-	if notNode.Items != nil || notNode.MinItems != nil || notNode.MaxItems != nil || notNode.PrefixItems != nil {
+	if notNode.Items != nil || notNode.MinItems != nil || notNode.MaxItems != nil || notNode.PrefixItems != nil ||
+		notNode.Contains != nil || notNode.UniqueItems != nil || notNode.AdditionalItems != nil || notNode.UnevaluatedItems != nil {
 		return true
 	}
 	// Value constraints
 	if notNode.Const != nil || notNode.Enum != nil {
 		return true
 	}
+	// Combinators
+	if notNode.AllOf != nil || notNode.AnyOf != nil || notNode.OneOf != nil || notNode.If != nil || len(notNode.mergedIf) > 0 || len(notNode.mergedNot) > 0 {
+		return true
+	}
 	return false
 }
 
@@ -883,28 +932,13 @@ func resolveBoundsInt(metadata *parserMetadata,
 		return minPtr, maxPtr
 	}
 
-	// Edge case: No original bounds -> Select upper bound
-	if minPtr == nil && maxPtr == nil {
-		if notMinPtr != nil {
-			newMax := *notMinPtr - 1
-			return nil, maxToNil(newMax)
-		}
-
-		if notMaxPtr != nil {
-			newMin := *notMaxPtr + 1
-			return minToNil(newMin), nil
-		}
-
-		return nil, nil
-	}
-
-	// Inclusive bounds
-	x1 := util.GetZeroIfNil(minPtr, minInt)
+	// Inclusive bounds (Nothing has a negative length or number of elements)
+	x1 := util.GetZeroIfNil(minPtr, 0)
 	x2 := util.GetZeroIfNil(maxPtr, maxInt)
 
 	// Not bounds are inverted (notMax -> min, notMin -> max)
-	y1 := util.GetZeroIfNil(notMinPtr, minInt)
-	y2 := util.GetZeroIfNil(addIfNotNilInt(notMaxPtr, 1), maxInt)
+	y1 := util.GetZeroIfNil(notMinPtr, 0)
+	y2 := util.GetZeroIfNil(notMaxPtr, maxInt)
 
 	// No bounds overlap return original
 	if y2 < x1 || y1 > x2 {
@@ -942,34 +976,18 @@ func resolveBoundsFloat64(metadata *parserMetadata,
 	maxPtr *float64, maxExclusivePtr *float64,
 	notMinPtr *float64, notMinExclusivePtr *float64,
 	notMaxPtr *float64, notMaxExclusivePtr *float64,
-	offsetIncrement float64,
 ) (*float64, *float64, *float64, *float64) {
-	x1 := util.MaxFloatPtr(minPtr, addIfNotNilFloat64(minExclusivePtr, offsetIncrement))
-	x2 := util.MinFloatPtr(maxPtr, addIfNotNilFloat64(maxExclusivePtr, -offsetIncrement))
+	x1 := util.MaxFloatPtr(minPtr, nextAboveIfNotNil(minExclusivePtr))
+	x2 := util.MinFloatPtr(maxPtr, nextBelowIfNotNil(maxExclusivePtr))
 
-	y1 := util.MaxFloatPtr(notMinPtr, addIfNotNilFloat64(notMinExclusivePtr, offsetIncrement))
-	y2 := util.MinFloatPtr(notMaxPtr, addIfNotNilFloat64(notMaxExclusivePtr, -offsetIncrement))
+	y1 := util.MaxFloatPtr(notMinPtr, nextAboveIfNotNil(notMinExclusivePtr))
+	y2 := util.MinFloatPtr(notMaxPtr, nextBelowIfNotNil(notMaxExclusivePtr))
 
 	// Edge case: No not constraints
 	if y1 == nil && y2 == nil {
 		return x1, x2, nil, nil
 	}
 
-	// Edge case: No original bounds -> Select upper bound
-	if x1 == nil && x2 == nil {
-		if y1 != nil {
-			newMax := *y1 - offsetIncrement
-			return nil, &newMax, nil, nil
-		}
-
-		if y2 != nil {
-			newMin := *y2 + offsetIncrement
-			return &newMin, nil, nil, nil
-		}
-
-		return nil, nil, nil, nil
-	}
-
 	// Resolve to numeric values
 	x1Val := util.GetZeroIfNil(x1, lowerBound)
 	x2Val := util.GetZeroIfNil(x2, upperBound)
@@ -979,34 +997,34 @@ func resolveBoundsFloat64(metadata *parserMetadata,
 
 	// No bounds overlap return original
 	if y2Val < x1Val || y1Val > x2Val {
-		return minToNilFloat64(x1Val, offsetIncrement), maxToNilFloat64(x2Val, offsetIncrement), nil, nil
+		return minToNilFloat64(x1Val), maxToNilFloat64(x2Val), nil, nil
 	}
 
 	// No valid range
 	if y1Val <= x1Val && y2Val >= x2Val {
 		warnField(metadata, maxFieldName, fmt.Errorf("while resolving not clauses %s and %s, no valid range exists that include [%f, %f] that excludes [%f, %f]", minFieldName, maxFieldName, x1Val, y1Val, y2Val, y1Val))
-		return minToNilFloat64(x1Val, offsetIncrement), maxToNilFloat64(x2Val, offsetIncrement), nil, nil
+		return minToNilFloat64(x1Val), maxToNilFloat64(x2Val), nil, nil
 	}
 
 	// Check lower side for overlap
 	if y1Val <= x1Val && y2Val < x2Val {
-		newMin := y2Val + offsetIncrement
-		return minToNilFloat64(newMin, offsetIncrement), maxToNilFloat64(x2Val, offsetIncrement), nil, nil
+		newMin := nextAbove(y2Val)
+		return minToNilFloat64(newMin), maxToNilFloat64(x2Val), nil, nil
 	}
 
 	// Check upper overlap
 	if y1Val > x1Val && y2Val >= x2Val {
-		newMax := y1Val - offsetIncrement
-		return minToNilFloat64(x1Val, offsetIncrement), maxToNilFloat64(newMax, offsetIncrement), nil, nil
+		newMax := nextBelow(y1Val)
+		return minToNilFloat64(x1Val), maxToNilFloat64(newMax), nil, nil
 	}
 
 	// Overlap in middle give both bounds
 	lowerBoundMin := x1Val
-	lowerBoundMax := y1Val - offsetIncrement
+	lowerBoundMax := nextBelow(y1Val)
 
-	upperBoundMin := y2Val + offsetIncrement
+	upperBoundMin := nextAbove(y2Val)
 	upperBoundMax := x2Val
-	return minToNilFloat64(lowerBoundMin, offsetIncrement), maxToNilFloat64(lowerBoundMax, offsetIncrement), minToNilFloat64(upperBoundMin, offsetIncrement), maxToNilFloat64(upperBoundMax, offsetIncrement)
+	return minToNilFloat64(lowerBoundMin), maxToNilFloat64(lowerBoundMax), minToNilFloat64(upperBoundMin), maxToNilFloat64(upperBoundMax)
 
 }
 
@@ -1027,36 +1045,46 @@ func maxToNil(max int) *int {
 	return &max
 }
 
-func minToNilFloat64(min float64, offsetIncrement float64) *float64 {
-	if min <= lowerBound+(offsetIncrement*10) {
+func minToNilFloat64(min float64) *float64 {
+	if min <= lowerBound {
 		return nil
 	}
 
 	return &min
 }
 
-func maxToNilFloat64(max float64, offsetIncrement float64) *float64 {
-	if max >= upperBound-(offsetIncrement*10) {
+func maxToNilFloat64(max float64) *float64 {
+	if max >= upperBound {
 		return nil
 	}
 	return &max
 }
 
-func addIfNotNilFloat64(value *float64, addition float64) *float64 {
+// The smallest number above the given one
+func nextAbove(value float64) float64 {
+	return math.Nextafter(value, math.Inf(1))
+}
+
+// The largest number below the given one
+func nextBelow(value float64) float64 {
+	return math.Nextafter(value, math.Inf(-1))
+}
+
+func nextAboveIfNotNil(value *float64) *float64 {
 	if value == nil {
 		return nil
 	}
 
-	newValue := *value + float64(addition)
+	newValue := nextAbove(*value)
 	return &newValue
 }
 
-func addIfNotNilInt(value *int, addition int) *int {
+func nextBelowIfNotNil(value *float64) *float64 {
 	if value == nil {
 		return nil
 	}
 
-	newValue := *value + int(addition)
+	newValue := nextBelow(*value)
 	return &newValue
 }
 
@@ -1067,20 +1095,21 @@ func computeValidMultipleOfValues(metadata *parserMetadata, min float64, max flo
 	iterations := 0
 	validValues := []float64{}
 
-	// Start from the first multiple of multipleOf that is >= min.
-	// Guard against overflow: when multipleOf is tiny (e.g. infinitesimal)
-	// and min is large, min/multipleOf overflows to ±Inf, so fall back to
-	// starting from min directly
-	start := min
-	if multipleOf > infinitesimal {
-		aligned := math.Ceil(min/multipleOf) * multipleOf
-		if !math.IsInf(aligned, 0) && !math.IsNaN(aligned) {
-			start = aligned
-		}
+	// Go through the multiples of multipleOf starting from a bound there is
+	start, step := firstMultipleWithin(min, multipleOf), 1.0
+	if min <= lowerBound && max >= upperBound {
+		start = 0
+	} else if min <= lowerBound {
+		start, step = lastMultipleWithin(max, multipleOf), -1.0
 	}
 
-	for value := start; value <= max; value += multipleOf {
-		if math.Mod(value, notMultipleOf) != 0 {
+	for k := start; ; k += step {
+		value := util.Round(k*multipleOf, multipleOf)
+		if value < min || value > max {
+			break
+		}
+
+		if util.Round(value, notMultipleOf) != value {
 			validValues = append(validValues, value)
 		}
 		iterations++
@@ -1096,13 +1125,13 @@ func computeValidMultipleOfValues(metadata *parserMetadata, min float64, max flo
 	return validValues, nil
 }
 
-func resolveBool(fieldName string, value *bool, notValue *bool) *bool {
+func resolveBool(metadata *parserMetadata, fieldName string, value *bool, notValue *bool) *bool {
 	if value == nil && notValue == nil {
 		return nil
 	}
 
 	if value != nil && notValue != nil && *value == *notValue {
-		warnField(nil, fieldName, fmt.Errorf("cannot have boolean value and its negation set to the same value"))
+		warnField(metadata, fieldName, fmt.Errorf("cannot have boolean value and its negation set to the same value"))
 		return value
 	}
 
-- 
2.43.0


From 210be47f3b9cd46443191dec4eb94ee1d22d654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 21/77] fix: keep integers that do not fit an int

---
 number.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/number.go b/number.go
index aa45ac5..9e5d2b6 100644
--- a/number.go
+++ b/number.go
@@ -225,7 +225,8 @@ func (g *numberGenerator) Generate(opts *GeneratorOptions) interface{} {
 		return 0.0
 	}
 
-	if g.Type == generatorTypeInteger {
+	// Integers of any size are valid, but not all fit an int
+	if g.Type == generatorTypeInteger && math.Abs(result) <= maxMultiples {
 		return int(result)
 	}
 
-- 
2.43.0


From b22fa0f3f0b93ecee4889a0d9d810df96c335954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 22/77] fix: leave the parser options of the caller alone

---
 parse.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index 41744f9..317a469 100644
--- a/parse.go
+++ b/parse.go
@@ -212,11 +212,12 @@ func ParseSchemaFile(path string, opts *ParserOptions) (RootGenerator, error) {
 	}
 
 	// Resolve relative path base for fetching external documents unless already set
-	if opts.RelativeTo == "" {
-		opts.RelativeTo = "file://" + path
+	fileOpts := *opts
+	if fileOpts.RelativeTo == "" {
+		fileOpts.RelativeTo = "file://" + path
 	}
 
-	return ParseSchema(data, opts)
+	return ParseSchema(data, &fileOpts)
 }
 
 // Parses a Json Schema file at the given path with default options. If there is an error reading the file or
-- 
2.43.0


From 6c03d7034359ad3907825412ed45de77fddf0ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 23/77] fix: resolve reference paths that end in a keyword, an
 index or escaped characters

---
 reference_path.go | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/reference_path.go b/reference_path.go
index 7c4a2bc..39f00be 100644
--- a/reference_path.go
+++ b/reference_path.go
@@ -2,6 +2,7 @@ package chaff
 
 import (
 	"fmt"
+	"net/url"
 	"regexp"
 	"strconv"
 	"strings"
@@ -22,13 +23,13 @@ func resolveSubReferencePath(node *schemaNode, refPath string, resolvedPath stri
 		return nil, fmt.Errorf("[%s] No schema node found", resolvedPath)
 	}
 
-	pathPart, path := getReferencePathToken(refPath)
-	resolvedPath = resolvedPath + "/" + pathPart
-
-	if path == "" {
+	if refPath == "" {
 		return node, nil
 	}
 
+	pathPart, path := getReferencePathToken(refPath)
+	resolvedPath = resolvedPath + "/" + pathPart
+
 	switch pathPart {
 	// Object
 	case "properties":
@@ -36,14 +37,14 @@ func resolveSubReferencePath(node *schemaNode, refPath string, resolvedPath stri
 	case "patternProperties":
 		return resolveReferenceProperty(node.PatternProperties, path, resolvedPath)
 	case "additionalProperties":
-		if node.AdditionalProperties.IsFalse {
-			return nil, fmt.Errorf("[%s] No schema node for additional properties", resolvedPath)
-		}
-
-		return resolveSubReferencePath(node.AdditionalProperties.Schema, path, resolvedPath)
+		return resolveFalseOrSchema(node.AdditionalProperties, path, resolvedPath)
 
 	// Array
 	case "items":
+		if node.Items == nil {
+			return nil, fmt.Errorf("[%s] No items defined", resolvedPath)
+		}
+
 		part, _ := getReferencePathToken(path)
 		match, err := regexp.MatchString(`^\d+$`, part)
 		if !match || err != nil {
@@ -93,7 +94,7 @@ func resolveSubReferencePath(node *schemaNode, refPath string, resolvedPath stri
 }
 
 func resolveFalseOrSchema(node *schemaNodeOrFalse, path string, resolvedPath string) (*schemaNode, error) {
-	if node.IsFalse {
+	if node == nil || node.IsFalse {
 		return nil, fmt.Errorf("[%s] No schema node for %s node is false", resolvedPath, path)
 	}
 
@@ -129,7 +130,7 @@ func resolveReferenceSlice(nodes *[]schemaNode, path string, resolvedPath string
 		return nil, fmt.Errorf("[%s] Invalid array index (Must be a number) %s", resolvedPath, part)
 	}
 
-	if len(*nodes) > partInt || partInt < 0 {
+	if partInt >= len(*nodes) || partInt < 0 {
 		return nil, fmt.Errorf("[%s] Array index out of bounds %d", resolvedPath, partInt)
 	}
 
@@ -143,9 +144,18 @@ var pathDeliminator = regexp.MustCompile(`\/`)
 // Get the first token of a reference path and the rest of the path
 func getReferencePathToken(pathRef string) (string, string) {
 	if !strings.Contains(pathRef, "/") {
-		return pathRef, ""
+		return decodeReferencePathToken(pathRef), ""
 	}
 
 	refPathParts := pathDeliminator.Split(pathRef, 2)
-	return refPathParts[0], refPathParts[1]
+	return decodeReferencePathToken(refPathParts[0]), refPathParts[1]
+}
+
+// Undoes the escaping of a token of a JSON pointer within a URL
+func decodeReferencePathToken(token string) string {
+	if unescaped, err := url.PathUnescape(token); err == nil {
+		token = unescaped
+	}
+
+	return strings.NewReplacer("~1", "/", "~0", "~").Replace(token)
 }
-- 
2.43.0


From c1c52e90bf7dbc1a2c90a55768d234ff2306d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 24/77] fix: parse references to locations that are not parsed
 in place, report those that do not exist

---
 document.go         |  8 ++++++++
 parse.go            |  7 ++++++-
 reference.go        |  2 ++
 reference_hander.go | 40 ++++++++++++++++++++++++++++++++++++++++
 4 files changed, 56 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index e9533a8..d007ae9 100644
--- a/document.go
+++ b/document.go
@@ -449,6 +449,14 @@ func (r *documentResolver) ParseNextDocument(metadata *parserMetadata) (string,
 	return nextDocumentId, nil
 }
 
+// EnterDocument makes a document that was loaded before the one being parsed and finds the given path in it
+func (r *documentResolver) EnterDocument(documentId string, path string) (*schemaNode, error) {
+	r.documentCurrentlyBeingParsedId = documentId
+	r.documentCurrentlyBeingResolvedId = documentId
+
+	return resolveReferencePath(r.documents[documentId], path)
+}
+
 // Resolves a document based on its reference
 func (r *documentResolver) resolveDocument(ref string) (*schemaNode, error) {
 	matches := util.RegexMatchNamedCaptureGroups(documentRegex, ref)
diff --git a/parse.go b/parse.go
index 317a469..5352227 100644
--- a/parse.go
+++ b/parse.go
@@ -272,7 +272,12 @@ func ParseSchema(schema []byte, opts *ParserOptions) (RootGenerator, error) {
 
 	generator, err := parseRoot(node, metadata)
 
-	for metadata.DocumentResolver.HasMoreDocumentsToParse() {
+	for metadata.DocumentResolver.HasMoreDocumentsToParse() || refHandler.HasRequiredReferences() {
+		if !metadata.DocumentResolver.HasMoreDocumentsToParse() {
+			refHandler.ParseNextRequiredReference(metadata)
+			continue
+		}
+
 		_, err := metadata.DocumentResolver.ParseNextDocument(metadata)
 		if err != nil {
 			metadata.Errors.AddErrorWithSubpath("document_parse_error", err)
diff --git a/reference.go b/reference.go
index b9cd8bb..1a5ef71 100644
--- a/reference.go
+++ b/reference.go
@@ -38,6 +38,8 @@ func parseReference(node schemaNode, metadata *parserMetadata) (Generator, error
 		return nil, fmt.Errorf("failed to handle deferred reference resolution for ref '%s': %w", *node.Ref, err)
 	}
 
+	metadata.ReferenceHandler.RequireReference(documentId, ref)
+
 	return referenceGenerator{
 		Document:         documentId,
 		ReferenceStr:     ref,
diff --git a/reference_hander.go b/reference_hander.go
index 8e35f80..ad64310 100644
--- a/reference_hander.go
+++ b/reference_hander.go
@@ -23,6 +23,15 @@ type (
 		CurrentPath      string
 		References       map[string]map[string]reference
 		Errors           map[string]map[string]error
+
+		// References generators will look up, in the order they were found in
+		requiredReferences []requiredReference
+	}
+
+	// Document and path of a reference that has to be there by the time values are generated
+	requiredReference struct {
+		document string
+		path     string
 	}
 
 	// This struct used to track a stack of resolved references
@@ -110,6 +119,37 @@ func (h *referenceHandler) Lookup(documentId string, path string) (reference, bo
 	return ref, ok
 }
 
+func (h *referenceHandler) RequireReference(documentId string, path string) {
+	h.requiredReferences = append(h.requiredReferences, requiredReference{document: documentId, path: path})
+}
+
+func (h *referenceHandler) HasRequiredReferences() bool {
+	return len(h.requiredReferences) > 0
+}
+
+// ParseNextRequiredReference parses what the next required reference points at, unless
+// that already was parsed in the course of parsing the document it is part of.
+func (h *referenceHandler) ParseNextRequiredReference(metadata *parserMetadata) {
+	required := h.requiredReferences[0]
+	h.requiredReferences = h.requiredReferences[1:]
+
+	if _, parsed := h.Lookup(required.document, required.path); parsed {
+		return
+	}
+
+	h.CurrentPath = required.path
+	defer func() { h.CurrentPath = "#" }()
+
+	node, err := h.documentResolver.EnterDocument(required.document, required.path)
+	if err != nil {
+		metadata.Errors.AddError(fmt.Errorf("failed to resolve reference to '%s' in document '%s': %w", required.path, required.document, err))
+		return
+	}
+
+	// Errors are collected while parsing
+	_, _ = h.ParseNodeInScope("", *node, metadata, schemaNode{Ref: &required.path})
+}
+
 func (r *referenceResolver) PushRefResolution(document string, reference string) {
 	r.resolutions = append(r.resolutions, fmt.Sprintf("%s|%s", document, reference))
 }
-- 
2.43.0


From 3b475852c714ea51894b0193145db46786a8f5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 25/77] fix: resolve references relative to the $id of the
 document, report documents that cannot be fetched

---
 document.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/document.go b/document.go
index d007ae9..4929164 100644
--- a/document.go
+++ b/document.go
@@ -494,16 +494,26 @@ func (r *documentResolver) resolveDocumentRef(documentID string, refPath string)
 
 	// Check $id alias table first — resolves bare-name refs like "color"
 	// to the real document + JSON pointer path with no I/O.
-	resolved := resolveRelativeURI(r.GetCurrentScope(), documentID)
-	if resolved != "" {
+	for _, baseURI := range r.currentBaseURIs() {
+		resolved := resolveRelativeURI(baseURI, documentID)
+		if resolved == "" {
+			continue
+		}
+
 		if alias, exists := r.idAliases[resolved]; exists {
 			return alias.documentId, composeJsonPointerPaths(alias.path, refPath), nil
 		}
+
+		for id, document := range r.documents {
+			if document != nil && document.Id != nil && strings.TrimSuffix(*document.Id, "#") == resolved {
+				return id, refPath, nil
+			}
+		}
 	}
 
 	// No alias found — fall back to I/O-based fetchers.
 	if r.HasNoFetchers() {
-		return r.GetCurrentScope(), refPath, nil
+		return "", "", fmt.Errorf("fetching of documents is not enabled, unable to resolve document '%s'", documentID)
 	}
 
 	fetcher, err := r.getFetcherForRef(documentID)
@@ -519,6 +529,17 @@ func (r *documentResolver) resolveDocumentRef(documentID string, refPath string)
 	return resolvedDocumentId, refPath, nil
 }
 
+// currentBaseURIs lists what references in the current scope might be relative to
+func (r *documentResolver) currentBaseURIs() []string {
+	scope := r.GetCurrentScope()
+	document := r.documents[scope]
+	if document != nil && document.Id != nil && isAbsoluteURI(*document.Id) {
+		return []string{scope, *document.Id}
+	}
+
+	return []string{scope}
+}
+
 // composeJsonPointerPaths appends the sub-path from a $ref onto an alias's
 // base path. For example, alias "#/$defs/color" + ref "#/type" = "#/$defs/color/type".
 // If refPath is "#" (root of the aliased resource), the alias path is returned as-is.
-- 
2.43.0


From cdd8167f839debf1a636ead409542ae3800b645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 26/77] fix: compile sub schemas at paths with any character

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 2481799..4d75422 100644
--- a/schema.go
+++ b/schema.go
@@ -23,7 +23,7 @@ type (
 	}
 )
 
-var pathSanitiseRegex = regexp.MustCompile(`[\/\#\-\.\,\s\.]`)
+var pathSanitiseRegex = regexp.MustCompile(`[^A-Za-z0-9_]`)
 
 // Create a new schema manager used to manage sub schema validators required for
 // conditional validators where generated values must be validated against the original schema
-- 
2.43.0


From edc1edfadb469b5919a17b93b2793ee2987bc5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 27/77] fix: allow for documents within the allowed paths, and
 those only

---
 fetchers.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/fetchers.go b/fetchers.go
index 2d47ae3..647e3eb 100644
--- a/fetchers.go
+++ b/fetchers.go
@@ -156,7 +156,12 @@ func (f *fileSystemDocumentFetcher) resolveDocumentId(relativeTo string, ref str
 		return "", fmt.Errorf("failed to resolve file path for URL '%s' relative to '%s': %w", ref, relativeTo, err)
 	}
 
-	if !f.allowOutsideCwd {
+	// Paths that are explicitly allowed override the check against the current working directory
+	if len(f.allowedPaths) == 0 {
+		if f.allowOutsideCwd {
+			return "file://" + resolvedPath, nil
+		}
+
 		outsideCwd, err := f.isOutsideOfCwd(resolvedPath)
 		if err != nil {
 			return "", fmt.Errorf("failed to check if path '%s' is outside of current working directory: %w", resolvedPath, err)
@@ -167,6 +172,8 @@ func (f *fileSystemDocumentFetcher) resolveDocumentId(relativeTo string, ref str
 		if outsideCwd {
 			return "", fmt.Errorf("access to path '%s' outside of current working directory '%s' is not allowed", resolvedPath, cwd)
 		}
+
+		return "file://" + resolvedPath, nil
 	}
 
 	outsideAllowedPaths, err := isOutsideOfAllowedPaths(resolvedPath, f.allowedPaths)
@@ -197,23 +204,22 @@ func (f *fileSystemDocumentFetcher) fetchDocument(resolvedPath string) (*schemaN
 }
 
 func (f *fileSystemDocumentFetcher) isOutsideOfCwd(path string) (bool, error) {
-	cwd, err := os.Getwd()
+	cwd, err := getRealPath(".")
 	if err != nil {
 		return false, fmt.Errorf("failed to get current working directory: %w", err)
 	}
 
-	diff, err := filepath.Rel(cwd, path)
-	return strings.Contains(diff, ".."), err
+	return isOutsideOfPath(path, cwd)
 }
 
 func isOutsideOfAllowedPaths(path string, allowedPaths []string) (bool, error) {
 	for _, allowedPath := range allowedPaths {
-		matched, err := filepath.Match(filepath.Join(allowedPath, "*"), path)
+		outside, err := isOutsideOfPath(path, allowedPath)
 		if err != nil {
 			return false, fmt.Errorf("failed to match path '%s' against allowed path '%s': %w", path, allowedPath, err)
 		}
 
-		if !matched {
+		if !outside {
 			return false, nil
 		}
 	}
@@ -221,6 +227,16 @@ func isOutsideOfAllowedPaths(path string, allowedPaths []string) (bool, error) {
 	return true, nil
 }
 
+// isOutsideOfPath checks if a path neither is the given parent nor is located below it
+func isOutsideOfPath(path string, parent string) (bool, error) {
+	diff, err := filepath.Rel(parent, path)
+	if err != nil {
+		return false, err
+	}
+
+	return diff == ".." || strings.HasPrefix(diff, ".."+string(filepath.Separator)), nil
+}
+
 func getRealPath(path string) (string, error) {
 	realPath, err := filepath.Abs(path)
 	if err != nil {
-- 
2.43.0


From c51bed0a678ba6ea88c5f403fe821eb50e4d2bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 28/77] fix: hold redirects to the allowed hosts and schemes,
 take the host of allowed hosts given as URLs

---
 fetchers.go | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/fetchers.go b/fetchers.go
index 647e3eb..c4122cb 100644
--- a/fetchers.go
+++ b/fetchers.go
@@ -31,6 +31,9 @@ type (
 	}
 )
 
+// As many redirects as the default http client follows
+const maxRedirects = 10
+
 func NewHttpDocumentFetcher(parserConfig HTTPFetchOptions) (documentFetcherInterface, error) {
 	allowedHosts := []string{}
 
@@ -41,7 +44,7 @@ func NewHttpDocumentFetcher(parserConfig HTTPFetchOptions) (documentFetcherInter
 	for _, host := range parserConfig.AllowedHosts {
 		parsedUrl, err := url.Parse(host)
 
-		if parsedUrl != nil && err != nil {
+		if err == nil && parsedUrl.Host != "" {
 			allowedHosts = append(allowedHosts, parsedUrl.Host)
 		} else {
 			allowedHosts = append(allowedHosts, host)
@@ -74,21 +77,39 @@ func (f *httpDocumentFetcher) resolveDocumentId(relativeTo string, ref string) (
 		resolvedUrl = baseUrl.ResolveReference(parsedUrl)
 	}
 
-	if !f.allowInsecure && resolvedUrl.Scheme != "https" {
-		return "", fmt.Errorf("insecure URL scheme '%s' not allowed for URL '%s'", parsedUrl.Scheme, ref)
+	if err := f.assertAllowed(resolvedUrl); err != nil {
+		return "", err
+	}
+
+	return resolvedUrl.String(), nil
+}
+
+func (f *httpDocumentFetcher) assertAllowed(target *url.URL) error {
+	if !f.allowInsecure && target.Scheme != "https" {
+		return fmt.Errorf("insecure URL scheme '%s' not allowed for URL '%s'", target.Scheme, target)
 	}
 
 	if len(f.allowedHosts) > 0 {
-		if !funk.Contains(f.allowedHosts, resolvedUrl.Host) {
-			return "", fmt.Errorf("host '%s' not allowed to be fetched from allowed hosts %s", resolvedUrl.Host, strings.Join(f.allowedHosts, ", "))
+		if !funk.Contains(f.allowedHosts, target.Host) {
+			return fmt.Errorf("host '%s' not allowed to be fetched from allowed hosts %s", target.Host, strings.Join(f.allowedHosts, ", "))
 		}
 	}
 
-	return resolvedUrl.String(), nil
+	return nil
+}
+
+// checkRedirect holds redirects to what documents are allowed to be fetched from
+func (f *httpDocumentFetcher) checkRedirect(req *http.Request, via []*http.Request) error {
+	if len(via) >= maxRedirects {
+		return fmt.Errorf("stopped after %d redirects", maxRedirects)
+	}
+
+	return f.assertAllowed(req.URL)
 }
 
 func (f *httpDocumentFetcher) fetchDocument(resolvedPath string) (*schemaNode, error) {
-	resp, err := http.Get(resolvedPath)
+	client := &http.Client{CheckRedirect: f.checkRedirect}
+	resp, err := client.Get(resolvedPath)
 	if err != nil {
 		return nil, fmt.Errorf("failed to fetch URL '%s': %w", resolvedPath, err)
 	}
-- 
2.43.0


From a6c843d15b29933b0bcc29daade1a3497f3f3732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 29/77] fix: resolve references relative to the document they
 are in after merging references

---
 document.go | 6 +++---
 merge.go    | 7 +++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/document.go b/document.go
index 4929164..fe2b5c3 100644
--- a/document.go
+++ b/document.go
@@ -558,13 +558,13 @@ func (r *documentResolver) getFetcherForRef(documentId string) (documentFetcherI
 	}
 
 	if url.Scheme == "" {
-		url, err = url.Parse(r.documentCurrentlyBeingParsedId)
+		url, err = url.Parse(r.GetCurrentScope())
 		if err != nil {
-			return nil, fmt.Errorf("failed to parse base document URL '%s': %w", r.documentCurrentlyBeingParsedId, err)
+			return nil, fmt.Errorf("failed to parse base document URL '%s': %w", r.GetCurrentScope(), err)
 		}
 
 		if url.Scheme == "" {
-			return nil, fmt.Errorf("document ID '%s' has no scheme and cannot be resolved against it or it's document root '%s'", documentId, r.documentCurrentlyBeingParsedId)
+			return nil, fmt.Errorf("document ID '%s' has no scheme and cannot be resolved against it or it's document root '%s'", documentId, r.GetCurrentScope())
 		}
 
 	}
diff --git a/merge.go b/merge.go
index 6d35c3e..ea037fa 100644
--- a/merge.go
+++ b/merge.go
@@ -91,10 +91,9 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		}
 
 		if resolvedReference {
-			// Pop the reference resolution and set the document being resolved back to the previous one
+			// Pop the reference resolution. References of resolved nodes were rewritten,
+			// so that the rest still is relative to the document being parsed
 			metadata.ReferenceResolver.PopRefResolution()
-			document, _ := metadata.ReferenceResolver.GetCurrentResolution()
-			metadata.DocumentResolver.SetDocumentBeingResolved(document)
 		}
 	}
 
@@ -564,7 +563,7 @@ func mergeResolveReference(metadata *parserMetadata, node schemaNode) (schemaNod
 	newNode, err := metadata.DocumentResolver.RewriteReferencesRelativeToDocument(*refNode)
 	if err != nil {
 		errPath := "/config_ref_rewrite_error"
-		formattedErr := fmt.Errorf("failed to rewrite references for ref [%s]: %e", *node.Ref, err)
+		formattedErr := fmt.Errorf("failed to rewrite references for ref [%s]: %w", *node.Ref, err)
 		metadata.Errors.AddErrorWithSubpath(errPath, formattedErr)
 		return schemaNode{}, formattedErr
 	}
-- 
2.43.0


From e19bc95aca9ec7929cd8a5e68368468c1ae974ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:13 +0000
Subject: [PATCH 30/77] fix: validate sub schemas against the documents their
 references are in

---
 document.go |  9 +++++++++
 schema.go   | 58 ++++++++++++++++++++++++++++++++---------------------
 2 files changed, 44 insertions(+), 23 deletions(-)

diff --git a/document.go b/document.go
index fe2b5c3..784d267 100644
--- a/document.go
+++ b/document.go
@@ -457,6 +457,15 @@ func (r *documentResolver) EnterDocument(documentId string, path string) (*schem
 	return resolveReferencePath(r.documents[documentId], path)
 }
 
+// LoadDocument gets the document with the given id, fetching it if it was not loaded before
+func (r *documentResolver) LoadDocument(documentId string) (*schemaNode, error) {
+	if document, loaded := r.documents[documentId]; loaded {
+		return document, nil
+	}
+
+	return r.resolveDocument(documentId)
+}
+
 // Resolves a document based on its reference
 func (r *documentResolver) resolveDocument(ref string) (*schemaNode, error) {
 	matches := util.RegexMatchNamedCaptureGroups(documentRegex, ref)
diff --git a/schema.go b/schema.go
index 4d75422..4ec541b 100644
--- a/schema.go
+++ b/schema.go
@@ -3,7 +3,6 @@ package chaff
 import (
 	"fmt"
 	"regexp"
-	"strings"
 
 	"github.com/ryanolee/go-chaff/internal/util"
 	"github.com/santhosh-tekuri/jsonschema/v6"
@@ -19,7 +18,9 @@ type (
 		subSchemaCount int
 	}
 
-	internalOnlyLoader struct {
+	// Loads documents the way references to them are resolved
+	documentLoader struct {
+		schemaManager *schemaManager
 	}
 )
 
@@ -31,18 +32,21 @@ var pathSanitiseRegex = regexp.MustCompile(`[^A-Za-z0-9_]`)
 func newSchemaManager(resolver *documentResolver, schemaJson []byte) (*schemaManager, error) {
 	jsonSchemaCompiler := jsonschema.NewCompiler()
 
+	sm := &schemaManager{
+		rootSchemaCompiler: jsonSchemaCompiler,
+		documentResolver:   resolver,
+	}
+
 	// To prevent external references from being inadvertently loaded or files from the local filesystem
-	// unless they are explicitly added to the schema manager by the upper level parser
-	jsonSchemaCompiler.UseLoader(internalOnlyLoader{})
+	// unless the document resolver allows for them
+	jsonSchemaCompiler.UseLoader(documentLoader{schemaManager: sm})
 
-	if err := jsonSchemaCompiler.AddResource(resolver.GetCurrentScope(), util.UnmarshalJsonStringToMap(string(schemaJson))); err != nil {
+	rootSchema := sm.replaceRefs(util.UnmarshalJsonStringToMap(string(schemaJson)))
+	if err := jsonSchemaCompiler.AddResource(resolver.GetCurrentScope(), rootSchema); err != nil {
 		return nil, err
 	}
 
-	return &schemaManager{
-		rootSchemaCompiler: jsonSchemaCompiler,
-		documentResolver:   resolver,
-	}, nil
+	return sm, nil
 }
 
 // Parses a schema node and creates a subdocument in the root schema compiler
@@ -67,23 +71,20 @@ func (sm *schemaManager) normalisePath(path string) string {
 	return pathSanitiseRegex.ReplaceAllString(path, "_")
 }
 
-// Recursively replaces all $ref values in the schema with links back to the root schema
+// Recursively replaces all $ref values in the schema with links to the documents they point into.
+// As the links are absolute no $id is needed to resolve them.
 func (sm *schemaManager) replaceRefs(data interface{}) interface{} {
 	switch v := data.(type) {
 	case map[string]interface{}:
-		if ref, ok := v["$ref"]; ok {
-			if refStr, ok := ref.(string); ok {
-				if strings.Contains(refStr, "://") {
-					// External cross-document refs (full URLs) can't be resolved
-					// by the internal-only compiler. Strip them so the sub-schema
-					// becomes permissive for that part. The go-chaff parser handles
-					// cross-document resolution separately at the parse level.
-					delete(v, "$ref")
-				} else {
-					v["$ref"] = sm.documentResolver.GetCurrentScope() + refStr
-				}
+		if ref, ok := v["$ref"].(string); ok {
+			// References that can not be resolved are left to fail when they are compiled
+			if documentId, path, err := sm.documentResolver.ResolveDocumentIdAndPath(ref); err == nil {
+				v["$ref"] = documentId + path
 			}
 		}
+		if _, ok := v["$id"].(string); ok {
+			delete(v, "$id")
+		}
 		for key, value := range v {
 			v[key] = sm.replaceRefs(value)
 		}
@@ -102,6 +103,17 @@ func (sm *schemaManager) CompilePath(path string) (*jsonschemaV6.Schema, error)
 	return sm.rootSchemaCompiler.Compile(sm.documentResolver.GetCurrentScope() + path)
 }
 
-func (l internalOnlyLoader) Load(url string) (any, error) {
-	return nil, fmt.Errorf("internal-only loader: external resource %q not available for schema validation", url)
+func (l documentLoader) Load(url string) (any, error) {
+	sm := l.schemaManager
+	document, err := sm.documentResolver.LoadDocument(url)
+	if err != nil {
+		return nil, fmt.Errorf("external resource %q not available for schema validation: %w", url, err)
+	}
+
+	// The references of the document are relative to it
+	scope := sm.documentResolver.GetCurrentScope()
+	sm.documentResolver.SetDocumentBeingResolved(url)
+	defer sm.documentResolver.SetDocumentBeingResolved(scope)
+
+	return sm.replaceRefs(util.UnmarshalJsonStringToMap(util.MarshalJsonToString(document))), nil
 }
-- 
2.43.0


From 4cedfec6b6e269f6e93e6058ab0e53a748958c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 31/77] fix: leave out combinations none of the allowed values
 are part of

---
 combination.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/combination.go b/combination.go
index 1faaf72..7316aa1 100644
--- a/combination.go
+++ b/combination.go
@@ -60,6 +60,10 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 
 		// No value matches a sub-schema that contradicts the schema it is part of
 		mergedNode, err := mergeSchemaNodes(metadata, baseNode, subSchema)
+		if err == nil {
+			err = assertAllowedValues(metadata, mergedNode)
+		}
+
 		if err != nil {
 			contradictions = append(contradictions, err)
 			continue
@@ -117,6 +121,28 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 	}, nil
 }
 
+// assertAllowedValues reports if the rest of a node matches none of the values its enum and const allow for
+func assertAllowedValues(metadata *parserMetadata, node schemaNode) error {
+	allowedValues := collectEnumValues(node)
+	if allowedValues == nil {
+		return nil
+	}
+
+	schema, err := metadata.SchemaManager.ParseSchemaNode(metadata, node, "values")
+	if err != nil {
+		// Not the values are at fault, parsing the node will report on what is
+		return nil
+	}
+
+	for _, value := range *allowedValues {
+		if schema.Validate(value) == nil {
+			return nil
+		}
+	}
+
+	return fmt.Errorf("none of the allowed values match the rest of the schema: %s", util.MarshalJsonToString(allowedValues))
+}
+
 func (g combinationGenerator) Generate(opts *GeneratorOptions) interface{} {
 	opts.overallComplexity++
 	if opts.ShouldCutoff() {
-- 
2.43.0


From 4cd2865d4ece03f15a2ff94785ebdb8adc21fb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 32/77] fix: require properties once when merging

---
 merge.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/merge.go b/merge.go
index ea037fa..b6b37e7 100644
--- a/merge.go
+++ b/merge.go
@@ -504,6 +504,11 @@ func mergeSchemaNodeSimpleProperties(metadata *parserMetadata, baseNode schemaNo
 
 	// Simple slice properties
 	baseNode.Required = util.MergeSlicePtrs(baseNode.Required, otherNode.Required)
+	if baseNode.Required != nil {
+		// The same property might be required by both
+		required := funk.UniqString(*baseNode.Required)
+		baseNode.Required = &required
+	}
 
 	// Simple boolean properties
 	if baseNode.UniqueItems == nil || !*baseNode.UniqueItems {
-- 
2.43.0


From 2de8bd4b28b1945d18c61790b01a035fd5d168bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 33/77] fix: generate for patterns any character matches, and
 for long unbounded repeats

---
 internal/regen/char_class.go         |  9 +++++++--
 internal/regen/internal_generator.go | 12 ++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/internal/regen/char_class.go b/internal/regen/char_class.go
index 8f3d843..9ab8351 100644
--- a/internal/regen/char_class.go
+++ b/internal/regen/char_class.go
@@ -57,7 +57,7 @@ e.g.
 func parseCharClass(runes []rune) *tCharClass {
 	var totalSize int32
 	numRanges := len(runes) / 2
-	ranges := make([]tCharClassRange, numRanges, numRanges)
+	ranges := make([]tCharClassRange, 0, numRanges)
 
 	for i := 0; i < numRanges; i++ {
 		
@@ -71,9 +71,14 @@ func parseCharClass(runes []rune) *tCharClass {
 			start = 1
 		}
 
+		// nothing but a null byte
+		if end < start {
+			continue
+		}
+
 		r := newCharClassRange(start, end)
 
-		ranges[i] = r
+		ranges = append(ranges, r)
 		totalSize += r.Size
 	}
 
diff --git a/internal/regen/internal_generator.go b/internal/regen/internal_generator.go
index 8bcf5ad..4c06198 100644
--- a/internal/regen/internal_generator.go
+++ b/internal/regen/internal_generator.go
@@ -19,8 +19,8 @@ package regen
 import (
 	"bytes"
 	"fmt"
-	"math"
 	"regexp/syntax"
+	"unicode"
 )
 
 // generatorFactory is a function that creates a random string generator from a regular expression AST.
@@ -133,7 +133,7 @@ func opAnyCharNotNl(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenera
 	if args.LimitToAscii {
 		charClass = newCharClass(32, 93) // Limit to printable ASCII characters.
 	} else {
-		charClass = newCharClass(0, rune(math.MaxInt32))
+		charClass = parseCharClass([]rune{0, '\n' - 1, '\n' + 1, unicode.MaxRune})
 	}
 	return createCharClassGenerator(regexp.String(), charClass, args)
 }
@@ -163,6 +163,10 @@ func opRepeat(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator, e
 func opCharClass(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator, error) {
 	enforceOp(regexp, syntax.OpCharClass)
 	charClass := parseCharClass(regexp.Rune)
+	if charClass.TotalSize == 0 {
+		return nil, generatorError(nil, "no character can be generated for /%s/", regexp)
+	}
+
 	return createCharClassGenerator(regexp.String(), charClass, args)
 }
 
@@ -269,6 +273,10 @@ func createRepeatingGenerator(regexp *syntax.Regexp, genArgs *GeneratorArgs, min
 	}
 	if max == noBound {
 		max = int(genArgs.MaxUnboundedRepeatCount)
+		// e.g. "a{5,}" where unbounded repeats are limited to less than 5
+		if max < min {
+			max = min
+		}
 	}
 
 	return &internalGenerator{regexp.String(), func() string {
-- 
2.43.0


From 607437d392a63a7ec486e89bc7f02b1c05667a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:49 +0000
Subject: [PATCH 34/77] fix: keep generated property names from taking the
 place of declared ones

---
 object.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/object.go b/object.go
index 5e3d2b6..482dc27 100644
--- a/object.go
+++ b/object.go
@@ -235,7 +235,7 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 		return generatedValues
 	} else if g.AdditionalProperties != nil {
 		for i := 0; i < generatorTarget; i++ {
-			generatedValues[fmt.Sprintf("additional_%d", i)] = g.AdditionalProperties.Generate(opts)
+			g.addNamedProperty(opts, generatedValues, "additional", i)
 		}
 	} else {
 		for i := 0; i < generatorTarget; i++ {
@@ -243,7 +243,7 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 				continue
 			}
 
-			generatedValues[fmt.Sprintf("fallback_%d", i)] = g.FallbackGenerator.Generate(opts)
+			g.addNamedProperty(opts, generatedValues, "fallback", i)
 		}
 	}
 
@@ -251,15 +251,9 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// results in fewer than the minimum number of properties being generated
 	// generate atleast the minimum number of properties required for satisfiability
 	if len(generatedValues) < min {
-		generator := g.FallbackGenerator
-		if g.AdditionalProperties != nil {
-			generator = g.AdditionalProperties
-		}
-
 		for i := len(generatedValues); i < min; i++ {
-			generatedValues[fmt.Sprintf("min_filler_%d", i)] = generator.Generate(opts)
+			g.addNamedProperty(opts, generatedValues, "min_filler", i)
 		}
-
 	}
 
 	return generatedValues
@@ -280,6 +274,23 @@ func (g objectGenerator) generatorForProperty(name string) Generator {
 	return g.AdditionalProperties
 }
 
+// Adds a property by the first name of the form prefix_n (From the given index on) that there is none by yet.
+// The name might be one that the schema has properties or patternProperties for.
+func (g objectGenerator) addNamedProperty(opts *GeneratorOptions, generatedValues map[string]interface{}, prefix string, index int) {
+	name := fmt.Sprintf("%s_%d", prefix, index)
+	for _, exists := generatedValues[name]; exists; _, exists = generatedValues[name] {
+		index++
+		name = fmt.Sprintf("%s_%d", prefix, index)
+	}
+
+	generator := g.generatorForProperty(name)
+	if generator == nil {
+		generator = g.FallbackGenerator
+	}
+
+	generatedValues[name] = generator.Generate(opts)
+}
+
 // Adds a random pattern property unless there already is a property by its name
 func (g objectGenerator) addPatternProperty(opts *GeneratorOptions, generatedValues map[string]interface{}) {
 	name, value := g.GeneratePatternProperty(opts)
-- 
2.43.0


From 399abcc1f00e20e93175636c94a6c5757821b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:12 +0000
Subject: [PATCH 35/77] fix: report required properties that are not allowed,
 leave out branches that ask for them

---
 merge.go  |  3 +++
 object.go | 30 ++++++++++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/merge.go b/merge.go
index b6b37e7..530e21d 100644
--- a/merge.go
+++ b/merge.go
@@ -121,6 +121,9 @@ func assertMergedBounds(node schemaNode) error {
 	case typeArray:
 		return assertMergedRange("Items", node.MinItems, node.MaxItems)
 	case typeObject:
+		if err := assertRequiredAllowed(node); err != nil {
+			return err
+		}
 		return assertMergedRange("Properties", node.MinProperties, node.MaxProperties)
 	}
 
diff --git a/object.go b/object.go
index 482dc27..85932f9 100644
--- a/object.go
+++ b/object.go
@@ -65,6 +65,10 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, fmt.Errorf("required properties must have a length of less than or equal to MaxProperties (Max Properties: %d, Length of required %d)", maxProperties, len(requiredProperties))
 	}
 
+	if err := assertRequiredAllowed(node); err != nil {
+		return nullGenerator{}, err
+	}
+
 	// Validate additionalProperties
 	additionalProperties := util.GetZeroIfNil(node.AdditionalProperties, schemaNodeOrFalse{})
 	if additionalProperties.IsFalse && node.PatternProperties == nil && minProperties > len(properties) {
@@ -92,6 +96,32 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	return objectGenerator, nil
 }
 
+// assertRequiredAllowed reports required properties that additionalProperties does not allow for
+func assertRequiredAllowed(node schemaNode) error {
+	if node.AdditionalProperties == nil || !node.AdditionalProperties.IsFalse {
+		return nil
+	}
+
+	for _, key := range util.GetZeroIfNil(node.Required, []string{}) {
+		if _, ok := util.GetZeroIfNil(node.Properties, map[string]schemaNode{})[key]; ok {
+			continue
+		}
+
+		allowed := false
+		for pattern := range util.GetZeroIfNil(node.PatternProperties, map[string]schemaNode{}) {
+			// Patterns that do not compile are reported on while they are parsed
+			matches, err := regexp.MatchString(pattern, key)
+			allowed = allowed || matches || err != nil
+		}
+
+		if !allowed {
+			return fmt.Errorf("property %q is required but additional properties are not allowed", key)
+		}
+	}
+
+	return nil
+}
+
 func parseProperties(node schemaNode, metadata *parserMetadata) map[string]Generator {
 	properties := make(map[string]Generator)
 	if node.Properties == nil {
-- 
2.43.0


From 2515eb2e0fa4de18f9101d475fe78efbc8c0d01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:14 +0000
Subject: [PATCH 36/77] fix: keep allOf and constraints of the parts of a
 schema that a not leaves alone

---
 not.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/not.go b/not.go
index 131d216..9c35d84 100644
--- a/not.go
+++ b/not.go
@@ -224,6 +224,7 @@ func notMerge(metadata *parserMetadata, node schemaNode, notNode schemaNode) (sc
 			newNode.mergedNot = append(newNode.mergedNot, node.Not)
 		}
 	}
+	newNode.AllOf = node.AllOf
 	newNode.OneOf = node.OneOf
 	newNode.AnyOf = node.AnyOf
 	newNode.Ref = node.Ref
@@ -757,8 +758,9 @@ func notMergeItemData(metadata *parserMetadata, nodePtr *itemsData, notNodePtr *
 }
 
 func notMergeSchemaNodeOrFalse(scope string, metadata *parserMetadata, nodePtr *schemaNodeOrFalse, notNodePtr *schemaNodeOrFalse) *schemaNodeOrFalse {
-	if nodePtr == nil && notNodePtr == nil {
-		return nil
+	// Nothing to negate
+	if notNodePtr == nil {
+		return nodePtr
 	}
 
 	node := util.GetZeroIfNil(nodePtr, schemaNodeOrFalse{})
@@ -784,8 +786,9 @@ func notMergeSchemaNodeOrFalse(scope string, metadata *parserMetadata, nodePtr *
 }
 
 func notMergePrefixNodes(metadata *parserMetadata, nodePrefixItemsPtr *[]schemaNode, notNodePrefixItemsPtr *[]schemaNode, additionalItems itemsData) *[]schemaNode {
-	if nodePrefixItemsPtr == nil && notNodePrefixItemsPtr == nil {
-		return nil
+	// Nothing to negate
+	if notNodePrefixItemsPtr == nil {
+		return nodePrefixItemsPtr
 	}
 
 	nodePrefixItems := util.GetZeroIfNil(nodePrefixItemsPtr, []schemaNode{})
-- 
2.43.0


From 9f9549a662d5979694e7070a7ce9dd8c13605f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:51 +0000
Subject: [PATCH 37/77] fix: stop at the maximum parse depth for a not that
 refers to itself

---
 not.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/not.go b/not.go
index 9c35d84..bd932a4 100644
--- a/not.go
+++ b/not.go
@@ -72,8 +72,9 @@ func parseNot(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	}
 
 	if len(notNodes) == 0 {
-		// No single-not nodes remain — parse normally
-		return parseSchemaNode(node, metadata)
+		// No single-not nodes remain — parse normally (As a node of its own
+		// as a not that refers to the schema it is in might never run out)
+		return parseNode(node, metadata)
 	}
 
 	// Flatten the existing structure
-- 
2.43.0


From 3112ad8f4eddad3ff4c3659c8f71dd7b33c24bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 38/77] fix: report sub-schemas beyond the maximum parse depth

---
 parse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 5352227..b6b154b 100644
--- a/parse.go
+++ b/parse.go
@@ -302,7 +302,9 @@ func parseNode(node schemaNode, metadata *parserMetadata) (Generator, error) {
 
 	maxDepth := metadata.ParserOptions.MaxParseDepth
 	if metadata.ParseDepth > maxDepth {
-		return nullGenerator{}, fmt.Errorf("maximum parse depth (%d) exceeded, possible circular schema reference", maxDepth)
+		err := fmt.Errorf("maximum parse depth (%d) exceeded, possible circular schema reference", maxDepth)
+		metadata.Errors.AddError(err)
+		return nullGenerator{}, err
 	}
 
 	refHandler := metadata.ReferenceHandler
-- 
2.43.0


From 5b79db5f21770bbeb037a8166f32ac5e68c989de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 39/77] fix: use the options for patternProperties for those

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index b6b154b..6544b75 100644
--- a/parse.go
+++ b/parse.go
@@ -442,7 +442,7 @@ func withDefaultParseOptions(opts ParserOptions) ParserOptions {
 	}
 
 	parseOpts.RegexStringOptions = util.GetPtr(parseOpts.RegexStringOptions, defaultRegexOpts)
-	parseOpts.RegexPatternPropertyOptions = util.GetPtr(parseOpts.RegexStringOptions, defaultRegexOpts)
+	parseOpts.RegexPatternPropertyOptions = util.GetPtr(parseOpts.RegexPatternPropertyOptions, defaultRegexOpts)
 
 	return parseOpts
 }
-- 
2.43.0


From 9b1a7d6c13542910bda3fbb818eab0e6fc4461f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 40/77] fix: report tuples without additional items that are
 shorter than minItems

---
 array.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/array.go b/array.go
index 84199de..d3df5c1 100644
--- a/array.go
+++ b/array.go
@@ -87,6 +87,10 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	// Force the generator to use only the tuple in the event that additional items
 	// are not allowed
 	if disallowedAdditionalItems {
+		if minItems > tupleLength {
+			return nullGenerator{}, fmt.Errorf("minItems must be less than or equal to the length of the tuple where additional items are not allowed (minItems: %d, tupleLength: %d)", minItems, tupleLength)
+		}
+
 		min = tupleLength
 		max = tupleLength
 		hasMax = true
-- 
2.43.0


From 32927207f235876a15cb5a58f857d8eb89a8cb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 41/77] fix: report unknown types and empty enums

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 6544b75..0622115 100644
--- a/parse.go
+++ b/parse.go
@@ -370,7 +370,7 @@ func parseSchemaNode(node schemaNode, metadata *parserMetadata) (Generator, erro
 	}
 
 	// Handle enum nodes
-	if node.Enum != nil && len(*node.Enum) != 0 {
+	if node.Enum != nil {
 		return parseEnum(node, metadata)
 	}
 
@@ -422,7 +422,7 @@ func parseType(nodeType string, node schemaNode, metadata *parserMetadata) (Gene
 	case typeNull:
 		return parseNull(node)
 	default:
-		return nullGenerator{}, nil
+		return nullGenerator{}, fmt.Errorf("unknown type: %q", nodeType)
 	}
 }
 
-- 
2.43.0


From fd59ff1f0342ef23e7592b2c07f8ed811b4c7c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 42/77] fix: report dependentRequired and dependentSchemas that
 are part of an allOf

---
 merge.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/merge.go b/merge.go
index 530e21d..5dec929 100644
--- a/merge.go
+++ b/merge.go
@@ -72,6 +72,10 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		// Merge simple properties
 		mergedNode = mergeSchemaNodeSimpleProperties(metadata, mergedNode, node)
 
+		// Neither is supported, which is reported on while the merged node is parsed
+		mergedNode.DependentRequired = mergeMaps(mergedNode.DependentRequired, node.DependentRequired)
+		mergedNode.DependentSchemas = mergeMaps(mergedNode.DependentSchemas, node.DependentSchemas)
+
 		// Propagate not-constraints from prior processing (e.g., notMerge sets
 		// .constraints on sub-nodes). Accumulate them so that sequential merges
 		// don't lose earlier exclusions.
@@ -102,6 +106,20 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 	return mergedNode, errors.Join(contradictions...)
 }
 
+func mergeMaps[V any](merged map[string]V, other map[string]V) map[string]V {
+	if len(other) == 0 {
+		return merged
+	}
+
+	result := make(map[string]V, len(merged)+len(other))
+	for _, values := range []map[string]V{merged, other} {
+		for key, value := range values {
+			result[key] = value
+		}
+	}
+	return result
+}
+
 // assertMergedBounds reports the lower bounds that ended up above the upper bounds
 // for nodes that only allow for a single type of value.
 func assertMergedBounds(node schemaNode) error {
-- 
2.43.0


From aad7bac7fb0cf0afd2b3f2ef23eab52b7bd0b03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 43/77] fix: draw optional properties and names of
 patternProperties from the source of randomness of the options

---
 internal/util/util.go |  9 +++++++++
 object.go             |  8 ++++----
 rand/random.go        | 17 +++++++++++------
 3 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 3b8664b..1678c77 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"math"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -312,3 +313,11 @@ func MapKeysToStringSlice[T any](maps ...*map[string]T) []string {
 
 	return result
 }
+
+// Extract the keys of a map in an order that is the same every time
+func SortedKeys[T any](values map[string]T) []string {
+	keys := MapKeysToStringSlice(&values)
+	sort.Strings(keys)
+
+	return keys
+}
diff --git a/object.go b/object.go
index 85932f9..95fe285 100644
--- a/object.go
+++ b/object.go
@@ -209,7 +209,7 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 
 	// Generate A random distribution of optional properties, pattern properties, and additional properties
 	// (Using a fallback generator if none are available)
-	optionalKeys := funk.FilterString(funk.Keys(g.Properties).([]string), func(key string) bool {
+	optionalKeys := funk.FilterString(util.SortedKeys(g.Properties), func(key string) bool {
 		return !funk.ContainsString(g.Required, key)
 	})
 
@@ -295,9 +295,9 @@ func (g objectGenerator) generatorForProperty(name string) Generator {
 		return generator
 	}
 
-	for pattern, generator := range g.PatternProperties {
+	for _, pattern := range util.SortedKeys(g.PatternProperties) {
 		if matches, err := regexp.MatchString(pattern, name); err == nil && matches {
-			return generator
+			return g.PatternProperties[pattern]
 		}
 	}
 
@@ -334,7 +334,7 @@ func (g objectGenerator) GeneratePatternProperty(opts *GeneratorOptions) (string
 		return "", nil
 	}
 
-	availableRegexes := funk.Keys(g.PatternProperties).([]string)
+	availableRegexes := util.SortedKeys(g.PatternProperties)
 	targetRegex := opts.Rand.StringChoice(&availableRegexes)
 	targetRegexGenerator := g.PatternPropertiesRegex[targetRegex]
 	targetGenerator := g.PatternProperties[targetRegex]
diff --git a/rand/random.go b/rand/random.go
index f4f2692..13942e5 100644
--- a/rand/random.go
+++ b/rand/random.go
@@ -3,8 +3,6 @@ package rand
 import (
 	"math/rand"
 	"time"
-
-	"github.com/thoas/go-funk"
 )
 
 type RandUtil struct {
@@ -45,14 +43,21 @@ func (sr *RandUtil) StringChoice(stringSlice *[]string) string {
 
 func (sr *RandUtil) StringChoiceMultiple(stringSlice *[]string, numChoices int) []string {
 	// Pick NumChoices random choices from the string slice without duplicates
-	choices := funk.Shuffle(*stringSlice).([]string)
+	choices := make([]string, 0, numChoices)
+	for _, i := range sr.Rand.Perm(len(*stringSlice))[:numChoices] {
+		choices = append(choices, (*stringSlice)[i])
+	}
 
-	return choices[:numChoices]
+	return choices
 }
 
-// @todo - Reimplement to use std rand source
 func (sr *RandUtil) Shuffle(in []interface{}) []interface{} {
-	return funk.Shuffle(in).([]interface{})
+	shuffled := make([]interface{}, 0, len(in))
+	for _, i := range sr.Rand.Perm(len(in)) {
+		shuffled = append(shuffled, in[i])
+	}
+
+	return shuffled
 }
 
 // Int functions
-- 
2.43.0


From e36cfcc001f4fa724796bceda534b45e90965973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 44/77] fix: return const and enum values the caller can change
 without changing those generated next

---
 const.go              |  2 +-
 enum.go               |  2 +-
 internal/util/util.go | 22 ++++++++++++++++++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/const.go b/const.go
index b97c51f..fa9bd22 100644
--- a/const.go
+++ b/const.go
@@ -39,7 +39,7 @@ func parseConst(node schemaNode, metadata *parserMetadata) (Generator, error) {
 }
 
 func (g constGenerator) Generate(opts *GeneratorOptions) interface{} {
-	return g.Value
+	return util.CopyJsonValue(g.Value)
 }
 
 func (g constGenerator) String() string {
diff --git a/enum.go b/enum.go
index 75048ba..f8dc8b9 100644
--- a/enum.go
+++ b/enum.go
@@ -52,7 +52,7 @@ func parseEnum(node schemaNode, metadata *parserMetadata) (Generator, error) {
 
 func (g enumGenerator) Generate(opts *GeneratorOptions) interface{} {
 	opts.overallComplexity++
-	return opts.Rand.Choice(g.Values)
+	return util.CopyJsonValue(opts.Rand.Choice(g.Values))
 }
 
 func (g enumGenerator) String() string {
diff --git a/internal/util/util.go b/internal/util/util.go
index 1678c77..6f0ccff 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -321,3 +321,25 @@ func SortedKeys[T any](values map[string]T) []string {
 
 	return keys
 }
+
+// Copies a value made up of JSON data types so that changes to the copy do not affect the original
+func CopyJsonValue(value interface{}) interface{} {
+	switch v := value.(type) {
+	case map[string]interface{}:
+		result := make(map[string]interface{}, len(v))
+		for key, item := range v {
+			result[key] = CopyJsonValue(item)
+		}
+
+		return result
+	case []interface{}:
+		result := make([]interface{}, len(v))
+		for i, item := range v {
+			result[i] = CopyJsonValue(item)
+		}
+
+		return result
+	default:
+		return value
+	}
+}
-- 
2.43.0


From 8c72afbefa8bc5c1e6ce9ac09e5e580cd6e27acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 45/77] fix: leave out alternatives that contradict in a
 property or item they require

---
 merge.go | 104 +++++++++++++++++++++++++++++++++++++++++++++----------
 not.go   |   4 ++-
 2 files changed, 88 insertions(+), 20 deletions(-)

diff --git a/merge.go b/merge.go
index 5dec929..312dd91 100644
--- a/merge.go
+++ b/merge.go
@@ -19,6 +19,7 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 
 	// Values that nothing can satisfy after the merge
 	contradictions := []error{}
+	fields := newFieldContradictions()
 
 	for _, node := range nodes {
 		node, resolvedReference := mergeResolveNodeRef(metadata, node)
@@ -48,14 +49,14 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		contradictions = append(contradictions, typeErr, enumErr)
 
 		// Merge object properties
-		mergedProperties := mergeProperties(metadata, mergedNode, node)
+		mergedProperties := mergeProperties(metadata, mergedNode, node, fields)
 		mergedPatternProperties := mergePatternProperties(metadata, mergedNode, node)
 		mergedNode.Properties, mergedNode.PatternProperties = mergedProperties, mergedPatternProperties
 		mergedNode.AdditionalProperties = mergeNodeOrFalse(metadata, mergedNode.AdditionalProperties, node.AdditionalProperties, "additionalProperties")
 
 		// Merge array items
-		mergedNode.PrefixItems = mergePrefixItems(metadata, mergedNode, node)
-		mergedNode.Items = mergeItemsData(metadata, mergedNode.Items, node.Items)
+		mergedNode.PrefixItems = mergePrefixItems(metadata, mergedNode, node, fields)
+		mergedNode.Items = mergeItemsData(metadata, mergedNode.Items, node.Items, fields)
 		mergedNode.AdditionalItems = mergeNodeOrFalse(metadata, mergedNode.AdditionalItems, node.AdditionalItems, "additionalItems")
 		mergedNode.UnevaluatedItems = mergeNodeOrFalse(metadata, mergedNode.UnevaluatedItems, node.UnevaluatedItems, "unevaluatedItems")
 		mergedNode.Contains = mergeSchemaPtrs(metadata, "contains", mergedNode.Contains, node.Contains)
@@ -102,10 +103,59 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 	}
 
 	mergedNode, err := flattenResidualAllOf(metadata, mergedNode)
-	contradictions = append(contradictions, err, assertMergedBounds(mergedNode))
+	contradictions = append(contradictions, err, assertMergedBounds(mergedNode), fields.Assert(metadata, mergedNode))
 	return mergedNode, errors.Join(contradictions...)
 }
 
+// fieldContradictions are the properties and items no value satisfies after a merge.
+// A schema that does not ask for any of them still can be satisfied.
+type fieldContradictions struct {
+	properties  map[string]error
+	prefixItems map[int]error
+	items       error
+}
+
+func newFieldContradictions() *fieldContradictions {
+	return &fieldContradictions{
+		properties:  map[string]error{},
+		prefixItems: map[int]error{},
+	}
+}
+
+// Assert returns the contradictions the merged node can not do without, and reports all others
+func (f *fieldContradictions) Assert(metadata *parserMetadata, mergedNode schemaNode) error {
+	contradictions := []error{}
+	onlyObjects := mergedNode.Type != nil && mergedNode.Type.SingleType == typeObject
+	onlyArrays := mergedNode.Type != nil && mergedNode.Type.SingleType == typeArray
+
+	for key, err := range f.properties {
+		if onlyObjects && funk.ContainsString(util.GetZeroIfNil(mergedNode.Required, []string{}), key) {
+			contradictions = append(contradictions, fmt.Errorf("error merging field properties/%s: %w", key, err))
+			continue
+		}
+		warnPropertyMergeError(metadata, key, err)
+	}
+
+	minItems := util.GetZeroIfNil(mergedNode.MinItems, 0)
+	for i, err := range f.prefixItems {
+		if onlyArrays && i < minItems {
+			contradictions = append(contradictions, fmt.Errorf("error merging field prefixItems/%d: %w", i, err))
+			continue
+		}
+		warnConfigMergeError(metadata, fmt.Sprintf("prefixItems/%d", i), err)
+	}
+
+	if f.items != nil {
+		if onlyArrays && len(util.GetZeroIfNil(mergedNode.PrefixItems, []schemaNode{})) < minItems {
+			contradictions = append(contradictions, fmt.Errorf("error merging field items: %w", f.items))
+		} else {
+			warnConfigMergeError(metadata, "items", f.items)
+		}
+	}
+
+	return errors.Join(contradictions...)
+}
+
 func mergeMaps[V any](merged map[string]V, other map[string]V) map[string]V {
 	if len(other) == 0 {
 		return merged
@@ -256,7 +306,7 @@ func mergeEnumAndConst(mergedNode schemaNode, node schemaNode) (schemaNode, erro
 // governed by the patternProperties and additionalProperties of the other side.
 // Keys nothing else governs are assigned directly so that any $ref they contain
 // is preserved for lazy resolution.
-func mergeProperties(metadata *parserMetadata, mergedNode schemaNode, node schemaNode) *map[string]schemaNode {
+func mergeProperties(metadata *parserMetadata, mergedNode schemaNode, node schemaNode, fields *fieldContradictions) *map[string]schemaNode {
 	if mergedNode.Properties == nil && node.Properties == nil {
 		return nil
 	}
@@ -267,12 +317,16 @@ func mergeProperties(metadata *parserMetadata, mergedNode schemaNode, node schem
 
 	for key, value := range left {
 		other, inBoth := right[key]
-		mergeProperty(metadata, mergedProperties, key, value, other, inBoth, node)
+		if err := mergeProperty(metadata, mergedProperties, key, value, other, inBoth, node); err != nil {
+			fields.properties[key] = err
+		}
 	}
 
 	for key, value := range right {
 		if _, inBoth := left[key]; !inBoth {
-			mergeProperty(metadata, mergedProperties, key, value, schemaNode{}, false, mergedNode)
+			if err := mergeProperty(metadata, mergedProperties, key, value, schemaNode{}, false, mergedNode); err != nil {
+				fields.properties[key] = err
+			}
 		}
 	}
 
@@ -281,7 +335,7 @@ func mergeProperties(metadata *parserMetadata, mergedNode schemaNode, node schem
 
 // mergeProperty adds a property to the merged properties, along with everything
 // the other side of the merge demands of it.
-func mergeProperty(metadata *parserMetadata, mergedProperties map[string]schemaNode, key string, value schemaNode, other schemaNode, inBoth bool, otherSide schemaNode) {
+func mergeProperty(metadata *parserMetadata, mergedProperties map[string]schemaNode, key string, value schemaNode, other schemaNode, inBoth bool, otherSide schemaNode) error {
 	nodes := []schemaNode{value}
 	if inBoth {
 		nodes = append(nodes, other)
@@ -299,7 +353,7 @@ func mergeProperty(metadata *parserMetadata, mergedProperties map[string]schemaN
 	if !governed && otherSide.AdditionalProperties != nil {
 		// The other side does not allow for this property at all
 		if otherSide.AdditionalProperties.IsFalse {
-			return
+			return nil
 		}
 
 		if otherSide.AdditionalProperties.Schema != nil {
@@ -309,16 +363,12 @@ func mergeProperty(metadata *parserMetadata, mergedProperties map[string]schemaN
 
 	if len(nodes) == 1 {
 		mergedProperties[key] = value
-		return
+		return nil
 	}
 
 	merged, err := mergeSchemaNodes(metadata, nodes...)
-	if err != nil {
-		errPath := fmt.Sprintf("/properties/%s/config_merge_error", key)
-		metadata.Errors.AddErrorWithSubpath(errPath, err)
-		warnConfigMergeError(metadata, fmt.Sprintf("properties/%s", key), err)
-	}
 	mergedProperties[key] = merged
+	return err
 }
 
 // mergePatternProperties merges two sets of pattern properties using the same
@@ -372,7 +422,7 @@ func mergePatternProperties(metadata *parserMetadata, mergedNode schemaNode, nod
 // mergePrefixItems merges two prefix-item arrays by position. Where both sides
 // have an entry at the same index they are recursively merged; an index only one
 // side has an entry for is governed by the "items" of the other side.
-func mergePrefixItems(metadata *parserMetadata, mergedNode schemaNode, node schemaNode) *[]schemaNode {
+func mergePrefixItems(metadata *parserMetadata, mergedNode schemaNode, node schemaNode, fields *fieldContradictions) *[]schemaNode {
 	if node.PrefixItems == nil && mergedNode.PrefixItems == nil {
 		return nil
 	}
@@ -407,7 +457,7 @@ func mergePrefixItems(metadata *parserMetadata, mergedNode schemaNode, node sche
 		if other != nil {
 			merged, err := mergeSchemaNodes(metadata, item, *other)
 			if err != nil {
-				warnConfigMergeError(metadata, fmt.Sprintf("prefixItems/%d", i), err)
+				fields.prefixItems[i] = err
 			}
 			item = merged
 		}
@@ -545,6 +595,11 @@ func warnIfBothSetAndAreDifferent[T comparable](metadata *parserMetadata, field
 	}
 }
 
+func warnPropertyMergeError(metadata *parserMetadata, key string, err error) {
+	metadata.Errors.AddErrorWithSubpath(fmt.Sprintf("/properties/%s/config_merge_error", key), err)
+	warnConfigMergeError(metadata, fmt.Sprintf("properties/%s", key), err)
+}
+
 func warnConfigMergeError(metadata *parserMetadata, field string, err error) {
 	metadata.Errors.AddErrorWithSubpath("/config_merge_error", fmt.Errorf("error merging field %s: %w", field, err))
 }
@@ -635,7 +690,7 @@ func mergeSchemaTypes(mergedSchemaType *multipleType, nodeType *multipleType) (*
 }
 
 // Merges items data (Legacy support for "items" merging not supported)
-func mergeItemsData(parserMetadata *parserMetadata, mergedData *itemsData, nodeData *itemsData) *itemsData {
+func mergeItemsData(parserMetadata *parserMetadata, mergedData *itemsData, nodeData *itemsData, fields *fieldContradictions) *itemsData {
 	if nodeData == nil {
 		return mergedData
 	}
@@ -656,8 +711,19 @@ func mergeItemsData(parserMetadata *parserMetadata, mergedData *itemsData, nodeD
 		return mergedData
 	}
 
+	if mergedData.Node == nil || nodeData.Node == nil {
+		return &itemsData{
+			Node: mergeSchemaPtrs(parserMetadata, "items", mergedData.Node, nodeData.Node),
+		}
+	}
+
+	merged, err := mergeSchemaNodes(parserMetadata, *mergedData.Node, *nodeData.Node)
+	if err != nil {
+		fields.items = err
+	}
+
 	return &itemsData{
-		Node: mergeSchemaPtrs(parserMetadata, "items", mergedData.Node, nodeData.Node),
+		Node: &merged,
 	}
 }
 
diff --git a/not.go b/not.go
index bd932a4..2d65b92 100644
--- a/not.go
+++ b/not.go
@@ -592,7 +592,9 @@ func notApplyObject(metadata *parserMetadata, newNode *schemaNode, constraintCol
 		if !inNode {
 			// The node might not allow for the property, or only with certain values
 			allowedProperties := map[string]schemaNode{}
-			mergeProperty(metadata, allowedProperties, propertyKey, schemaNode{}, schemaNode{}, false, node)
+			if err := mergeProperty(metadata, allowedProperties, propertyKey, schemaNode{}, schemaNode{}, false, node); err != nil {
+				warnPropertyMergeError(metadata, propertyKey, err)
+			}
 
 			if property, inNode = allowedProperties[propertyKey]; !inNode {
 				continue
-- 
2.43.0


From d37968650234b3d0fd7950b249d3c9b2fae49f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 46/77] fix: keep the contains of contains, merge alternatives
 with the types of their schema and report nothing on those left out

---
 array.go       |  1 -
 combination.go | 10 ++++++++--
 error.go       | 16 ++++++++++++++++
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/array.go b/array.go
index d3df5c1..3bfe458 100644
--- a/array.go
+++ b/array.go
@@ -214,7 +214,6 @@ func parseContainsGeneratorInScope(node schemaNode, metadata *parserMetadata) (G
 		if err != nil {
 			return nil, fmt.Errorf("error merging 'contains' with 'items' schema: %w", err)
 		}
-		mergedContains.Contains = nil
 	}
 
 	return metadata.ReferenceHandler.ParseNodeInScope("/contains", mergedContains, metadata)
diff --git a/combination.go b/combination.go
index 7316aa1..d45e522 100644
--- a/combination.go
+++ b/combination.go
@@ -48,6 +48,7 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 	contradictions := []error{}
 
 	for i, subSchema := range target {
+		reported := metadata.Errors.Snapshot()
 		baseNode, _ := mergeSchemaNodes(metadata, node)
 		// Stop infinite recursion during merge
 		if nodeType == "oneOf" {
@@ -65,6 +66,8 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 		}
 
 		if err != nil {
+			// Nor is there anything to report on a sub-schema that is left out
+			metadata.Errors.Restore(reported)
 			contradictions = append(contradictions, err)
 			continue
 		}
@@ -87,9 +90,12 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 	if len(oneOf) > 1 {
 		stubNode := newEmptySchemaNode()
 		resolvedNodes := []schemaNode{}
-		for _, node := range oneOf {
-			resolvedNode, err := mergeSchemaNodes(metadata, node)
+		for _, subSchema := range oneOf {
+			// All generated values are of the types of the schema the alternatives are part of
+			reported := metadata.Errors.Snapshot()
+			resolvedNode, err := mergeSchemaNodes(metadata, subSchema, schemaNode{Type: node.Type})
 			if err != nil {
+				metadata.Errors.Restore(reported)
 				continue
 			}
 
diff --git a/error.go b/error.go
index 6dbec19..af0386f 100644
--- a/error.go
+++ b/error.go
@@ -2,6 +2,7 @@ package chaff
 
 import (
 	"fmt"
+	"maps"
 )
 
 type (
@@ -37,6 +38,21 @@ func (ec *errorCollection) AddError(err error) {
 	ec.AddErrorWithSubpath("", err)
 }
 
+// Snapshot returns the errors collected so far
+func (ec *errorCollection) Snapshot() map[string]map[string]error {
+	snapshot := make(map[string]map[string]error, len(ec.Errors))
+	for document, errors := range ec.Errors {
+		snapshot[document] = maps.Clone(errors)
+	}
+
+	return snapshot
+}
+
+// Restore drops the errors collected since the given snapshot was taken
+func (ec *errorCollection) Restore(snapshot map[string]map[string]error) {
+	ec.Errors = snapshot
+}
+
 func (ec *errorCollection) HasErrors() bool {
 	return len(ec.Errors) > 0
 }
-- 
2.43.0


From 27a2e4ae8fadbbbb5d04171c477878c1041723a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 47/77] fix: hold validators to the documents that are allowed
 to be fetched

---
 document.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/document.go b/document.go
index 784d267..59e9c56 100644
--- a/document.go
+++ b/document.go
@@ -457,13 +457,23 @@ func (r *documentResolver) EnterDocument(documentId string, path string) (*schem
 	return resolveReferencePath(r.documents[documentId], path)
 }
 
-// LoadDocument gets the document with the given id, fetching it if it was not loaded before
+// LoadDocument gets the document with the given id, fetching it if it was not loaded before and is allowed to be fetched
 func (r *documentResolver) LoadDocument(documentId string) (*schemaNode, error) {
 	if document, loaded := r.documents[documentId]; loaded {
 		return document, nil
 	}
 
-	return r.resolveDocument(documentId)
+	fetcher, err := r.getFetcherForRef(documentId)
+	if err != nil {
+		return nil, err
+	}
+
+	resolvedDocumentId, err := fetcher.resolveDocumentId(r.GetCurrentScope(), documentId)
+	if err != nil {
+		return nil, err
+	}
+
+	return r.resolveDocument(resolvedDocumentId)
 }
 
 // Resolves a document based on its reference
-- 
2.43.0


From 5f4a2ace639db6fe0fec69635ab7076b502c5239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 48/77] fix: fetch documents for schemas from stdin as the
 flags allow for

---
 cli/cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/cli.go b/cli/cli.go
index a59bc6c..c654ecb 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -74,7 +74,7 @@ func main() {
 		checkErr(err)
 	} else if hasStdin() {
 		stdin := readStdin()
-		generator, err = chaff.ParseSchemaWithDefaults(stdin)
+		generator, err = chaff.ParseSchema(stdin, parserOptions)
 		checkErr(err)
 	} else {
 		checkErr(fmt.Errorf("no schema specified! (On Stdin or through the --file flag)"))
-- 
2.43.0


From c37c717c2100ced6326c7ca8891413ccb20c41ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 49/77] fix: allow for no host over http(s) unless named by
 -allowed-hosts

---
 cli/cli.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/cli.go b/cli/cli.go
index c654ecb..4f938bd 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -122,7 +122,8 @@ func main() {
 }
 
 func getHttpDocumentFetcherOptionsFromFlags(allowedHosts *string, allowInsecure *bool) chaff.HTTPFetchOptions {
-	if (allowedHosts != nil && *allowedHosts == "") && (allowInsecure == nil || !*allowInsecure) {
+	// Without any hosts nothing is allowed to be fetched
+	if allowedHosts == nil || *allowedHosts == "" {
 		return chaff.HTTPFetchOptions{}
 	}
 
-- 
2.43.0


From 991070ab4992dc982c3a32be0185588cd7a3aaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 50/77] fix: leave it to the file system to assert that the
 output file is new

---
 cli/cli.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cli/cli.go b/cli/cli.go
index 4f938bd..fef5268 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -155,14 +155,12 @@ func parseCommaSeparatedList(input *string) []string {
 }
 
 func writeFile(data []byte, filepath string) {
-	_, err := os.Stat(filepath)
-
-	if !errors.Is(err, os.ErrNotExist) {
+	// Have the file system assert that the file is a new one, others might create it at the same time
+	file, err := os.OpenFile(filepath, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
+	if errors.Is(err, os.ErrExist) {
 		checkErr(fmt.Errorf("file '%s' already exists", filepath))
 	}
 
-	file, err := os.Create(filepath)
-
 	checkErr(err)
 	_, err = file.Write(data)
 	checkErr(err)
-- 
2.43.0


From 7791f45afda46246ec5ca6aa1b8778899861e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:39 +0000
Subject: [PATCH 51/77] fix: write the paths of files as URLs, whatever
 characters they are made of

---
 document.go |  2 +-
 fetchers.go | 27 +++++++++++++++++++++------
 parse.go    |  2 +-
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/document.go b/document.go
index 59e9c56..51137aa 100644
--- a/document.go
+++ b/document.go
@@ -81,7 +81,7 @@ func newDocumentResolver(opts ParserOptions, rootDocument *schemaNode) (*documen
 		if err != nil {
 			opts.RelativeTo = "file://./"
 		} else {
-			opts.RelativeTo = "file://" + cwd + "/"
+			opts.RelativeTo = pathToFileUrl(cwd + "/")
 		}
 
 		resolvedRootDocumentId = opts.RelativeTo + rootDocumentId
diff --git a/fetchers.go b/fetchers.go
index c4122cb..6b1660f 100644
--- a/fetchers.go
+++ b/fetchers.go
@@ -164,10 +164,10 @@ func (f *fileSystemDocumentFetcher) resolveDocumentId(relativeTo string, ref str
 		return "", fmt.Errorf("invalid file URL scheme '%s' for URL '%s'", parsedUrl.Scheme, ref)
 	}
 
-	filePath := strings.TrimPrefix(ref, "file://")
+	filePath := fileUrlToPath(ref)
 
 	// Resolve against the file path we are relative to
-	relativeToDir := filepath.Dir(strings.TrimPrefix(relativeTo, "file://"))
+	relativeToDir := filepath.Dir(fileUrlToPath(relativeTo))
 	if !filepath.IsAbs(filePath) {
 		filePath = filepath.Join(relativeToDir, filePath)
 	}
@@ -180,7 +180,7 @@ func (f *fileSystemDocumentFetcher) resolveDocumentId(relativeTo string, ref str
 	// Paths that are explicitly allowed override the check against the current working directory
 	if len(f.allowedPaths) == 0 {
 		if f.allowOutsideCwd {
-			return "file://" + resolvedPath, nil
+			return pathToFileUrl(resolvedPath), nil
 		}
 
 		outsideCwd, err := f.isOutsideOfCwd(resolvedPath)
@@ -194,7 +194,7 @@ func (f *fileSystemDocumentFetcher) resolveDocumentId(relativeTo string, ref str
 			return "", fmt.Errorf("access to path '%s' outside of current working directory '%s' is not allowed", resolvedPath, cwd)
 		}
 
-		return "file://" + resolvedPath, nil
+		return pathToFileUrl(resolvedPath), nil
 	}
 
 	outsideAllowedPaths, err := isOutsideOfAllowedPaths(resolvedPath, f.allowedPaths)
@@ -206,11 +206,11 @@ func (f *fileSystemDocumentFetcher) resolveDocumentId(relativeTo string, ref str
 		return "", fmt.Errorf("access to path '%s' is not allowed. Only paths files in the following paths are allowed: %s", resolvedPath, strings.Join(f.allowedPaths, ", "))
 	}
 
-	return "file://" + resolvedPath, nil
+	return pathToFileUrl(resolvedPath), nil
 }
 
 func (f *fileSystemDocumentFetcher) fetchDocument(resolvedPath string) (*schemaNode, error) {
-	resolvedPath = strings.TrimPrefix(resolvedPath, "file://")
+	resolvedPath = fileUrlToPath(resolvedPath)
 	fileData, err := os.ReadFile(resolvedPath)
 	if err != nil {
 		return nil, fmt.Errorf("failed to read file at path '%s': %w", resolvedPath, err)
@@ -258,6 +258,21 @@ func isOutsideOfPath(path string, parent string) (bool, error) {
 	return diff == ".." || strings.HasPrefix(diff, ".."+string(filepath.Separator)), nil
 }
 
+// fileUrlToPath gives the path a file URL (or the path of one) points to
+func fileUrlToPath(fileUrl string) string {
+	path := strings.TrimPrefix(fileUrl, "file://")
+	if unescaped, err := url.PathUnescape(path); err == nil {
+		return unescaped
+	}
+
+	return path
+}
+
+// pathToFileUrl gives the URL of a file, whatever characters its path is made of
+func pathToFileUrl(path string) string {
+	return "file://" + (&url.URL{Path: path}).EscapedPath()
+}
+
 func getRealPath(path string) (string, error) {
 	realPath, err := filepath.Abs(path)
 	if err != nil {
diff --git a/parse.go b/parse.go
index 0622115..3fd2a18 100644
--- a/parse.go
+++ b/parse.go
@@ -214,7 +214,7 @@ func ParseSchemaFile(path string, opts *ParserOptions) (RootGenerator, error) {
 	// Resolve relative path base for fetching external documents unless already set
 	fileOpts := *opts
 	if fileOpts.RelativeTo == "" {
-		fileOpts.RelativeTo = "file://" + path
+		fileOpts.RelativeTo = pathToFileUrl(path)
 	}
 
 	return ParseSchema(data, &fileOpts)
-- 
2.43.0


From 1b4ccb88cda22399d2a15a2f52c2266f829797db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:39 +0000
Subject: [PATCH 52/77] fix: keep keywords in another case from being taken for
 the ones they are alike

---
 json.go | 49 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/json.go b/json.go
index edc5946..d0ac804 100644
--- a/json.go
+++ b/json.go
@@ -2,6 +2,8 @@ package chaff
 
 import (
 	"encoding/json"
+	"reflect"
+	"strings"
 )
 
 type (
@@ -158,7 +160,54 @@ func (s *schemaNodeOrFalse) MarshalJSON() ([]byte, error) {
 // Standard json.Unmarshal treats {"const": null} and an absent "const" key
 // identically (*interface{} → nil in both cases). The secondary raw-key pass
 // below detects when "const" is explicitly present so the pointer is non-nil.
+// Keywords a schema node has fields for
+var schemaKeywords = func() map[string]bool {
+	keywords := map[string]bool{}
+	node := reflect.TypeOf(schemaNode{})
+	for i := 0; i < node.NumField(); i++ {
+		keyword, _, _ := strings.Cut(node.Field(i).Tag.Get("json"), ",")
+		if keyword != "" {
+			keywords[keyword] = true
+		}
+	}
+	return keywords
+}()
+
+// Keywords are case sensitive, where fields are matched in any case: leave out what only would be a keyword in another case
+func withoutMiscasedKeywords(data []byte) ([]byte, error) {
+	var raw map[string]json.RawMessage
+	if err := json.Unmarshal(data, &raw); err != nil {
+		// Not an object, so there are no keywords
+		return data, nil
+	}
+
+	keywordsRemoved := false
+	for key := range raw {
+		if schemaKeywords[key] {
+			continue
+		}
+
+		for keyword := range schemaKeywords {
+			if strings.EqualFold(key, keyword) {
+				delete(raw, key)
+				keywordsRemoved = true
+			}
+		}
+	}
+
+	if !keywordsRemoved {
+		return data, nil
+	}
+
+	return json.Marshal(raw)
+}
+
 func (s *schemaNode) UnmarshalJSON(data []byte) error {
+	data, err := withoutMiscasedKeywords(data)
+	if err != nil {
+		return err
+	}
+
 	type schemaNodeAlias schemaNode
 	var alias schemaNodeAlias
 	if err := json.Unmarshal(data, &alias); err != nil {
-- 
2.43.0


From e2c08577910e4017c288dd11125b50022685e1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 53/77] fix: tell references and ids from data that looks like
 them

---
 document.go | 55 +++++++++++++++--------------------------------------
 schema.go   | 32 +++++++++++++------------------
 walk.go     | 23 +++++++++++++++++++++-
 3 files changed, 50 insertions(+), 60 deletions(-)

diff --git a/document.go b/document.go
index 51137aa..815b32f 100644
--- a/document.go
+++ b/document.go
@@ -182,50 +182,25 @@ func (r *documentResolver) RewriteReferencesRelativeToDocument(node schemaNode)
 	return newNode, nil
 }
 
-func (r *documentResolver) rewriteReferencesRelativeToDocumentInGenericNode(genericNode genericNode) (genericNode, error) {
-	for key, value := range genericNode {
-		if key == "$ref" {
-			refStr, ok := value.(string)
-
-			// If the value under $ref is not a string, skip it
-			// for polymorphic schemas that may have non-string $ref values
-			// { "properties": {"$ref": {...}}
-			if !ok {
-				return genericNode, nil
-			}
-
-			documentId, path, err := r.ResolveDocumentIdAndPath(refStr)
-			if err != nil {
-				return genericNode, fmt.Errorf("failed to resolve document ID and path for ref '%s': %w", refStr, err)
-			}
-
-			// Rewrite the reference to be relative to the given document ID
-			genericNode["$ref"] = fmt.Sprintf("%s%s", documentId, path)
+func (r *documentResolver) rewriteReferencesRelativeToDocumentInGenericNode(root genericNode) (genericNode, error) {
+	var rewriteErr error
+	walkSchema(root, "", func(node map[string]interface{}, _ string) {
+		refStr, ok := node["$ref"].(string)
+		if !ok || rewriteErr != nil {
+			return
 		}
 
-		// Recursively traverse nested objects
-		switch v := value.(type) {
-		case map[string]interface{}:
-			rewrittenNode, err := r.rewriteReferencesRelativeToDocumentInGenericNode(v)
-			if err != nil {
-				return genericNode, err
-			}
-			genericNode[key] = rewrittenNode
-		case []interface{}:
-			for i, item := range v {
-				if itemMap, ok := item.(map[string]interface{}); ok {
-					rewrittenItem, err := r.rewriteReferencesRelativeToDocumentInGenericNode(itemMap)
-					if err != nil {
-						return genericNode, err
-					}
-					v[i] = rewrittenItem
-				}
-			}
-			genericNode[key] = v
+		documentId, path, err := r.ResolveDocumentIdAndPath(refStr)
+		if err != nil {
+			rewriteErr = fmt.Errorf("failed to resolve document ID and path for ref '%s': %w", refStr, err)
+			return
 		}
-	}
 
-	return genericNode, nil
+		// Rewrite the reference to be relative to the given document ID
+		node["$ref"] = fmt.Sprintf("%s%s", documentId, path)
+	})
+
+	return root, rewriteErr
 }
 
 func (r *documentResolver) SetDocumentBeingResolved(documentId string) {
diff --git a/schema.go b/schema.go
index 4ec541b..a10c6f0 100644
--- a/schema.go
+++ b/schema.go
@@ -74,29 +74,23 @@ func (sm *schemaManager) normalisePath(path string) string {
 // Recursively replaces all $ref values in the schema with links to the documents they point into.
 // As the links are absolute no $id is needed to resolve them.
 func (sm *schemaManager) replaceRefs(data interface{}) interface{} {
-	switch v := data.(type) {
-	case map[string]interface{}:
-		if ref, ok := v["$ref"].(string); ok {
+	root, ok := data.(map[string]interface{})
+	if !ok {
+		return data
+	}
+
+	walkSchema(root, "", func(node map[string]interface{}, _ string) {
+		if ref, ok := node["$ref"].(string); ok {
 			// References that can not be resolved are left to fail when they are compiled
 			if documentId, path, err := sm.documentResolver.ResolveDocumentIdAndPath(ref); err == nil {
-				v["$ref"] = documentId + path
+				node["$ref"] = documentId + path
 			}
 		}
-		if _, ok := v["$id"].(string); ok {
-			delete(v, "$id")
-		}
-		for key, value := range v {
-			v[key] = sm.replaceRefs(value)
-		}
-		return v
-	case []interface{}:
-		for i, item := range v {
-			v[i] = sm.replaceRefs(item)
-		}
-		return v
-	default:
-		return v
-	}
+
+		delete(node, "$id")
+	})
+
+	return root
 }
 
 func (sm *schemaManager) CompilePath(path string) (*jsonschemaV6.Schema, error) {
diff --git a/walk.go b/walk.go
index a6f0dc5..8cca8d7 100644
--- a/walk.go
+++ b/walk.go
@@ -2,16 +2,37 @@ package chaff
 
 import "fmt"
 
-// WalkSchema recursively visits every JSON object node in a schema tree.
+var (
+	// Keywords whose values are data, whatever they look like
+	dataKeywords = map[string]bool{"const": true, "enum": true, "default": true, "examples": true}
+
+	// Keywords whose values are schemas by name
+	namedSchemaKeywords = map[string]bool{"properties": true, "patternProperties": true, "$defs": true, "definitions": true, "dependentSchemas": true}
+)
+
+// WalkSchema recursively visits every schema in a schema tree.
 // The visitor is called for each node, parents before children.
 // path tracks the JSON pointer path (e.g. "/properties/name").
 func walkSchema(node map[string]interface{}, path string, visit func(node map[string]interface{}, path string)) {
 	visit(node, path)
 
 	for key, value := range node {
+		if dataKeywords[key] {
+			continue
+		}
+
 		childPath := path + "/" + key
 
 		if obj, ok := value.(map[string]interface{}); ok {
+			if namedSchemaKeywords[key] {
+				for name, item := range obj {
+					if schema, ok := item.(map[string]interface{}); ok {
+						walkSchema(schema, childPath+"/"+name, visit)
+					}
+				}
+				continue
+			}
+
 			walkSchema(obj, childPath, visit)
 			continue
 		}
-- 
2.43.0


From cfa59f005d99139e6bcb1d948948b2abf191b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 54/77] fix: escape the names $id paths lead through

---
 reference_path.go | 5 +++++
 walk.go           | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/reference_path.go b/reference_path.go
index 39f00be..c6cecdc 100644
--- a/reference_path.go
+++ b/reference_path.go
@@ -159,3 +159,8 @@ func decodeReferencePathToken(token string) string {
 
 	return strings.NewReplacer("~1", "/", "~0", "~").Replace(token)
 }
+
+// Escapes a key for it to be a token of a JSON pointer within a URL
+func encodeReferencePathToken(key string) string {
+	return url.PathEscape(strings.NewReplacer("~", "~0", "/", "~1").Replace(key))
+}
diff --git a/walk.go b/walk.go
index 8cca8d7..11980c7 100644
--- a/walk.go
+++ b/walk.go
@@ -21,13 +21,13 @@ func walkSchema(node map[string]interface{}, path string, visit func(node map[st
 			continue
 		}
 
-		childPath := path + "/" + key
+		childPath := path + "/" + encodeReferencePathToken(key)
 
 		if obj, ok := value.(map[string]interface{}); ok {
 			if namedSchemaKeywords[key] {
 				for name, item := range obj {
 					if schema, ok := item.(map[string]interface{}); ok {
-						walkSchema(schema, childPath+"/"+name, visit)
+						walkSchema(schema, childPath+"/"+encodeReferencePathToken(name), visit)
 					}
 				}
 				continue
-- 
2.43.0


From ff323d55ebd465a31d073517867926b362de0722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:08 +0000
Subject: [PATCH 55/77] fix: take length for the unknown keyword it is

---
 merge.go | 2 --
 not.go   | 1 -
 parse.go | 3 +--
 3 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/merge.go b/merge.go
index 312dd91..500fa90 100644
--- a/merge.go
+++ b/merge.go
@@ -546,8 +546,6 @@ func flattenResidualAllOf(metadata *parserMetadata, mergedNode schemaNode) (sche
 
 func mergeSchemaNodeSimpleProperties(metadata *parserMetadata, baseNode schemaNode, otherNode schemaNode) schemaNode {
 
-	warnIfBothSetAndAreDifferent(metadata, "length", otherNode.Length, baseNode.Length)
-	baseNode.Length = util.GetPtr(otherNode.Length, baseNode.Length)
 
 	// Merge simple int properties
 	baseNode.MinProperties = util.MaxFloatPtr(otherNode.MinProperties, baseNode.MinProperties)
diff --git a/not.go b/not.go
index 2d65b92..0c63d60 100644
--- a/not.go
+++ b/not.go
@@ -232,7 +232,6 @@ func notMerge(metadata *parserMetadata, node schemaNode, notNode schemaNode) (sc
 	newNode.Defs = node.Defs
 	newNode.Definitions = node.Definitions
 	newNode.Id = node.Id
-	newNode.Length = node.Length
 	newNode.DependentRequired = node.DependentRequired
 	newNode.DependentSchemas = node.DependentSchemas
 	newNode.If = node.If
diff --git a/parse.go b/parse.go
index 3fd2a18..110a60d 100644
--- a/parse.go
+++ b/parse.go
@@ -95,8 +95,7 @@ type (
 
 	schemaNode struct {
 		// Shared Properties
-		Type   *multipleType `json:"type,omitempty"`
-		Length *int          `json:"length,omitempty"` // Shared by String and Array
+		Type *multipleType `json:"type,omitempty"`
 
 		// Object Properties
 		Properties           *map[string]schemaNode `json:"properties,omitempty"`
-- 
2.43.0


From 7c4d6424ee0ade68e102a6d2db52167a56ac4217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:46 +0000
Subject: [PATCH 56/77] fix: hold arrays to maxContains, and to a contains that
 only the members of a tuple can match

---
 array.go | 111 +++++++++++++++++++++++++++++++++++++++++++++++++++++--
 not.go   |  37 ++++++++++++-------
 2 files changed, 130 insertions(+), 18 deletions(-)

diff --git a/array.go b/array.go
index 3bfe458..bd9a7b5 100644
--- a/array.go
+++ b/array.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/ryanolee/go-chaff/internal/util"
+	jsonschemaV6 "github.com/santhosh-tekuri/jsonschema/v6"
 	"github.com/thoas/go-funk"
 )
 
@@ -18,6 +19,9 @@ type (
 
 		UniqueItems bool
 
+		// Set where the number of items that match contains has to be watched
+		Contains *containsConstraint
+
 		MinContains int
 		MinItems    int
 		MaxItems    int
@@ -26,6 +30,14 @@ type (
 		DisallowAdditional bool
 		schemaNode         schemaNode
 	}
+
+	// Bounds for how many items match the "contains" of an array
+	containsConstraint struct {
+		schema         *jsonschemaV6.Schema
+		minContains    int
+		maxContains    int
+		hasMaxContains bool
+	}
 )
 
 // Parses the "array" keyword of a schema
@@ -49,7 +61,7 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 
 	if node.Contains == nil {
 		minContains = 0
-	} else if minContains == 0 {
+	} else if node.MinContains == nil {
 		minContains = 1
 	}
 
@@ -62,6 +74,10 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, err
 	}
 
+	if node.Contains != nil && node.MaxContains != nil && minContains > maxContains {
+		return nullGenerator{}, fmt.Errorf("minContains must be less than or equal to maxContains (minContains: %d, maxContains: %d)", minContains, maxContains)
+	}
+
 	if err := assertLowerUpperBound(len(prefixItems)+minContains, maxItems, "Tuple items Plus Prefix items. (Note contains does not assume tuple items count towards the total account)", "minItems"); err != nil {
 		return nullGenerator{}, err
 	}
@@ -125,7 +141,18 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		}
 	}
 
-	return arrayGenerator{
+	// Items that are not generated for contains might still match it
+	var contains *containsConstraint
+	if node.Contains != nil && (node.MaxContains != nil || disallowedAdditionalItems) {
+		containsSchema, err := metadata.SchemaManager.ParseSchemaNode(metadata, *node.Contains, "contains")
+		if err != nil {
+			return nullGenerator{}, fmt.Errorf("failed to compile schema for contains: %w", err)
+		}
+
+		contains = &containsConstraint{schema: containsSchema, minContains: minContains, maxContains: maxContains, hasMaxContains: node.MaxContains != nil}
+	}
+
+	generator := arrayGenerator{
 		TupleGenerators: tupleGenerators,
 		ItemGenerator:   itemGenerator,
 
@@ -137,6 +164,7 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 
 		MinContains:       minContains,
 		ContainsGenerator: containsGenerator,
+		Contains:          contains,
 
 		MinItems:    min,
 		MaxItems:    max,
@@ -145,6 +173,15 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		UniqueItems: util.GetZeroIfNil(node.UniqueItems, false),
 
 		schemaNode: node,
+	}
+
+	if contains == nil {
+		return generator, nil
+	}
+
+	return constrainedGenerator{
+		internalGenerator: generator,
+		constraints:       []constraint{contains},
 	}, nil
 }
 
@@ -214,6 +251,11 @@ func parseContainsGeneratorInScope(node schemaNode, metadata *parserMetadata) (G
 		if err != nil {
 			return nil, fmt.Errorf("error merging 'contains' with 'items' schema: %w", err)
 		}
+	} else if node.AdditionalItems != nil && node.AdditionalItems.Schema != nil {
+		mergedContains, err = mergeSchemaNodes(metadata, *node.AdditionalItems.Schema, *node.Contains)
+		if err != nil {
+			return nil, fmt.Errorf("error merging 'contains' with 'additionalItems' schema: %w", err)
+		}
 	}
 
 	return metadata.ReferenceHandler.ParseNodeInScope("/contains", mergedContains, metadata)
@@ -265,7 +307,12 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// Handle cases where no min items are handled
 	minContains := 0
 	if g.ContainsGenerator != nil {
-		minContains = util.GetInt(g.MinContains, 1)
+		minContains = g.MinContains
+	}
+
+	// Items of the tuple might already be as many as are allowed
+	if g.Contains != nil && g.Contains.hasMaxContains {
+		minContains = util.MaxInt(0, minContains-g.Contains.countMatches(arrayData))
 	}
 
 	// Generate any required "contains" items
@@ -293,7 +340,7 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// Generate the remaining items up to a random number
 	// (This might skew the distribution of the length of the array)
 	for i := 0; i < itemsToGenerate || minItems > len(arrayData); i++ {
-		item, ok := g.generateConsideringUnique(opts, itemGen, arrayData)
+		item, ok := g.generateConsideringContains(opts, itemGen, arrayData)
 
 		if !ok && len(arrayData) >= minItems {
 			// If we are unable to generate a unique item, and we have already satisfied the minimum
@@ -316,6 +363,62 @@ func (g arrayGenerator) String() string {
 	return fmt.Sprintf("ArrayGenerator{items: %s, tuple: [%s] }", g.ItemGenerator, tupleString)
 }
 
+// Will attempt to generate an item that does not match contains once there are as many as are allowed
+func (g arrayGenerator) generateConsideringContains(opts *GeneratorOptions, itemGenerator Generator, arrayData []interface{}) (interface{}, bool) {
+	item, ok := g.generateConsideringUnique(opts, itemGenerator, arrayData)
+	if g.Contains == nil || !g.Contains.hasMaxContains || g.Contains.countMatches(arrayData) < g.Contains.maxContains {
+		return item, ok
+	}
+
+	for i := 0; ok && g.Contains.matches(item); i++ {
+		if i >= opts.ScaledRetryBudget(opts.MaximumUniqueGeneratorAttempts) {
+			return item, false
+		}
+
+		item, ok = g.generateConsideringUnique(opts, itemGenerator, arrayData)
+	}
+
+	return item, ok
+}
+
+func (c *containsConstraint) matches(item interface{}) bool {
+	return c.schema.Validate(item) == nil
+}
+
+func (c *containsConstraint) countMatches(items []interface{}) int {
+	matches := 0
+	for _, item := range items {
+		if c.matches(item) {
+			matches++
+		}
+	}
+
+	return matches
+}
+
+func (c *containsConstraint) Apply(generator Generator, generatorOptions *GeneratorOptions, generatedValue interface{}) interface{} {
+	maxAttempts := generatorOptions.ScaledRetryBudget(generatorOptions.MaximumUniqueGeneratorAttempts)
+	for i := 0; i < maxAttempts; i++ {
+		generatorOptions.overallComplexity++
+		items, ok := generatedValue.([]interface{})
+		if !ok {
+			return generatedValue
+		}
+
+		if matches := c.countMatches(items); matches >= c.minContains && (!c.hasMaxContains || matches <= c.maxContains) {
+			return generatedValue
+		}
+
+		generatedValue = generator.Generate(generatorOptions)
+	}
+
+	return fmt.Sprintf("Failed to generate a valid value for the following contains constraint after %d attempts", maxAttempts)
+}
+
+func (c *containsConstraint) String() string {
+	return fmt.Sprintf("ContainsConstraint[Min: %d Max: %d]", c.minContains, c.maxContains)
+}
+
 // Will attempt to generate a unique item if the uniqueItems flag is set
 func (g arrayGenerator) generateConsideringUnique(opts *GeneratorOptions, itemGenerator Generator, arrayData []interface{}) (interface{}, bool) {
 	if !g.UniqueItems {
diff --git a/not.go b/not.go
index 0c63d60..e8fdfb8 100644
--- a/not.go
+++ b/not.go
@@ -3,6 +3,7 @@ package chaff
 import (
 	"fmt"
 	"math"
+	"reflect"
 	"strings"
 
 	"github.com/ryanolee/go-chaff/internal/util"
@@ -511,18 +512,6 @@ func notApplyArray(metadata *parserMetadata, newNode *schemaNode, constraintColl
 		notNode.MinItems, notNode.MaxItems,
 	)
 
-	newNode.MinContains, newNode.MaxContains = resolveBoundsInt(
-		metadata,
-		"minContains", "maxContains",
-		node.MinContains, node.MaxContains,
-		notNode.MinContains, notNode.MaxContains,
-	)
-
-	if newNode.MinContains != nil && newNode.MaxItems != nil && *newNode.MinContains > *newNode.MaxItems {
-		warnField(metadata, "not/minContains", fmt.Errorf("while resolving not clauses minContains cannot be greater than maxItems"))
-		newNode.MinContains = newNode.MaxItems
-	}
-
 	newNode.Items = notMergeItemData(metadata, node.Items, notNode.Items)
 
 	if notNode.UniqueItems != nil && *notNode.UniqueItems {
@@ -535,10 +524,30 @@ func notApplyArray(metadata *parserMetadata, newNode *schemaNode, constraintColl
 	newNode.AdditionalItems = node.AdditionalItems
 	newNode.UnevaluatedItems = notMergeSchemaNodeOrFalse("/not/unevaluatedItems", metadata, node.UnevaluatedItems, notNode.UnevaluatedItems)
 
-	// Items that do not contain a value that matches a schema all do not match it
-	newNode.Contains = node.Contains
+	newNode.Contains, newNode.MinContains, newNode.MaxContains = node.Contains, node.MinContains, node.MaxContains
 	if notNode.Contains != nil && notNode.MinContains == nil && notNode.MaxContains == nil {
+		// Items that do not contain a value that matches a schema all do not match it
 		newNode.Items = notMergeItemData(metadata, newNode.Items, &itemsData{Node: notNode.Contains})
+	} else if notNode.Contains != nil && (node.Contains == nil || reflect.DeepEqual(node.Contains, notNode.Contains)) {
+		// At least one item has to match where there is no other minimum
+		defaultMinContains := 1
+		minContains, notMinContains := node.MinContains, util.GetPtr(notNode.MinContains, &defaultMinContains)
+		if node.Contains != nil {
+			minContains = util.GetPtr(minContains, &defaultMinContains)
+		}
+
+		newNode.Contains = notNode.Contains
+		newNode.MinContains, newNode.MaxContains = resolveBoundsInt(
+			metadata,
+			"minContains", "maxContains",
+			minContains, node.MaxContains,
+			notMinContains, notNode.MaxContains,
+		)
+	}
+
+	if newNode.MinContains != nil && newNode.MaxItems != nil && *newNode.MinContains > *newNode.MaxItems {
+		warnField(metadata, "not/minContains", fmt.Errorf("while resolving not clauses minContains cannot be greater than maxItems"))
+		newNode.MinContains = newNode.MaxItems
 	}
 
 	return nil
-- 
2.43.0


From 67d85fcc12b4823dc9d52b84b058321916ebaa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:24 +0000
Subject: [PATCH 57/77] fix: generate values of the formats uri-template,
 json-pointer, relative-json-pointer and regex

---
 string.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/string.go b/string.go
index 39d94b6..822f0b6 100644
--- a/string.go
+++ b/string.go
@@ -163,10 +163,14 @@ func generateFormat(format stringFormat, opts *GeneratorOptions) string {
 		return faker.IPv6()
 	case formatUUID:
 		return faker.UUIDHyphenated()
-	case formatURI, formatURIReference, formatIRI, formatIRIReference:
+	case formatURI, formatURIReference, formatIRI, formatIRIReference, formatUriTemplate:
 		return faker.URL()
-	case formatUriTemplate, formatJSONPointer, formatRelativeJSONPointer, formatRegex:
-		return fmt.Sprintf("Known but unsupported format: %s", format)
+	case formatJSONPointer:
+		return fmt.Sprintf("/%s", faker.Word())
+	case formatRelativeJSONPointer:
+		return fmt.Sprintf("%d/%s", opts.Rand.RandomInt(0, 9), faker.Word())
+	case formatRegex:
+		return fmt.Sprintf("^%s$", faker.Word())
 	default:
 		return fmt.Sprintf("Unsupported Format: %s", format)
 	}
-- 
2.43.0


From 3da35d23c366bb03e64a2d7f557496b1289cbafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 58/77] fix: resolve references in sub-schemas with an $id
 relative to them

---
 document.go | 61 ++++++++++++++++++++++++++++++++++++++++++++++++++++-
 schema.go   |  6 +++++-
 2 files changed, 65 insertions(+), 2 deletions(-)

diff --git a/document.go b/document.go
index 815b32f..e82eb84 100644
--- a/document.go
+++ b/document.go
@@ -109,6 +109,8 @@ func newDocumentResolver(opts ParserOptions, rootDocument *schemaNode) (*documen
 		baseURI = *rootDocument.Id
 	}
 
+	localiseReferencesInDocument(baseURI, rootDocument)
+
 	// Merge into existing idAliases
 	for resolvedId, alias := range collectSubSchemaIds(baseURI, resolvedRootDocumentId, rootDocument) {
 		resolver.idAliases[resolvedId] = alias
@@ -307,6 +309,7 @@ func (r *documentResolver) addDocument(id string, node *schemaNode) {
 	if node.Id != nil && isAbsoluteURI(*node.Id) {
 		baseURI = *node.Id
 	}
+	localiseReferencesInDocument(baseURI, node)
 	for resolvedId, alias := range collectSubSchemaIds(baseURI, id, node) {
 		if _, exists := r.idAliases[resolvedId]; !exists {
 			r.idAliases[resolvedId] = alias
@@ -356,6 +359,62 @@ func collectSubSchemaIds(baseURI string, documentId string, node *schemaNode) ma
 	return result
 }
 
+// localiseReferencesInDocument does what localiseReferences does for a whole document.
+func localiseReferencesInDocument(baseURI string, node *schemaNode) {
+	data, err := json.Marshal(node)
+	if err != nil {
+		return
+	}
+
+	var raw map[string]interface{}
+	if err := json.Unmarshal(data, &raw); err != nil || !localiseReferences(baseURI, raw) {
+		return
+	}
+
+	data, err = json.Marshal(raw)
+	if err != nil {
+		return
+	}
+
+	localisedNode := schemaNode{}
+	if err := json.Unmarshal(data, &localisedNode); err == nil {
+		*node = localisedNode
+	}
+}
+
+// localiseReferences makes references in sub-schemas with an "$id" of their own, which are
+// relative to this sub-schema, relative to the document the sub-schema is part of.
+// Returns whether there were any.
+func localiseReferences(baseURI string, document map[string]interface{}) bool {
+	localised := false
+	baseAtPath := map[string]string{"": baseURI}
+	resourceAtPath := map[string]string{"": ""}
+
+	walkSchema(document, "", func(n map[string]interface{}, path string) {
+		id, ok := n["$id"].(string)
+		if resolved := resolveRelativeURI(nearestBaseURI(baseAtPath, path), id); ok && resolved != "" && !strings.HasPrefix(id, "#") {
+			baseAtPath[path] = resolved
+			resourceAtPath[path] = path
+		}
+
+		ref, ok := n["$ref"].(string)
+		resource := nearestBaseURI(resourceAtPath, path)
+		if !ok || resource == "" {
+			return
+		}
+
+		if ref == "#" || strings.HasPrefix(ref, "#/") {
+			n["$ref"] = "#" + resource + ref[1:]
+			localised = true
+		} else if resolved := resolveRelativeURI(nearestBaseURI(baseAtPath, path), ref); resolved != "" && !strings.HasPrefix(ref, "#") {
+			n["$ref"] = resolved
+			localised = true
+		}
+	})
+
+	return localised
+}
+
 // nearestBaseURI walks up the JSON pointer path to find the closest ancestor
 // that established a base URI via $id.
 func nearestBaseURI(baseAtPath map[string]string, path string) string {
@@ -473,7 +532,7 @@ func (r *documentResolver) resolveDocument(ref string) (*schemaNode, error) {
 	}
 
 	r.addDocument(documentID, document)
-	return document, nil
+	return r.documents[documentID], nil
 }
 
 // resolveDocumentRef resolves a document reference to its canonical document
diff --git a/schema.go b/schema.go
index a10c6f0..3179034 100644
--- a/schema.go
+++ b/schema.go
@@ -41,7 +41,11 @@ func newSchemaManager(resolver *documentResolver, schemaJson []byte) (*schemaMan
 	// unless the document resolver allows for them
 	jsonSchemaCompiler.UseLoader(documentLoader{schemaManager: sm})
 
-	rootSchema := sm.replaceRefs(util.UnmarshalJsonStringToMap(string(schemaJson)))
+	rootSchema := util.UnmarshalJsonStringToMap(string(schemaJson))
+	if rootNode, ok := rootSchema.(map[string]interface{}); ok {
+		localiseReferences(resolver.currentBaseURIs()[len(resolver.currentBaseURIs())-1], rootNode)
+	}
+	rootSchema = sm.replaceRefs(rootSchema)
 	if err := jsonSchemaCompiler.AddResource(resolver.GetCurrentScope(), rootSchema); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 82c5e8b8f8f372fa08e42664d516155a6eff9c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:10 +0000
Subject: [PATCH 59/77] fix: hold values to the formats they are generated for
 wherever they are checked

---
 schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema.go b/schema.go
index 3179034..d8f4b37 100644
--- a/schema.go
+++ b/schema.go
@@ -41,6 +41,9 @@ func newSchemaManager(resolver *documentResolver, schemaJson []byte) (*schemaMan
 	// unless the document resolver allows for them
 	jsonSchemaCompiler.UseLoader(documentLoader{schemaManager: sm})
 
+	// Formats are generated for, so they have to hold wherever values are checked
+	jsonSchemaCompiler.AssertFormat()
+
 	rootSchema := util.UnmarshalJsonStringToMap(string(schemaJson))
 	if rootNode, ok := rootSchema.(map[string]interface{}); ok {
 		localiseReferences(resolver.currentBaseURIs()[len(resolver.currentBaseURIs())-1], rootNode)
-- 
2.43.0


From c26d97d88236c136fb54c4e2791d97d405d4a249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:26 +0000
Subject: [PATCH 60/77] fix: take labels that start with a hyphen for no
 hostname and 00.0.0.0 for no IPv4 address

---
 internal/jsonschema/formats.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/jsonschema/formats.go b/internal/jsonschema/formats.go
index d457206..505702a 100644
--- a/internal/jsonschema/formats.go
+++ b/internal/jsonschema/formats.go
@@ -283,7 +283,7 @@ func isHostname(v any) bool {
 		// labels must not start with a hyphen
 		// RFC 1123 section 2.1: restriction on the first character
 		// is relaxed to allow either a letter or a digit
-		if first := s[0]; first == '-' {
+		if first := label[0]; first == '-' {
 			return false
 		}
 
@@ -368,7 +368,7 @@ func isIPV4(v any) bool {
 		if n < 0 || n > 255 {
 			return false
 		}
-		if n != 0 && group[0] == '0' {
+		if len(group) > 1 && group[0] == '0' {
 			return false // leading zeroes should be rejected, as they are treated as octals
 		}
 	}
-- 
2.43.0


From 824bdb05b3204956bdf8b2305a545bd5d830f2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 61/77] fix: parse patterns with many repeats of a negated
 character class in less than minutes

---
 internal/regen/internal_generator.go | 29 ++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/internal/regen/internal_generator.go b/internal/regen/internal_generator.go
index 4c06198..4a6aead 100644
--- a/internal/regen/internal_generator.go
+++ b/internal/regen/internal_generator.go
@@ -55,7 +55,8 @@ func init() {
 }
 
 type internalGenerator struct {
-	Name         string
+	// Formatted on demand only: it takes long for large expressions, and nested ones are formatted on every level
+	Regexp       *syntax.Regexp
 	GenerateFunc func() string
 }
 
@@ -64,7 +65,7 @@ func (gen *internalGenerator) Generate() string {
 }
 
 func (gen *internalGenerator) String() string {
-	return gen.Name
+	return gen.Regexp.String()
 }
 
 // Create a new generator for each expression in regexps.
@@ -98,28 +99,28 @@ func newGenerator(regexp *syntax.Regexp, args *GeneratorArgs) (generator *intern
 
 // Generator that does nothing.
 func noop(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator, error) {
-	return &internalGenerator{regexp.String(), func() string {
+	return &internalGenerator{regexp, func() string {
 		return ""
 	}}, nil
 }
 
 func opEmptyMatch(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator, error) {
 	enforceOp(regexp, syntax.OpEmptyMatch)
-	return &internalGenerator{regexp.String(), func() string {
+	return &internalGenerator{regexp, func() string {
 		return ""
 	}}, nil
 }
 
 func opLiteral(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator, error) {
 	enforceOp(regexp, syntax.OpLiteral)
-	return &internalGenerator{regexp.String(), func() string {
+	return &internalGenerator{regexp, func() string {
 		return runesToString(regexp.Rune...)
 	}}, nil
 }
 
 func opAnyChar(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator, error) {
 	enforceOp(regexp, syntax.OpAnyChar)
-	return &internalGenerator{regexp.String(), func() string {
+	return &internalGenerator{regexp, func() string {
 		if args.LimitToAscii {
 			return runesToString(rune(args.rng.Intn(92) + 32))
 		}
@@ -135,7 +136,7 @@ func opAnyCharNotNl(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenera
 	} else {
 		charClass = parseCharClass([]rune{0, '\n' - 1, '\n' + 1, unicode.MaxRune})
 	}
-	return createCharClassGenerator(regexp.String(), charClass, args)
+	return createCharClassGenerator(regexp, charClass, args)
 }
 
 func opQuest(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator, error) {
@@ -167,7 +168,7 @@ func opCharClass(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator
 		return nil, generatorError(nil, "no character can be generated for /%s/", regexp)
 	}
 
-	return createCharClassGenerator(regexp.String(), charClass, args)
+	return createCharClassGenerator(regexp, charClass, args)
 }
 
 func opConcat(regexp *syntax.Regexp, genArgs *GeneratorArgs) (*internalGenerator, error) {
@@ -178,7 +179,7 @@ func opConcat(regexp *syntax.Regexp, genArgs *GeneratorArgs) (*internalGenerator
 		return nil, generatorError(err, "error creating generators for concat pattern /%s/", regexp)
 	}
 
-	return &internalGenerator{regexp.String(), func() string {
+	return &internalGenerator{regexp, func() string {
 		var result bytes.Buffer
 		for _, generator := range generators {
 			result.WriteString(generator.Generate())
@@ -197,7 +198,7 @@ func opAlternate(regexp *syntax.Regexp, genArgs *GeneratorArgs) (*internalGenera
 
 	numGens := len(generators)
 
-	return &internalGenerator{regexp.String(), func() string {
+	return &internalGenerator{regexp, func() string {
 		i := genArgs.rng.Intn(numGens)
 		generator := generators[i]
 		return generator.Generate()
@@ -220,7 +221,7 @@ func opCapture(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator,
 	// Group indices are 0-based, but index 0 is the whole expression.
 	index := regexp.Cap - 1
 
-	return &internalGenerator{regexp.String(), func() string {
+	return &internalGenerator{regexp, func() string {
 		return args.CaptureGroupHandler(index, regexp.Name, groupRegexp, generator, args)
 	}}, nil
 }
@@ -245,8 +246,8 @@ func enforceSingleSub(regexp *syntax.Regexp) error {
 	return nil
 }
 
-func createCharClassGenerator(name string, charClass *tCharClass, args *GeneratorArgs) (*internalGenerator, error) {
-	return &internalGenerator{name, func() string {
+func createCharClassGenerator(regexp *syntax.Regexp, charClass *tCharClass, args *GeneratorArgs) (*internalGenerator, error) {
+	return &internalGenerator{regexp, func() string {
 		i := args.rng.Int31n(charClass.TotalSize)
 		if charClass.TotalSize > 100000 {
 			i = args.rng.Int31n(93) + 32
@@ -279,7 +280,7 @@ func createRepeatingGenerator(regexp *syntax.Regexp, genArgs *GeneratorArgs, min
 		}
 	}
 
-	return &internalGenerator{regexp.String(), func() string {
+	return &internalGenerator{regexp, func() string {
 		n := min + genArgs.rng.Intn(max-min+1)
 
 		var result bytes.Buffer
-- 
2.43.0


From 87e1086334739d1989f13a0ed4d2c38d49a88c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:46 +0000
Subject: [PATCH 62/77] fix: leave out alternatives whose own alternatives all
 contradict the schema

---
 combination.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/combination.go b/combination.go
index d45e522..23ba942 100644
--- a/combination.go
+++ b/combination.go
@@ -15,6 +15,12 @@ type (
 		Generators []Generator
 		Type       string
 	}
+
+	// contradictionError is returned if all the sub-schemas of a combination contradict the schema it is part of
+	contradictionError struct {
+		nodeType       string
+		contradictions error
+	}
 )
 
 // Parses the "oneOf" or "anyOf" keyword of a schema. This generator is experimental and may not work as expected.
@@ -75,6 +81,13 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 		refPath := fmt.Sprintf("/%s/%d", nodeType, i)
 		generator, err := ref.ParseNodeInScope(refPath, mergedNode, metadata, subSchema)
 
+		// The same goes for a sub-schema that has nothing but contradicting alternatives itself
+		if errors.As(err, &contradictionError{}) {
+			metadata.Errors.Restore(reported)
+			contradictions = append(contradictions, err)
+			continue
+		}
+
 		if err != nil {
 			metadata.Errors.AddErrorWithSubpath(refPath, fmt.Errorf("failed to parse %s sub-schema: %w", nodeType, err))
 			generators = append(generators, nullGenerator{})
@@ -84,7 +97,7 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 	}
 
 	if len(generators) == 0 {
-		return nullGenerator{}, fmt.Errorf("no valid generators could be created for %s: %w", nodeType, errors.Join(contradictions...))
+		return nullGenerator{}, contradictionError{nodeType: nodeType, contradictions: errors.Join(contradictions...)}
 	}
 
 	if len(oneOf) > 1 {
@@ -127,6 +140,10 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 	}, nil
 }
 
+func (e contradictionError) Error() string {
+	return fmt.Sprintf("no valid generators could be created for %s: %s", e.nodeType, e.contradictions)
+}
+
 // assertAllowedValues reports if the rest of a node matches none of the values its enum and const allow for
 func assertAllowedValues(metadata *parserMetadata, node schemaNode) error {
 	allowedValues := collectEnumValues(node)
-- 
2.43.0


From 966ef930341228697332dea59d6810f81b791b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:03 +0000
Subject: [PATCH 63/77] fix: check generated values against a not with
 references or formats in it

---
 not.go | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/not.go b/not.go
index e8fdfb8..96eedeb 100644
--- a/not.go
+++ b/not.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"math"
 	"reflect"
-	"strings"
 
 	"github.com/ryanolee/go-chaff/internal/util"
 	"github.com/thoas/go-funk"
@@ -111,23 +110,7 @@ func addNotMatchingSchemaConstraint(metadata *parserMetadata, constraintCollecti
 		return
 	}
 
-	node := *notNode
-	if strings.Contains(util.MarshalJsonToString(node), `"$ref"`) {
-		flatNode, err := mergeSchemaNodes(metadata, schemaNode{}, node)
-		if err != nil || len(flatNode.mergedIf) > 0 || len(flatNode.mergedNot) > 0 {
-			return
-		}
-		node = flatNode
-	}
-
-	// Formats are handled on their own. They and further references are not
-	// known to the schema compiler, which might then match any value
-	nodeJson := util.MarshalJsonToString(node)
-	if strings.Contains(nodeJson, `"format"`) || strings.Contains(nodeJson, `"$ref"`) {
-		return
-	}
-
-	schema, err := metadata.SchemaManager.ParseSchemaNode(metadata, node, path)
+	schema, err := metadata.SchemaManager.ParseSchemaNode(metadata, *notNode, path)
 	if err != nil {
 		warnField(metadata, path, fmt.Errorf("failed to compile not node: %w", err))
 		return
-- 
2.43.0


From ee09d612b0b7018fef48b0fa254a4dce5f90ded2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:59 +0000
Subject: [PATCH 64/77] fix: compile schemas with arrays of items where values
 are checked

---
 schema.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/schema.go b/schema.go
index d8f4b37..9dc3275 100644
--- a/schema.go
+++ b/schema.go
@@ -86,7 +86,14 @@ func (sm *schemaManager) replaceRefs(data interface{}) interface{} {
 		return data
 	}
 
+	// Schemas compile as the latest draft unless they say otherwise
+	_, ofDraft := root["$schema"]
+
 	walkSchema(root, "", func(node map[string]interface{}, _ string) {
+		if !ofDraft {
+			replaceLegacyTuple(node)
+		}
+
 		if ref, ok := node["$ref"].(string); ok {
 			// References that can not be resolved are left to fail when they are compiled
 			if documentId, path, err := sm.documentResolver.ResolveDocumentIdAndPath(ref); err == nil {
@@ -100,6 +107,21 @@ func (sm *schemaManager) replaceRefs(data interface{}) interface{} {
 	return root
 }
 
+// replaceLegacyTuple writes an array of 'items' and the 'additionalItems' that go with it as 'prefixItems' and 'items'
+func replaceLegacyTuple(node map[string]interface{}) {
+	tuple, ok := node["items"].([]interface{})
+	if _, hasPrefixItems := node["prefixItems"]; !ok || hasPrefixItems {
+		return
+	}
+
+	delete(node, "items")
+	if additionalItems, ok := node["additionalItems"]; ok {
+		node["items"] = additionalItems
+	}
+
+	node["prefixItems"] = tuple
+}
+
 func (sm *schemaManager) CompilePath(path string) (*jsonschemaV6.Schema, error) {
 	return sm.rootSchemaCompiler.Compile(sm.documentResolver.GetCurrentScope() + path)
 }
-- 
2.43.0


From 15075ba4630b56c603f75e3d8d79b6cf81b38aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:56 +0000
Subject: [PATCH 65/77] fix: generate no items for contains past a tuple
 additionalItems closes

---
 array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array.go b/array.go
index bd9a7b5..ee03484 100644
--- a/array.go
+++ b/array.go
@@ -159,7 +159,7 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		UnevaluatedItemsGenerator: unevaluatedItemsGenerator,
 		DisallowUnevaluatedItems:  disallowUnevaluatedItems,
 
-		DisallowAdditional:       node.Items != nil && node.Items.DisallowAdditionalItems,
+		DisallowAdditional:       disallowedAdditionalItems,
 		AdditionalItemsGenerator: additionalItemGenerator,
 
 		MinContains:       minContains,
-- 
2.43.0


From 2a67d6f673deb63f6c51e8fce29a63ac128ed6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:10 +0000
Subject: [PATCH 66/77] fix: report what is merged with a circular reference
 instead of dropping it

---
 merge.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/merge.go b/merge.go
index 500fa90..3e4c5c3 100644
--- a/merge.go
+++ b/merge.go
@@ -3,6 +3,7 @@ package chaff
 import (
 	"errors"
 	"fmt"
+	"reflect"
 	"regexp"
 
 	"github.com/ryanolee/go-chaff/internal/util"
@@ -92,6 +93,9 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		// propagate it to the merged result so parseSchemaNode can create a
 		// referenceGenerator instead of treating it as an empty "any type" node.
 		if node.Ref != nil {
+			if mergedNode.Ref != nil && *mergedNode.Ref != *node.Ref {
+				warnConfigMergeError(metadata, "$ref", fmt.Errorf("merging the circular references [%s] and [%s] is not supported", *mergedNode.Ref, *node.Ref))
+			}
 			mergedNode.Ref = node.Ref
 		}
 
@@ -103,6 +107,7 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 	}
 
 	mergedNode, err := flattenResidualAllOf(metadata, mergedNode)
+	warnIfMergedWithReference(metadata, mergedNode)
 	contradictions = append(contradictions, err, assertMergedBounds(mergedNode), fields.Assert(metadata, mergedNode))
 	return mergedNode, errors.Join(contradictions...)
 }
@@ -587,6 +592,20 @@ func mergeSchemaNodeSimpleProperties(metadata *parserMetadata, baseNode schemaNo
 	return baseNode
 }
 
+// Only what a reference points at is generated, so that anything merged with one that
+// could not be resolved is lost.
+func warnIfMergedWithReference(metadata *parserMetadata, mergedNode schemaNode) {
+	ref := mergedNode.Ref
+	if ref == nil {
+		return
+	}
+
+	mergedNode.Ref = nil
+	if !reflect.DeepEqual(mergedNode, newEmptySchemaNode()) {
+		warnConfigMergeError(metadata, "$ref", fmt.Errorf("merging the circular reference [%s] with other schemas is not supported", *ref))
+	}
+}
+
 func warnIfBothSetAndAreDifferent[T comparable](metadata *parserMetadata, field string, a *T, b *T) {
 	if a != nil && b != nil && *a != *b {
 		warnConfigMergeError(metadata, field, fmt.Errorf("both values set during merge (%v vs %v)", *a, *b))
-- 
2.43.0


From a16a70e3da16f4a165ab14152a5c0323d1101fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:39 +0000
Subject: [PATCH 67/77] fix: leave out untyped alternatives whose merged bounds
 leave nothing in between

---
 combination.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/combination.go b/combination.go
index 23ba942..4ea28a2 100644
--- a/combination.go
+++ b/combination.go
@@ -68,7 +68,7 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 		// No value matches a sub-schema that contradicts the schema it is part of
 		mergedNode, err := mergeSchemaNodes(metadata, baseNode, subSchema)
 		if err == nil {
-			err = assertAllowedValues(metadata, mergedNode)
+			err = errors.Join(assertAllowedValues(metadata, mergedNode), assertInferredBounds(mergedNode))
 		}
 
 		if err != nil {
@@ -166,6 +166,17 @@ func assertAllowedValues(metadata *parserMetadata, node schemaNode) error {
 	return fmt.Errorf("none of the allowed values match the rest of the schema: %s", util.MarshalJsonToString(allowedValues))
 }
 
+// assertInferredBounds reports bounds nothing is in between of for nodes that only values of
+// the type inferred from their keywords are going to be generated for
+func assertInferredBounds(node schemaNode) error {
+	if node.Type != nil || node.Enum != nil || node.Const != nil || node.OneOf != nil || node.AnyOf != nil {
+		return nil
+	}
+
+	node.Type = &multipleType{SingleType: inferType(node)}
+	return assertMergedBounds(node)
+}
+
 func (g combinationGenerator) Generate(opts *GeneratorOptions) interface{} {
 	opts.overallComplexity++
 	if opts.ShouldCutoff() {
-- 
2.43.0


From bc499732414ec11d9f6f33eb8ef4752e3244bb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:54 +0000
Subject: [PATCH 68/77] fix: separate what a report adds to its location by one
 slash

---
 combination.go | 2 +-
 if.go          | 8 ++++----
 parse.go       | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/combination.go b/combination.go
index 4ea28a2..0af5241 100644
--- a/combination.go
+++ b/combination.go
@@ -206,7 +206,7 @@ func newOneOfConstraint(node schemaNode, metadata *parserMetadata) (*oneOfConstr
 		compiledSchema, err := metadata.SchemaManager.ParseSchemaNode(metadata, node, path)
 
 		if err != nil {
-			metadata.Errors.AddErrorWithSubpath(path, err)
+			metadata.Errors.AddErrorWithSubpath("/"+path, err)
 			continue
 		}
 
diff --git a/if.go b/if.go
index 279d658..ac14d16 100644
--- a/if.go
+++ b/if.go
@@ -68,7 +68,7 @@ func parseIf(node schemaNode, metadata *parserMetadata) (Generator, error) {
 
 		compiled, err := ifStatement.Compile(node, metadata, fmt.Sprintf("/if/%d", i))
 		if err != nil {
-			path := fmt.Sprintf("if/%d/config_compile_error", i)
+			path := fmt.Sprintf("/if/%d/config_compile_error", i)
 			metadata.Errors.AddErrorWithSubpath(path, err)
 			continue
 		}
@@ -101,7 +101,7 @@ func parseIfBody(metadata *parserMetadata, field string, parentScope schemaNode,
 
 	// Pass bodyNode as a source schema so ParseNodeInScope tracks any $ref
 	// on the resolution stack, preventing cyclic re-parsing.
-	generator, err := metadata.ReferenceHandler.ParseNodeInScope(field, mergedNode, metadata, *bodyNode)
+	generator, err := metadata.ReferenceHandler.ParseNodeInScope("/"+field, mergedNode, metadata, *bodyNode)
 
 	if err != nil {
 		warnField(metadata, field, err)
@@ -141,8 +141,8 @@ func (s ifStatement) Compile(node schemaNode, metadata *parserMetadata, field st
 		return ifConstraint{}, fmt.Errorf("failed to compile else sub schema: %w", err)
 	}
 
-	thenGenerator := parseIfBody(metadata, "/then", node, s.Then)
-	elseGenerator := parseIfBody(metadata, "/else", node, s.Else)
+	thenGenerator := parseIfBody(metadata, "then", node, s.Then)
+	elseGenerator := parseIfBody(metadata, "else", node, s.Else)
 
 	return ifConstraint{
 		conditionFunc: conditionFunc,
diff --git a/parse.go b/parse.go
index 110a60d..6e8d657 100644
--- a/parse.go
+++ b/parse.go
@@ -279,7 +279,7 @@ func ParseSchema(schema []byte, opts *ParserOptions) (RootGenerator, error) {
 
 		_, err := metadata.DocumentResolver.ParseNextDocument(metadata)
 		if err != nil {
-			metadata.Errors.AddErrorWithSubpath("document_parse_error", err)
+			metadata.Errors.AddErrorWithSubpath("/document_parse_error", err)
 		}
 	}
 
-- 
2.43.0


From a26e78b3655f765828889162e22086092cd11204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:07 +0000
Subject: [PATCH 69/77] fix: generate const and enum numbers a float64 can not
 hold as they are written

---
 document.go           | 10 +++++----
 internal/util/util.go | 51 +++++++++++++++++++++++++++++++++++++++++--
 json.go               | 31 +++++++++++++++++++-------
 3 files changed, 78 insertions(+), 14 deletions(-)

diff --git a/document.go b/document.go
index e82eb84..5f8a2bc 100644
--- a/document.go
+++ b/document.go
@@ -161,11 +161,12 @@ func (r *documentResolver) RewriteReferencesRelativeToDocument(node schemaNode)
 		return schemaNode{}, fmt.Errorf("failed to marshal schema node to JSON for reference rewriting: %w", err)
 	}
 
-	var genericNode genericNode
-	if err = json.Unmarshal(jsonData, &genericNode); err != nil {
+	genericData, err := util.UnmarshalJsonExactly(jsonData)
+	if err != nil {
 		return schemaNode{}, fmt.Errorf("failed to unmarshal schema node to generic node for reference rewriting: %w", err)
 	}
 
+	genericNode, _ := genericData.(map[string]interface{})
 	genericNode, err = r.rewriteReferencesRelativeToDocumentInGenericNode(genericNode)
 	if err != nil {
 		return schemaNode{}, fmt.Errorf("failed to rewrite references relative to document '%s': %w", r.GetCurrentScope(), err)
@@ -366,8 +367,9 @@ func localiseReferencesInDocument(baseURI string, node *schemaNode) {
 		return
 	}
 
-	var raw map[string]interface{}
-	if err := json.Unmarshal(data, &raw); err != nil || !localiseReferences(baseURI, raw) {
+	genericData, _ := util.UnmarshalJsonExactly(data)
+	raw, ok := genericData.(map[string]interface{})
+	if !ok || !localiseReferences(baseURI, raw) {
 		return
 	}
 
diff --git a/internal/util/util.go b/internal/util/util.go
index 6f0ccff..aa78ca9 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -1,8 +1,10 @@
 package util
 
 import (
+	"bytes"
 	"encoding/json"
 	"math"
+	"math/big"
 	"regexp"
 	"sort"
 	"strconv"
@@ -276,8 +278,7 @@ func SafeMarshalListToJsonList(data *[]interface{}) []string {
 
 // Unmarshal a string to a map
 func UnmarshalJsonStringToMap(data string) interface{} {
-	var result interface{}
-	err := json.Unmarshal([]byte(data), &result)
+	result, err := UnmarshalJsonExactly([]byte(data))
 	if err != nil {
 		return nil
 	}
@@ -285,6 +286,52 @@ func UnmarshalJsonStringToMap(data string) interface{} {
 	return result
 }
 
+// Unmarshals to what json.Unmarshal does, other than numbers that would not stay the same
+// as a float64. Those are kept as a json.Number.
+func UnmarshalJsonExactly(data []byte) (interface{}, error) {
+	var result interface{}
+	// What is no valid JSON or out of range is no more valid here
+	if err := json.Unmarshal(data, &result); err != nil {
+		return nil, err
+	}
+
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+	if err := decoder.Decode(&result); err != nil {
+		return nil, err
+	}
+
+	return jsonNumbersToFloats(result), nil
+}
+
+// Converts every json.Number that stays the same number to a float64
+func jsonNumbersToFloats(value interface{}) interface{} {
+	switch v := value.(type) {
+	case map[string]interface{}:
+		for key, item := range v {
+			v[key] = jsonNumbersToFloats(item)
+		}
+	case []interface{}:
+		for i, item := range v {
+			v[i] = jsonNumbersToFloats(item)
+		}
+	case json.Number:
+		// Numbers too small to be told from zero are left as zero
+		number, err := v.Float64()
+		if err == nil && (number == 0 || isExactFloat(number, v)) {
+			return number
+		}
+	}
+
+	return value
+}
+
+func isExactFloat(number float64, exactNumber json.Number) bool {
+	written, _ := new(big.Rat).SetString(strconv.FormatFloat(number, 'g', -1, 64))
+	exact, ok := new(big.Rat).SetString(exactNumber.String())
+	return ok && written.Cmp(exact) == 0
+}
+
 // Regex to named capture groups
 func RegexMatchNamedCaptureGroups(r *regexp.Regexp, str string) map[string]string {
 	matches := r.FindStringSubmatch(str)
diff --git a/json.go b/json.go
index d0ac804..d442378 100644
--- a/json.go
+++ b/json.go
@@ -4,6 +4,8 @@ import (
 	"encoding/json"
 	"reflect"
 	"strings"
+
+	"github.com/ryanolee/go-chaff/internal/util"
 )
 
 type (
@@ -215,16 +217,29 @@ func (s *schemaNode) UnmarshalJSON(data []byte) error {
 	}
 	*s = schemaNode(alias)
 
-	// Only ambiguous when the standard pass left Const nil — a non-null
-	// const value is already correctly populated.
-	if s.Const == nil {
-		var raw map[string]json.RawMessage
-		if err := json.Unmarshal(data, &raw); err != nil {
+	var raw map[string]json.RawMessage
+	if err := json.Unmarshal(data, &raw); err != nil {
+		return err
+	}
+
+	// Numbers of values to generate have to stay what they are written as. Other than that
+	// only ambiguous when the standard pass left Const nil.
+	if rawConst, ok := raw["const"]; ok {
+		val, err := util.UnmarshalJsonExactly(rawConst)
+		if err != nil {
 			return err
 		}
-		if _, ok := raw["const"]; ok {
-			var val interface{}
-			s.Const = &val
+		s.Const = &val
+	}
+
+	if s.Enum != nil {
+		val, err := util.UnmarshalJsonExactly(raw["enum"])
+		if err != nil {
+			return err
+		}
+
+		if values, ok := val.([]interface{}); ok {
+			s.Enum = &values
 		}
 	}
 
-- 
2.43.0


From 6837cec314d9778fd33de98e91563a6badfe738d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:19 +0000
Subject: [PATCH 70/77] fix: generate nothing for a contains no item has to
 match

---
 array.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/array.go b/array.go
index ee03484..0f24085 100644
--- a/array.go
+++ b/array.go
@@ -125,8 +125,11 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, fmt.Errorf("error parsing additional item generator: %w", err)
 	}
 
-	if containsGenerator, err = parseContainsGeneratorInScope(node, metadata); err != nil {
-		return nullGenerator{}, fmt.Errorf("error parsing contains generator: %w", err)
+	// Nothing has to be generated for a contains no item has to match
+	if minContains > 0 {
+		if containsGenerator, err = parseContainsGeneratorInScope(node, metadata); err != nil {
+			return nullGenerator{}, fmt.Errorf("error parsing contains generator: %w", err)
+		}
 	}
 
 	if tupleGenerators, err = parseTupleGenerator(prefixItems, metadata); err != nil {
-- 
2.43.0


From cddf246a5521096a36e1819c73feec6ff82ce0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:55 +0000
Subject: [PATCH 71/77] fix: keep the const next to an enum when merging

---
 merge.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index 3e4c5c3..2b143c4 100644
--- a/merge.go
+++ b/merge.go
@@ -252,9 +252,12 @@ func mergeResolveNodeRef(metadata *parserMetadata, node schemaNode) (schemaNode,
 
 // collectEnumValues returns the effective set of allowed values for a node.
 // A const is treated as a single-value enum; if both const and enum are
-// present the enum is returned (the const is redundant). Returns nil when
-// the node has neither const nor enum.
+// present only what both allow is returned. Returns nil when the node has
+// neither const nor enum.
 func collectEnumValues(node schemaNode) *[]interface{} {
+	if node.Enum != nil && node.Const != nil {
+		return intersectEnumSlices(node.Enum, &[]interface{}{*node.Const})
+	}
 	if node.Enum != nil {
 		return node.Enum
 	}
-- 
2.43.0


From 456036f576ae78a35ead34802fe5163fc37e0f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:56 +0000
Subject: [PATCH 72/77] fix: merge contains along with its bounds

---
 merge.go | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/merge.go b/merge.go
index 2b143c4..afbf144 100644
--- a/merge.go
+++ b/merge.go
@@ -60,7 +60,7 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		mergedNode.Items = mergeItemsData(metadata, mergedNode.Items, node.Items, fields)
 		mergedNode.AdditionalItems = mergeNodeOrFalse(metadata, mergedNode.AdditionalItems, node.AdditionalItems, "additionalItems")
 		mergedNode.UnevaluatedItems = mergeNodeOrFalse(metadata, mergedNode.UnevaluatedItems, node.UnevaluatedItems, "unevaluatedItems")
-		mergedNode.Contains = mergeSchemaPtrs(metadata, "contains", mergedNode.Contains, node.Contains)
+		mergedNode = mergeContains(metadata, mergedNode, node)
 
 		// Merge combinators
 		mergedNode.OneOf = mergeAlternatives(mergedNode.OneOf, node.OneOf)
@@ -560,8 +560,6 @@ func mergeSchemaNodeSimpleProperties(metadata *parserMetadata, baseNode schemaNo
 	baseNode.MaxProperties = util.MinFloatPtr(otherNode.MaxProperties, baseNode.MaxProperties)
 	baseNode.MinItems = util.MaxFloatPtr(otherNode.MinItems, baseNode.MinItems)
 	baseNode.MaxItems = util.MinFloatPtr(otherNode.MaxItems, baseNode.MaxItems)
-	baseNode.MinContains = util.MaxFloatPtr(otherNode.MinContains, baseNode.MinContains)
-	baseNode.MaxContains = util.MinFloatPtr(otherNode.MaxContains, baseNode.MaxContains)
 	baseNode.MinLength = util.MaxFloatPtr(otherNode.MinLength, baseNode.MinLength)
 	baseNode.MaxLength = util.MinFloatPtr(otherNode.MaxLength, baseNode.MaxLength)
 
@@ -824,6 +822,41 @@ func mergeSchemaPtrs(metadata *parserMetadata, field string, nodes ...*schemaNod
 	return &mergedNode
 }
 
+// mergeContains merges "contains" along with its bounds, which have no meaning without it.
+// An item matching both sides counts for the items each of them asks for. How many items
+// match each of them at most can not be told from the items that match both.
+func mergeContains(metadata *parserMetadata, mergedNode schemaNode, node schemaNode) schemaNode {
+	minContains := func(node schemaNode) int {
+		if node.MinContains == nil {
+			return 1
+		}
+		return *node.MinContains
+	}
+	anyItemsDo := func(node schemaNode) bool {
+		return node.Contains == nil || (minContains(node) == 0 && node.MaxContains == nil)
+	}
+
+	if anyItemsDo(node) && mergedNode.Contains != nil {
+		return mergedNode
+	}
+
+	if anyItemsDo(mergedNode) {
+		mergedNode.Contains, mergedNode.MinContains, mergedNode.MaxContains = node.Contains, node.MinContains, node.MaxContains
+		return mergedNode
+	}
+
+	if (mergedNode.MaxContains != nil || node.MaxContains != nil) &&
+		util.MarshalJsonToString(mergedNode.Contains) != util.MarshalJsonToString(node.Contains) {
+		warnConfigMergeError(metadata, "maxContains", fmt.Errorf("merging different contains is not supported where one of them has maxContains"))
+	}
+
+	min := util.MaxInt(minContains(mergedNode), minContains(node))
+	mergedNode.Contains = mergeSchemaPtrs(metadata, "contains", mergedNode.Contains, node.Contains)
+	mergedNode.MinContains = &min
+	mergedNode.MaxContains = util.MinFloatPtr(node.MaxContains, mergedNode.MaxContains)
+	return mergedNode
+}
+
 // intersectEnumSlices computes the set intersection of two enum value slices.
 // Values are compared by their JSON serialization so that objects and arrays
 // are handled correctly (same approach used by notApplyEnum / notApplyConst).
-- 
2.43.0


From 0a9853f43d489a3f4d486aff0976fcf882e096e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 73/77] fix: leave dots in quoted parts and named classes of
 patterns as they are

---
 regex.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/regex.go b/regex.go
index e642cf9..5d8fc4b 100644
--- a/regex.go
+++ b/regex.go
@@ -14,19 +14,28 @@ func newRegexGenerator(pattern string, opts *regen.GeneratorArgs) (regen.Generat
 	return regen.NewGenerator(pattern, opts)
 }
 
-// Replaces every "." that stands for "any character" in the pattern. Escaped dots
-// and dots within a character class (e.g. "[.]") are literals and are left as they are.
+// Replaces every "." that stands for "any character" in the pattern. Escaped dots, quoted dots (e.g. "\Q.\E")
+// and dots within a character class (e.g. "[.]" or "[[:alpha:].]") are literals and are left as they are.
 func replaceAnyCharacter(pattern string, replacement string) string {
 	var sb strings.Builder
 	escaped, inClass := false, false
-	classStart := 0
+	classStart, literalUntil := 0, 0
 
 	for i, char := range pattern {
 		switch {
+		case i < literalUntil:
 		case escaped:
 			escaped = false
+			if char == 'Q' && !inClass {
+				literalUntil = len(pattern)
+				if end := strings.Index(pattern[i:], "\\E"); end >= 0 {
+					literalUntil = i + end + len("\\E")
+				}
+			}
 		case char == '\\':
 			escaped = true
+		case inClass && strings.HasPrefix(pattern[i:], "[:") && strings.Contains(pattern[i:], ":]"):
+			literalUntil = i + strings.Index(pattern[i:], ":]") + len(":]")
 		case inClass:
 			// A "]" closes the class unless it is the first character in it (e.g. "[]a]" or "[^]a]")
 			isFirst := pattern[classStart:i] == "[" || pattern[classStart:i] == "[^"
-- 
2.43.0


From 9da9d88981a17a9a410ad4fa8137485d7f3695b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:36 +0000
Subject: [PATCH 74/77] fix: hold properties to the patternProperties their
 names match

---
 object.go | 77 +++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 66 insertions(+), 11 deletions(-)

diff --git a/object.go b/object.go
index 95fe285..c53c8ec 100644
--- a/object.go
+++ b/object.go
@@ -124,13 +124,17 @@ func assertRequiredAllowed(node schemaNode) error {
 
 func parseProperties(node schemaNode, metadata *parserMetadata) map[string]Generator {
 	properties := make(map[string]Generator)
-	if node.Properties == nil {
-		return properties
-	}
-
 	ref := metadata.ReferenceHandler
-	for name, prop := range *node.Properties {
+
+	for name, prop := range util.GetZeroIfNil(node.Properties, map[string]schemaNode{}) {
 		refPath := fmt.Sprintf("/properties/%s", name)
+
+		// The patternProperties its name matches hold for the property too
+		if patterns := matchingPatterns(node, name); len(patterns) > 0 {
+			nodes := append([]schemaNode{prop}, patterns...)
+			prop = schemaNode{AllOf: &nodes}
+		}
+
 		propGenerator, err := ref.ParseNodeInScope(refPath, prop, metadata)
 		if err != nil {
 			propGenerator = nullGenerator{}
@@ -139,9 +143,48 @@ func parseProperties(node schemaNode, metadata *parserMetadata) map[string]Gener
 		properties[name] = propGenerator
 	}
 
+	// Required properties that more than one of the patternProperties holds for
+	for _, name := range util.GetZeroIfNil(node.Required, []string{}) {
+		patterns := matchingPatterns(node, name)
+		if _, declared := properties[name]; declared || len(patterns) < 2 {
+			continue
+		}
+
+		refPath := fmt.Sprintf("/properties/%s", name)
+		propGenerator, err := ref.ParseNodeInScope(refPath, schemaNode{AllOf: &patterns}, metadata)
+		if err != nil {
+			propGenerator = nullGenerator{}
+		}
+
+		properties[name] = propGenerator
+	}
+
 	return properties
 }
 
+// matchingPatterns returns the schemas of the patternProperties a name matches
+func matchingPatterns(node schemaNode, name string) []schemaNode {
+	patternProperties := util.GetZeroIfNil(node.PatternProperties, map[string]schemaNode{})
+	matching := []schemaNode{}
+	for _, pattern := range matchingKeys(patternProperties, name) {
+		matching = append(matching, patternProperties[pattern])
+	}
+
+	return matching
+}
+
+// matchingKeys returns the patterns that match a name, in the order of the patterns
+func matchingKeys[V any](patternProperties map[string]V, name string) []string {
+	matching := []string{}
+	for _, pattern := range util.SortedKeys(patternProperties) {
+		if matches, err := regexp.MatchString(pattern, name); err == nil && matches {
+			matching = append(matching, pattern)
+		}
+	}
+
+	return matching
+}
+
 func parseAdditionalProperties(node schemaNode, metadata *parserMetadata) Generator {
 	if node.AdditionalProperties == nil || node.AdditionalProperties.IsFalse || node.AdditionalProperties.Schema == nil {
 		return nil
@@ -295,15 +338,17 @@ func (g objectGenerator) generatorForProperty(name string) Generator {
 		return generator
 	}
 
-	for _, pattern := range util.SortedKeys(g.PatternProperties) {
-		if matches, err := regexp.MatchString(pattern, name); err == nil && matches {
-			return g.PatternProperties[pattern]
-		}
+	if patterns := g.patternsMatching(name); len(patterns) > 0 {
+		return g.PatternProperties[patterns[0]]
 	}
 
 	return g.AdditionalProperties
 }
 
+func (g objectGenerator) patternsMatching(name string) []string {
+	return matchingKeys(g.PatternProperties, name)
+}
+
 // Adds a property by the first name of the form prefix_n (From the given index on) that there is none by yet.
 // The name might be one that the schema has properties or patternProperties for.
 func (g objectGenerator) addNamedProperty(opts *GeneratorOptions, generatedValues map[string]interface{}, prefix string, index int) {
@@ -324,9 +369,19 @@ func (g objectGenerator) addNamedProperty(opts *GeneratorOptions, generatedValue
 // Adds a random pattern property unless there already is a property by its name
 func (g objectGenerator) addPatternProperty(opts *GeneratorOptions, generatedValues map[string]interface{}) {
 	name, value := g.GeneratePatternProperty(opts)
-	if _, exists := generatedValues[name]; !exists {
-		generatedValues[name] = value
+	if _, exists := generatedValues[name]; exists {
+		return
+	}
+
+	// A name the schema has a property for takes more than the pattern asks for,
+	// as does one several patterns match
+	if generator, declared := g.Properties[name]; declared {
+		value = generator.Generate(opts)
+	} else if len(g.patternsMatching(name)) > 1 {
+		return
 	}
+
+	generatedValues[name] = value
 }
 
 func (g objectGenerator) GeneratePatternProperty(opts *GeneratorOptions) (string, interface{}) {
-- 
2.43.0


From 4222326b7579ea9811576ab9861ddfd7b782666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 75/77] fix: leave out alternatives with values, counts or
 multiples that contradict the schema

---
 merge.go  | 18 ++++++++++++------
 object.go | 32 +++++++++++++++++++++++---------
 2 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/merge.go b/merge.go
index afbf144..f658389 100644
--- a/merge.go
+++ b/merge.go
@@ -3,6 +3,7 @@ package chaff
 import (
 	"errors"
 	"fmt"
+	"math"
 	"reflect"
 	"regexp"
 
@@ -108,7 +109,7 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 
 	mergedNode, err := flattenResidualAllOf(metadata, mergedNode)
 	warnIfMergedWithReference(metadata, mergedNode)
-	contradictions = append(contradictions, err, assertMergedBounds(mergedNode), fields.Assert(metadata, mergedNode))
+	contradictions = append(contradictions, err, assertMergedBounds(mergedNode), assertAllowedValues(metadata, mergedNode), fields.Assert(metadata, mergedNode))
 	return mergedNode, errors.Join(contradictions...)
 }
 
@@ -184,17 +185,22 @@ func assertMergedBounds(node schemaNode) error {
 
 	switch node.Type.SingleType {
 	case typeInteger, typeNumber:
-		lower := util.MaxFloatPtr(node.Minimum, node.ExclusiveMinimum)
-		upper := util.MinFloatPtr(node.Maximum, node.ExclusiveMaximum)
-		if lower != nil && upper != nil && *lower > *upper {
-			return fmt.Errorf("error merging bounds: nothing is between %v and %v", *lower, *upper)
+		mustBeAnInteger := node.Type.SingleType == typeInteger
+
+		// A multipleOf that is not supported does not make for a contradiction, parsing the node will report on it
+		if multipleOf := util.GetZeroIfNil(node.MultipleOf, 0); multipleOf < infinitesimal || mustBeAnInteger && math.Trunc(multipleOf) != multipleOf {
+			node.MultipleOf = nil
+		}
+
+		if _, _, err := resolveMinMaxForNode(node, mustBeAnInteger); err != nil {
+			return fmt.Errorf("error merging bounds: %w", err)
 		}
 	case typeString:
 		return assertMergedRange("Length", node.MinLength, node.MaxLength)
 	case typeArray:
 		return assertMergedRange("Items", node.MinItems, node.MaxItems)
 	case typeObject:
-		if err := assertRequiredAllowed(node); err != nil {
+		if err := errors.Join(assertRequiredAllowed(node), assertPropertyCounts(node)); err != nil {
 			return err
 		}
 		return assertMergedRange("Properties", node.MinProperties, node.MaxProperties)
diff --git a/object.go b/object.go
index c53c8ec..13c5622 100644
--- a/object.go
+++ b/object.go
@@ -46,7 +46,6 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	minProperties := util.GetZeroIfNil(node.MinProperties, 0)
 	maxProperties := util.GetZeroIfNil(node.MaxProperties, 0)
 	requiredProperties := funk.UniqString(util.GetZeroIfNil(node.Required, []string{}))
-	properties := util.GetZeroIfNil(node.Properties, map[string]schemaNode{})
 
 	if minProperties < 0 {
 		return nullGenerator{}, fmt.Errorf("minProperties must be greater than or equal to 0")
@@ -61,21 +60,15 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	}
 
 	// Validate Required Properties
-	if node.MaxProperties != nil && len(requiredProperties) > maxProperties {
-		return nullGenerator{}, fmt.Errorf("required properties must have a length of less than or equal to MaxProperties (Max Properties: %d, Length of required %d)", maxProperties, len(requiredProperties))
+	if err := assertPropertyCounts(node); err != nil {
+		return nullGenerator{}, err
 	}
 
 	if err := assertRequiredAllowed(node); err != nil {
 		return nullGenerator{}, err
 	}
 
-	// Validate additionalProperties
 	additionalProperties := util.GetZeroIfNil(node.AdditionalProperties, schemaNodeOrFalse{})
-	if additionalProperties.IsFalse && node.PatternProperties == nil && minProperties > len(properties) {
-		return nullGenerator{}, fmt.Errorf("given additional properties are not allowed and there are no pattern properties the minProperties must be less than or equal to the number of"+
-			"available properties. (minProperties: %d, propertiesDefined: %d)", node.MinProperties, len(properties))
-	}
-
 	patternProperties, patternPropertiesRegex := parsePatternProperties(node, metadata)
 
 	objectGenerator := objectGenerator{
@@ -96,6 +89,27 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	return objectGenerator, nil
 }
 
+// assertPropertyCounts reports more required properties than maxProperties allows for,
+// and fewer properties to choose from than minProperties asks for
+func assertPropertyCounts(node schemaNode) error {
+	minProperties := util.GetZeroIfNil(node.MinProperties, 0)
+	maxProperties := util.GetZeroIfNil(node.MaxProperties, 0)
+	requiredProperties := funk.UniqString(util.GetZeroIfNil(node.Required, []string{}))
+	properties := util.GetZeroIfNil(node.Properties, map[string]schemaNode{})
+
+	if node.MaxProperties != nil && len(requiredProperties) > maxProperties {
+		return fmt.Errorf("required properties must have a length of less than or equal to MaxProperties (Max Properties: %d, Length of required %d)", maxProperties, len(requiredProperties))
+	}
+
+	additionalProperties := util.GetZeroIfNil(node.AdditionalProperties, schemaNodeOrFalse{})
+	if additionalProperties.IsFalse && node.PatternProperties == nil && minProperties > len(properties) {
+		return fmt.Errorf("given additional properties are not allowed and there are no pattern properties the minProperties must be less than or equal to the number of"+
+			"available properties. (minProperties: %d, propertiesDefined: %d)", minProperties, len(properties))
+	}
+
+	return nil
+}
+
 // assertRequiredAllowed reports required properties that additionalProperties does not allow for
 func assertRequiredAllowed(node schemaNode) error {
 	if node.AdditionalProperties == nil || !node.AdditionalProperties.IsFalse {
-- 
2.43.0


From d0206d3e625da3a923651f2c42722aa5ef502471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:23 +0000
Subject: [PATCH 76/77] fix: tell the patternProperties of merged schemas apart

---
 merge.go  |  4 ++++
 not.go    |  2 +-
 object.go | 29 ++++++++++++++++++++++-------
 parse.go  |  3 +++
 4 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/merge.go b/merge.go
index f658389..26ac97a 100644
--- a/merge.go
+++ b/merge.go
@@ -44,6 +44,9 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 			}
 		}
 
+		// The patterns of a node can not be told from those of other nodes after the merge
+		node = applyPatternProperties(node)
+
 		// Merge Type
 		var typeErr, enumErr error
 		mergedNode.Type, typeErr = mergeSchemaTypes(mergedNode.Type, node.Type)
@@ -54,6 +57,7 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		mergedProperties := mergeProperties(metadata, mergedNode, node, fields)
 		mergedPatternProperties := mergePatternProperties(metadata, mergedNode, node)
 		mergedNode.Properties, mergedNode.PatternProperties = mergedProperties, mergedPatternProperties
+		mergedNode.patternsApplied = mergedPatternProperties != nil
 		mergedNode.AdditionalProperties = mergeNodeOrFalse(metadata, mergedNode.AdditionalProperties, node.AdditionalProperties, "additionalProperties")
 
 		// Merge array items
diff --git a/not.go b/not.go
index 96eedeb..8f47b94 100644
--- a/not.go
+++ b/not.go
@@ -605,7 +605,7 @@ func notApplyObject(metadata *parserMetadata, newNode *schemaNode, constraintCol
 		return notNode.PatternProperties != nil && len(*notNode.PatternProperties) > 0
 	})
 
-	newNode.PatternProperties = node.PatternProperties
+	newNode.PatternProperties, newNode.patternsApplied = node.PatternProperties, node.patternsApplied
 
 	// Additional properties
 	newNode.AdditionalProperties = notMergeSchemaNodeOrFalse("/not/additionalProperties", metadata, node.AdditionalProperties, notNode.AdditionalProperties)
diff --git a/object.go b/object.go
index 13c5622..e26e948 100644
--- a/object.go
+++ b/object.go
@@ -139,16 +139,10 @@ func assertRequiredAllowed(node schemaNode) error {
 func parseProperties(node schemaNode, metadata *parserMetadata) map[string]Generator {
 	properties := make(map[string]Generator)
 	ref := metadata.ReferenceHandler
+	node = applyPatternProperties(node)
 
 	for name, prop := range util.GetZeroIfNil(node.Properties, map[string]schemaNode{}) {
 		refPath := fmt.Sprintf("/properties/%s", name)
-
-		// The patternProperties its name matches hold for the property too
-		if patterns := matchingPatterns(node, name); len(patterns) > 0 {
-			nodes := append([]schemaNode{prop}, patterns...)
-			prop = schemaNode{AllOf: &nodes}
-		}
-
 		propGenerator, err := ref.ParseNodeInScope(refPath, prop, metadata)
 		if err != nil {
 			propGenerator = nullGenerator{}
@@ -176,6 +170,27 @@ func parseProperties(node schemaNode, metadata *parserMetadata) map[string]Gener
 	return properties
 }
 
+// applyPatternProperties holds the properties of a node to the patternProperties their names match too
+func applyPatternProperties(node schemaNode) schemaNode {
+	if node.Properties == nil || node.PatternProperties == nil || node.patternsApplied {
+		return node
+	}
+
+	properties := map[string]schemaNode{}
+	for name, prop := range *node.Properties {
+		if patterns := matchingPatterns(node, name); len(patterns) > 0 {
+			nodes := append([]schemaNode{prop}, patterns...)
+			prop = schemaNode{AllOf: &nodes}
+		}
+
+		properties[name] = prop
+	}
+
+	node.Properties = &properties
+	node.patternsApplied = true
+	return node
+}
+
 // matchingPatterns returns the schemas of the patternProperties a name matches
 func matchingPatterns(node schemaNode, name string) []schemaNode {
 	patternProperties := util.GetZeroIfNil(node.PatternProperties, map[string]schemaNode{})
diff --git a/parse.go b/parse.go
index 6e8d657..2c2eb8e 100644
--- a/parse.go
+++ b/parse.go
@@ -170,6 +170,9 @@ type (
 		// (not(A) AND not(B) is NOT the same as not(merge(A, B))).
 		mergedNot []*schemaNode
 
+		// Properties of this node already take the patternProperties that match their names into account
+		patternsApplied bool
+
 		// Internal map used to keep track of constraints that need to be applied to this node during parsing
 		constraints *constraintCollection
 	}
-- 
2.43.0


From 9b18defc6d4799515a3ea9b93a7fd894b6bf7d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:06 +0000
Subject: [PATCH 77/77] fix: resolve references to ids relative to a relative
 id of their document

---
 document.go | 6 ++++--
 schema.go   | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/document.go b/document.go
index 5f8a2bc..370a03f 100644
--- a/document.go
+++ b/document.go
@@ -588,8 +588,10 @@ func (r *documentResolver) resolveDocumentRef(documentID string, refPath string)
 func (r *documentResolver) currentBaseURIs() []string {
 	scope := r.GetCurrentScope()
 	document := r.documents[scope]
-	if document != nil && document.Id != nil && isAbsoluteURI(*document.Id) {
-		return []string{scope, *document.Id}
+	if document != nil && document.Id != nil {
+		if baseURI := resolveRelativeURI(scope, *document.Id); baseURI != "" && baseURI != scope {
+			return []string{scope, baseURI}
+		}
 	}
 
 	return []string{scope}
diff --git a/schema.go b/schema.go
index 9dc3275..1ee1890 100644
--- a/schema.go
+++ b/schema.go
@@ -46,7 +46,7 @@ func newSchemaManager(resolver *documentResolver, schemaJson []byte) (*schemaMan
 
 	rootSchema := util.UnmarshalJsonStringToMap(string(schemaJson))
 	if rootNode, ok := rootSchema.(map[string]interface{}); ok {
-		localiseReferences(resolver.currentBaseURIs()[len(resolver.currentBaseURIs())-1], rootNode)
+		localiseReferences(resolver.GetCurrentScope(), rootNode)
 	}
 	rootSchema = sm.replaceRefs(rootSchema)
 	if err := jsonSchemaCompiler.AddResource(resolver.GetCurrentScope(), rootSchema); err != nil {
-- 
2.43.0

