#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so the two stay in step."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=("ParseSchema", "RootGenerator.Generate"), note=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=list(observe), note=note, technique=technique))

CONF = ("Generated schemas (rapid, shrunk) are parsed and run by the real code; every value is judged by two independent validators "
        "(our own evaluator of the keywords with exact rational arithmetic, and a JSON Schema library); a value they disagree on decides nothing. ")
TESTS = "The repository's tests run a fixed set of schema files, each a few times; "

prop("C01", "Numbers satisfy type, every bound and multipleOf",
 "Every number generated for a schema with type integer or number lies within minimum, maximum, exclusiveMinimum and exclusiveMaximum, is a multiple of multipleOf, and is an integer when the type is integer. Every such schema that some value satisfies is accepted without an error.",
 ["inputs"], "every combination of integer/number type, inclusive and exclusive, whole and fractional, missing and huge (up to 1e42) bounds and multipleOf that at least one value satisfies; every random seed",
 TESTS + "bounds that leave a single value, fractional bounds of integers, exclusive bounds next to inclusive ones and multiples that just fit are not among them, and off-by-one slips show for few seeds only.",
 ["number.go", "rand/random.go"], [("parseNumber: bounds, multipleOf feasibility", "number.go"), ("numberGenerator.Generate: draws within bounds or picks a multiple", "number.go")])
prop("C02", "Strings satisfy length and format",
 "Every string generated for a schema has between minLength and maxLength characters, and a string generated for a supported format is a valid instance of that format. Every such schema whose lengths do not contradict each other is accepted without an error.",
 ["inputs"], "every minLength/maxLength pair within 0..720 (each possibly absent or zero), each of the supported formats, typed or inferred; every random seed",
 TESTS + "lengths are sampled at a handful of values, formats once each; a format or length that is wrong for one draw in fifty passes.",
 ["string.go"], [("parseString: length validation", "string.go"), ("stringGenerator.Generate / generateFormat", "string.go")])
prop("C03", "Strings match their pattern",
 "Every string generated for a schema with a pattern that is a supported regular expression matches this pattern, including character classes, negated classes, escapes, groups, alternation, repetition bounds and anchors.",
 ["inputs"], "every regular expression of a grammar of literals, escapes, classes, groups, alternation, bounded and unbounded repetition and anchors, every random seed",
 TESTS + "some twenty patterns are among them; the space of regular expressions and the draws for each is unbounded.",
 ["string.go", "regex.go", "internal/regen/regen.go"], [("newRegexGenerator", "regex.go"), ("regen generator factories", "internal/regen")])
prop("C04", "Enum and const generate exactly their members",
 "A value generated for a schema with enum equals one of the members listed, each of them can be generated, and a value generated for a schema with const equals this constant, for members of any JSON type and depth.",
 ["inputs"], "every enum of distinct JSON values, const of any JSON value, with and without type keywords next to them; every random seed",
 TESTS + "enums of strings mostly; nested, null, false, zero and empty members are not covered.",
 ["enum.go", "const.go", "parse.go"], [("parseEnum", "enum.go"), ("parseConst", "const.go")])
prop("C05", "Objects satisfy every object keyword",
 "Every object generated has all required properties, between minProperties and maxProperties of them, a valid value for every declared property, every property whose name matches a pattern of patternProperties and every additional property, and no property additionalProperties forbids.",
 ["inputs"], "every object schema over properties, patternProperties, additionalProperties (absent, true, false, schema), required, minProperties and maxProperties that some object satisfies, nested, patterns that match declared names and each other's names included; every random seed",
 TESTS + "interactions (undeclared required names, maxProperties that leaves room for the required ones only, closed schemas with patterns) are a product space of which they hold a few points.",
 ["object.go", "regex.go"], [("parseObject", "object.go"), ("objectGenerator.Generate", "object.go")])
prop("C06", "Arrays satisfy every array keyword",
 "Every array generated has between minItems and maxItems members, each valid for the schema of its position (prefixItems, items, additionalItems, unevaluatedItems), at least minContains and at most maxContains members valid for contains, and no two equal members under uniqueItems.",
 ["inputs"], "every array schema over these keywords, draft 2020-12 and draft-07 tuples, that some array satisfies, nested; every random seed",
 TESTS + "bounds next to the length of a tuple, unique items of nearly exhausted value spaces and contains next to tuples need particular draws.",
 ["array.go"], [("parseArray", "array.go"), ("arrayGenerator.Generate", "array.go")])
prop("C07", "Values are of a listed type; keywords bind their own type only",
 "A value generated for a schema has one of the types its type keyword lists (any type without one that is implied), integers only where integer is listed without number. Every keyword constrains values of its own type only, and types of a list nothing can be generated for are left out while the others still are generated.",
 ["inputs"], "every single type, list of types or absent type next to keywords for any types; every random seed",
 TESTS + "type lists next to keywords of several types are hardly among them.",
 ["multiple_type.go", "parse.go"], [("parseMultipleType", "multiple_type.go"), ("parseType / inferType", "parse.go")])
prop("C08", "allOf: values satisfy every branch",
 "Every value generated for a schema with allOf satisfies the schema and every branch of the allOf, however keywords are spread over the branches and nested in them. A schema whose keywords do not contradict each other is accepted without an error when it is split over branches.",
 ["inputs"], "every satisfiable schema split at random over allOf branches (numbers, strings, enums, types, objects, arrays, nested), and branches acting on each other (closed branches, tuples, alternatives, conditionals, references), and lists of alternatives that have to hold together; every random seed",
 TESTS + "the pairs of keywords that can meet in a merge number hundreds, tests hold some dozens of them.",
 ["all_of.go", "merge.go"], [("parseAllOf", "all_of.go"), ("mergeSchemaNodes and its per-keyword rules", "merge.go")])
prop("C09", "anyOf and oneOf: at least one, exactly one branch holds",
 "Every value generated for a schema with anyOf satisfies the keywords next to it and at least one branch; with oneOf exactly one branch, or it is the documented text that says no such value was found. It does not give up for good where a fair share of values qualifies.",
 ["inputs"], "branches told apart by type, range, discriminator or value, overlapping, nested, side by side and next to other keywords; every random seed",
 TESTS + "oneOf is validated on fixed branches only; overlap needs the draw that falls into it.",
 ["combination.go", "merge.go", "schema.go", "constraint.go"], [("parseCombination / combinationGenerator", "combination.go"), ("schemaManager: validators of sub-schemas", "schema.go")])
prop("C10", "if/then/else: the consequence that applies holds",
 "Every value generated for a schema with if, then and else satisfies then when it satisfies if, and else when it does not, or is the documented text that says no such value was found; several conditionals hold together. An absent branch demands nothing.",
 ["inputs"], "conditionals over ranges, discriminators and types, alone, several together through allOf, and nested; every random seed",
 TESTS + "a conditional wrong for the rarer side of its condition passes tests that run it a few times.",
 ["if.go", "constraint.go", "schema.go"], [("parseIf", "if.go"), ("constraint application and retry", "constraint.go")])
prop("C11", "not: values never satisfy the negated schema",
 "No value generated for a schema with not satisfies the negated schema, or it is the documented text that says no such value was found; several nots and nots inside each other hold together, and the rest of the schema holds as well.",
 ["inputs"], "nots over bounds, multiples, lengths, patterns, enums, types, array and object keywords, one to four together, two and three deep, inline, through allOf and through references, about values and about members that have alternatives, conditionals and nots of their own; every random seed",
 TESTS + "negations at the border of a range or of two nots together need particular values.",
 ["not.go", "constraint.go", "merge.go"], [("parseNot / negation per keyword", "not.go"), ("constraint application and retry", "constraint.go")])
prop("C12", "Local references behave as the schema they point to",
 "A reference within a document, by JSON pointer to any sub-schema or by $id, generates values valid for the schema it points to, wherever it is used. Recursive schemas end, and each value is valid unless it holds one of the documented texts for cycles and depth.",
 ["inputs", "configurations"], "pointers to every kind of location, names that need escaping, chains, references inside allOf/anyOf/oneOf/contains, relative and absolute $id, recursive schemas with every depth limit and the cycle check on or off; every random seed",
 TESTS + "pointers with escapes, into locations only a reference uses and into merged schemas are not among them.",
 ["reference.go", "reference_hander.go", "reference_path.go", "document.go", "merge.go"], [("parseReference / referenceGenerator", "reference.go"), ("reference paths", "reference_path.go"), ("documentResolver: $id aliases", "document.go"), ("mergeResolveNodeRef", "merge.go")])

exec(open(os.path.join(ROOT, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "props_more.py")) else None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
NA = globals().get("NOT_APPLICABLE", [])
man = {"version": 1, "setup_cmd": "./run.sh build",
       "checks": [{"property": p["id"], "quick_cmd": "./run.sh check %s quick" % p["id"],
                   "thorough_cmd": "./run.sh check %s thorough" % p["id"],
                   "technique": p["technique"] or "property-based testing (rapid): generated schemas, values judged by a reference evaluator and a second validator; shrunk counterexamples",
                   "level": "exploration",
                   "level_note": p["note"] or (CONF + "Assurance: no counterexample in the cases the evidence file counts; the domain left out is listed in DESIGN.md.")} for p in P],
       "not_applicable": NA,
       "notes": "No hooks: every check drives the public API or the command line built from /repo's working tree. known_findings.txt lists findings and repaired defects."}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
