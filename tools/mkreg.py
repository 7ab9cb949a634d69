#!/usr/bin/env python3
"""Writes regressions/<ID>/<n>.json: the counterexamples of repaired defects, in the form of replay files."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = dict(accept=True)
# (property, facet, commit, what, schema, case fields)
L = [
 ("C01","integer","f7fbbf4","one integer in range",{"type":"integer","minimum":1.5,"maximum":2.5},A),
 ("C01","number","f7fbbf4","exclusive bounds",{"type":"integer","exclusiveMinimum":1,"exclusiveMaximum":3},A),
 ("C01","number","7826281","multiples",{"type":"number","minimum":1,"maximum":3.2,"multipleOf":1.5},A),
 ("C01","wide","210be47","beyond 2^63",{"type":"integer","minimum":9300000000000000000},A),
 ("C02","length","7bc169d","maxLength 0",{"type":"string","maxLength":0},A),
 ("C02","format","67d85fc","uri-template",{"type":"string","format":"uri-template"},A),
 ("C02","format","67d85fc","relative-json-pointer",{"type":"string","format":"relative-json-pointer"},A),
 ("C03","pattern","66dba8b","[.]",{"type":"string","pattern":"^[.]{3}$"},A),
 ("C03","pattern","2de8bd4","negated classes",{"type":"string","pattern":"^([^a-f]|a|\\w)$"},A),
 ("C03","pattern","2de8bd4","long unbounded repeats",{"type":"string","pattern":"a{15,}"},A),
 ("C03","pattern","824bdb0","nested repeats",{"type":"string","pattern":"^[^,]{0,255}$"},A),
 ("C03","pattern","0a9853f","dots in quoted parts",{"type":"string","pattern":"^\\Qa.b\\E.$"},A),
 ("C03","pattern","0a9853f","dots after named classes",{"type":"string","pattern":"^[[:alpha:].]{9}$"},A),
 ("C04","const","a26e78b","beyond 2^53",{"const":9007199254740993},A),
 ("C04","enum","a26e78b","beyond 2^53 in a member",{"enum":[[9007199254740993],{"a":12345678901234567890}]},A),
 ("C04","const","e2c0857","looks like a reference",{"const":{"$ref":"#/a"}},A),
 ("C05","flat","72f8e94","undeclared required names",{"type":"object","required":["a","b"],"maxProperties":2},A),
 ("C05","flat","72f8e94","maxProperties 0",{"type":"object","maxProperties":0},A),
 ("C05","flat","607437d","names of filler",{"type":"object","properties":{"fallback_0":{"type":"integer"},"additional_0":{"type":"null"},"min_filler_0":{"type":"boolean"}},"minProperties":5},A),
 ("C06","flat","aa19536","maxItems 0",{"type":"array","maxItems":0},A),
 ("C06","flat","7c4d642","maxContains",{"type":"array","prefixItems":[{"type":"integer"}],"items":False,"contains":{"type":"integer"},"maxContains":1},A),
 ("C06","flat","6837cec","minContains 0",{"type":"array","items":{"type":"string"},"contains":{"type":"integer"},"minContains":0},A),
 ("C07","types","1ae52c5","one type contradicts",{"type":["string","integer"],"minLength":5,"maxLength":2},A),
 ("C08","interplay","0c1e41d","type lists",{"allOf":[{"type":["integer","string"]},{"type":["string","null"]}]},A),
 ("C08","interplay","0dd06d4","items for positions of prefixItems",{"allOf":[{"type":"array","prefixItems":[{"minimum":0}],"minItems":3},{"items":{"type":"integer","maximum":3}}]},A),
 ("C08","interplay","89e0576","anyOf lists",{"allOf":[{"anyOf":[{"minimum":0},{"minimum":5}]},{"anyOf":[{"maximum":2},{"multipleOf":4}]}],"type":"integer"},A),
 ("C08","interplay","4d6e60f","additionalProperties for properties of a branch",{"allOf":[{"type":"object","properties":{"a":{"minimum":0}},"required":["a"]},{"additionalProperties":{"type":"integer"}}]},A),
 ("C08","interplay","7d88069","multipleOf",{"allOf":[{"type":"integer","multipleOf":4},{"multipleOf":6}]},A),
 ("C04","enum","cddf246","const next to enum",{"allOf":[{"enum":[1,2],"const":1},{"enum":[1,2]}]},A),
 ("C08","contains","456036f","minContains without contains",{"type":"array","items":{"type":"integer","minimum":0,"maximum":9},"allOf":[{"contains":{"minimum":5}},{"minContains":0}]},A),
 ("C08","contains","456036f","minContains 0 of another contains",{"type":"array","items":{"type":"integer","minimum":0,"maximum":9},"allOf":[{"contains":{"minimum":5}},{"contains":{"multipleOf":2},"minContains":0}]},A),
 ("C08","contains","456036f","maxContains of another contains",{"type":"array","items":{"type":"integer","minimum":0,"maximum":9},"allOf":[{"contains":{"minimum":5},"maxContains":2},{"contains":{"multipleOf":2}}]},{}),
 ("C09","combo","4cedfec","branches no value of an enum matches",{"enum":[1,"a"],"anyOf":[{"type":"null"},{"type":"integer"}]},A),
 ("C09","combo","cc881c7","additionalProperties true",{"oneOf":[{"type":"object","additionalProperties":True,"required":["a"]},{"type":"null"}]},A),
 ("C10","single","34d6e1a","several ifs",{"type":"object","properties":{"k":{"enum":[1,2]}},"required":["k"],"allOf":[{"if":{"properties":{"k":{"const":1}}},"then":{"required":["x"]}},{"if":{"properties":{"k":{"const":2}}},"then":{"required":["y"]}}]},A),
 ("C11","any","82c5e8b","formats are asserted",{"anyOf":[{"const":"P"},{"const":"P1D"}],"not":{"format":"duration"}},A),
 ("C11","any","966ef93","references in not",{"type":"object","$defs":{"m":{"enum":[3,4]}},"properties":{"v":{"type":"integer","minimum":0,"maximum":9}},"not":{"properties":{"v":{"$ref":"#/$defs/m"}}}},dict(some_ok=True,markers=True)),
 ("C12","lazy","3bb1685","merged local references",{"$defs":{"a":{"type":"integer"}},"allOf":[{"$ref":"#/$defs/a"},{"minimum":3}]},A),
 ("C12","lazy","6c03d70","escapes in pointers",{"$defs":{"a/b~c%":{"type":"integer"}},"type":"array","minItems":1,"items":{"$ref":"#/$defs/a~1b~0c%25"}},A),
 ("C12","lazy","3b47585","relative references below an $id",{"$id":"https://example.com/a/root.json","$defs":{"c":{"$id":"c.json","type":"integer"}},"properties":{"p":{"$ref":"c.json"}},"type":"object","required":["p"]},A),
 ("C12","lazy","cfa59f0","$ids below names with a slash",{"$defs":{"a/b":{"$id":"https://example.com/ab.json","type":"integer"}},"allOf":[{"$ref":"https://example.com/ab.json"},{"minimum":1}]},A),
 ("C12","lazy","a16a70e","untyped alternatives with contradicting bounds",{"$defs":{"a":{"oneOf":[{"minimum":30},{"maximum":29}],"anyOf":[{"minimum":50},{"multipleOf":3}]}},"$ref":"#/$defs/a"},A),
 ("C12","lazy","3da35d2","references inside of a sub-schema with an $id",{"$defs":{"r":{"$id":"https://example.com/dir/r.json","type":"object","required":["a"],"properties":{"a":{"$ref":"#/$defs/in"}},"$defs":{"in":{"type":"integer"}}}},"$ref":"#/$defs/r"},A),
 ("C14","mix","399abcc","closed branch of anyOf",{"type":"object","anyOf":[{"additionalProperties":False,"properties":{"a":{}},"required":["b"]},{"required":["c"]}]},A),
 ("C14","mix","87e1086","alternatives whose alternatives contradict",{"allOf":[{"type":"string"},{"anyOf":[{"maxLength":5},{"allOf":[{"anyOf":[{"type":"array"}]}]}]}]},A),
 ("C14","mix","2515eb2","allOf of additionalProperties",{"type":"object","minProperties":2,"additionalProperties":{"allOf":[{"type":"integer"},{"minimum":4}]},"not":{"required":["zz"]}},{}),
 ("C14","mix","8c72afb","alternatives that contradict in a required property",{"type":"object","properties":{"a":{"type":"integer"}},"required":["a"],"anyOf":[{"properties":{"a":{"type":"string"}}},{"properties":{"a":{"minimum":3}}}]},A),
 ("C05","meeting","9da9d88","patterns that match declared names",{"type":"object","properties":{"ab":{"minimum":5}},"patternProperties":{"^a":{"type":"integer","maximum":9}},"required":["ab"]},A),
 ("C05","meeting","9da9d88","declared names a pattern generates",{"type":"object","additionalProperties":False,"properties":{"c":{"minimum":5},"d":{"const":7}},"patternProperties":{"^[cde]$":{"type":"integer","maximum":9}},"minProperties":3},A),
 ("C05","meeting","9da9d88","required names of several patterns",{"type":"object","patternProperties":{"^a":{"type":"integer"},"b$":{"minimum":5,"maximum":9}},"required":["ab"]},A),
 ("C08","interplay","d0206d3","patterns next to a closed branch",{"type":"object","required":["a"],"allOf":[{"properties":{"a":{}},"patternProperties":{"^a$":{"maximum":20}}},{"properties":{"a":{"type":"integer","minimum":0,"maximum":40}},"additionalProperties":False}]},A),
 ("C09","leftout","4222326","a value of a property",{"type":"object","required":["a"],"properties":{"a":{"type":"integer","minimum":5}},"anyOf":[{"minProperties":1},{"properties":{"a":{"const":3}}}]},A),
 ("C09","leftout","4222326","the number of properties",{"type":"object","required":["a"],"properties":{"a":{"type":"integer"}},"additionalProperties":False,"anyOf":[{"minProperties":1},{"maxProperties":0},{"minProperties":2}]},A),
 ("C09","leftout","4222326","multiples",{"type":"integer","minimum":10,"maximum":20,"anyOf":[{"multipleOf":3},{"multipleOf":50}]},A),
 ("C15","soup","9f9549a","not of itself",{"not":{"$ref":"#"}},{}),
]
n = {}
for prop, facet, commit, what, schema, extra in L:
    n[prop] = n.get(prop, 0) + 1
    d = os.path.join(ROOT, "regressions", prop)
    os.makedirs(d, exist_ok=True)
    case = dict(schema=schema, seed=7, n=60, **extra)
    with open(os.path.join(d, "%02d-%s.json" % (n[prop], commit)), "w") as f:
        json.dump(dict(property=prop, facet=facet, what="repaired by %s: %s" % (commit, what), case=case), f, indent=1)
        f.write("\n")
print(sum(n.values()), "regressions")
