#!/usr/bin/env python3
"""Makes harness/corpus.json: the small schemas of /repo/test_data, without what go-chaff
documents as unsupported and without what old drafts mean otherwise."""
import json, glob, os, re, sys
SUB = {"additionalProperties","contains","not","if","then","else","items"}
LIST = {"allOf","anyOf","oneOf","prefixItems"}
MAP = {"properties","patternProperties","$defs","definitions"}
VAL = {"type","enum","const","minimum","maximum","exclusiveMinimum","exclusiveMaximum","multipleOf","minLength","maxLength",
  "pattern","required","minProperties","maxProperties","minItems","maxItems","uniqueItems","minContains","maxContains","$ref","format"}
FORMATS = {"date","date-time","time","email","uuid","ipv4","ipv6","uri","hostname"}
class Bad(Exception): pass
def norm(s):
    if isinstance(s, bool): return s
    if not isinstance(s, dict): raise Bad
    if "$ref" in s:
        r = s["$ref"]
        if not isinstance(r, str): raise Bad
        if not r.startswith("#"): return True
        if r != "#" and not r.startswith("#/"): return True
        out = {"$ref": r}
        for k in ("definitions", "$defs"):
            if k in s: out[k] = {n: norm(x) for n, x in s[k].items()}
        return out
    out = {}
    for k, v in s.items():
        if k == "items" and isinstance(v, list):
            out["prefixItems"] = [norm(x) for x in v]
            if "additionalItems" in s: out["items"] = norm(s["additionalItems"])
        elif k in SUB: out[k] = norm(v)
        elif k in LIST: out[k] = [norm(x) for x in v]
        elif k in MAP: out[k] = {n: norm(x) for n, x in v.items()}
        elif k == "format":
            if v in FORMATS and "pattern" not in s and "minLength" not in s and "maxLength" not in s: out[k] = v
        elif k in ("exclusiveMinimum", "exclusiveMaximum") and isinstance(v, bool): pass
        elif k == "pattern" and ("minLength" in s or "maxLength" in s): pass
        elif k in VAL: out[k] = v
    if "patternProperties" in out and "properties" in out:
        for p in out["patternProperties"]:
            try: c = re.compile(p)
            except re.error: raise Bad
            if any(c.search(n) for n in out["properties"]): raise Bad
    if len(out.get("patternProperties", {})) > 1: raise Bad
    return out
seen, res = set(), []
for f in sorted(glob.glob("/repo/test_data/**/*.json", recursive=True)):
    if os.path.getsize(f) > 9000: continue
    try: d = norm(json.load(open(f)))
    except (Bad, ValueError, TypeError, KeyError, AttributeError): continue
    t = json.dumps(d, separators=(",", ":"), sort_keys=True)
    if t in seen or len(t) < 12 or len(t) > 6000: continue
    seen.add(t)
    res.append((os.path.relpath(f, "/repo/test_data"), t))
out = "[\n" + ",\n".join('{"name":%s,"schema":%s}' % (json.dumps(n), t) for n, t in res) + "\n]\n"
open("/verif/harness/corpus.json", "w").write(out)
print(len(res), len(out))
