#!/usr/bin/env python3
"""Fill the tables of DESIGN.md from the registry, the properties and seeded/ (run by hand; nothing depends on it)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "tools"))
from registry import PROPS, NOT_APPLICABLE
T = {}
for x in open(V + "/properties.jsonl"):
    if x.strip(): y = json.loads(x); T[y["id"]] = y
rows = ["| id | property | design models | driver -> trace specification (quick / thorough executions) | reaches beyond tests because |", "|---|---|---|---|---|"]
for i in T:
    if i not in PROPS: continue
    p = PROPS[i]
    rows.append(f"| {i} | {T[i]['title']} | {', '.join(m['mod'] for m in p.get('mc', [])) or '-'} | " +
      "; ".join(f"`{' '.join([t['driver']] + t['args'])}` -> {t['spec']} ({t['quick']} / {t['thorough']})" for t in p["traces"]) + f" | {T[i]['why_tests_cant']} |")
na = [f"* {i}: {NOT_APPLICABLE.get(i, 'not built yet')}" for i in T if i not in PROPS] or ["None of the listed properties."]
cat = ["| planted bug | property | what it breaks | caught by |", "|---|---|---|---|"]
res = json.load(open(V + "/tools/catches.json")) if os.path.exists(V + "/tools/catches.json") else {}
sd = V + "/seeded"
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    try: m = json.load(open(f"{sd}/{d}/meta.json"))
    except OSError: continue
    cat.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {res.get(d, 'not run yet')} |")
f = V + "/DESIGN.md"; s = open(f).read()
def put(tag, body):
    global s
    b = f"<!-- {tag} -->\n" + "\n".join(body) + f"\n<!-- /{tag} -->"
    if f"@@{tag}@@" in s: s = s.replace(f"@@{tag}@@", b)
    else: s = re.sub(rf"<!-- {tag} -->.*?<!-- /{tag} -->", lambda m: b, s, flags=re.S)
put("TABLE", rows); put("NA", na); put("CATCH", cat)
open(f, "w").write(s)
