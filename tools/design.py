#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (planted changes, properties not claimed)."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
d = open("DESIGN.md").read()
notes = json.load(open("tools/seednotes.json"))
rows = ""
for m in sorted(glob.glob("seeded/*/meta.json")):
    j = json.load(open(m)); s = m.split("/")[1]
    rows += f"| {s} | {j['property']} | {j['what_it_breaks']} — needs {j['needs']} | {notes.get(s, 'proof, input')} |\n"
c = json.load(open("tools/claimed.json"))
na = "".join(f"* **{k}**: {v}\n" for k, v in sorted(c["not_applicable"].items()) if k not in c["claimed"] and k not in ("C27", "C28"))
def put(tag, text):
    global d
    d = re.sub(f"<!-- {tag} -->.*?<!-- /{tag} -->", lambda _: f"<!-- {tag} -->\n{text}<!-- /{tag} -->", d, flags=re.S)
put("na", na)
d = re.sub(r"(\|---\|---\|---\|---\|\n)<!-- seeds -->.*?<!-- /seeds -->", lambda m: m.group(1) + rows + "<!-- /seeds -->", d, flags=re.S) if "<!-- seeds -->" in d else re.sub(r"(\| Seed \|.*?\n\|---\|---\|---\|---\|\n).*?<!-- /seeds -->", lambda m: m.group(1) + rows + "<!-- /seeds -->", d, flags=re.S)
open("DESIGN.md", "w").write(d)
