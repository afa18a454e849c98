#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from tools/props/*.py."""
import glob, json, os, re, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
def prop(id, title, statement, over, text, why, files, mechanism, technique, note, design, observe=(), level="exploration", state=()):
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=text, why=" ".join(why.split()),
        files=files, mechanism=mechanism, technique=technique, note=" ".join(note.split()), design=design.strip(), observe=list(observe), level=level, state=list(state)))
for f in sorted(glob.glob(os.path.join(root, "tools/props/*.py"))):
    exec(compile(open(f).read(), f, "exec"), {"prop": prop})
PROPS.sort(key=lambda p: p["id"])
assert len({p["id"] for p in PROPS}) == len(PROPS)
with open(os.path.join(root, "properties.jsonl"), "w") as o:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        assert len(re.findall(r"[.!?](?:\s|$)", p["statement"])) <= 3, (p["id"], p["statement"])
        for m in p["files"]:
            assert os.path.exists("/repo/" + m), m
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]], hook_needed=None)
        if p["observe"]: a["observe_at"] = p["observe"]
        o.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a), ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="./check.sh --build", checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
    technique=p["technique"], level=p["level"], level_note=p["note"]) for p in PROPS], not_applicable=[])
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False); open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
d = open(os.path.join(root, "DESIGN.md")).read()
body = "\n".join(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n{p['design']}\n" for p in PROPS)
d = re.sub(r"(<!-- properties -->\n).*(<!-- /properties -->)", lambda m: m.group(1) + "\n" + body + "\n" + m.group(2), d, flags=re.S)
open(os.path.join(root, "DESIGN.md"), "w").write(d)
print(len(PROPS), "properties")
