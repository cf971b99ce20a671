#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/catalog/*.json (run by hand; the outputs are committed)."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rules():
    """What each check runs, as its harness says: the m.rule("...") of the function registered under the id."""
    fns, out = {}, {}
    for f in glob.glob(os.path.join(ROOT, "harness/*/src/*.rs")):
        t = open(f).read()
        d = os.path.basename(os.path.dirname(os.path.dirname(f)))
        mod = os.path.basename(f)[:-3]
        for m in re.finditer(r'\bfn (\w+)\(m: &mut (?:vmon::)?Mon\)(?:(?!\nfn |\npub fn ).)*?m\.rule\(\s*"((?:[^"\\\\]|\\\\.)*)"', t, re.S):
            fns[d, mod, m[1]] = re.sub(r'\\\\\n\s*', '', m[2]).replace('\\\\"', '"')
    for f in glob.glob(os.path.join(ROOT, "harness/*/src/main.rs")):
        d = os.path.basename(os.path.dirname(os.path.dirname(f)))
        for i, p in re.findall(r'\("(C\d\d)", ([\w:]+)\)', open(f).read()):
            p = p.split("::")
            out[i] = fns.get((d, p[-2] if len(p) > 1 else "main", p[-1]))
    return out


def design(entries):
    rule = rules()
    text = []
    for e in entries:
        cost = e.get("cost")
        text.append(f"### {e['id']} {e['title']}\n")
        text.append(f"*Monitor*: {e['technique'].replace('runtime monitor: ', '')}.")
        text.append(f"*Workload and oracle*: {rule.get(e['id']) or '(see the harness)'}")
        text.append(f"*Ranges over* {', '.join(e['over'])}: {e['quantifier'].rstrip('.')}. *Beyond the tests because*: {e['why']}")
        text.append(f"*Bounds*: {e['note']}" + (f" *Cost*: {cost}." if cost else "") + "\n")
    seeded = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
    known = json.load(open(os.path.join(ROOT, "tools/caught.json")))
    for i, (prop, needs, by) in sorted(known.items()):
        seeded.append(f"| {i} | {prop} | {needs} | {by} |")
    t = open(os.path.join(ROOT, "tools/design.md")).read()
    t = t.replace("@PROPERTIES@", "\n".join(text)).replace("@SEEDED@", "\n".join(seeded))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
    print("no rule:", [e["id"] for e in entries if not rule.get(e["id"])])


def main():
    entries = []
    for f in sorted(glob.glob(os.path.join(ROOT, "tools/catalog/*.json"))):
        entries += json.load(open(f))
    entries.sort(key=lambda e: e["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as o:
        for e in entries:
            a = {"files": e["files"], "mechanism": [dict(name=n, where=w) for n, w in e["mechanism"]]}
            if "state" in e:
                a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in e["state"]]
            if "observe_at" in e:
                a["observe_at"] = e["observe_at"]
            a["hook_needed"] = e.get("hook")
            assert len(e["title"]) <= 80, e["id"]
            o.write(json.dumps(dict(id=e["id"], title=e["title"], statement=e["statement"],
                                    quantifier=dict(over=e["over"], text=e["quantifier"]),
                                    why_tests_cant=e["why"], anchors=a), ensure_ascii=False) + "\n")
    checks = []
    na = []
    for e in entries:
        if "not_applicable" in e:
            na.append(dict(property=e["id"], reason=e["not_applicable"]))
            continue
        checks.append(dict(property=e["id"], quick_cmd=f"bash run.sh {e['id']}",
                           thorough_cmd=f"VERIF_TIER=thorough bash run.sh {e['id']}",
                           evidence_file=f"evidence/{e['id']}.json",
                           technique=e["technique"], level=e.get("level", "exploration"),
                           level_note=e["note"]))
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
             notes="No hook was needed in /repo: the harnesses under harness/ depend on the crates by path; crates "
                   "whose dependencies are missing offline are mirrored (symlinked sources) under build/ws with the "
                   "stand-ins in shims/. The only commits in /repo are 'fix:' repairs, listed in KNOWN_FINDINGS.txt.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    design(entries)
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
