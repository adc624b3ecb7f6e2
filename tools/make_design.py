"""Refresh the generated tables of DESIGN.md (sub-checks, planted bugs).  Run with /opt/venv/bin/python."""
import importlib, json, os, re, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)


def table_checks():
    out = ["| check | sub-check | quick / thorough cases | what is generated, and what counts as non-trivial |", "|---|---|---|---|"]
    for k in range(1, 100):
        if not os.path.exists(os.path.join(V, "pbt", "props", "c%02d.py" % k)):
            break
        m = importlib.import_module("pbt.props.c%02d" % k)
        for s in m.SUBS:
            out.append("| C%02d | %s | %d / %d | %s |" % (k, s.name, s.quick, s.thorough, s.rule.replace("|", "/")))
    return out


def table_bugs():
    out = ["| planted bug | property | needs | breaks |", "|---|---|---|---|"]
    for i in sorted(os.listdir(os.path.join(V, "seeded"))):
        m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"]))
    return out


p = os.path.join(V, "DESIGN.md")
s = open(p).read()
for name, f in (("checks", table_checks), ("bugs", table_bugs)):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + "\n".join(f()) + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
