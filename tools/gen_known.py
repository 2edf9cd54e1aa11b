"""Writes known_findings.json: the repairs made (they suppress nothing) and the findings recorded (none suppressed unless listed)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {"copy": "P05"}
prop = {
"graphframe arithmetic no longer overwrites": "P12", "in-place division stores": "P12", "graph equality distinguishes": "P06", "copying a graph keeps its explicit": "P05", "union keeps both targets": "P07", "union adds each edge once": "P07",
"subgraph_sum reads its input": "P10", "output columns that are input": "P10", "squash renumbers": "P08", "reading a multi-indexed graphframe back": "P17", "from_literal connects shared": "P17", "from_json reads nodes shared": "P17",
"from_literal keeps node ids": "P17", "Caliper JSON reader": "none (reader outside the listed properties)", "gprof dot reader": "none (reader outside the listed properties)", "multi-index mode 'all'": "P15",
"depth -1 as leaf": "P15", "sign and the operator of infinite": "P15", "compare NaN and infinity in multi": "P15", "anchor every alternative": "P15", "leading inline flags": "P15", "untyped first condition": "P16",
"accept nodes without conditions": "P16", "keep quotes and backslashes": "P16", "aggregate negated NaN": "P16", "braced string queries keep": "P16", "restarts a wildcard": "P13", "to_flamegraph uses": "P18",
"unknown colormap": "P18", "generating exclusive metrics leaves": "P11", "exclusive metric of one named": "P11", "nodes cannot be ordered": "P10", "parallel filter keeps": "P09", "fast_not_isin marks": "P19", "braces inside quoted": "P16", "from_json keeps metrics": "P17"}
fixed = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x09%s"], capture_output=True, text=True).stdout.splitlines()
for l in log:
    h, s = l.split("\t", 1)
    if not s.startswith("fix:"):
        continue
    pid = next((v for k, v in prop.items() if k in s), "?")
    fixed.append("fixed: property=%s %s %s" % (pid, h, s[5:]))
path = os.path.join(HERE, "known_findings.json")
old = json.load(open(path))["findings"] if os.path.exists(path) else []
json.dump({"fixed": fixed, "findings": old}, open(path, "w"), indent=1)
