#!/usr/bin/env python3
"""mk.py ID CRATE PROPERTY FEATURES: takes the diff of /tmp/plant/repo as seeded/ID/patch.diff; meta and demo.rs come from stdin:
first line needs, second line what_it_breaks, rest demo.rs."""
import sys, json, pathlib, subprocess
i, crate, prop, feat = sys.argv[1:5]
d = pathlib.Path("/verif/seeded")/i; d.mkdir(parents=True, exist_ok=True)
needs, breaks, demo = sys.stdin.read().split("\n", 2)
diff = subprocess.run(["git","-C","/tmp/plant/repo","diff"],capture_output=True,text=True).stdout
assert diff.strip(); (d/"patch.diff").write_text(diff)
t = (pathlib.Path(__file__).parent/"demo.tmpl.sh").read_text()
(d/"demo.sh").write_text(t.replace("@ID@",i.lower().replace("-","_")).replace("@CRATE@",crate).replace("@FEATURES@",feat))
(d/"demo.rs").write_text(demo)
(d/"meta.json").write_text(json.dumps({"property":prop,"needs":needs,"what_it_breaks":breaks},indent=1)+"\n")
subprocess.run(["git","-C","/tmp/plant/repo","checkout","-q","--","."],check=True)
