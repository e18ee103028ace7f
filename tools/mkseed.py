#!/usr/bin/env python3
"""mkseed.py <id> <property> <file> <needs> <what> : reads OLD and NEW text from stdin separated by a line `=====`
(several pairs separated by `#####`), writes seeded/<id>/{patch.diff,meta.json}. /repo must be clean; it is left clean."""
import json, os, subprocess, sys
sid, prop, path, needs, what = sys.argv[1:6]
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(root, "seeded", sid); os.makedirs(d, exist_ok=True)
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
data = sys.stdin.read()
for pair in data.split("#####\n"):
    fn = path
    if pair.startswith("@"):
        head, pair = pair.split("\n", 1); fn = head[1:].strip()
    old, new = pair.split("=====\n")
    p = os.path.join("/repo", fn); s = open(p).read()
    assert s.count(old) == 1, (fn, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
open(os.path.join(d, "patch.diff"), "w").write(diff)
subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True, capture_output=True)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)
print(diff)
