#!/usr/bin/env python3
"""The list of repaired defects in known_findings.json, from the commits in /repo."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {"423e406": "C01", "3c9034c": "C03", "b661049": "C04", "bb9adfc": "C04", "86cf615": "C06", "a10aa95": "C07", "9447738": "C05", "f850382": "C08", "370d571": "C09", "2199a64": "C09", "95298c0": "C10",
         "43a84ae": "C10", "3a32c6f": "C14", "5a60cd7": "C12", "09c7910": "C12", "ba2585e": "C11", "4f1c048": "C13", "35374a2": "C13", "5e8a9f6": "C12", "eb16ba4": "C11", "156c407": "C11", "4b418e0": "C11",
         "b659403": "C17", "b1925a2": "C16", "1d88f6e": "C15", "f6dc0a7": "C14", "42eb2fe": "C20", "28a2972": "C19", "c518d5b": "C19", "a332d76": "C19", "1d83b38": "C21", "b1cfca3": "C22", "0d4596a": "C23",
         "a078448": "C23", "5573849": "C24", "7954b8c": "C25", "3de4d0b": "C26", "538b61c": "C27", "8dd7dc5": "C28", "12999b1": "C28", "e6c9f2a": "C28", "9f41bfc": "C29", "7b7756f": "C31", "8aad824": "C31",
         "3b885c0": "C31", "ca3e368": "C33", "59acb34": "C33", "b89af3b": "C34", "4f032af": "C34", "cdaa656": "C35", "bd6c328": "C35", "2b8e4ef": "C37", "abc2181": "C37", "7bc7836": "C37"}
kf = os.path.join(V, "known_findings.json")
k = json.load(open(kf))
out = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s%x01%b%x02", "2710fee..HEAD"], capture_output=True, text=True).stdout.split("\x02"):
    if not l.strip(): continue
    h, s = l.strip().split(" ", 1)
    s, b = s.split("\x01")
    b = " ".join(b.split())
    if s.startswith("fix: "):
        out.append("fixed: property=%s %s %s%s" % (PROPS[h[:7]], h[:7], s[5:], ": " + b if b else ""))
k["fixed"] = out
json.dump(k, open(kf, "w"), indent=1); open(kf, "a").write("\n")
print(len(out))
