#!/usr/bin/env python3
"""mk.py SPEC...: turn bug specs into /verif/seeded/<id>/ (patch, scenario, demo); patches are made in a scratch clone.

spec format:
  @@ id property
  @file path            (repeatable)
  <<<<
  old
  ====
  new
  >>>>
  @needs text
  @breaks text
  @main
  rust source until the next '@@'
"""
import sys, os, re, subprocess, shutil, json
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SC = "/tmp/w/mk"
def sh(*a, **k):
    return subprocess.run(a, check=True, capture_output=True, text=True, **k).stdout
def main():
    if not os.path.isdir(SC):
        sh("git", "clone", "-q", "/repo", SC)
    for spec in sys.argv[1:]:
        txt = open(spec).read()
        for part in re.split(r"(?m)^@@ ", txt)[1:]:
            head, rest = part.split("\n", 1)
            bid, prop = head.split()
            sh("git", "-C", SC, "fetch", "-q", "origin")
            sh("git", "-C", SC, "reset", "-q", "--hard", "origin/HEAD")
            pre, mainrs = rest.split("\n@main\n", 1)
            cur = None
            for m in re.finditer(r"(?ms)^@file (\S+)$|^<<<<\n(.*?)\n====\n(.*?)\n?>>>>$", pre):
                if m.group(1):
                    cur = os.path.join(SC, m.group(1)); continue
                s = open(cur).read(); old, new = m.group(2), m.group(3)
                n = s.count(old)
                if n != 1:
                    print(f"{bid}: old text occurs {n} times in {cur}:\n{old}"); sys.exit(1)
                open(cur, "w").write(s.replace(old, new))
            needs = re.search(r"(?ms)^@needs (.*?)(?=^@|\Z)", pre).group(1).strip()
            breaks = re.search(r"(?ms)^@breaks (.*?)(?=^@|\Z)", pre).group(1).strip()
            d = os.path.join(V, "seeded", bid)
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            diff = sh("git", "-C", SC, "diff")
            if not diff: print(bid, "empty diff"); sys.exit(1)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/main.rs", "w").write(mainrs.strip() + "\n")
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
            K = V + "/tools/plant"
            shutil.copytree(K + "/kit", d + "/kit"); shutil.copy(K + "/demo.sh", d + "/demo.sh")
            os.chmod(d + "/demo.sh", 0o755)
            print("made", bid)
main()
