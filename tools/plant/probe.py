#!/usr/bin/env python3
"""probe.py N OF SPEC...: try the specs' changes (no demonstration needed yet) in worker N: tests and the property's check"""
import sys, os, re, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
def main():
    n, of = int(sys.argv[1]), int(sys.argv[2]); B = f"/tmp/w/{n}"; R = B + "/repo"; k = 0
    only = set(os.environ.get("ONLY", "").split()) 
    for spec in sys.argv[3:]:
        for part in re.split(r"(?m)^@@ ", open(spec).read())[1:]:
            head, rest = part.split("\n", 1); bid, prop = head.split()[:2]; k += 1
            if only and bid not in only: continue
            if not only and k % of != n - 1: continue
            subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."]); subprocess.run(["cp", "/repo/Cargo.lock", R])
            pre = re.split(r"(?m)^@main$", rest)[0]; cur = None; bad = None
            for m in re.finditer(r"(?ms)^@file (\S+)$|^<<<<\n(.*?)\n====\n(.*?)\n?>>>>$", pre):
                if m.group(1): cur = f"{R}/{m.group(1)}"; continue
                s = open(cur).read()
                if s.count(m.group(2)) != 1: bad = f"old text occurs {s.count(m.group(2))} times: {m.group(2)[:80]!r}"; break
                open(cur, "w").write(s.replace(m.group(2), m.group(3) + ("\n" if False else "")))
            if bad: print(bid, "SPEC", bad, flush=True); continue
            out = f"{bid} [{prop}]"
            for c in (os.environ.get("CHECKS", prop)).split():
                t = time.time()
                r = subprocess.run([f"{B}/verif/run.sh", c, "--tier", os.environ.get("TIER", "quick")], capture_output=True, text=True, env={**os.environ, "VERIF_SEED": os.environ.get("SEED", "1")})
                o = r.stdout + r.stderr; open(f"{B}/probe-{bid}-{c}.log", "w").write(o)
                out += f" {c}:rc={r.returncode},v={o.count('VIOLATION property='+c)},{int(time.time()-t)}s"
                if r.returncode == 3: out += "\n" + "\n".join(l for l in o.splitlines() if l.startswith("error"))[:400]
            if os.environ.get("TESTS", "1") == "1":
                t = subprocess.run(["bash", "-c", f'. <(sed "s#cd /repo#cd {R}#" /opt/vp/env.sh); cd {R}; cargo test $SCOPE --no-fail-fast -- --test-threads 4'], capture_output=True, text=True, cwd=R)
                o = t.stdout + t.stderr
                out += f" tests={t.returncode} pass={len(re.findall(r'(?m)^test .* ok$', o))} failed={re.findall(r'(?m)^test (.*) \.\.\. FAILED$', o)[:4]}"
                if t.returncode and "FAILED" not in o: out += " " + "\n".join(l for l in o.splitlines() if l.startswith("error"))[:300]
            print(out, flush=True)
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
main()
