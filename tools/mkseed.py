#!/usr/bin/env python3
"""Makes a planted bug: mkseed.py SPEC.py writes ../seeded/<id>/ and confirms each demonstration
in a scratch copy of /repo's sources. A spec is a list S of (id, property, edits, demo, needs, breaks),
edits being (file, old, new)."""
import os, subprocess, sys, json, shutil, tempfile
L = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedlib")
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
BASE = "75b9c77"
def sh(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for (i, prop, edits, demo, needs, breaks) in ns["S"]:
        if only and i not in only:
            continue
        t = tempfile.mkdtemp(prefix="seed")
        w = t + "/w"
        sh("git clone -q /repo %s" % w, t)
        for f, a, b in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(a) != 1:
                print(i, "PATTERN", f, s.count(a)); break
            open(p, "w").write(s.replace(a, b))
        else:
            diff = sh("git diff", w).stdout
            base = {f: set(sh("git show %s:%s" % (BASE, f), w).stdout.splitlines()) for f, _, _ in edits}
            mine = []
            cur = None
            for l in diff.splitlines():
                if l.startswith("--- a/"):
                    cur = l[6:]
                elif l.startswith("-") and not l.startswith("---"):
                    if l[1:] not in base[cur]:
                        mine.append(l)
            d = os.path.join(OUT, i)
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.rs", "w").write(open(L + "/common.rs").read() + "\nfn main() {\n" + demo + "\n}\n")
            shutil.copy(L + "/demo.sh", d + "/demo.sh")
            os.chmod(d + "/demo.sh", 0o755)
            json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
            bad = sh("bash %s/demo.sh" % d, w)
            good = sh("bash %s/demo.sh" % d, "/repo")
            # the stable unit tests
            t5 = sh("rustc --edition 2021 --cap-lints allow --test --crate-name libyaml_safer -o %s/ut src/lib.rs && %s/ut 2>&1 | tail -3" % (t, t), w)
            ok = good.returncode == 0 and bad.returncode not in (0, 3) and "test result: ok" in t5.stdout
            print(i, "ok" if ok else "BAD", "good=%d bad=%d" % (good.returncode, bad.returncode), "NOT-ORIGINAL %s" % mine if mine else "",
                  (good.stdout if good.returncode else "")[-500:] + ("" if ok else bad.stdout[-300:] + t5.stdout[-300:]))
        shutil.rmtree(t)
main()
