#!/usr/bin/env python3
"""Decide one property by symbolic execution of the compiled crate.

usage: check.py C03 [--thorough] [--time S] [--only SUBSTR] [--keep]
       check.py --setup
       check.py --replay FILE
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed.
"""
import sys, os, json, resource, subprocess, shutil, time, hashlib, glob, threading, re
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
BUILD = os.environ.get("YSYM_BUILD", os.path.join(ROOT, "build"))
HARN = os.path.join(ROOT, "harness")
ENG = os.path.join(ROOT, "engine")
YSYM = os.path.join(BUILD, "engine", "release", "ysym")
CRATES = ["hx", "libyaml_safer", "unsafe_libyaml", "core", "alloc", "std", "memchr", "compiler_builtins"]


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def env(target, **kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
            del e[k]
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR=os.path.join(BUILD, target),
             CARGO_NET_OFFLINE="true", **kw)
    return e


def run(cmd, cwd, e, what):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        die("%s failed" % what)


def forget(target, pats):
    """Drop cargo's fingerprints so that the crate is compiled again from /repo."""
    for prof in glob.glob(os.path.join(BUILD, target, "*")) + glob.glob(os.path.join(BUILD, target, "*", "*")):
        for p in pats:
            for d in glob.glob(os.path.join(prof, ".fingerprint", p)):
                shutil.rmtree(d, ignore_errors=True)


def build_engine():
    run(["cargo", "build", "--release", "--offline", "-q"], ENG, env("engine"), "building the engine")


def build_ir():
    forget("ir", ["hx-*", "libyaml-safer-*"])
    flags = ("--emit=llvm-ir,link,metadata -Ccodegen-units=1 -Cno-vectorize-loops -Cno-vectorize-slp "
             "-Cpanic=abort -Crelocation-model=static")
    run(["cargo", "build", "--release", "--lib", "--offline", "-q", "-Zbuild-std=std,panic_abort",
         "--target", "x86_64-unknown-linux-gnu"], HARN,
        env("ir", RUSTFLAGS=flags, RUSTC_BOOTSTRAP="1"), "compiling the crate to LLVM IR")


def build_native(prof, target):
    forget(target, ["hx-*", "libyaml-safer-*"])
    run(["cargo", "build", "--profile", prof, "--features", "native", "--bin", "replay", "--offline", "-q"],
        HARN, env(target), "native build (%s)" % prof)


NAT = [("nat", "nat", os.path.join(BUILD, "nat", "nat", "replay")),
       ("natdbg", "dbg", os.path.join(BUILD, "dbg", "natdbg", "replay"))]


def ir_files():
    d = os.path.join(BUILD, "ir", "x86_64-unknown-linux-gnu", "release", "deps")
    out = []
    for c in CRATES:
        g = glob.glob(os.path.join(d, c + "-*.ll"))
        if not g:
            die("no IR for " + c)
        out.append(max(g, key=os.path.getmtime))
    return out


def replay(binary, items, timeout=60, timed=False):
    """items: (id, harness, hexarg, hexvals) -> {id: (outcome, obs, msg)}; timed: measure time as well"""
    env = dict(os.environ, **({"HX_TIMED": "1"} if timed else {}))
    res, lost = {}, 0
    todo = list(items)
    while todo:
        p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env,
                             preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30)))
        data = "".join("\t".join(i) + "\n" for i in todo)
        to = False
        try:
            out, _ = p.communicate(data, timeout=timeout + len(todo) * (0.02 if not timed or not any("linear" in i[1] for i in todo) else 5))
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            to = True
        started = None
        for l in out.splitlines():
            f = l.split("\t")
            if len(f) == 2:
                started = f[0]
            elif len(f) >= 4:
                res[f[0]] = (f[1], f[2], "\t".join(f[3:]))
                if started == f[0]:
                    started = None
        if started is not None:
            res[started] = ("hang" if to else "crash", "", "signal/exit %s" % p.returncode)
            lost += 1
            if lost >= 3:
                # enough: each further one costs the whole time limit
                for i in todo:
                    res.setdefault(i[0], ("ok", "", "not run after %d hangs or crashes" % lost))
        elif len([1 for i in todo if i[0] in res]) != len(todo):
            die("native replay stopped without a result")
        todo = [i for i in todo if i[0] not in res]
    return res


def norm(msg):
    """panic text without its line and column: stable under unrelated edits"""
    return re.sub(r":\d+:\d+", "", msg)


def load_known():
    f = os.path.join(ROOT, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else {"findings": []}


def setup():
    build_engine()
    ts = [threading.Thread(target=build_ir)] + [threading.Thread(target=build_native, args=(p, t)) for p, t, _ in NAT]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def show(template):
    names = {0: "<any>", 1: "<ascii>", 2: "<yaml>", 3: "<print>", 4: "<cont>", 9: "<3-byte char>", 10: "<4-byte char>"}
    s, i = "", 0
    while i < len(template):
        b = template[i]
        if b != 0xF5:
            s += chr(b) if 32 <= b < 127 else "\\x%02x" % b
            i += 1
            continue
        c = template[i + 1]
        if c in names:
            s += names[c]
        elif c == 5:
            n = template[i + 2]
            s += "<one of %s>" % repr(bytes(template[i + 3:i + 3 + n]))[2:-1]
            i += 1 + n
        elif c == 6:
            s += "<%02x-%02x>" % (template[i + 2], template[i + 3])
            i += 2
        elif c == 7:
            p, a = i + 3, []
            for _ in range(template[i + 2]):
                a.append(repr(bytes(template[p + 1:p + 1 + template[p]]))[2:-1])
                p += 1 + template[p]
            s += "<one string of %s>" % " ".join(a)
            i = p - 2
        elif c == 8:
            lo, hi, l = int.from_bytes(template[i + 2:i + 4], "little"), int.from_bytes(template[i + 4:i + 6], "little"), template[i + 6]
            s += "<%s times %s>" % (lo if lo == hi else "%d-%d" % (lo, hi), repr(bytes(template[i + 7:i + 7 + l]))[2:-1])
            i += 5 + l
        else:
            s += "\\xf5"
        i += 2
    return s


YCHARS = b" \t\n\r-?:,[]{}#&*!|>'\"%@`a0.\\~=<+_/"


def fill(template, values):
    """The template with the values put in (what follows them are the harness's own choices)."""
    v, k, out, i = bytes.fromhex(values), 0, b"", 0
    def nxt():
        nonlocal k
        k += 1
        return v[k - 1] if k <= len(v) else 0
    while i < len(template):
        b = template[i]
        if b != 0xF5:
            out += bytes([b])
            i += 1
            continue
        c = template[i + 1]
        if c == 2:
            out += YCHARS[nxt() % len(YCHARS):][:1]
        elif c == 5:
            n = template[i + 2]
            out += template[i + 3 + nxt() % n:][:1]
            i += 1 + n
        elif c in (9, 10):
            out += bytes(nxt() for _ in range(c - 6))
        elif c == 6:
            out += bytes([nxt()])
            i += 2
        elif c == 7:
            p, a = i + 3, []
            for _ in range(template[i + 2]):
                a.append(template[p + 1:p + 1 + template[p]])
                p += 1 + template[p]
            out += a[nxt() % len(a)]
            i = p - 2
        elif c == 8:
            lo, hi, l = int.from_bytes(template[i + 2:i + 4], "little"), int.from_bytes(template[i + 4:i + 6], "little"), template[i + 6]
            n = lo + (nxt() % (hi - lo + 1) if hi > lo else 0)
            u = template[i + 7:i + 7 + l]
            out += u.replace(b"\1", b"#") * n if n < 12 else b"(%s x %d)" % (u, n)
            i += 5 + l
        elif c <= 4:
            out += bytes([nxt()])
        else:
            out += bytes([c])
        i += 2
    return "%r + %s" % (out, v[k:].hex()) if v[k:] else repr(out)


def main():
    t0 = time.time()
    args = sys.argv[1:]
    if args[0] == "--setup":
        setup()
        return
    if args[0] == "--replay":
        r = json.load(open(args[1]))
        build_native(*NAT[0][:2])
        build_native(*NAT[1][:2])
        for p, _, b in NAT:
            print(p, replay(b, [("0", r["harness"], r["arg"], r["values"])], timed=True)["0"])
        return
    prop = args[0]
    tier = "thorough" if "--thorough" in args else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import jobs as J
    spec = J.PROPS[prop]
    jobs = J.jobs(prop, tier)
    if "--only" in args:
        k = args[args.index("--only") + 1]
        jobs = [j for j in jobs if k in j[0] or k in show(j[2])]
    limit = int(args[args.index("--time") + 1]) if "--time" in args else spec.get(tier + "_time", 300 if tier == "quick" else 7200)
    procs = os.cpu_count() or 4
    build_engine()
    build_ir()
    tb = time.time() - t0
    errs = []

    def nb(p, t):
        try:
            build_native(p, t)
        except SystemExit:
            errs.append(p)
    ts = [threading.Thread(target=nb, args=(p, t)) for p, t, _ in NAT]
    for t in ts:
        t.start()
    work = os.path.join(BUILD, "work-%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        rc = explore(prop, tier, seed, spec, jobs, limit, procs, work, ts, errs, t0, tb, "--verbose" in args)
    finally:
        if "--keep" not in args:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def explore(prop, tier, seed, spec, jobs, limit, procs, work, ts, errs, t0, tb, verbose):
    jf, of, cf = (os.path.join(work, x) for x in ("jobs", "out", "cov"))
    with open(jf, "w") as f:
        for h, steps, arg in jobs:
            f.write("%s\t%d\t%s\n" % (h, steps, arg.hex()))
    sample = spec.get("sample", 2)
    cmd = [YSYM, "--jobs", jf, "--out", of, "--cov", cf, "--procs", str(procs), "--time", str(limit),
           "--sample", str(sample), "--maxfail", "2", "--seed", str(seed)]
    for l in ir_files():
        cmd += ["--ll", l]
    te = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    te = time.time() - te
    for t in ts:
        t.join()
    if errs:
        die("native build failed")
    summ = dict(x.split("=", 1) for x in r.stdout.split() if "=" in x)
    if "paths" not in summ:
        print(r.stdout[-3000:])
        die("the engine stopped without a summary")
    paths, reach, perjob, left = [], {}, {}, {}
    z3c = z3n = forks = 0
    for l in open(of, errors="replace"):
        f = l.rstrip("\n").split("\t")
        if f[0] == "PATH":
            paths.append((int(f[1]), f[2], int(f[3]), f[4], f[5], f[6] if len(f) > 6 else ""))
        elif f[0] == "REACH":
            reach.setdefault((jobs[int(f[1])][0], int(f[2])), set()).add(int(f[1]))
        elif f[0] == "JOB":
            perjob[int(f[1])] = perjob.get(int(f[1]), 0) + int(f[2])
        elif f[0] == "LEFT":
            left[int(f[1])] = left.get(int(f[1]), 0) + int(f[2])
        elif f[0] == "STAT":
            z3c += int(f[1]); z3n += int(f[2]); forks += int(f[3])
    ok, nj = [], {}
    for p in paths:
        if p[1] == "ok" and nj.get(p[0], 0) < spec.get("validate", 6):
            nj[p[0]] = nj.get(p[0], 0) + 1
            ok.append(p)
    bad = [p for p in paths if p[1] in ("fail", "panic", "mem", "steps")]
    eng = [p for p in paths if p[1] == "engine"]
    # --- validate the translation: native runs of sampled paths observe the same values
    items = [("v%d" % i, jobs[p[0]][0], jobs[p[0]][2].hex(), p[3]) for i, p in enumerate(ok)]
    problems, validated = [], 0
    for name, _, binary in NAT[:1 if tier == "quick" else 2]:
        res = replay(binary, items)
        for i, p in enumerate(ok):
            o = res["v%d" % i]
            if o[0] != "ok" or o[1] != p[4]:
                problems.append("path of job %s values %s: engine ok/%s, native(%s) %s" % (show(jobs[p[0]][2]), p[3], p[4][:200], name, (o[0], o[1][:200], o[2])))
            else:
                validated += 1
    # --- counterexamples: replay on the real code
    confirmed, unconfirmed = [], []
    cand = {}
    for p in bad:
        cand.setdefault((jobs[p[0]][0], p[1], norm(p[5])), []).append(p)
    items, idx = [], []
    for key, ps in sorted(cand.items()):
        for p in sorted(ps, key=lambda p: (len(p[3]), p[3]))[:8]:
            idx.append((key, p))
            items.append(("c%d" % len(items), jobs[p[0]][0], jobs[p[0]][2].hex(), p[3]))
    if items:
        rs = [(n, replay(b, items, 10, True)) for n, _, b in NAT]
        for i, (key, p) in enumerate(idx):
            outs = {n: res["c%d" % i] for n, res in rs}
            badouts = {n: o for n, o in outs.items() if o[0] not in ("ok", "assumed")}
            (confirmed if badouts else unconfirmed).append((key, p, badouts or outs))
    known = [k for k in load_known()["findings"] if k["property"] == prop]
    violations, knowns = {}, {}
    for key, p, outs in confirmed:
        k = next((k for k in known if k["harness"] == key[0] and any(x["arg"] == jobs[p[0]][2].hex() and x["values"] == p[3] for x in k["cases"])), None)
        if k:
            knowns.setdefault(k["what"], []).append(p)
        else:
            violations.setdefault(key, []).append((p, outs))
    ran = set(violations)
    soft = [x for x in unconfirmed if x[1][1] == "steps"]
    hard = [x for x in unconfirmed if x[1][1] != "steps" and x[0] not in ran]
    for w in sorted(knowns):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    for f in glob.glob(os.path.join(evdir, prop + "-cex-*.json")):
        os.remove(f)
    n = 0
    for key, ps in sorted(violations.items()):
        p, outs = ps[0]
        f = os.path.join(evdir, "%s-cex-%d.json" % (prop, n))
        n += 1
        h, _, arg = jobs[p[0]]
        json.dump(dict(property=prop, harness=h, arg=arg.hex(), template=show(arg), values=p[3], filled=fill(arg, p[3]), kind=p[1], message=p[5],
                       native={k: list(o) for k, o in outs.items()},
                       rerun="python3 tools/check.py --replay " + f), open(f, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, f))
        print("  %s %s: %s | template %s | values %s | %s | native: %s" % (h, p[1], p[5], show(arg), p[3], fill(arg, p[3]), {k: (o[0], o[2]) for k, o in outs.items()}))
    missing = []
    incomplete = bool(left) or bool(eng) or bool(bad)
    for h, codes in spec.get("reach", {}).items():
        if any(j[0] == h for j in jobs):
            missing += ["%s:%d" % (h, c) for c in codes if (h, c) not in reach]
    cov = {}
    for l in open(cf):
        m, f, a, b = l.rstrip("\n").split("\t")
        cov.setdefault(m.split("-")[0], []).append((f, int(a), int(b)))
    fn = {}
    for c in ("libyaml_safer", "hx"):
        for f, a, b in cov.get(c, []):
            if "libyaml_safer" in f and ("libyaml_safer" in re.sub(r"^.*?(13libyaml_safer|libyaml_safer).*$", r"\1", f)):
                fn[f] = "%d/%d blocks" % (a, b)
    samples = []
    for p in ok[:: max(1, len(ok) // 6)][:6]:
        samples.append(dict(harness=jobs[p[0]][0], template=show(jobs[p[0]][2]), values=p[3], instructions=p[2]))
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=int(summ["paths"]), transitions=int(summ["instrs"]), traces_validated_against_impl=validated,
                            samples=samples or ["no passing path sampled"], exhaustive=not left and not eng,
                            assumption_cut_paths=int(summ["assumed"]),
                            solver_queries=z3c, solver_seconds=round(z3n / 1e9, 2), solver="z3 " + summ.get("z3", ""), forks=forks,
                            bounds=[dict(harness=h, template=show(a), step_limit=s, paths=perjob.get(i, 0),
                                         unexplored_states=left.get(i, 0)) for i, (h, s, a) in enumerate(jobs)],
                            jobs=len(jobs), jobs_not_finished=sorted(left), engine_gaps=sorted({p[5] for p in eng}),
                            step_limit_paths=len(soft), counterexamples_replayed=len(idx), reached=sorted("%s:%d" % k for k in reach),
                            functions_encoded=fn, functions_encoded_elsewhere={c: len(v) for c, v in cov.items()},
                            build_s=round(tb, 1), exploration_s=round(te, 1)),
              assumptions=J_ASSUME + spec.get("assume", []), wall_s=round(wall, 1), violations=len(violations))
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    print("%s %s: %d jobs, %s paths, %s instructions, %d solver queries (%.1f s), %d native validations, %d unfinished jobs, %.0f s"
          % (prop, tier, len(jobs), summ["paths"], summ["instrs"], z3c, z3n / 1e9, validated, len(left), wall))
    empty = [i for i in range(len(jobs)) if not perjob.get(i) and i not in left]
    if empty:
        print("note: every path of %d jobs was cut by an assumption, e.g. %s" % (len(empty), [(jobs[i][0], show(jobs[i][2])) for i in empty[:3]]))
    if verbose:
        for i in sorted(perjob, key=lambda i: -perjob[i])[:15]:
            print("   ", perjob[i], jobs[i][0], show(jobs[i][2]))
        for i in sorted(left)[:20]:
            print("    LEFT", left[i], jobs[i][0], show(jobs[i][2]))
    if eng:
        print("not decided (engine gap): %s" % sorted({p[5] for p in eng})[:5])
    if violations:
        return 1
    if problems:
        print("\n".join(problems[:5]))
        print("ERROR: %d sampled paths behave differently natively" % len(problems))
        return 2
    if hard:
        for key, p, outs in hard[:5]:
            print("unconfirmed: %s %s | %s | %s | %s" % (key, p[5], show(jobs[p[0]][2]), p[3], outs))
        print("ERROR: a counterexample did not reproduce on the real code")
        return 2
    if r.returncode != 0 and not int(summ.get("stop", 0)):
        print(r.stdout[-2000:])
        print("ERROR: engine exit %d" % r.returncode)
        return 2
    if missing and not incomplete:
        print("ERROR: not reached (the exploration would be vacuous): %s" % missing)
        return 2
    return 0


J_ASSUME = [
    "Bounded: inputs are those of the listed templates; nothing is claimed beyond them.",
    "The optimised LLVM IR of the crate (debug assertions and overflow checks on), of its harness and of the standard library is what is executed; the allocator, panics and memory intrinsics are modelled by the engine.",
    "Pointers are compared and cast by an address model in which distinct objects are far apart; allocation never fails.",
    "The engine's translation is validated on sampled paths by running the same values natively and comparing everything observed.",
]
if __name__ == "__main__":
    try:
        main()
    except Exception as e:
        import traceback
        traceback.print_exc()
        die("the check itself failed: %s" % e)
