#!/usr/bin/env python3
"""Check runner:  python3 run.py <property> [--tier quick|thorough] [--seed N] [--keep]

For one property: TLC generates cases/behaviours from the *Gen.tla specification,
the driver (PyPy, imports /repo) replays them on the real code and logs every call,
TLC validates the log against the trace specification, which names every violated
clause.  Exit 0: nothing violated; exit 1: VIOLATION line printed.
"""
import sys, os, json, time, shutil, tempfile, subprocess, re, argparse, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
CP = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"
PY = os.environ.get("VERIF_PYTHON", "/opt/pypyvenv/bin/python")
NPROC = int(os.environ.get("VERIF_PROCS", "8"))

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


class Machinery(Exception):
    pass


def sh(cmd, timeout, env=None, cwd=None, out=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=e, cwd=cwd)
    except subprocess.TimeoutExpired as ex:
        raise Machinery("timeout: %s\n%s" % (" ".join(cmd), (ex.stdout or b"").decode("utf8", "replace")[-3000:]))
    txt = p.stdout.decode("utf8", "replace")
    if out:
        with open(out, "w") as f:
            f.write(txt)
    return p.returncode, txt


def build_overrides(scratch):
    cls = os.path.join(scratch, "cls")
    os.makedirs(cls)
    srcs = sorted(os.path.join(VERIF, "java", f) for f in os.listdir(os.path.join(VERIF, "java")) if f.endswith(".java"))
    rc, txt = sh(["javac", "-cp", CP, "-d", cls] + srcs, 300)
    if rc != 0:
        raise Machinery("javac failed\n" + txt)
    return cls


def tlc(scratch, cls, module, cfg_lines, env, workers, extra=(), timeout=1500, heap="6g"):
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    cfg = os.path.join(d, module + ".cfg")
    with open(cfg, "w") as f:
        f.write("\n".join(cfg_lines) + "\n")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:CLinOverrides",
           "-cp", cls + ":" + CP, "tlc2.TLC", "-metadir", os.path.join(d, "md"),
           "-workers", str(workers), "-noGenerateSpecTE", "-lncheck", "final",
           "-config", cfg] + list(extra) + [os.path.join(VERIF, "spec", module + ".tla")]
    rc, txt = sh(cmd, timeout, env=env, cwd=d, out=os.path.join(d, "out.txt"))
    return rc, txt


def tlc_counts(txt):
    # the summary (or simulation progress) lines of TLC
    gen = dist = 0
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt):
        gen, dist = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    if gen == 0:
        for m in re.finditer(r"The number of states generated: ([\d,]+)", txt):
            gen = dist = int(m.group(1).replace(",", ""))
    return gen, dist


def generate(scratch, cls, g, tier, seed):
    """Run one generator specification; returns (cases, generated, distinct)."""
    out = os.path.join(scratch, "cases-%s-%d.ndjson" % (g["module"], time.time_ns()))
    consts = dict(g.get("consts", {}))
    consts.update(g.get(tier, {}))
    cfg = ["CONSTANT %s = %s" % (k, v) for k, v in consts.items()]
    cfg += g.get("cfg", ["INIT Init", "NEXT Next", "CHECK_DEADLOCK FALSE"])
    extra = []
    if "simulate" in g:
        sim = g["simulate"][tier]
        extra = ["-simulate", "num=%d" % sim[0], "-depth", str(sim[1])]
    extra += ["-seed", str(seed), "-fp", "0"]
    env = {"VT_OUT": out, "VT_SEED": str(seed)}
    rc, txt = tlc(scratch, cls, g["module"], cfg, env, g.get("workers", 1), extra, timeout=600)
    if rc != 0 or not ("No error has been found" in txt or "simulate" in g and "Finished in" in txt):
        raise Machinery("generator %s failed (rc %d)\n%s" % (g["module"], rc, txt[-4000:]))
    cases = []
    if os.path.exists(out):
        with open(out) as f:
            cases = [json.loads(x) for x in f if x.strip()]
    # behaviours printed by the specification as <<"CASE", "json">>
    for m in re.finditer(r'<<\s*"CASE",\s*"((?:[^"\\]|\\.)*)"\s*>>', txt):
        cases.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    seen, uniq = set(), []
    for c in cases:
        k = json.dumps(c, sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    uniq.sort(key=lambda c: json.dumps(c, sort_keys=True))
    if not uniq:
        raise Machinery("generator %s produced nothing\n%s" % (g["module"], txt[-3000:]))
    lim = g.get("limit", {}).get(tier)
    if lim and len(uniq) > lim:
        # deterministic sub-sample
        uniq.sort(key=lambda c: hashlib.sha1((str(seed) + json.dumps(c, sort_keys=True)).encode()).hexdigest())
        uniq = uniq[:lim]
    gen, dist = tlc_counts(txt)
    return uniq, gen, dist


def model(scratch, cls, mods, tier):
    """Check the algorithms' own specifications exhaustively; deviations planted in them must be noticed."""
    gen = dist = 0
    names = []
    for md in mods:
        for consts in md["run"]:
            bugs = ["none"] + (md.get("bugs", {}).get(consts["DRV"], []) if tier == "thorough" else [])
            for bug in bugs:
                c = dict(consts, **md[tier])
                cfg = ["CONSTANT %s = %s" % (k, v if isinstance(v, int) else '"%s"' % v) for k, v in c.items()]
                cfg += ['CONSTANT BUG = "%s"' % bug] + md["cfg"]
                rc, txt = tlc(scratch, cls, md["module"], cfg, {}, NPROC, ["-fp", "0"], timeout=600)
                ok = rc == 0 and "No error has been found" in txt
                if bug == "none" and not ok or bug != "none" and "Invariant Accepted is violated" not in txt:
                    raise Machinery("model %s %s: rc %d\n%s" % (md["module"], c, rc, txt[-3000:]))
                g, d = tlc_counts(txt)
                gen, dist = gen + g, dist + d
                names.append("%s(%s)" % (md["module"], ", ".join("%s=%s" % kv for kv in sorted(dict(c, BUG=bug).items()))))
    return gen, dist, names


PYENV = dict(PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             OPENBLAS_CORETYPE="Haswell", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore")


def build_ext(scratch):
    """Compile the extension modules: dist/ from the C files of the repository, made/ from their sources, both beside
    a copy of the Python modules; a helper of ours beside them."""
    d = os.path.join(scratch, "ext")
    src = os.path.join(REPO, "evoMPS")
    rc, txt = sh([PY, "-c", "import numpy, sysconfig; print(numpy.get_include()); print(sysconfig.get_paths()['include']); "
                  "print(sysconfig.get_config_var('EXT_SUFFIX'))"], 120, env=PYENV)
    if rc != 0:
        raise Machinery("no include paths\n" + txt)
    inc1, inc2, suf = txt.strip().splitlines()[-3:]
    for v in ("dist", "made"):
        os.makedirs(os.path.join(d, v, "evoMPS"))
        for f in os.listdir(src):
            if f.endswith((".py", ".pyx", ".pxd", ".c")):
                shutil.copy(os.path.join(src, f), os.path.join(d, v, "evoMPS", f))
    jobs = []
    mods = dict(eps_maps_c="pyx", tdvp_calc_C="pyx", allclose="pyx", core_common="py")
    for v in ("dist", "made"):
        for m, e in mods.items():
            p = os.path.join(d, v, "evoMPS", m)
            cmd = "gcc -O1 -w -shared -fPIC -fopenmp -I%s -I%s %s.c -o %s%s" % (inc2, inc1, p, p, suf)
            if v == "made":
                cmd = "%s -m cython -w %s evoMPS/%s.%s -o evoMPS/%s.c && %s" % (PY, os.path.join(d, v), m, e, m, cmd)
            jobs.append((m, v, cmd))
    h = os.path.join(d, "vt_capsule")
    jobs.append(("vt_capsule", "", "gcc -O1 -shared -fPIC -I%s %s.c -o %s%s" % (inc2, os.path.join(VERIF, "driver", "vt_capsule"), h, suf)))
    env = dict(os.environ)
    env.update(PYENV)
    procs = []
    for m, v, cmd in jobs:
        lg = open(os.path.join(scratch, "ext-%s-%s.log" % (m, v)), "w+")
        procs.append((m, v, lg, subprocess.Popen(["sh", "-c", cmd], env=env, cwd=os.path.join(d, v), stdout=lg, stderr=subprocess.STDOUT)))
    for m, v, lg, p in procs:
        if p.wait() != 0:
            lg.seek(0)
            raise Machinery("the compiled module %s (%s) does not build\n%s" % (m, v, lg.read()[-3000:]))
        lg.close()
    return d


def drive(scratch, driver, cases, seed, tier, budget, ext=None, pkg=None):
    """Replay the cases on the real code in NPROC processes; returns the traces."""
    inp = os.path.join(scratch, "in.ndjson")
    with open(inp, "w") as f:
        for i, c in enumerate(cases):
            f.write(json.dumps(dict(id=i + 1, case=c)) + "\n")
    env = dict(os.environ)
    env.update(PYENV)
    env["PYTHONPATH"] = os.path.join(ext, pkg) if pkg else REPO
    if ext:
        env["VT_EXT"] = ext
    env["VT_TIER"] = tier
    tmp = os.path.join(scratch, "tmp")
    os.makedirs(tmp, exist_ok=True)
    env["TMPDIR"] = tmp
    procs = []
    n = min(NPROC, len(cases))
    for k in range(n):
        o = os.path.join(scratch, "tr-%d.ndjson" % k)
        lg = open(os.path.join(scratch, "drv-%d.log" % k), "w")
        procs.append((subprocess.Popen([PY, os.path.join(VERIF, "driver", driver + ".py"), inp, o,
                                        str(k), str(n), str(seed)], env=env, cwd=scratch,
                                       stdout=lg, stderr=subprocess.STDOUT), o, lg))
    t_end = time.time() + budget
    for p, o, lg in procs:
        try:
            p.wait(max(1, t_end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        lg.close()
    traces = {}
    for p, o, lg in procs:
        if os.path.exists(o):
            with open(o) as f:
                for line in f:
                    if line.endswith("\n"):
                        try:
                            t = json.loads(line)
                        except ValueError:
                            continue
                        traces[t["id"]] = t
    logs = ""
    for k in range(n):
        with open(os.path.join(scratch, "drv-%d.log" % k)) as f:
            x = f.read()
            logs += x[-1500:]
    if "DRIVER-BUG" in logs:
        raise Machinery("driver error\n" + logs)
    missing = 0
    res = []
    for i, c in enumerate(cases):
        t = traces.get(i + 1)
        if t is None:
            # the process died or never finished this behaviour
            missing += 1
            t = dict(id=i + 1, cfg=dict(kind="crash"), tag="process-died", ev=[dict(op="process", exc="no result (crash or hang)")])
        res.append(t)
    return res, missing, logs


def validate(scratch, cls, module, traces, timeout=1500):
    path = os.path.join(scratch, "trace-%s.ndjson" % module)
    with open(path, "w") as f:
        for t in traces:
            f.write(json.dumps(t) + "\n")
    nev = sum(len(t["ev"]) for t in traces)
    env = {"VT_TRACE": path}
    rc, txt = tlc(scratch, cls, module, ["INIT Init", "NEXT Next", "CHECK_DEADLOCK FALSE"], env,
                  NPROC, ["-fp", "0"], timeout=timeout)
    gen, dist = tlc_counts(txt)
    if rc != 0 or "No error has been found" not in txt:
        raise Machinery("trace validation of %s did not finish (rc %d)\n%s" % (module, rc, txt[-6000:]))
    if dist != nev + len(traces):
        raise Machinery("trace validation of %s: %d states, expected %d\n%s" % (module, dist, nev + len(traces), txt[-3000:]))
    fails = []
    for m in re.finditer(r'<<\s*"FAIL",\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*>>', txt):
        fails.append((int(m.group(1)), int(m.group(2)), m.group(3)))
    if '"FAIL"' in txt and not fails:
        raise Machinery("unparsed FAIL lines\n" + txt[-3000:])
    checked = {}
    for m in re.finditer(r'<<\s*"NOTE",\s*"([^"]*)",\s*(\d+)\s*>>', txt):
        checked[m.group(1)] = checked.get(m.group(1), 0) + int(m.group(2))
    return sorted(set(fails)), gen, dist


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="Java overrides of CLin against its TLA+ definitions; all modules parse")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--mutate", type=int, default=0, help="corrupt that many recorded traces (binding self-test)")
    ap.add_argument("--only", default=None, help="regular expression on the case json")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    if a.selftest:
        sys.exit(selftest())
    pid = a.prop
    chk = CHECKS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vt-%s-" % pid)
    rc = 2
    try:
        rc = run(pid, chk, tier, seed, scratch, t0, a)
    except Machinery as ex:
        print("MACHINERY-ERROR %s: %s" % (pid, ex))
        rc = 2
    finally:
        if a.keep:
            print("scratch kept:", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def selftest():
    scratch = tempfile.mkdtemp(prefix="vt-self-")
    try:
        cls = build_overrides(scratch)
        empty = os.path.join(scratch, "none")
        os.makedirs(empty)
        outs = []
        for c in (cls, empty):
            rc, txt = tlc(scratch, c, "CLinSelfTest", ["INIT Init", "NEXT Next", "INVARIANT Show", "CHECK_DEADLOCK FALSE"],
                          {}, 1, ["-fp", "0"], timeout=600)
            i = txt.find('"SELF"')
            if "No error has been found" not in txt or i < 0:
                raise Machinery("self-test run failed\n" + txt[-3000:])
            outs.append("".join(x for x in txt[i:txt.find("Model checking completed")].splitlines() if "Finished" not in x))
        if re.sub(r"\s+", "", outs[0]) != re.sub(r"\s+", "", outs[1]):
            raise Machinery("the Java overrides disagree with CLin.tla")
        print("overrides agree with CLin.tla on %d bytes of results" % len(outs[0]))
        return 0
    except Machinery as ex:
        print("MACHINERY-ERROR selftest: %s" % ex)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip("\n")
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)$", line)
            if m and m.group(1) == pid:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


def run(pid, chk, tier, seed, scratch, t0, a):
    cls = build_overrides(scratch)
    tot_gen = tot_dist = 0
    all_fails, samples = [], []
    ntr = nev = 0
    clauses = {}
    nontriv = set()
    stages = []
    if "model" in chk:
        g, d, names = model(scratch, cls, chk["model"], tier)
        tot_gen, tot_dist = tot_gen + g, tot_dist + d
        stages.append(dict(models=names, states=d))
        print("[%s] %d models checked exhaustively, %d states" % (pid, len(names), d))
    ext = build_ext(scratch) if chk.get("ext") else None
    for part in chk["parts"]:
        cases, g, d = [], 0, 0
        for gg in part["gen"]:
            c, g1, d1 = generate(scratch, cls, gg, tier, seed)
            for x in c:
                x.setdefault("gen", gg["module"])
            cases += c
            g += g1
            d += d1
        if "where" in part:
            cases = [c for c in cases if part["where"](c)]
        if a.only:
            cases = [c for c in cases if re.search(a.only, json.dumps(c, sort_keys=True))]
            if not cases:
                continue
        tot_gen += g
        tot_dist += d
        t1 = time.time()
        traces, missing, logs = drive(scratch, part["driver"], cases, seed, tier, part.get("budget", {}).get(tier, 600 if tier == "quick" else 6000),
                                      ext, part.get("pkg"))
        t2 = time.time()
        if a.mutate:
            mutate(traces, a.mutate, seed)
        fails, g2, d2 = validate(scratch, cls, part["trace"], traces, timeout=700 if tier == "quick" else 7000)
        t3 = time.time()
        tot_gen += g2
        tot_dist += d2
        ntr += len(traces)
        nev += sum(len(t["ev"]) for t in traces)
        for t in traces:
            for e in t["ev"]:
                clauses[e["op"]] = clauses.get(e["op"], 0) + 1
                nontriv.add(hashlib.sha1(json.dumps(e, sort_keys=True).encode()).hexdigest())
        if not samples or len(samples) < 3:
            t = traces[len(traces) // 2]
            samples.append(dict(case=cases[len(traces) // 2], tag=t.get("tag", ""), events=[e["op"] for e in t["ev"]][:40]))
        for tid, i, clause in fails:
            t = traces[tid - 1]
            e = t["ev"][i - 1]
            all_fails.append((t, i, e, clause, cases[tid - 1], part))
        stages.append(dict(driver=part["driver"], trace_spec=part["trace"], cases=len(cases), missing=missing,
                           drive_s=round(t2 - t1, 2), validate_s=round(t3 - t2, 2)))
        print("[%s] %s: %d behaviours replayed in %.1fs, %d events validated by %s in %.1fs, %d failing clauses" % (
            pid, part["driver"], len(traces), t2 - t1, sum(len(t["ev"]) for t in traces), part["trace"], t3 - t2, len(fails)))
    if os.environ.get("VT_LIST"):
        for t, i, e, clause, case, part in all_fails:
            print("   FAIL #%d ev%d %s/%s %s %s" % (t["id"], i, e["op"], clause, t.get("tag", ""), str(e.get("exc", ""))[:160]))
    known = load_known(pid)
    new, kn = [], {}
    for f in all_fails:
        t, i, e, clause, case, part = f
        sig = "%s/%s/%s" % (e["op"], clause, t.get("tag", "").replace(" ", "_"))
        if clause == "raised":
            sig += "/" + str(e.get("exc", "")).replace(" ", "_")
        hit = None
        for rx, what in known:
            if rx.search(sig):
                hit = what
                break
        if hit:
            kn.setdefault(hit, []).append(sig)
        else:
            new.append((sig, f))
    for what, sigs in sorted(kn.items()):
        print("KNOWN-FINDING: property=%s %s (%d occurrences)" % (pid, what, len(sigs)))
    rc = 0
    if new:
        rc = 1
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        done = set()
        for sig, (t, i, e, clause, case, part) in new:
            key = "%s/%s" % (e["op"], clause)
            if key in done:
                continue
            done.add(key)
            if len(done) <= 12:
                print("  failing: op=%s clause=%s tag=%s exc=%s (%d like this)" % (
                    e["op"], clause, t.get("tag", ""), str(e.get("exc", ""))[:300],
                    sum(1 for s, f in new if f[2]["op"] == e["op"] and f[3] == clause)))
        sig, (t, i, e, clause, case, part) = new[0]
        name = "%s-%s.json" % (pid, hashlib.sha1(sig.encode()).hexdigest()[:10])
        rp = os.path.join(rdir, name)
        with open(rp, "w") as f:
            json.dump(dict(property=pid, seed=seed, tier=tier, driver=part["driver"], trace_spec=part["trace"],
                           case=case, failing_event=i, clause=clause, signature=sig, trace=t), f)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2),
              violations=len(new),
              coverage=dict(states=tot_dist, transitions=tot_gen, traces_validated_against_impl=ntr,
                            samples=samples, events_validated=nev, distinct_events=len(nontriv),
                            events_by_action=clauses, stages=stages,
                            known_findings=sorted(kn)),
              assumptions=chk.get("assumptions", []) + [
                  "fixed-point arithmetic of 2^-24 resolution in the specification; tolerances stated in the trace specification",
                  "the drivers in /verif/driver log arguments and results unmodified apart from that rounding"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("[%s] tier=%s seed=%d: %d traces, %d events, %d TLC states, %.1fs -> %s" % (
        pid, tier, seed, ntr, nev, tot_dist, wall, "OK" if rc == 0 else "VIOLATED"))
    return rc


def mutate(traces, n, seed):
    """Corrupt one number in the recorded results of n events (binding self-test)."""
    import random
    r = random.Random(seed)
    done = 0
    idx = [(t, e) for t in traces for e in t["ev"] if e.get("out") is not None and not e.get("exc")]
    r.shuffle(idx)
    for t, e in idx:
        def leaves(x, path):
            if isinstance(x, bool):
                return
            if isinstance(x, int):
                yield path
            elif isinstance(x, list):
                for k, y in enumerate(x):
                    for z in leaves(y, path + [k]):
                        yield z
            elif isinstance(x, dict):
                for k in sorted(x):
                    for z in leaves(x[k], path + [k]):
                        yield z
        ls = list(leaves(e["out"], []))
        if not ls:
            continue
        p = r.choice(ls)
        x = e
        key = "out"
        for k in p:
            x = x[key]
            key = k
        x[key] = x[key] + (1 << 21)
        t["tag"] = t.get("tag", "") + " MUTATED " + e["op"] + str(p)
        done += 1
        if done >= n:
            break


if __name__ == "__main__":
    main()
