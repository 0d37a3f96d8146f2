#!/usr/bin/env python3
"""Runs the check of one property: bounded model checking of the specification, generation of behaviours from it,
building and running the conformance driver(s) against /repo's current tree, and TLC trace validation.

usage: check.py <PROPERTY>        (VERIF_TIER and VERIF_SEED are read from the environment)
exit 0: held on everything explored; exit 1 + a VIOLATION line: broken; anything else: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from registry import CHECKS  # noqa: E402

TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()
DEADLINE = T0 + (840 if TIER == "quick" else 6 * 3600)


class Infra(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def run(cmd, timeout, cwd=None, env=None, **kw):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                              text=True, errors="replace", **kw)
    except subprocess.TimeoutExpired as e:
        class R:  # noqa
            returncode = -999
            stdout = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
            stderr = (e.stderr or b"").decode(errors="replace") if isinstance(e.stderr, bytes) else (e.stderr or "")
        return R()


def tlc(work, tag, module, cfg, args=(), env=None, timeout=600, workers=4, heap="3g"):
    md = os.path.join(work, "md_" + tag)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", TLA_CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", md,
           "-workers", str(workers), "-config", cfg, *args, module]
    r = run(cmd, timeout, cwd=SPEC, env=e)
    shutil.rmtree(md, ignore_errors=True)
    return r


def tlc_counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        m2 = re.findall(r"(?:The number of states generated|Progress): ([\d,]+)", out)
        g = int(m2[-1].replace(",", "")) if m2 else 0
        return g, g
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


def compile_driver(work, d):
    src = os.path.join(HARN, d["src"])
    exe = os.path.join(work, os.path.splitext(d["src"])[0] + d.get("suffix", ""))
    base = [d.get("cxx", "g++"), "-std=c++20", d.get("opt", "-O1"), "-w", "-fno-var-tracking", "-DFMT_DEPRECATED_IMPLICIT_ENUMS",
            "-I" + HARN, "-I" + os.path.join(VERIF, "shim"), "-I" + REPO + "/include",
            "-I" + REPO + "/vendors/combinations", "-I" + REPO + "/vendors/undirected_graph/source",
            "-I" + REPO + "/vendors/graph-coloring/Header", *d.get("flags", [])]
    extra = [x.replace("$REPO", REPO) for x in d.get("extra_src", [])]
    r = run(base + [src, *extra, "-o", exe, "-lfmt", "-ltbb", "-lpthread", *d.get("libs", [])], 800)
    if r.returncode != 0:
        raise Infra("compile of %s failed:\n%s" % (d["src"], r.stderr[-6000:]))
    return exe


def run_driver(work, exe, d, out, script=None):
    scratch = tempfile.mkdtemp(prefix="scr", dir=work)
    cmd = [exe, "--seed", str(SEED), "--tier", TIER, "--out", out, "--mode", d.get("mode", "all"), "--scratch", scratch]
    if script:
        cmd += ["--script", script]
    r = run(cmd, d.get("timeout", 200) * (20 if TIER == "thorough" else 1), cwd=scratch)
    shutil.rmtree(scratch, ignore_errors=True)
    return r


def load(path):
    with open(path) as f:
        return [l for l in f if l.strip()]


def main():
    pid = sys.argv[1]
    chk = CHECKS[pid]
    work = tempfile.mkdtemp(prefix="vp_%s_" % pid, dir=os.environ.get("VP_TMP", "/tmp"))
    code = 2
    try:
        code = check(pid, chk, work)
    except Infra as e:
        log("CHECK ERROR:", e)
        code = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def known_findings(pid):
    p = os.path.join(VERIF, "known-findings.jsonl")
    r = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l:
                continue
            o = json.loads(l)
            if o.get("property") == pid and o.get("status") == "open":
                r[o["id"]] = o
    return r


def check(pid, chk, work):
    outdir = os.path.join(VERIF, "out", pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    stats = {"states": 0, "transitions": 0, "model_runs": [], "trace_events": 0, "ops": {}, "generated_behaviours": 0}
    violations = []          # (replay path, text)
    kf = known_findings(pid)
    kf_hit = {}
    samples = []
    pool = ThreadPoolExecutor(8)

    # A: models, behaviour generation, and compilation in parallel
    def model(m):
        cfg = m.get("thorough_cfg", m["cfg"]) if TIER == "thorough" else m["cfg"]
        r = tlc(work, "m_" + m["module"] + "_" + cfg.replace(".", "_"), m["module"] + ".tla", cfg, timeout=m.get("timeout", 400) * (20 if TIER == "thorough" else 1),
                workers=m.get("workers", 4), args=m.get("args", []))
        if "Model checking completed. No error" not in r.stdout:
            raise Infra("model %s/%s did not pass:\n%s" % (m["module"], cfg, (r.stdout + r.stderr)[-4000:]))
        g, d = tlc_counts(r.stdout)
        return {"module": m["module"], "cfg": cfg, "generated": g, "distinct": d}

    def gen(g):
        num = g.get("thorough_num", g["num"] * 8) if TIER == "thorough" else g["num"]
        r = tlc(work, "g_" + g["module"], g["module"] + ".tla", g["cfg"],
                args=["-simulate", "num=%d" % num, "-depth", str(g["depth"] + 2), "-seed", str(SEED)],
                workers=1, timeout=300)
        beh = []
        for m in re.finditer(r'^"?VPGEN (.*)$', r.stdout, re.M):
            s = m.group(1)
            if s.endswith('"'):
                s = s[:-1]
            s = s.replace('\\"', '"').replace("\\\\", "\\")
            beh.append(s)
        beh = list(dict.fromkeys(beh))
        if "Error:" in r.stdout or not beh:
            raise Infra("behaviour generation from %s failed:\n%s" % (g["module"], (r.stdout + r.stderr)[-3000:]))
        p = os.path.join(work, "script_" + g["module"] + g["cfg"] + ".ndjson")
        with open(p, "w") as f:
            f.write("\n".join(beh) + "\n")
        return p, len(beh)

    fm = [pool.submit(model, m) for m in chk.get("models", []) if TIER == "thorough" or not m.get("thorough_only")]
    fg = {g["name"]: pool.submit(gen, g) for g in chk.get("gens", [])}
    drivers = chk["drivers"]
    exes = {}
    fc = {}
    for d in drivers:
        key = (d["src"], d.get("suffix", ""))
        if key not in fc:
            fc[key] = pool.submit(compile_driver, work, d)
    for k, f in fc.items():
        exes[k] = f.result()
    log("compiled", ", ".join(k[0] for k in fc))

    # B: run the drivers
    def drive(ix):
        d = drivers[ix]
        script = None
        if d.get("gen"):
            script, n = fg[d["gen"]].result()
        out = os.path.join(work, "trace_%d.ndjson" % ix)
        r = run_driver(work, exes[(d["src"], d.get("suffix", ""))], d, out, script)
        if r.returncode == 2:
            raise Infra("driver %s: %s" % (d["src"], r.stderr[-2000:]))
        if r.returncode != 0 or "VP-DONE" not in r.stderr:
            what = "timed out" if r.returncode == -999 else "died (exit %d)" % r.returncode
            m = re.findall(r"VP-CRASH.*|VP-FAIL.*|Assertion.*|terminate called.*|WARNING: ThreadSanitizer.*", r.stderr)
            detail = " | ".join(m[:3]) or r.stderr[-400:].replace("\n", " ")
            r2 = run_driver(work, exes[(d["src"], d.get("suffix", ""))], d, out + ".again", script)
            if (r2.returncode == 0 and "VP-DONE" in r2.stderr) and not d.get("nondeterministic"):
                raise Infra("driver %s %s once but not again: %s" % (d["src"], what, detail))
            rp = os.path.join(outdir, "replay_driver_%d.json" % ix)
            json.dump({"property": pid, "driver": d["src"], "mode": d.get("mode", "all"), "seed": SEED, "tier": TIER,
                       "what": what, "stderr": r.stderr[-8000:]}, open(rp, "w"), indent=1)
            return d, None, ("the real code %s while executing a history the specification allows: %s" % (what, detail), rp)
        return d, out, None

    results = list(pool.map(drive, range(len(drivers))))
    log("drivers ran")
    for g in fg.values():
        stats["generated_behaviours"] += g.result()[1]

    # C: trace validation
    jobs = []
    for ix, (d, out, bad) in enumerate(results):
        if bad:
            violations.append(bad)
            continue
        lines = load(out)
        if not lines:
            raise Infra("driver %s recorded nothing" % d["src"])
        buckets = {}
        for l in lines:
            o = json.loads(l)
            for e in o["ev"]:
                key = o["k"] + ":" + str(e.get("op", "?"))
                stats["ops"][key] = stats["ops"].get(key, 0) + 1
            stats["trace_events"] += len(o["ev"])
            buckets.setdefault(o.get("kf", ""), []).append((l, len(o["ev"])))
        for kfid, ls in buckets.items():
            n = min(4, max(1, sum(x[1] for x in ls) // 2500 + 1))
            sh = [[] for _ in range(n)]
            load_ = [0] * n
            for l, c in sorted(ls, key=lambda x: -x[1]):
                k = load_.index(min(load_))
                sh[k].append(l)
                load_[k] += c + len(l) / 300
            for k, s in enumerate(sh):
                if s:
                    p = os.path.join(work, "shard_%d_%s_%d.ndjson" % (ix, kfid, k))
                    with open(p, "w") as f:
                        f.writelines(s)
                    jobs.append((ix, d, kfid, p, s))
        rnd = random.Random(SEED)
        for l in rnd.sample(lines, min(2, len(lines))):
            o = json.loads(l)
            o["ev"] = o["ev"][:4]
            t = json.dumps(o)
            samples.append(json.loads(t) if len(t) < 3000 else t[:3000])

    def validate(job, tagx=""):
        ix, d, kfid, p, s = job
        r = tlc(work, "t%s_" % tagx + os.path.basename(p).replace(".", "_"), d["spec"] + ".tla", d.get("cfg", d["spec"] + ".cfg"),
                env={"VP_TRACE": p}, workers=2 if len(jobs) > 2 else 4, timeout=d.get("tlc_timeout", 500) * (20 if TIER == "thorough" else 1),
                args=["-deadlock"] if d.get("deadlock") else [], heap=d.get("heap", "4g"))
        return job, r

    def verdict(job, r):
        """None if accepted, otherwise (history line, event index, text)"""
        ix, d, kfid, p, s = job
        o = r.stdout
        if "Model checking completed. No error has been found" in o:
            want = sum(len(json.loads(l)["ev"]) + 1 for l in s)
            g, dist = tlc_counts(o)
            if not d.get("branching") and dist != want:
                raise Infra("trace %s: %d states for %d expected" % (p, dist, want))
            return None, g, dist
        hs = re.findall(r"^/?\\?\s*h = (\d+)", o, re.M) or re.findall(r"h = (\d+)", o)
        is_ = re.findall(r"\bi = (\d+)", o)
        g, dist = tlc_counts(o)
        if "is violated" in o and hs:
            return (s[int(hs[-1]) - 1], int(is_[-1]), "observation disagrees with the specification"), g, dist
        if r.returncode == -999 or "OutOfMemory" in o + r.stderr or "StackOverflow" in o or "Parsing or semantic" in o or not o.strip():
            raise Infra("TLC on %s: %s" % (p, (o + r.stderr)[-3000:]))
        if "Error" in o:
            em = " ".join(re.findall(r"Error: .*|The exception was.*|: (?:Attempted|The).*", o)[:4])
            hist = (s[int(hs[-1]) - 1], int(is_[-1]) + 1) if hs else (s[0], 0)
            return (hist[0], hist[1], "the specification cannot be evaluated on the recorded event: " + (em or o[-600:])), g, dist
        raise Infra("TLC on %s: %s" % (p, (o + r.stderr)[-3000:]))

    hist_ok = 0
    for job, r in pool.map(validate, jobs):
        v, g, dist = verdict(job, r)
        stats["states"] += dist
        stats["transitions"] += max(0, dist - len(job[4]))
        ix, d, kfid, p, s = job
        if v is None:
            hist_ok += len(s)
            continue
        line, pos, text = v
        # confirm on the single history
        p1 = p + ".one"
        with open(p1, "w") as f:
            f.write(line)
        v2, _, _ = verdict((ix, d, kfid, p1, [line]), validate((ix, d, kfid, p1, [line]), "c")[1])
        if v2 is None:
            raise Infra("a rejected history was accepted on re-validation")
        o = json.loads(line)
        ev = o["ev"][pos - 1] if 0 < pos <= len(o["ev"]) else None
        if kfid and kfid in kf:
            kf_hit.setdefault(kfid, 0)
            kf_hit[kfid] += 1
            continue
        rp = os.path.join(outdir, "replay_%d_%s.json" % (ix, os.path.basename(p).split(".")[0]))
        json.dump({"property": pid, "driver": d["src"], "mode": d.get("mode", "all"), "seed": SEED, "tier": TIER,
                   "spec": d["spec"], "event_index": pos, "event": ev, "why": text, "history": o}, open(rp, "w"), indent=1)
        violations.append(("%s; history kind %s, event %d: %s" % (text, o["k"], pos, json.dumps(ev)[:600]), rp))
    for f in fm:
        m = f.result()
        stats["model_runs"].append(m)
        stats["states"] += m["distinct"]
        stats["transitions"] += m["generated"]
    log("validated %d histories, %d events; %d violations" % (hist_ok, stats["trace_events"], len(violations)))

    missing = [op for op in chk.get("must_cover", []) if not any(k == op or k.startswith(op) for k in stats["ops"])]
    if missing and not violations:
        raise Infra("operations never exercised: %s" % missing)

    ev = {
        "property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": chk.get("level", "model_checking"),
        "coverage": {
            "states": stats["states"], "transitions": stats["transitions"], "traces_validated_against_impl": hist_ok,
            "samples": samples[:6], "trace_events": stats["trace_events"], "events_per_operation": dict(sorted(stats["ops"].items())),
            "specification_models": stats["model_runs"], "behaviours_generated_from_specification": stats["generated_behaviours"],
        },
        "assumptions": chk.get("assumptions", []),
        "violations": len(violations), "wall_s": round(time.time() - T0, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, n in kf_hit.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[k]["what"]), flush=True)
    if violations:
        for text, rp in violations[:5]:
            log(text)
            print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
        return 1
    log("OK")
    return 0


if __name__ == "__main__":
    main()
