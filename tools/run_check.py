#!/usr/bin/env python3
"""Model-based check of one property of neo-sonar/neo.

    run_check.py <property> [quick|thorough]

1. TLC model-checks the design models of the property (spec/*.tla, MC configs).
2. TLC generates behaviours of the specification (where the property is stateful);
   they become scenarios that the harness steps through the real code.
3. The harness is compiled against /repo's current working tree, in several build
   variants, and records one trace line per public API call.
4. TLC decides whether every recorded line is a step the specification allows.

exit 0: every line accepted.  exit 1: VIOLATION line printed.  exit 2: tool error.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("NEO_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
sys.path.insert(0, HERE)
from checks import CHECKS, VARIANTS  # noqa: E402

PYTHON = "python3-vt"   # the interpreter with NumPy
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


T0 = time.time()


def cpu_flags():
    try:
        with open("/proc/cpuinfo") as f:
            for line in f:
                if line.startswith("flags"):
                    return set(line.split(":", 1)[1].split())
    except OSError:
        pass
    return set()


# --------------------------------------------------------------------------- TLC
def tlc(module, cfg, work, env=None, args=(), timeout=800, heap="6g", workers="8", nodeadlock=False):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg; returns (rc, output, stats)."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + work, "-cp", JAVA_CP, "tlc2.TLC",
           "-workers", os.environ.get("NEO_TLC_WORKERS", workers) if workers != "1" else "1", "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg + ".cfg")]
    if nodeadlock:
        cmd.append("-deadlock")
    cmd += list(args)
    cmd.append(os.path.join(SPEC, module + ".tla"))
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise ToolError("TLC timed out on %s" % module) from ex
    out = p.stdout
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    stats = {"generated": 0, "distinct": 0}
    if m:
        stats = {"generated": int(m[-1][0].replace(",", "")), "distinct": int(m[-1][1].replace(",", ""))}
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, out, stats


def run_model(model, work):
    name, cfg = model[0], model[1]
    args = model[2] if len(model) > 2 else ()
    rc, out, st = tlc(name, cfg, work, args=args)
    if rc != 0 or "No error has been found" not in out:
        raise ToolError("design model %s/%s failed:\n%s" % (name, cfg, out[-3000:]))
    log("design model %s: %d states, %d transitions" % (cfg, st["distinct"], st["generated"]))
    return {"model": cfg, "states": st["distinct"], "transitions": st["generated"]}


def generate(gen, work, seed, tier):
    """TLC -simulate: behaviours of the specification, printed as <<"SCENARIO", ints>>."""
    num = gen["num_thorough"] if tier == "thorough" else gen["num"]
    rc, out, st = tlc(gen["module"], gen["cfg"], work, workers="1",
                      args=["-simulate", "num=%d" % num, "-depth", str(gen["depth"]), "-seed", str(seed)],
                      nodeadlock=True)
    lines = []
    for m in re.finditer(r'<<\s*"SCENARIO",\s*(<<.*?>>)\s*>>', out, re.S):
        ints = re.findall(r"-?\d+", m.group(1))
        lines.append(" ".join(ints))
    lines = list(dict.fromkeys(lines))
    if len(lines) < gen.get("min", 1):
        raise ToolError("generator %s produced %d scenarios:\n%s" % (gen["module"], len(lines), out[-3000:]))
    path = os.path.join(work, "scenario.txt")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    log("generator %s: %d behaviours" % (gen["module"], len(lines)))
    return path, len(lines)


# ----------------------------------------------------------------------- harness
def python_flags():
    """a Python extension module for the interpreter that has NumPy"""
    q = "import sysconfig, numpy; print(sysconfig.get_path('include')); print(numpy.get_include())"
    p = subprocess.run([PYTHON, "-c", q], stdout=subprocess.PIPE, text=True, check=True)
    return ["-fPIC", "-shared"] + ["-I" + d for d in p.stdout.split()]


def build(harness, var, work, extra):
    v = VARIANTS[var]
    exe = os.path.join(work, "h_" + var)
    if "@python" in extra:
        extra = [f for f in extra if f != "@python"] + python_flags()
    cmd = [v.get("cxx", "clang++-18"), "-std=c++20", "-w", v.get("opt", "-O1")]
    for f in list(extra) + list(v["flags"]):
        if f.startswith("@shim:"):
            f = "-I" + os.path.join(VERIF, "shim", f[6:])
        elif f.startswith("@repo:"):
            f = "-I" + os.path.join(REPO, f[6:])
        elif f.startswith("@copy:"):
            # compiled from a copy, so that the headers beside it can be replaced by those of an earlier directory
            d = os.path.join(work, "copy_" + var)
            os.makedirs(d, exist_ok=True)
            shutil.copy(os.path.join(REPO, f[6:]), d)
            f = "-I" + d
        cmd.append(f)
    cmd += ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "shim"),
            "-I" + os.path.join(VERIF, "harness"), os.path.join(VERIF, "harness", harness), "-o", exe]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness does not compile (%s):\n%s\n%s" % (var, " ".join(cmd), p.stdout[-4000:]))
    return exe, cmd


def run_harness(exe, var, work, seed, tier, scenario, tag="", driver=None):
    trace = os.path.join(work, "trace_%s%s.ndjson" % (var, tag))
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=98"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=98"
    cmd = [exe, trace, str(seed), tier, var, scenario]
    if driver:
        cmd = [PYTHON, os.path.join(VERIF, "harness", driver)] + cmd + [REPO]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=int(os.environ.get("NEO_HARNESS_TIMEOUT", "200")), env=env, cwd=work)
        rc, err = p.returncode, p.stderr[-3000:]
    except subprocess.TimeoutExpired:
        rc, err = -999, "harness did not terminate in time"
    return {"rc": rc, "stderr": err, "trace": trace, "cmd": cmd}


# ------------------------------------------------------------------------- trace
def sessions_for(lines, cfg):
    starts = cfg.get("starts")
    out = []
    if starts:
        a = None
        for i, ln in enumerate(lines, 1):
            op = ln["op"]
            if op in starts or a is None:
                if a is not None:
                    out.append((a, i - 1))
                a = i
        if a is not None:
            out.append((a, len(lines)))
    else:
        n, cont, a = cfg.get("chunk", 32), cfg.get("cont", ()), 1
        for i in range(1, len(lines) + 1):
            if i > a and i - a >= n and lines[i - 1]["op"] not in cont:
                out.append((a, i - 1))
                a = i
        if lines:
            out.append((a, len(lines)))
    return out


def write_nd(path, objs):
    with open(path, "w") as f:
        for o in objs:
            f.write(json.dumps(o) + "\n")


def known_findings():
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for ln in open(path):
            m = re.match(r"known:\s+property=(\S+)\s+id=(\S+)\s+(.*)", ln.strip())
            if m:
                out.append({"property": m.group(1), "id": m.group(2), "what": m.group(3)})
    return out


def validate(prop, cfg, raw_lines, sess, work, tag=""):
    """returns dict(ok, line, stats, output)"""
    tr = os.path.join(work, "trace%s.ndjson" % tag)
    se = os.path.join(work, "sessions%s.ndjson" % tag)
    kn = os.path.join(work, "known%s.ndjson" % tag)
    with open(tr, "w") as f:
        f.writelines(raw_lines)
    write_nd(se, [{"a": a, "b": b} for a, b in sess])
    known = [k for k in known_findings() if k["property"] == prop]
    write_nd(kn, known + [{"property": "-", "id": "-", "what": "-"}])
    env = {"NEO_TRACE": tr, "NEO_SESSIONS": se, "NEO_KNOWN": kn}
    rc, out, st = tlc(cfg["spec"], cfg.get("cfg", "Trace"), work, env=env, heap="12g")
    hits = set(re.findall(r'<<"KNOWN-FINDING",\s*"([^"]+)"', out))
    if rc == 0 and "No error has been found" in out:
        want = sum(b - a + 2 for a, b in sess)
        if st["distinct"] != want:
            raise ToolError("trace not consumed completely: %d states, expected %d\n%s" % (st["distinct"], want, out[-2000:]))
        return {"ok": True, "stats": st, "known": hits}
    ls = re.findall(r"/\\ l = (\d+)", out)
    rejected = "Deadlock reached" in out or "is violated" in out
    evalerr = (not rejected) and re.search(r"Attempted to|was not in the domain|Error: Evaluating|evaluat|Overflow when computing", out)
    if (rejected or evalerr) and ls:
        return {"ok": False, "line": int(ls[-1]), "stats": st, "out": out, "known": hits,
                "kind": "rejected" if rejected else "evaluation failed"}
    raise ToolError("TLC failed on the trace:\n" + out[-4000:])


def shorten(o, n=400):
    t = json.dumps(o)
    return t if len(t) <= n else t[:n] + "..."


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = CHECKS[prop]
    evdir = os.environ.get("NEO_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="neo_%s_" % prop)
    code = 2
    try:
        code = check(prop, tier, seed, cfg, evdir, work)
    except ToolError as e:
        print("TOOL-ERROR property=%s %s" % (prop, e), flush=True)
        code = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def check(prop, tier, seed, cfg, evdir, work):
    replay = os.path.join(evdir, prop + ".replay.json")
    if os.path.exists(replay):
        os.remove(replay)
    flags = cpu_flags()
    variants = list(cfg["variants"]) + (list(cfg.get("variants_thorough", [])) if tier == "thorough" else [])
    variants = [v for v in variants if all(f in flags for f in VARIANTS[v].get("needs", []))]
    seeds = [seed] if tier == "quick" else [seed + i for i in range(cfg.get("seeds_thorough", 3))]

    pool = cf.ThreadPoolExecutor(max_workers=8)
    fb = {v: pool.submit(build, cfg["harness"], v, work, cfg.get("extra", [])) for v in variants}

    models = []
    mlist = list(cfg.get("models", [])) + (list(cfg.get("models_thorough", [])) if tier == "thorough" else [])
    if os.environ.get("NEO_SKIP_MODELS"):   # mutation runs: the models do not depend on the code
        mlist = []
    for m in mlist:
        models.append(run_model(m, work))
    scenario, nscen = "-", 0
    if "gen" in cfg:
        scenario, nscen = generate(cfg["gen"], work, seed, tier)

    exes = {}
    skipped = []
    for v, f in fb.items():
        try:
            exes[v] = f.result()
        except ToolError as e:
            if v == cfg["variants"][0]:
                raise
            # the code builds as the repository builds it, but not with this compiler or configuration: nothing to run there
            skipped.append(v)
            log("variant %s does not compile and is left out: %s" % (v, str(e)[-600:]))
    variants = [v for v in variants if v not in skipped]
    log("built %d variants" % len(exes))

    jobs = [(v, sd) for v in variants for sd in seeds]

    def run_all(tag):
        fs = {j: pool.submit(run_harness, exes[j[0]][0], j[0], work, j[1], tier, scenario, "_%d%s" % (j[1], tag), cfg.get("driver")) for j in jobs}
        return {j: f.result() for j, f in fs.items()}

    def violation(info):
        info.update({"property": prop, "tier": tier, "seed": seed, "repo": REPO,
                     "how": "python3 tools/run_check.py %s %s  (VERIF_SEED=%d)" % (prop, tier, seed)})
        with open(replay, "w") as f:
            json.dump(info, f, indent=1)
        evidence(1, {})
        print("violating step: %s" % shorten(info.get("event", info.get("stderr", ""))))
        print("VIOLATION property=%s replay=%s" % (prop, replay), flush=True)
        return 1

    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}

    def evidence(nviol, more):
        c = dict(cov)
        c.update(more)
        if models:
            c["design_models"] = models
            c["states"] += sum(m["states"] for m in models)
            c["transitions"] += sum(m["transitions"] for m in models)
        if nscen:
            c["scenarios_generated_from_spec"] = nscen
        c["build_variants"] = variants
        if skipped:
            c["variants_that_do_not_compile"] = skipped
        c["seeds"] = seeds
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": c,
              "assumptions": cfg.get("assumptions", []) + COMMON_ASSUMPTIONS,
              "wall_s": round(time.time() - T0, 1), "violations": nviol}
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    runs = run_all("")
    for j, r in list(runs.items()):
        if r["rc"] != 0:
            r2 = run_harness(exes[j[0]][0], j[0], work, j[1], tier, scenario, "_again", cfg.get("driver"))
            if r2["rc"] == 0:
                if r["rc"] in (-9, -999):   # killed or starved by the machine: use the second run
                    runs[j] = r2
                    continue
                r2 = r                      # depends on memory contents: still the implementation
            last = ""
            try:
                last = open(r2["trace"], errors="replace").read().splitlines()[-1:]
            except OSError:
                pass
            return violation({"kind": "the implementation crashed, aborted, hung or accessed memory out of bounds",
                              "variant": j[0], "rc": r2["rc"], "stderr": r2["stderr"], "last_event": last,
                              "build": " ".join(exes[j[0]][1])})

    def load(rs):
        raw = []
        for j in jobs:
            with open(rs[j]["trace"]) as f:
                raw += f.readlines()
        return raw

    raw = load(runs)
    objs = [json.loads(x) for x in raw]
    counts = {}
    for o in objs:
        counts[o["op"]] = counts.get(o["op"], 0) + 1
    for op in cfg["ops"]:
        if not counts.get(op):
            raise ToolError("vacuous trace: no event %s was recorded" % op)
    for op in counts:
        if op not in cfg["ops"]:
            raise ToolError("unexpected event %s" % op)
    sess = sessions_for(objs, cfg)
    log("recorded %d events, %d sessions" % (len(objs), len(sess)))
    res = validate(prop, cfg, raw, sess, work)
    if not res["ok"]:
        ln = res["line"]
        evt = objs[ln - 1]
        log("line %d %s by the specification: %s" % (ln, res["kind"], shorten(evt)))
        # confirm: run the implementation again and validate again
        runs2 = run_all("_confirm")
        bad = [r for r in runs2.values() if r["rc"] != 0]
        if bad:
            return violation({"kind": "harness failed on re-run", "stderr": bad[0]["stderr"], "event": evt})
        raw2 = load(runs2)
        objs2 = [json.loads(x) for x in raw2]
        res2 = validate(prop, cfg, raw2, sessions_for(objs2, cfg), work, "_c")
        if res2["ok"]:   # the recorded step was not allowed, but the implementation is not deterministic
            a = max([x for x, _ in sess if x <= ln])
            return violation({"kind": res["kind"] + " (not repeated by a second run)", "spec": cfg["spec"], "event": evt,
                              "history": objs[a - 1:ln][-40:], "variant": evt["v"]})
        ln2 = res2["line"]
        a = max([x for x, _ in sessions_for(objs2, cfg) if x <= ln2])
        return violation({"kind": res2["kind"], "spec": cfg["spec"], "event": objs2[ln2 - 1],
                          "history": objs2[a - 1:ln2][-40:], "variant": objs2[ln2 - 1]["v"]})

    cov["states"] = res["stats"]["distinct"]
    cov["transitions"] = res["stats"]["generated"]
    cov["traces_validated_against_impl"] = len(sess)
    seen = {}
    for o in objs:
        if o["op"] not in seen and len(seen) < 6:
            seen[o["op"]] = shorten(o, 300)
    cov["samples"] = list(seen.values())
    more = {"events": len(objs), "events_by_op": counts}
    for k in known_findings():
        if k["property"] == prop and k["id"] in res["known"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            more.setdefault("known_findings_seen", []).append(k["id"])
    if tier == "thorough":
        more["binding_selftest"] = selftest(prop, cfg, raw, objs, sess, work, seed)
    evidence(0, more)
    log("ok: %d events accepted, %d states" % (len(objs), res["stats"]["distinct"]))
    return 0


def selftest(prop, cfg, raw, objs, sess, work, seed):
    """Corrupt one recorded output per sampled event; every corrupted event must be rejected."""
    import random
    rnd = random.Random(seed)
    outs = cfg.get("outs", {})
    byop = {}
    for a, b in sess:
        for i in range(a, b + 1):
            byop.setdefault(objs[i - 1]["op"], []).append((a, i))
    new_raw, new_sess, n = [], [], {}
    for op, fields in outs.items():
        cand = byop.get(op, [])
        rnd.shuffle(cand)
        for a, i in cand[: cfg.get("selftest_per_op", 12)]:
            if not cfg.get("starts"):
                cont = cfg.get("cont", ())
                a = i
                while a > 1 and objs[a - 1]["op"] in cont:
                    a -= 1
            if i - a > 400:
                continue
            o = json.loads(raw[i - 1])
            f = rnd.choice(fields)
            val = o.get(f)
            delta = cfg.get("selftest_delta", 1009)
            if isinstance(val, bool):
                o[f] = not val
            elif isinstance(val, int):
                o[f] = val + delta
            elif isinstance(val, list) and val:
                k = rnd.randrange(len(val))
                if isinstance(val[k], bool):
                    val[k] = not val[k]
                elif isinstance(val[k], int):
                    val[k] += delta
                elif isinstance(val[k], list) and val[k]:
                    q = rnd.randrange(len(val[k]))
                    val[k][q] += delta
                else:
                    continue
            else:
                continue
            start = len(new_raw) + 1
            new_raw += raw[a - 1:i - 1] + [json.dumps(o) + "\n"]
            new_sess.append((start, len(new_raw)))
            n[op] = n.get(op, 0) + 1
    if not new_sess:
        return {}
    tr = os.path.join(work, "self.ndjson")
    se = os.path.join(work, "self_s.ndjson")
    kn = os.path.join(work, "self_k.ndjson")
    with open(tr, "w") as f:
        f.writelines(new_raw)
    write_nd(se, [{"a": a, "b": b} for a, b in new_sess])
    write_nd(kn, [k for k in known_findings() if k["property"] == prop] + [{"property": "-", "id": "-", "what": "-"}])
    rc, out, st = tlc(cfg["spec"], cfg.get("cfg", "Trace"), work, nodeadlock=True,
                      env={"NEO_TRACE": tr, "NEO_SESSIONS": se, "NEO_KNOWN": kn}, heap="12g")
    want = sum(b - a + 1 for a, b in new_sess)
    if "No error has been found" not in out:
        raise ToolError("self-test run failed:\n" + out[-2000:])
    if st["distinct"] != want:
        raise ToolError("self-test: %d of the corrupted events were accepted" % (st["distinct"] - want))
    log("self-test: %d corrupted events all rejected" % len(new_sess))
    return {"corrupted_events_rejected": n}


COMMON_ASSUMPTIONS = [
    "x86-64, clang 18 (and gcc 13 where listed); IPP, MKL and vDSP back ends run against stand-ins (shim/vendor) where listed; NEON cannot be built here",
    "kokkos/mdspan is not installed: a bounds-checked mdspan with the standard's semantics (shim/) stands in for it",
]

if __name__ == "__main__":
    main()
