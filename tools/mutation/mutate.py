#!/usr/bin/env python3
"""Mutation study (not a check): small edits of the headers in scratch copies, the anchored checks run on each.
   mutate.py OUT.jsonl JOBS [file-regex [max-per-file]]     survivors are reviewed by hand (see DESIGN.md)"""
import concurrent.futures as cf, json, os, queue, random, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(os.path.dirname(HERE))
OUT, JOBS = sys.argv[1], int(sys.argv[2]); RX = re.compile(sys.argv[3] if len(sys.argv) > 3 else "."); MAXF = int(sys.argv[4]) if len(sys.argv) > 4 else 10**6
rnd = random.Random(int(os.environ.get("MUT_SEED", "1")))
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
byfile = {}
for p in props:
    for f in p["anchors"]["files"]:
        byfile.setdefault(f, []).append(p["id"])
EXTRA = {"src/neo/algorithm/copy.hpp": ["P14", "P01"], "src/neo/algorithm/fill.hpp": ["P14"],
         "src/neo/container/mdspan.hpp": ["P14", "P13", "P01", "P07"], "src/neo/type_traits/value_type_t.hpp": ["P14"]}
OPS = [(r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / ", " + "]), (r" / ", [" * "]), (r" < ", [" <= ", " != "]), (r" <= ", [" < "]),
       (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
       (r" % ", [" / "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" >> ", [" << "]), (r" << ", [" >> "]),
       (r"\breal\b", ["imag"]), (r"\bimag\b", ["real"]), (r"\blhs\b", ["rhs"]), (r"\brhs\b", ["lhs"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"\bforward\b", ["backward"]), (r"\bcos\b", ["sin"]), (r"\bsin\b", ["cos"]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]),
       (r"\blower_bound\b", ["upper_bound"]), (r"\bdouble\b", ["float"]), (r"std::size_t", ["std::uint8_t"]), (r"std::int32_t", ["std::int16_t"]), (r"std::int16_t", ["std::int8_t"]),
       (r"\bextent\(0\)", ["extent(1)"]), (r"\bextent\(1\)", ["extent(0)"]), (r"\bconj\(", ["("]), (r"\badds_", ["add_"]), (r"\bsubs_", ["sub_"]),
       (r"\bstd::fill\([^;]*;", [";"]), (r"\bif constexpr \(", ["if constexpr (!"]), (r"\bif \(", ["if (!", "if (false && "]), (r"!", [""]), (r"(?<=[=(, ])-(?=[A-Za-z_(0-9])", [""])]
NUM = re.compile(r"(?<![\w.])(\d+)(?![\w.'])")
def mutants(path, text):
    out = []
    lines = text.split("\n")
    inc = 0
    for i, ln in enumerate(lines):
        s = ln.strip()
        if not s or "friend" in s or "assert(" in s or s.startswith(("//", "#", "namespace", "template", "///", "/*", "*", "using", "static_assert", "requires", "NEO_HAS")): continue
        code = ln.split("//")[0]
        if os.environ.get("MUT_OPS") == "size":   # loops that stop one short of a large extent
            if "for (" in code:
                for m in re.finditer(r"(?:(?<= < )|(?<=cmp_less\(i, )|(?<=cmp_less\(j, ))([A-Za-z_][\w.]*(?:\.(?:extent\(\d\)|size\(\)|rows\(\)|columns\(\)))?)(?=[;)])", code):
                    if m.group(1) in ("order", "vec_size", "_order"): continue   # never that large; a multiple of the step
                    for t in (40, 2000): out.append((i, code[:m.start()] + "(%s - (%s > %d ? 1 : 0))" % (m.group(1), m.group(1), t) + code[m.end():]))
            continue
        for rx, subs in OPS:
            for m in re.finditer(rx, code):
                for sub in subs: out.append((i, code[:m.start()] + sub + code[m.end():]))
        for m in NUM.finditer(code):
            v = int(m.group(1))
            for w in {v + 1, max(0, v - 1)} - {v}: out.append((i, code[:m.start()] + str(w) + code[m.end():]))
        if re.match(r"^\s+[\w:.\[\]()>*-]+.*;\s*$", code) and not re.match(r"^\s*(auto|using|return|static|constexpr|std::\w+<.*> _|\w+ _\w+;|typename|friend|explicit|\[\[)", code):
            out.append((i, ""))
        if re.match(r"^\s*return\b.*;\s*$", code) and "void" not in code: pass
    return lines, list(dict.fromkeys(out))
todo = []
for root, _, fs in [w for top in ("/repo/src/neo", "/repo/extra") for w in os.walk(top)]:
    for f in sorted(fs):
        if not f.endswith((".hpp", ".cpp")): continue
        full = os.path.join(root, f); rel = os.path.relpath(full, "/repo")
        if not RX.search(rel) or "backend/ipp" in rel or "vdsp" in rel or "mkl" in rel or "cblas" in rel or "neon" in rel: continue
        ps = EXTRA.get(rel) or byfile.get(rel)
        if not ps: continue
        lines, ms = mutants(full, open(full).read())
        rnd.shuffle(ms)
        todo += [(rel, i, lines[i], new, ps) for i, new in ms[:MAXF]]
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
todo = [t for t in todo if (t[0], t[1] + 1, t[3]) not in done]
if os.environ.get("MUT_ONLY"):   # run the survivors of an earlier study again
    only = {(d["file"], d["line"], d["new"]) for d in map(json.loads, open(os.environ["MUT_ONLY"])) if d["status"] == "survived"}
    todo = [t for t in todo if (t[0], t[1] + 1, t[3]) in only]
rnd.shuffle(todo)
print(len(todo), "mutants", flush=True)
slots = queue.Queue()
for k in range(JOBS):
    d = os.environ.get("MUT_DIR", "/tmp/mut") + "/w%d" % k
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/ev"); os.makedirs(d + "/tmp")
    shutil.copytree("/repo/src", d + "/src"); shutil.copytree("/repo/extra", d + "/extra"); slots.put(d)
outf = open(OUT, "a")
def one(t):
    rel, i, old, new, ps = t
    d = slots.get()
    try:
        p = os.path.join(d, rel); orig = open(p).read(); ls = orig.split("\n"); ls[i] = new
        open(p, "w").write("\n".join(ls))
        env = dict(os.environ, NEO_REPO=d, NEO_EVIDENCE=d + "/ev", NEO_SKIP_MODELS="1", NEO_HARNESS_TIMEOUT="60", NEO_TLC_WORKERS="2", TMPDIR=d + "/tmp", VERIF_SEED="1")
        status, by = "survived", []
        for pr in ps:
            try:
                r = subprocess.run(["timeout", "-k", "5", "700", "python3", os.path.join(VERIF, "tools/run_check.py"), pr, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            finally:
                pass
            if r.returncode == 1: status, by = "killed", [pr]; break
            if r.returncode != 0:
                status = "nocompile" if "does not compile" in r.stdout else "toolerror"
                by = [pr, r.stdout[-300:]]
                break
        open(p, "w").write(orig)
        subprocess.run("find %s/tmp -mindepth 1 -delete" % d, shell=True)
        outf.write(json.dumps({"file": rel, "line": i + 1, "old": old.strip(), "new": new, "status": status, "by": by}) + "\n"); outf.flush()
    finally:
        slots.put(d)
with cf.ThreadPoolExecutor(JOBS) as ex: list(ex.map(one, todo))
