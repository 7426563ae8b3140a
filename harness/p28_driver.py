"""Exercises the Python package of the repository (neo, with the extension module just built) and records every
call: p28_driver.py SO TRACE SEED TIER VARIANT SCENARIO REPO"""
import json
import math
import os
import random
import shutil
import sys
import tempfile
import threading

so, trace, seed, tier, variant, scenario, repo = sys.argv[1:8]
pkg = tempfile.mkdtemp(prefix="pk", dir=os.path.dirname(os.path.abspath(trace)))
sys.dont_write_bytecode = True
shutil.copytree(os.path.join(repo, "extra/python/src/neo"), os.path.join(pkg, "neo"))
shutil.copy(so, os.path.join(pkg, "neo", "_neo.so"))
sys.path.insert(0, pkg)
import numpy as np  # noqa: E402
import neo          # noqa: E402

rnd = random.Random(int(seed))
thorough = tier == "thorough"
out = open(trace, "w")
BIG, NANV = 2147483000, -2147483001


def emit(op, **kw):
    d = {"op": op, "v": variant}
    d.update(kw)
    out.write(json.dumps(d) + "\n")


def near(v, tol=0.2):
    v = float(v)
    if v != v or abs(v) > BIG or abs(v - round(v)) > tol:
        return NANV
    return int(round(v))


def rounded(v):
    v = float(v)
    return NANV if v != v or abs(v) > BIG else int(round(v))


def guarded(f):
    try:
        return f(), ""
    except Exception as e:   # noqa: BLE001
        return None, type(e).__name__


def layout(vals, dtype, kind):
    """the same values in memory in several ways"""
    n = len(vals)
    if kind == "list":
        return list(vals)
    if kind == "plain":
        return np.array(vals, dtype=dtype)
    if kind == "reversed":
        return np.array(list(reversed(vals)), dtype=dtype)[::-1]
    step = rnd.choice([2, 3])
    if kind == "strided":
        a = np.full(n * step + 2, 77, dtype=dtype)
        v = a[1:1 + n * step:step]
    else:                    # a column of a matrix
        a = np.full((n, 3), 77, dtype=dtype)
        v = a[:, 1]
    v[...] = vals
    return v


KINDS = ["plain", "plain", "strided", "column", "reversed", "list"]


def pairs(z):
    return [[int(v.real), int(v.imag)] for v in z]


def fft_call(x, dirn, n, norm, dtype, kind, defaults):
    a = layout(x, dtype, kind)
    before = [complex(v) for v in a]
    f = neo.fft.fft if dirn == -1 else neo.fft.ifft
    kw = {}
    if n is not None:
        kw["n"] = n
    if not (defaults and norm == "backward"):
        kw["norm"] = norm
    y, err = guarded(lambda: f(a, **kw))
    return {"x": pairs(x), "dir": dirn, "n": -1 if n is None else n, "norm": norm, "dtype": "list" if kind == "list" else dtype, "kind": kind,
            "err": err, "kept": before == [complex(v) for v in a], "raw": y}


def fft_emit(r):
    y = r.pop("raw")
    m = 0 if y is None else y.shape[0]
    if y is None:
        r["y"] = []
    elif r["norm"] == "ortho":
        r["y"] = [[rounded(v.real * m * 100), rounded(v.imag * m * 100)] for v in y]
    else:
        r["y"] = [[near(v.real * m), near(v.imag * m)] for v in y]
    r["otype"] = "" if y is None else str(y.dtype)
    emit("fft", **r)


def sample(length, size):
    """zero except at multiples of size/4; anything beyond `size` (it is cropped)"""
    x = []
    for i in range(length):
        if i >= size:
            x.append(complex(rnd.randint(-9, 9), rnd.randint(-9, 9)))
        elif size < 4 or i % (size // 4) == 0:
            x.append(complex(rnd.randint(-9, 9), rnd.randint(-9, 9)))
        else:
            x.append(0j)
    return x


def transforms():
    for dtype in ("complex64", "complex128"):
        for size in (1, 2, 4, 8, 16, 32) + ((64,) if thorough else ()):
            for dirn in (-1, 1):
                for norm in ("backward", "ortho", "forward"):
                    for k in range(3):
                        kind = KINDS[(k * 2 + rnd.randint(0, 1)) % len(KINDS)]
                        if k == 0:
                            fft_emit(fft_call(sample(size, size), dirn, None, norm, dtype, kind, True))
                        elif k == 1:
                            fft_emit(fft_call(sample(size, size), dirn, size, norm, dtype, kind, True))
                        else:
                            length = rnd.choice([max(1, size - 1), max(1, size // 2), size + 1, 2 * size, 3 * size + 1, 1])
                            fft_emit(fft_call(sample(length, size), dirn, size, norm, dtype, kind, False))
        for size in (3, 5, 6, 7, 12, 100):
            fft_emit(fft_call([complex(i, 0) for i in range(size)], rnd.choice([-1, 1]), None, "backward", dtype, "plain", True))
            fft_emit(fft_call(sample(8, 8), rnd.choice([-1, 1]), size, "ortho", dtype, "plain", True))
        fft_emit(fft_call(sample(8, 8), -1, 0, "backward", dtype, "plain", True))
        for bad in ("Forward", "none", ""):
            fft_emit(fft_call(sample(4, 4), rnd.choice([-1, 1]), None, bad, dtype, "plain", False))


def probe_call(n, length, p, dirn, norm, dtype, kind):
    """an impulse anywhere in a signal of any length, transformed with any power-of-two size"""
    height = 3
    x = np.zeros(length, dtype=dtype)
    x[p] = height
    a = layout(x, dtype, kind)
    f = neo.fft.fft if dirn == -1 else neo.fft.ifft
    y, err = guarded(lambda: f(a, **({} if n == length else {"n": n}), norm=norm))
    return {"n": n, "length": length, "p": p, "dir": dirn, "norm": norm, "dtype": dtype, "err": err,
            "kept": bool((np.asarray(a) == x).all()), "height": height, "raw": y}


def probe_emit(r):
    y, n, height = r.pop("raw"), r["n"], r.pop("height")
    ks = sorted({0, min(1, n - 1), n // 2, n - 1} | {rnd.randint(0, n - 1) for _ in range(24)})
    r["ks"], r["exps"], r["size"] = ks, [], -1 if y is None else int(y.shape[0])
    scale = {"ortho": math.sqrt(n), "forward": n if r["dir"] == -1 else 1, "backward": n if r["dir"] == 1 else 1}[r["norm"]] / height
    for k in ks if r["size"] == n else []:
        z = complex(y[k]) * scale
        e = round(math.atan2(z.imag, z.real) / (2 * math.pi) * 4 * n) % (4 * n) if z == z else 0
        w = complex(math.cos(2 * math.pi * e / (4 * n)), math.sin(2 * math.pi * e / (4 * n)))
        r["exps"].append(e if abs(z - w) < (2e-5 if r["dtype"] == "complex64" else 1e-9) else -1)
    emit("probe", **r)


def probes():
    for dtype in ("complex64", "complex128"):
        for order in range(0, 15 if thorough else 13):
            n = 1 << order
            for norm in ("backward", "ortho", "forward"):
                for dirn in (-1, 1):
                    length = rnd.choice([n, n, n + 1, 2 * n, max(1, n - 1), max(1, n // 2), n + 7])
                    probe_emit(probe_call(n, length, rnd.randint(0, min(n, length) - 1), dirn, norm, dtype, rnd.choice(["plain", "strided", "column", "reversed"])))


def crowds():
    """the first calls of a size come from several threads at once, and all go on together"""
    for dtype in ("complex64", "complex128"):
        for order in (15, 13, 11, 9, 7, 5, 3, 14, 12, 10):
            n, res, start = 1 << order, [[] for _ in range(6)], threading.Barrier(6)

            def work(i):
                start.wait()
                for q in range(3):
                    res[i].append(probe_call(n, n, (i * 7 + q * 5 + 1) % n, -1 if (i + q) % 2 else 1, "backward", dtype, "plain"))
            ts = [threading.Thread(target=work, args=(i,)) for i in range(6)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            for rs in res:
                for r in rs:
                    probe_emit(r)


def conv_crowds():
    """convolutions of different lengths from several threads at once"""
    for dtype in ("float32", "float64"):
        for method in ("fft", "direct"):
            jobs = [[([rnd.randint(-9, 9) for _ in range(rnd.randint(2, 40))], [rnd.randint(-9, 9) for _ in range(rnd.randint(2, 40))]) for _ in range(6)] for _ in range(5)]
            res, start = [[] for _ in range(5)], threading.Barrier(5)

            def work(i):
                start.wait()
                for x, h in jobs[i]:
                    a, b = np.array(x, dtype=dtype), np.array(h, dtype=dtype)
                    y, err = guarded(lambda: neo.convolve(a, b, method=method))
                    res[i].append(dict(x=x, h=h, mode="full", method=method, dtype=dtype, ndim1=1, ndim2=1, err=err, kept=[int(v) for v in a] == x and [int(v) for v in b] == h,
                                       y=[] if y is None else [near(v) for v in y], otype="" if y is None else str(y.dtype)))
            ts = [threading.Thread(target=work, args=(i,)) for i in range(5)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            for rs in res:
                for r in rs:
                    emit("convolve", **r)


def threads():
    """calls from several threads at once: each is independent"""
    res, start = [[] for _ in range(4)], threading.Barrier(4)
    jobs = [[(sample(64, 64), rnd.choice([-1, 1]), rnd.choice(["backward", "forward"]), rnd.choice(["complex64", "complex128"])) for _ in range(20)] for _ in range(4)]

    def work(i):
        start.wait()
        for x, d, norm, t in jobs[i]:
            a = np.array(x, dtype=t)
            f = neo.fft.fft if d == -1 else neo.fft.ifft
            y, err = guarded(lambda: f(a, norm=norm))
            res[i].append({"x": pairs(x), "dir": d, "n": -1, "norm": norm, "dtype": t, "kind": "thread", "err": err, "kept": bool((a == np.array(x, dtype=t)).all()), "raw": y})
    ts = [threading.Thread(target=work, args=(i,)) for i in range(4)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for rs in res:
        for r in rs[-3:]:
            fft_emit(r)


def convolve_call(x, h, mode, method, dtype, k1, k2, shape1=None, shape2=None):
    a, b = layout(x, dtype, k1), layout(h, dtype, k2)
    if shape1:
        a = np.array(a, dtype=dtype).reshape(shape1)
    if shape2:
        b = np.array(b, dtype=dtype).reshape(shape2)
    kw = {}
    if mode is not None:
        kw["mode"] = mode
    if method is not None:
        kw["method"] = method
    y, err = guarded(lambda: neo.convolve(a, b, **kw))
    kept = [float(v) for v in np.ravel(np.asarray(a))] == [float(v) for v in x] and [float(v) for v in np.ravel(np.asarray(b))] == [float(v) for v in h]
    lists = isinstance(a, list) and isinstance(b, list)
    emit("convolve", x=x, h=h, mode=mode or "full", method=method or "-", dtype="list" if lists else dtype, ndim1=int(np.ndim(a)), ndim2=int(np.ndim(b)), err=err, kept=bool(kept),
         y=[] if y is None else [near(v) for v in y], otype="" if y is None else str(y.dtype))


def convolutions():
    ri = lambda n: [rnd.randint(-20, 20) for _ in range(n)]  # noqa: E731
    for dtype in ("float32", "float64"):
        for method in (None, "auto", "direct", "fft"):
            for _ in range(24 if thorough else 8):
                n, m = rnd.choice([1, 2, 3, 7, 8, 9, 16, 31]), rnd.choice([1, 2, 3, 5, 8, 11, 40])
                if method == "fft":   # the FFT method is specified for two samples or more
                    n, m = max(2, n), max(2, m)
                k1, k2 = rnd.choice(KINDS[:-1]), rnd.choice(KINDS[:-1])
                convolve_call(ri(n), ri(m), rnd.choice([None, "full"]), method, dtype, k1, k2)
            convolve_call(ri(5), ri(3), "full", method, dtype, "list", "list")
            for mode in ("valid", "same", "FULL", "x"):
                convolve_call(ri(6), ri(3), mode, method, dtype, "plain", "plain")
            convolve_call(ri(6), ri(3), "full", method, dtype, "plain", "plain", shape1=(2, 3))
            convolve_call(ri(6), ri(4), "full", method, dtype, "plain", "plain", shape2=(2, 2))
            convolve_call(ri(6), ri(4), "full", method, dtype, "plain", "plain", shape2=(4, 1))
            convolve_call(ri(6), ri(4), "full", method, dtype, "plain", "plain", shape1=(1, 6), shape2=(1, 4))


def frequencies():
    for n in [1, 2, 3, 4, 5, 8, 9, 33, 100]:
        for rate in (None, 1, 20, 1000, 44100, 48000):
            y, err = guarded(lambda: neo.fft.rfftfreq(n) if rate is None else neo.fft.rfftfreq(n, 1.0 / rate))
            emit("rfftfreq", n=n, rate=1 if rate is None else rate, err=err, y=[] if y is None else [near(v * n, 1e-3) for v in y], otype="" if y is None else str(y.dtype))


def elements():
    fns = {"fast_log2": (lambda a: neo.fast_log2(a), 2.0, range(-20, 21)), "fast_log10": (lambda a: neo.fast_log10(a), 10.0, range(-9, 10)),
           "db": (lambda a: neo.amplitude_to_db(a), 10.0, range(-9, 7)), "db_estimate": (lambda a: neo.amplitude_to_db(a, precision="estimate"), 10.0, range(-9, 7)),
           "a_weighting": (lambda a: neo.a_weighting(a), 10.0 ** 0.1, [13, 15, 20, 30, 34, 40, 43])}
    for f, (call, base, ks) in fns.items():
        for dtype in ("float32", "float64"):
            for shape in ((1,), (7,), (3, 4), (2, 1, 3)):
                n = int(np.prod(shape))
                k = [rnd.choice(list(ks)) for _ in range(n)]
                v = np.array([base ** i for i in k], dtype=dtype).reshape(shape)
                if len(shape) == 2 and rnd.random() < 0.5:
                    v = np.asfortranarray(v)
                if len(shape) == 1 and n > 1:
                    w = np.full(2 * n, 5, dtype=dtype)
                    w[::2] = v
                    v = w[::2]
                if f == "a_weighting":   # nominal frequencies of the standard
                    nom = {13: 20.0, 15: 31.5, 20: 100.0, 30: 1000.0, 34: 2500.0, 40: 10000.0, 43: 20000.0}
                    v = np.array([nom[i] for i in k], dtype=dtype).reshape(shape)
                if f == "db" and n > 1:          # silence is at the floor
                    k[n // 2] = -99
                    v.flat[n // 2] = 0
                y, err = guarded(lambda: call(v))
                y = None if y is None else np.asarray(y)
                emit("element", f=f, k=k, dtype=dtype, shape=list(shape), err=err, oshape=[] if y is None else list(y.shape), otype="" if y is None else str(y.dtype),
                     y=[] if y is None else [rounded(t * 1000) for t in y.ravel()])


crowds()
conv_crowds()
probes()
transforms()
threads()
convolutions()
frequencies()
elements()
out.close()
shutil.rmtree(pkg, ignore_errors=True)
