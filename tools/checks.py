"""Configuration of every check (what is built, recorded, specified)."""

XS = "-DNEO_HAS_XSIMD=1"

VARIANTS = {
    "v3": {"flags": ["-march=x86-64-v3", XS]},
    "v2": {"flags": ["-march=x86-64-v2", XS]},
    "v1": {"flags": ["-march=x86-64"]},
    "v3plain": {"flags": ["-march=x86-64-v3"]},
    "v3o3": {"flags": ["-march=x86-64-v3", XS], "opt": "-O3"},
    "gcc": {"cxx": "g++", "flags": ["-march=x86-64-v3", XS]},
    "gcco3": {"cxx": "g++", "flags": ["-march=x86-64-v3", XS], "opt": "-O3"},
    "asan": {"flags": ["-march=x86-64-v3", XS, "-fsanitize=address", "-g1"]},
    "asanv1": {"flags": ["-march=x86-64", "-fsanitize=address", "-g1"]},
    "nostdbit": {"flags": ["-march=x86-64-v3", XS, "-DNEO_VERIF_NO_STD_BIT=1"]},
    "nobuiltinbit": {"flags": ["-march=x86-64-v3", XS, "-DNEO_VERIF_NO_STD_BIT=1", "-DNEO_VERIF_NO_BUILTIN_BIT=1"]},
    # vendor back ends against stand-ins with the published semantics (shim/vendor)
    "ipp": {"flags": ["-march=x86-64-v3", "-DNEO_HAS_INTEL_IPP=1", "-fsanitize=address", "-g1", "@shim:vendor"]},
    "mkl": {"flags": ["-march=x86-64-v3", "-DNEO_HAS_INTEL_MKL=1", "-fsanitize=address", "-g1", "@shim:vendor"]},
    "vdsp": {"flags": ["-march=x86-64-v3", "-DNEO_HAS_APPLE_ACCELERATE=1", "-D__MAC_OS_X_VERSION_MIN_REQUIRED=140000", "-fsanitize=address", "-g1", "@shim:vendor"]},
    "avx512": {"flags": ["-march=x86-64-v4", XS],
               "needs": ["avx512f", "avx512bw", "avx512dq", "avx512vl", "avx512cd"]},
}

CHECKS = {
    "P17": {
        "harness": "p17.cpp", "spec": "TraceFixedPoint", "variants": ["v3"],
        "variants_thorough": ["v1", "gcc", "v3o3"], "seeds_thorough": 2,
        "chunk": 64, "cont": ["apply"],
        "models": [("MCFixedPoint", "MCFixedPoint")],
        "models_thorough": [("MCFixedPoint", "MCFixedPointBig")],
        "ops": ["row", "load", "apply"],
        "outs": {"row": ["r"], "load": ["r"], "apply": ["r"]},
    },
    "P18": {
        "harness": "p18.cpp", "spec": "TraceFixedPoint", "variants": ["v3"],
        "variants_thorough": ["v1", "gcc", "v3o3"], "seeds_thorough": 2,
        "chunk": 64,
        "models": [("MCFixedPoint", "MCFixedPoint")],
        "models_thorough": [("MCFixedPoint", "MCFixedPointBig")],
        "ops": ["fromfloat", "frominf", "tofloat", "cmp", "traits"],
        "outs": {"fromfloat": ["r"], "frominf": ["r"], "tofloat": ["r"], "cmp": ["r"], "traits": ["scale", "ib"]},
    },
    "P19": {
        "harness": "p19.cpp", "spec": "TraceFixedPoint", "variants": ["v1", "v2", "v3", "avx512"],
        "variants_thorough": ["gcc", "v3o3", "asan"], "seeds_thorough": 1,
        "chunk": 64,
        "models": [("MCFixedPoint", "MCFixedPoint")],
        "ops": ["vec", "splat", "move"],
        "outs": {"vec": ["r", "guard", "inputs"], "splat": ["r"], "move": ["r", "guard"]},
    },
    "P20": {
        "harness": "p20.cpp", "spec": "TraceFxComplex", "variants": ["v3", "gcc"],
        "variants_thorough": ["v1", "v3o3", "asan"], "seeds_thorough": 2, "chunk": 8,
        "models": [("MCFxComplex", "MCFxComplex")],
        "ops": ["carith", "cmul", "cparts", "compressed"],
        "outs": {"carith": ["r"], "cmul": ["r"], "cparts": ["got"], "compressed": ["r"]},
    },
    "P21": {
        "harness": "p21.cpp", "spec": "TraceComplex", "variants": ["v3", "gcc"],
        "variants_thorough": ["v1", "v3o3", "asan"], "seeds_thorough": 2, "chunk": 64, "cont": ["apply"],
        "models": [("MCGauss", "MCGauss")],
        "ops": ["load", "apply", "div", "divs", "abs", "absx", "access", "raccess", "absreal", "polar", "equal", "log2", "traits"],
        "outs": {"load": ["r"], "apply": ["r", "ret"], "div": ["r"], "divs": ["r"], "abs": ["r"], "absx": ["r"],
                 "access": ["re", "im"], "raccess": ["re", "im"], "absreal": ["r"], "equal": ["r"], "log2": ["r"]},
    },
    "P22": {
        "harness": "p22.cpp", "spec": "TraceSimdFloat", "variants": ["v1", "v3", "avx512"],
        "variants_thorough": ["v2", "gcc", "v3o3", "asan"], "seeds_thorough": 2, "chunk": 32,
        "models": [("MCSimdFloat", "MCSimdFloat")],
        "ops": ["vec", "splat", "move", "bits", "cvec", "native"],
        "outs": {"vec": ["r", "guard", "inputs"], "splat": ["r"], "move": ["r", "guard"], "bits": ["r", "guard"], "cvec": ["re", "im"]},
    },
    "P23": {
        "harness": "p23.cpp", "spec": "TraceIntHelpers", "variants": ["v3", "nostdbit", "nobuiltinbit"],
        "variants_thorough": ["v1", "gcc", "v3o3"], "seeds_thorough": 1, "chunk": 32,
        "models": [("MCIntHelpers", "MCIntHelpers")],
        "ops": ["bitceil", "bitlog2", "nextorder", "fftsize", "ipow", "idiv", "idivw", "parity", "bitcast"],
        "outs": {"bitceil": ["r"], "bitlog2": ["r"], "nextorder": ["r"], "fftsize": ["r"], "ipow": ["r"],
                 "idiv": ["r"], "idivw": ["r"], "parity": ["odd", "even"], "bitcast": ["bits", "back"]},
    },
    "P24": {
        "harness": "p24.cpp", "spec": "TraceLogScale", "variants": ["v3", "gcc"],
        "variants_thorough": ["v1", "v3o3"], "seeds_thorough": 3, "chunk": 8,
        "models": [("MCLogScale", "MCLogScale")],
        "ops": ["db", "dbten", "dbmono", "dbhom", "fastlog2", "fastlog10", "faststep", "aweight", "aref"],
        "outs": {"db": ["r"], "dbten": ["r"], "dbhom": ["d"], "fastlog2": ["r"], "fastlog10": ["r"], "faststep": ["d"], "aweight": ["r"], "aref": ["r"]},
    },
    "P25": {
        "harness": "p25.cpp", "spec": "TraceLogScale", "variants": ["v3", "gcc"],
        "variants_thorough": ["v1", "v3o3", "asan"], "seeds_thorough": 3, "chunk": 8,
        "models": [("MCLogScale", "MCLogScale")],
        "ops": ["mel", "melexact", "melround", "melfreqs", "freq", "freqvec", "window", "winpoint", "melfine"],
        "outs": {"mel": ["r"], "melexact": ["mel", "hz"], "melround": ["r"], "melfreqs": ["r", "guard"], "freq": ["r"],
                 "freqvec": ["r", "guard"], "window": ["w", "guard", "agree"], "winpoint": ["r", "d"], "melfine": ["d"]},
    },
    "P13": {
        "harness": "p13.cpp", "spec": "TraceLinAlg", "variants": ["v3", "v1", "v3plain", "avx512", "vdsp"],
        "variants_thorough": ["v2", "gcc", "v3o3", "asan", "asanv1"], "seeds_thorough": 1, "starts": ["begin"],
        "models": [("MCLinAlg", "MCLinAlg")],
        "ops": ["begin", "madd"],
        "outs": {"madd": ["env", "guard"]},
    },
    "P14": {
        "harness": "p14.cpp", "spec": "TraceLinAlg", "variants": ["v3", "asan", "mkl"],
        "variants_thorough": ["v1", "gcc", "v3o3", "asanv1"], "seeds_thorough": 2, "starts": ["begin"],
        "models": [("MCLinAlg", "MCLinAlg")],
        "gen": {"module": "GenLinAlg", "cfg": "GenLinAlg", "num": 150, "num_thorough": 600, "depth": 9, "min": 20},
        "ops": ["begin", "add", "mul", "scale", "fill", "copy"],
        "outs": {"add": ["env", "guard"], "mul": ["env", "guard"], "scale": ["env", "guard"], "fill": ["env", "guard"],
                 "copy": ["env", "guard"]},
    },
    "P15": {
        "harness": "p15.cpp", "spec": "TraceStats", "variants": ["v3", "gcc"],
        "variants_thorough": ["v1", "v3o3", "asan"], "seeds_thorough": 2, "chunk": 32,
        "models": [("MCStats", "MCStats")],
        "ops": ["mean", "cmean", "var", "std", "mse", "cmse", "rmse", "match", "match1", "close", "cclose", "closenan", "lmean", "lvar", "lmse", "lmatch", "lclose"],
        "outs": {"mean": ["r"], "cmean": ["r"], "var": ["r"], "std": ["r"], "mse": ["r"], "cmse": ["r"], "rmse": ["r"],
                 "match": ["r"], "match1": ["r"], "close": ["r"], "cclose": ["r"], "closenan": ["r"],
                 "lmean": ["r"], "lvar": ["r"], "lmse": ["r"], "lmatch": ["r"], "lclose": ["r"]},
        "selftest_delta": 5003,
    },
    "P16": {
        "harness": "p16.cpp", "spec": "TraceStats", "variants": ["v3", "gcc"],
        "variants_thorough": ["v1", "v3o3", "asan"], "seeds_thorough": 2, "chunk": 32,
        "models": [("MCStats", "MCStats")],
        "ops": ["energy", "peak", "impulse"],
        "outs": {"energy": ["y", "guard"], "peak": ["y", "guard"], "impulse": ["guard"]},
    },
    "P12": {
        "harness": "p12.cpp", "spec": "TraceCsr", "variants": ["v3", "asan"],
        "variants_thorough": ["v1", "gcc", "v3o3"], "seeds_thorough": 2, "starts": ["new", "dense"],
        "models": [("MCCsr", "MCCsr")],
        "gen": {"module": "GenCsr", "cfg": "GenCsr", "num": 120, "num_thorough": 800, "depth": 11, "min": 40},
        "ops": ["new", "dense", "insert", "dump", "madd"],
        "outs": {"dump": ["dims", "rc", "size", "dense", "vals", "ptr"], "madd": ["after", "guard"]},
    },
    "P11": {
        "harness": "p11.cpp", "spec": "TraceDigitRev", "variants": ["v3", "asan"],
        "variants_thorough": ["v1", "gcc", "v3o3"], "seeds_thorough": 2, "chunk": 4,
        "models": [("MCDigitRev", "MCDigitRev")],
        "ops": ["rev", "revat"],
        "outs": {"rev": ["after", "guard"], "revat": ["got", "guard"]},
    },
    "P08": {
        "harness": "p08.cpp", "spec": "TraceDft", "variants": ["v3", "asan", "ipp", "mkl", "vdsp"],
        "variants_thorough": ["v1", "v2", "gcc", "v3o3", "avx512"], "seeds_thorough": 1, "starts": ["plan"],
        "models": [("MCDft", "MCDft")],
        "gen": {"module": "GenDft", "cfg": "GenDft", "num": 100, "num_thorough": 500, "depth": 11, "min": 40},
        "ops": ["plan", "refuse", "accept", "impulse", "probe", "spectrum", "roundtrip"],
        "outs": {"impulse": ["exps", "guard"], "probe": ["exps", "guard"], "spectrum": ["out"], "roundtrip": ["out", "guard"]},
        "selftest_delta": 1,
    },
    "P09": {
        "harness": "p09.cpp", "spec": "TraceDft", "variants": ["v3", "asan", "ipp"],
        "variants_thorough": ["v1", "gcc", "v3o3"], "seeds_thorough": 1, "starts": ["plan"],
        "models": [("MCBluestein", "MCBluestein")],
        "gen": {"module": "GenDft", "cfg": "GenDft", "num": 100, "num_thorough": 500, "depth": 11, "min": 40},
        "ops": ["plan", "impulse", "probe", "spectrum", "roundtrip"],
        "outs": {"impulse": ["exps", "guard"], "probe": ["exps", "guard"], "spectrum": ["out"], "roundtrip": ["out", "guard"]},
        "selftest_delta": 1,
    },
    "P10": {
        "harness": "p10.cpp", "spec": "TraceRealDft", "variants": ["v3", "asan", "ipp"],
        "variants_thorough": ["v1", "gcc", "v3o3"], "seeds_thorough": 1, "starts": ["plan"],
        "models": [("MCRealDft", "MCRealDft")],
        "gen": {"module": "GenDft", "cfg": "GenDft", "num": 100, "num_thorough": 500, "depth": 11, "min": 40},
        "ops": ["plan", "rimpulse", "rprobe", "rspectrum", "irfft", "rroundtrip", "dct", "dctprobe", "dctspectrum", "deinterleave", "deinterleaveat"],
        "outs": {"rimpulse": ["exps", "guard"], "rprobe": ["exps", "guard"], "dctprobe": ["exps"], "deinterleaveat": ["x", "y"], "rspectrum": ["out"], "irfft": ["out"], "rroundtrip": ["out", "guard"],
                 "dct": ["exps"], "dctspectrum": ["out"], "deinterleave": ["x", "y", "guard"]},
        "selftest_delta": 1,
    },
    "P07": {
        "harness": "p07.cpp", "spec": "TraceConv", "variants": ["v3", "asan"],
        "variants_thorough": ["ipp", "mkl", "v1", "gcc", "v3o3"], "seeds_thorough": 2, "chunk": 8,
        "models": [("MCConv", "MCConv")], "models_thorough": [("MCConv", "MCConvBig")],
        "ops": ["conv", "cconv", "sizes", "empty"],
        "outs": {"conv": ["y", "guard"], "cconv": ["y", "guard"], "sizes": ["r"], "empty": ["r"]},
    },
    "P01": {
        "harness": "p01.cpp", "spec": "TraceStream", "variants": ["v3", "asan", "v1"],
        "variants_thorough": ["vdsp", "ipp", "mkl", "v2", "gcc", "v3o3", "v3plain", "avx512"], "seeds_thorough": 1, "starts": ["begin"],
        "models": [("MCPart", "MCPartOls"), ("MCPart", "MCPartOla")],
        "models_thorough": [("MCPart", "MCPartOlsBig"), ("MCPart", "MCPartOlaBig"), ("MCPart", "MCPartB1"), ("MCPart", "MCPartB1a")],
        "gen": {"module": "GenStream", "cfg": "GenStream", "num": 120, "num_thorough": 600, "depth": 18, "min": 60},
        "ops": ["begin", "filter", "block", "copy"],
        "outs": {"block": ["y", "guard"]},
    },
    "P03": {
        "harness": "p03.cpp", "spec": "TraceStream", "variants": ["v3", "asan", "v1"],
        "variants_thorough": ["ipp", "mkl", "v2", "gcc", "v3o3", "v3plain", "avx512"], "seeds_thorough": 1, "starts": ["begin"],
        "models": [("MCChunk", "MCChunk")],
        "models_thorough": [("MCChunk", "MCChunkBig"), ("MCChunk", "MCChunkAny")],
        "gen": {"module": "GenStream", "cfg": "GenStream", "num": 120, "num_thorough": 600, "depth": 18, "min": 60},
        "ops": ["begin", "filter", "block", "copy"],
        "outs": {"block": ["y", "guard"]},
    },
    "P04": {
        "harness": "p04.cpp", "spec": "TraceOverlap", "variants": ["v3", "asan"],
        "variants_thorough": ["ipp", "mkl", "v1", "gcc", "v3o3"], "seeds_thorough": 2, "starts": ["new"],
        "models": [("MCOverlap", "MCOverlap_add"), ("MCOverlap", "MCOverlap_save")],
        "models_thorough": [("MCOverlap", "MCOverlap_addBig"), ("MCOverlap", "MCOverlap_saveBig")],
        "gen": {"module": "GenOverlap", "cfg": "GenOverlap", "num": 120, "num_thorough": 600, "depth": 13, "min": 60},
        "ops": ["new", "step"],
        "outs": {"step": ["y", "guard", "bins"], "new": ["ts", "bs", "fs"]},
    },
    "P05": {
        "harness": "p05.cpp", "spec": "TraceFdl", "variants": ["v3", "asan"],
        "variants_thorough": ["v1", "gcc", "v3o3"], "seeds_thorough": 2, "starts": ["ring"],
        "models": [("MCFdl", "MCFdl")],
        "gen": {"module": "GenFdl", "cfg": "GenFdl", "num": 160, "num_thorough": 800, "depth": 27, "min": 80},
        "ops": ["ring", "reset", "turn", "store", "insert", "read"],
        "outs": {"turn": ["copied", "slots", "filters"], "read": ["got"], "insert": ["guard"]},
    },
    "P06": {
        "harness": "p06.cpp", "spec": "TraceFrames", "variants": ["v3", "asan"],
        "variants_thorough": ["ipp", "mkl", "v1", "gcc", "v3o3"], "seeds_thorough": 2, "starts": ["plan"],
        "models": [("MCFrames", "MCFrames")],
        "gen": {"module": "GenFrames", "cfg": "GenFrames", "num": 80, "num_thorough": 400, "depth": 6, "min": 40},
        "ops": ["plan", "call", "frame", "wframe"],
        "outs": {"call": ["dims", "guard"], "frame": ["got"], "wframe": ["got"]},
    },
    "P02": {
        "harness": "p02.cpp", "spec": "TraceSparse", "variants": ["v3", "asan"],
        "variants_thorough": ["ipp", "mkl", "v1", "gcc", "v3o3"], "seeds_thorough": 2, "starts": ["begin"],
        "models": [("MCSparse", "MCSparse")],
        "gen": {"module": "GenStream", "cfg": "GenStream", "num": 100, "num_thorough": 500, "depth": 18, "min": 60},
        "ops": ["begin", "filter", "block", "copy", "relate"],
        "outs": {"block": ["y", "guard"], "filter": ["asked"], "relate": ["sparse"]},
    },
    "P26": {
        "harness": "p26.cpp", "spec": "TraceFrameStream", "variants": ["v3", "asan"],
        "extra": ["@shim:juce", "@repo:extra/plugin/src"],
        "variants_thorough": ["gcc", "v3o3"], "seeds_thorough": 2,
        "starts": ["construct"],
        "models": [("MCAdapter", "MCAdapter")], "models_thorough": [("MCAdapter", "MCAdapterBig")],
        "gen": {"module": "GenFrameStream", "cfg": "GenFrameStream", "num": 60, "num_thorough": 300, "depth": 17, "min": 40},
        "ops": ["construct", "prepare", "block", "reset"],
        "outs": {"prepare": ["told"], "block": ["y", "guard"], "reset": ["resets"]},
        "assumptions": ["JUCE is not installed: shim/juce stands in for it (documented semantics; uninitialised memory is NaN)"],
    },
    "P27": {
        "harness": "p27.cpp", "spec": "TracePluginConv", "variants": ["v3", "asan"],
        "extra": ["@shim:juce", "@repo:extra/plugin/src"],
        "variants_thorough": ["v1", "gcc", "v3o3"], "seeds_thorough": 2,
        "starts": ["construct"],
        "models": [("MCAdapter", "MCAdapter")], "models_thorough": [("MCAdapter", "MCAdapterBig")],
        "gen": {"module": "GenPluginConv", "cfg": "GenPluginConv", "num": 160, "num_thorough": 600, "depth": 21, "min": 40},
        "ops": ["construct", "load", "prepare", "block", "reset", "offline", "sparse", "level", "segs", "bands"],
        "outs": {"block": ["y"], "offline": ["y", "guard"], "sparse": ["y", "guard"], "level": ["y", "guard"], "segs": ["y", "guard"], "bands": ["y", "guard"]},
        "assumptions": ["JUCE is not installed: shim/juce stands in for it (documented semantics; uninitialised memory is NaN; resampling takes the nearest earlier sample)"],
    },
    "P31": {
        "harness": "p31.cpp", "spec": "TracePlugin", "variants": ["v3", "asan"],
        "extra": ["@copy:extra/plugin/src/PluginProcessor.cpp", "@shim:juce/editor", "@shim:juce", "@repo:extra/plugin/src"],
        "variants_thorough": ["v1", "gcc", "v3o3"], "seeds_thorough": 2,
        "starts": ["plugin"],
        "models": [("MCPlugin", "MCPlugin"), ("MCAdapter", "MCAdapter")], "models_thorough": [("MCPlugin", "MCPluginBig")],
        "gen": {"module": "GenPlugin", "cfg": "GenPlugin", "num": 400, "num_thorough": 1500, "depth": 26, "min": 100},
        "ops": ["plugin", "reopen", "file", "set", "prepare", "block", "release", "save", "restore", "garbage", "listen", "layout"],
        "outs": {"plugin": ["vals", "spec"], "set": ["vals"], "prepare": ["told", "spec"], "block": ["y"], "save": ["vals"],
                 "restore": ["vals"], "reopen": ["vals"], "layout": ["ok"]},
        "assumptions": ["JUCE is not installed: shim/juce stands in for it (documented semantics; a parameter reaches the state tree when the message loop runs or copyState is called; the mixer's 50 ms ramps have no steps at the rates used)"],
    },
    "P32": {
        "harness": "p32.cpp", "spec": "TraceBench", "variants": ["v3", "asan"],
        "extra": ["@shim:juce", "@repo:extra/plugin/src"],
        "variants_thorough": ["v1", "gcc"], "seeds_thorough": 2,
        "starts": ["begin"],
        "models": [("MCBench", "MCBench")], "models_thorough": [("MCBench", "MCBenchBig")],
        "gen": {"module": "GenBench", "cfg": "GenBench", "num": 170, "num_thorough": 900, "depth": 16, "min": 80},
        "ops": ["begin", "put", "editor", "prepare", "signal", "impulse", "turn", "render", "quality", "close", "alone"],
        "outs": {"prepare": ["labels", "pct"], "impulse": ["pct", "count"], "turn": ["pct"], "render": ["files", "lines"], "close": ["fresh"], "quality": ["vals"]},
        "assumptions": ["JUCE is not installed: shim/juce stands in for it (documented semantics; messages and pool jobs run when the harness lets them; resampling takes the nearest earlier sample)"],
    },
    "P28": {
        "harness": "p28.cpp", "driver": "p28_driver.py", "spec": "TracePyApi", "variants": ["v3"],
        "extra": ["@python", "@shim:pybind", "@repo:extra/python/src"],
        "variants_thorough": ["v1", "gcc", "v3o3"], "seeds_thorough": 3,
        "chunk": 24,
        "models": [("MCDft", "MCDft"), ("MCConv", "MCConv")],
        "ops": ["fft", "probe", "convolve", "rfftfreq", "element"],
        "outs": {"fft": ["y", "kept"], "probe": ["exps", "size"], "convolve": ["y", "kept"], "rfftfreq": ["y"], "element": ["y"]},
        "assumptions": ["pybind11 is not installed: shim/pybind stands in for it on top of the real CPython and NumPy"],
    },
    "P29": {
        "harness": "p29.cpp", "spec": "TraceCli", "variants": ["v3"],
        "extra": ["@shim:cli", "@repo:extra/cli/src"],
        "variants_thorough": ["v1", "gcc", "v3o3", "asan"], "seeds_thorough": 2,
        "starts": ["begin"],
        "models": [("MCCli", "MCCli")], "models_thorough": [("MCCli", "MCCliBig")],
        "gen": {"module": "GenCli", "cfg": "GenCli", "num": 60, "num_thorough": 200, "depth": 12, "min": 20},
        "ops": ["begin", "put", "run", "full", "misuse"],
        "outs": {"run": ["rc", "others"], "full": ["rc", "others"], "misuse": ["rc", "others"]},
        "assumptions": ["dr_wav and fmt 10 are not installed: shim/cli stands in for them (32-bit float RIFF files)"],
    },
    "P30": {
        "harness": "p30.cpp", "spec": "TracePluginTools", "variants": ["v3", "asan"],
        "extra": ["@shim:juce", "@repo:extra/plugin/src"],
        "variants_thorough": ["v1", "gcc", "v3o3"], "seeds_thorough": 2,
        "starts": ["begin", "blocks", "mdarray", "hist", "image", "bars"],
        "models": [("MCPluginTools", "MCPluginTools")], "models_thorough": [("MCPluginTools", "MCPluginToolsBig")],
        "gen": {"module": "GenPluginTools", "cfg": "GenPluginTools", "num": 60, "num_thorough": 300, "depth": 12, "min": 30},
        "ops": ["begin", "put", "write", "load", "loadat", "blocks", "mdarray", "hist", "image", "bars"],
        "outs": {"load": ["y"], "blocks": ["out", "sizes"], "mdarray": ["y"], "hist": ["h"], "image": ["px"]},
        "assumptions": ["JUCE is not installed: shim/juce stands in for it (files in memory; resampling takes the nearest earlier sample)"],
    },
}
