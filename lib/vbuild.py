"""Builds what a check needs from /repo's current working tree.

Objects are cached by content: the key of an object is the hash of its flags,
its source and every non-system file it included last time, so neither time
stamps nor a fresh checkout of /repo matter, and a change in any file that is
compiled is always seen.  Nothing is written under /repo.
"""
import fcntl
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
LIBDIR = os.path.join(VERIF, "lib")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class BuildError(Exception):
    pass


FLAVORS = {
    "opt": ["-O1", "-g0"],
    "fast": ["-O2", "-g0"],
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
}
LINK = {
    "opt": [], "fast": [],
    "asan": ["-fsanitize=address"],
    "tsan": ["-fsanitize=thread"],
}

DEFS = ["-DHAVE_CONFIG_H", "-DKENLM_MAX_ORDER=6"]
BOOST = ["-lboost_program_options", "-lboost_filesystem", "-lboost_serialization",
         "-lboost_regex", "-lboost_thread", "-lboost_system"]
ZLIBS = ["-lz", "-lbz2", "-llzma", "-ldl", "-lpthread", "-lrt"]


def _inc(*dirs):
    return ["-I" + os.path.join(REPO, d) for d in dirs]


# name -> (directory, CMake variables that list the sources, include flags, extra flags)
LIBS = {
    "utils": ("utils", ["utils_STAT_SRCS"], _inc("utils", "."), []),
    "mteval": ("mteval", ["mteval_STAT_SRCS"], _inc("utils", "mteval", "."), []),
    "klm": ("klm/lm", ["klm_STAT_SRCS"], _inc("klm", "."), []),
    "klm_util": ("klm/util", ["klm_util_STAT_SRCS"], _inc("klm", "."), []),
    "klm_double": ("klm/util/double-conversion", ["klm_util_double_STAT_SRCS"], _inc("klm", "."), []),
    "klm_stream": ("klm/util/stream", ["klm_util_stream_STAT_SRCS"], _inc("klm", "."), []),
    "klm_builder": ("klm/lm/builder", ["lmplz_SRCS"], _inc("klm", "."), []),
    "klm_filter": ("klm/lm/filter", None, _inc("klm", "."), []),
    "ksearch": ("klm/search", ["ksearch_STAT_SRCS"], _inc("klm", "."), []),
    "decoder": ("decoder", ["libcdec_SRCS"], _inc("utils", "mteval", "klm", "decoder", "."), []),
    "extractor": ("extractor", ["extractor_STAT_SRCS"],
                  _inc("utils", "extractor", "extractor/features", "."), ["-fopenmp"]),
    "training_utils": ("training/utils", ["training_utils_STAT_SRCS"],
                       _inc("utils", "mteval", "klm", "decoder", "training", "training/utils", "."), []),
    "dpmert": ("training/dpmert", ["dpmert_SRCS"],
               _inc("utils", "mteval", "klm", "decoder", "training", "training/utils", "training/dpmert", "."), []),
    "lbfgs": ("training/liblbfgs", ["lbfgs_STAT_SRCS"], _inc("training", "training/liblbfgs", "."), []),
}
TRAIN_INC = _inc("utils", "mteval", "klm", "decoder", "training", "training/utils", "training/liblbfgs",
                 "training/crf", "training/dpmert", "word-aligner", ".")

EXTR_INC = _inc("utils", "extractor", "extractor/features", ".")

_hash_cache = {}
_hash_lock = threading.Lock()


def _fhash(path):
    with _hash_lock:
        h = _hash_cache.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "missing"
        with _hash_lock:
            _hash_cache[path] = h
    return h


def _key(flags, src, deps):
    m = hashlib.sha1()
    m.update("\0".join(flags).encode())
    for d in [src] + sorted(deps):
        m.update(d.encode() + b"\0" + _fhash(d).encode())
    return m.hexdigest()


def _parse_deps(path):
    with open(path) as f:
        txt = f.read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    return [os.path.normpath(d.replace("\0", " ")) for d in txt.replace("\\ ", "\0").split()]


def _is_main(path):
    with open(path, errors="replace") as f:
        txt = f.read()
    return re.search(r"^\s*(int|void)\s+main\s*\(", txt, re.M) is not None


def compile_one(src, flags):
    """Returns the path of the object file of src."""
    pre = [] if src.endswith(".c") else ["-include", os.path.join(LIBDIR, "compat.h")]
    fl = flags + ["-w"] + pre + ["-I" + os.path.join(LIBDIR, "config")] + DEFS
    base = hashlib.sha1(("\0".join(fl) + "\0" + src).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, "obj", base[:2])
    os.makedirs(d, exist_ok=True)
    stem = os.path.join(d, base + "-" + os.path.basename(src).replace(".", "_"))
    meta = stem + ".json"
    # several remembered versions (a planted change, then the original again)
    try:
        with open(meta) as f:
            versions = json.load(f)
    except (OSError, ValueError):
        versions = []
    for v in versions:
        if os.path.exists(v["obj"]) and _key(fl, src, v["deps"]) == v["key"]:
            return v["obj"]
    tmp = f"{stem}.{os.getpid()}.{threading.get_ident()}"
    cc = "gcc" if src.endswith(".c") else "g++"
    std = [] if src.endswith(".c") else ["-std=gnu++14"]
    p = subprocess.run([cc] + std + fl + ["-MMD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError(f"cannot compile {src}:\n" + p.stdout.decode(errors="replace")[-4000:])
    deps = sorted(set(_parse_deps(tmp + ".d")) - {src})
    os.unlink(tmp + ".d")
    key = _key(fl, src, deps)
    obj = f"{stem}.{key[:16]}.o"
    os.replace(tmp + ".o", obj)
    versions = [v for v in versions if v["key"] != key][-3:] + [{"key": key, "deps": deps, "obj": obj}]
    with open(tmp + ".json", "w") as f:
        json.dump(versions, f)
    os.replace(tmp + ".json", meta)
    return obj


def _gen_lexer():
    src = os.path.join(REPO, "decoder/rule_lexer.ll")
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    out = os.path.join(gen, "rule_lexer.cc")
    tmp = out + f".{os.getpid()}"
    p = subprocess.run(["flex", "-o", tmp, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError("flex failed: " + p.stdout.decode())
    with open(tmp) as f:
        txt = f.read().replace(tmp, out)
    os.unlink(tmp)
    old = None
    if os.path.exists(out):
        with open(out) as f:
            old = f.read()
    if old != txt:
        with open(tmp, "w") as f:
            f.write(txt)
        os.replace(tmp, out)
    return out


def cmake_list(directory, var):
    """The files a set(VAR ...) of a CMakeLists.txt names."""
    with open(os.path.join(REPO, directory, "CMakeLists.txt")) as f:
        txt = re.sub(r"#[^\n]*", "", f.read())
    m = re.search(r"set\s*\(\s*" + re.escape(var) + r"\s([^)]*)\)", txt)
    if not m:
        raise BuildError(f"{directory}/CMakeLists.txt: no {var}")
    return m.group(1).split()


def lib_sources(name):
    directory, variables, inc, extra = LIBS[name]
    d = os.path.join(REPO, directory)
    res = []
    if variables is None:  # not in the CMake build
        names = [os.path.basename(f) for f in sorted(glob.glob(os.path.join(d, "*.cc")))]
    else:
        names = []
        for v in variables:
            names += cmake_list(directory, v)
    for n in names:
        if not n.endswith((".cc", ".cpp", ".c")) or n.endswith("_test.cc"):
            continue
        f = os.path.join(d, n)
        if n == "meteor_jar.cc":  # configured from meteor_jar.cc.in
            f = os.path.join(LIBDIR, "meteor_jar.cc")
        if _is_main(f):
            continue
        res.append(f)
    if name == "decoder":
        res.append(_gen_lexer())
    return res, inc + extra


def _objs(jobs):
    """jobs: list of (src, flags); returns objects in order."""
    with ThreadPoolExecutor(JOBS) as pool:
        return list(pool.map(lambda j: compile_one(*j), jobs))


class Target:
    """A program: sources of its own (absolute, or relative to /repo) + libraries."""

    def __init__(self, name, srcs, libs=(), flavor="opt", inc=None, flags=(), link=(), only=None):
        self.name, self.srcs, self.libs, self.flavor = name, srcs, list(libs), flavor
        self.inc = inc if inc is not None else TRAIN_INC
        self.flags, self.link = list(flags), list(link)

    @property
    def path(self):
        return os.path.join(BUILD, "bin", self.flavor, self.name)


def build(targets):
    """Builds all targets (shared objects once); returns {name: path}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(targets)


def _build(targets):
    jobs, where = [], {}

    def add(src, flags):
        k = (src, tuple(flags))
        if k not in where:
            where[k] = len(jobs)
            jobs.append((src, flags))
        return where[k]

    plans = []
    for t in targets:
        fl = FLAVORS[t.flavor]
        own = []
        for s in t.srcs:
            s = s if os.path.isabs(s) else os.path.join(REPO, s)
            own.append(add(s, fl + t.inc + ["-I" + os.path.join(VERIF, "harness")] + t.flags))
        libs = []
        for l in t.libs:
            srcs, lf = lib_sources(l)
            libs.append((l, [add(s, fl + lf) for s in srcs]))
        plans.append((t, own, libs))
    # big files first
    order = sorted(range(len(jobs)), key=lambda i: -os.path.getsize(jobs[i][0]) if os.path.exists(jobs[i][0]) else 0)
    res = [None] * len(jobs)
    done = _objs([jobs[i] for i in order])
    for i, o in zip(order, done):
        res[i] = o
    out = {}

    def link(plan):
        t, own, libs = plan
        ars = []
        for l, idx in libs:
            ars.append(_archive(l, t.flavor, [res[i] for i in idx]))
        objs = [res[i] for i in own]
        exe = t.path
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        cmd = (["g++"] + LINK[t.flavor] + objs + ["-Wl,--start-group"] + ars + ["-Wl,--end-group"] + t.link
               + BOOST + ZLIBS + (["-fopenmp"] if "extractor" in t.libs or "-fopenmp" in t.flags else []) + ["-rdynamic"])
        key = hashlib.sha1("\0".join(cmd).encode()).hexdigest()
        final = f"{exe}.{key[:16]}"
        if not os.path.exists(final):
            for old in glob.glob(exe + ".*"):
                if len(glob.glob(exe + ".*")) > 3:
                    os.unlink(old)
            p = subprocess.run(cmd + ["-o", final + ".tmp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0:
                raise BuildError(f"cannot link {t.name}:\n" + p.stdout.decode(errors="replace")[-4000:])
            os.replace(final + ".tmp", final)
        out[t.name] = final

    # archives are shared: make them serially, link in parallel
    for t, own, libs in plans:
        for l, idx in libs:
            _archive(l, t.flavor, [res[i] for i in idx])
    with ThreadPoolExecutor(JOBS) as pool:
        list(pool.map(link, plans))
    return out


def _archive(name, flavor, objs):
    key = hashlib.sha1("\0".join(objs).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "ar")
    os.makedirs(d, exist_ok=True)
    ar = os.path.join(d, f"lib{name}-{flavor}-{key}.a")
    if not os.path.exists(ar):
        old = sorted(glob.glob(os.path.join(d, f"lib{name}-{flavor}-*.a")), key=os.path.getmtime)
        for o in old[:-3]:
            os.unlink(o)
        tmp = ar + ".tmp"
        if os.path.exists(tmp):
            os.unlink(tmp)
        subprocess.run(["ar", "rcsT", tmp] + objs, check=True)
        os.replace(tmp, ar)
    return ar


KLM_LIBS = ["klm", "klm_util", "klm_double"]
CDEC_LIBS = ["decoder", "mteval", "utils", "ksearch"] + KLM_LIBS

# the programs of the project that the checks run
PROGRAMS = {
    "cdec": Target("cdec", ["decoder/cdec.cc"], CDEC_LIBS),
    "mkhg": Target("mkhg", [os.path.join(VERIF, "harness/mkhg.cc")], CDEC_LIBS),
    "atools": Target("atools", ["utils/atools.cc"], ["utils"]),
    "fast_score": Target("fast_score", ["mteval/fast_score.cc"], ["mteval", "utils"]),
    "mbr_kbest": Target("mbr_kbest", ["mteval/mbr_kbest.cc"], ["mteval", "utils"]),
    "fast_align": Target("fast_align", ["word-aligner/fast_align.cc", "word-aligner/ttables.cc"], ["utils"]),
    "sacompile": Target("sacompile", ["extractor/sacompile.cc"], ["extractor", "utils"], flags=["-fopenmp"], inc=EXTR_INC),
    "run_extractor": Target("run_extractor", ["extractor/run_extractor.cc"], ["extractor", "utils"], flags=["-fopenmp"], inc=EXTR_INC),
    "extract": Target("extract", ["extractor/extract.cc"], ["extractor", "utils"], flags=["-fopenmp"], inc=EXTR_INC),
    "lmplz": Target("lmplz", ["klm/lm/builder/lmplz_main.cc"], ["klm_builder", "klm_stream"] + KLM_LIBS, inc=_inc("klm", ".")),
    "build_binary": Target("build_binary", ["klm/lm/build_binary_main.cc"], KLM_LIBS, inc=_inc("klm", ".")),
    "query": Target("query", ["klm/lm/query_main.cc"], KLM_LIBS, inc=_inc("klm", ".")),
    "mr_dpmert_generate_mapper_input": Target("mr_dpmert_generate_mapper_input", ["training/dpmert/mr_dpmert_generate_mapper_input.cc"], ["dpmert", "training_utils"] + CDEC_LIBS, inc=TRAIN_INC),
    "mr_dpmert_map": Target("mr_dpmert_map", ["training/dpmert/mr_dpmert_map.cc"], ["dpmert", "training_utils"] + CDEC_LIBS, inc=TRAIN_INC),
    "mr_dpmert_reduce": Target("mr_dpmert_reduce", ["training/dpmert/mr_dpmert_reduce.cc"], ["dpmert", "training_utils"] + CDEC_LIBS, inc=TRAIN_INC),
    "minrisk_optimize": Target("minrisk_optimize", ["training/minrisk/minrisk_optimize.cc"], ["training_utils", "lbfgs"] + CDEC_LIBS, inc=TRAIN_INC),
    "mr_pro_map": Target("mr_pro_map", ["training/pro/mr_pro_map.cc"], ["training_utils"] + CDEC_LIBS, inc=TRAIN_INC),
    "mr_pro_reduce": Target("mr_pro_reduce", ["training/pro/mr_pro_reduce.cc"], ["training_utils", "lbfgs"] + CDEC_LIBS, inc=TRAIN_INC),
    "rampion_cccp": Target("rampion_cccp", ["training/rampion/rampion_cccp.cc"], ["training_utils"] + CDEC_LIBS, inc=TRAIN_INC),
    "mpi_batch_optimize": Target("mpi_batch_optimize", ["training/crf/mpi_batch_optimize.cc", "training/crf/cllh_observer.cc"], ["training_utils"] + CDEC_LIBS, inc=TRAIN_INC),
    "mpi_adagrad_optimize": Target("mpi_adagrad_optimize", ["training/crf/mpi_adagrad_optimize.cc", "training/crf/cllh_observer.cc"], ["training_utils"] + CDEC_LIBS, inc=TRAIN_INC),
    "mpi_compute_cllh": Target("mpi_compute_cllh", ["training/crf/mpi_compute_cllh.cc", "training/crf/cllh_observer.cc"], CDEC_LIBS, inc=TRAIN_INC),
    "mpi_extract_features": Target("mpi_extract_features", ["training/crf/mpi_extract_features.cc"], CDEC_LIBS, inc=TRAIN_INC),
    "mpi_extract_reachable": Target("mpi_extract_reachable", ["training/crf/mpi_extract_reachable.cc"], CDEC_LIBS, inc=TRAIN_INC),
    "mpi_flex_optimize": Target("mpi_flex_optimize", ["training/crf/mpi_flex_optimize.cc"], ["training_utils"] + CDEC_LIBS, inc=TRAIN_INC),
    "mpi_online_optimize": Target("mpi_online_optimize", ["training/crf/mpi_online_optimize.cc"], ["training_utils"] + CDEC_LIBS, inc=TRAIN_INC),
    "mpi_baum_welch": Target("mpi_baum_welch", ["training/crf/mpi_baum_welch.cc"], CDEC_LIBS, inc=TRAIN_INC),
    "dtrain": Target("dtrain", ["training/dtrain/dtrain.cc", "training/dtrain/score.cc"], CDEC_LIBS, inc=TRAIN_INC),
    "kbest_cut_mira": Target("kbest_cut_mira", ["training/mira/kbest_cut_mira.cc"], CDEC_LIBS, inc=TRAIN_INC),
    "kbest_mira": Target("kbest_mira", ["training/mira/kbest_mira.cc"], CDEC_LIBS, inc=TRAIN_INC),
    "ada_opt_sm": Target("ada_opt_sm", ["training/mira/ada_opt_sm.cc"], ["training_utils"] + CDEC_LIBS, inc=TRAIN_INC),
    "filter": Target("filter", ["klm/lm/filter/filter_main.cc"], ["klm_filter"] + KLM_LIBS, inc=_inc("klm", ".")),
}


def programs(*names):
    return build([PROGRAMS[n] for n in names])


if __name__ == "__main__":
    import time
    t0 = time.time()
    names = sys.argv[1:] or sorted(PROGRAMS)
    try:
        for n, p in programs(*names).items():
            print(n, p)
    except BuildError as e:
        print(e)
        sys.exit(3)
    print("%.1fs" % (time.time() - t0))
