"""The engine behind every check: generated-input search over recorded choices.

A Python suite is a pair (gen, check): gen draws a JSON-able case from a Gen,
check runs the code under test on it and raises Violation when the oracle
disagrees.  A C++ suite does both in one function (harness/pbt.hpp).  Both
record their choices; a failing case is shrunk on its choice sequence, replayed
three times, and written to a replay file.
"""
import argparse
import hashlib
import json
import mmap
import os
import random
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild  # noqa: E402

VERIF = vbuild.VERIF
JOBS = vbuild.JOBS
M64 = (1 << 64) - 1


class Violation(Exception):
    pass


class Inconclusive(Exception):
    """The environment, not the code under test, kept a case from running."""


class Discard(Exception):
    """The generated case is outside the domain of the property."""


def mix(z):
    z = (z + 0x9E3779B97F4A7C15) & M64
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return z ^ (z >> 31)


class Gen:
    """A stream of choices: random when searching, given when replaying."""

    def __init__(self, seed=None, choices=None):
        self.rnd = random.Random(seed) if choices is None else None
        self.given = choices
        self.choices = []

    def draw(self, n):
        """An integer in [0, n)."""
        if self.given is None:
            v = int(self.rnd.random() * n) if n < (1 << 50) else self.rnd.randrange(n)
        else:
            i = len(self.choices)
            v = self.given[i] if i < len(self.given) else 0
            if v >= n:
                v %= n
        self.choices.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def chance(self, num, den):
        """True with probability num/den; shrinks to False."""
        return self.draw(den) >= den - num

    def flip(self):
        return self.draw(2) == 1

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs of (weight, value); shrinks to the first."""
        k = self.draw(sum(w for w, _ in pairs))
        for w, v in pairs:
            if k < w:
                return v
            k -= w

    def count(self, lo, hi):
        """A number of elements, mostly small."""
        n = lo
        stop = 1 + self.draw(8)
        while n < hi and self.draw(16) >= stop:
            n += 1
        return n

    def list(self, f, lo, hi):
        return [f() for _ in range(self.count(lo, hi))]

    def grid(self, m, unit=8.0):
        """A multiple of 1/unit in [-m/unit, m/unit]; shrinks to 0."""
        v = self.draw(2 * m + 1)
        return (-((v + 1) // 2) if v & 1 else v // 2) / unit

    def real(self, lo, hi):
        return lo + (hi - lo) * self.draw(1 << 30) / float(1 << 30)

    def shuffle(self, seq):
        s = list(seq)
        for i in range(len(s) - 1):
            j = i + self.draw(len(s) - i)
            s[i], s[j] = s[j], s[i]
        return s

    def subset(self, seq, num=1, den=2):
        return [x for x in seq if self.chance(num, den)]


def _stuck(pid):
    """Does a process that we started sleep in all of its threads without using any CPU?"""
    def look():
        r = []
        for t in sorted(os.listdir(f"/proc/{pid}/task")):
            with open(f"/proc/{pid}/task/{t}/stat") as f:
                x = f.read().rsplit(")", 1)[1].split()
            r.append((t, x[0], x[11], x[12]))
        return r
    try:
        a = look()
        time.sleep(3)
        b = look()
    except (OSError, IndexError):
        return False
    return len(a) > 1 and a == b and all(x[1] == "S" for x in a)


class Ctx:
    def __init__(self, bins, work):
        self.bins = bins
        self.work = work  # a scratch directory of this worker, emptied by the check
        self.labels = {}
        self.nt = False
        self.extra = 0

    def reset(self):
        self.labels = {}
        self.nt = False
        self.extra = 0

    def count(self, label, n=1):
        self.labels[label] = self.labels.get(label, 0) + n

    def nontrivial(self, yes=True):
        if yes:
            self.nt = True

    def evals(self, n):
        self.extra += n

    def path(self, name):
        return os.path.join(self.work, name)

    def write(self, name, data):
        p = self.path(name)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("utf-8", "surrogateescape"))
        return p

    def run(self, prog, args=(), stdin=b"", cpu=30, wall=300, env=None, cwd=None, ok=(0,), mem=6 << 30):
        """Runs a program of /repo; returns (rc, stdout, stderr) as text."""
        exe = self.bins.get(prog, prog)
        if isinstance(stdin, str):
            stdin = stdin.encode("utf-8", "surrogateescape")
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C.UTF-8", "OMP_NUM_THREADS": "1",
             "TMPDIR": self.work, "HOME": self.work}
        if env:
            e.update(env)
        for attempt in range(3):
            try:
                p = subprocess.Popen([exe] + [str(a) for a in args], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.PIPE, cwd=cwd or self.work, env=e)
                break
            except OSError as err:
                if attempt == 2:
                    raise Inconclusive(f"cannot start {prog}: {err}")
                time.sleep(0.5)
        try:
            resource.prlimit(p.pid, resource.RLIMIT_CPU, (cpu, cpu + 5))
            if mem:
                resource.prlimit(p.pid, resource.RLIMIT_AS, (mem, mem))
        except (OSError, ValueError):
            pass
        try:
            out, err = p.communicate(stdin, timeout=wall)
        except subprocess.TimeoutExpired:
            stuck = _stuck(p.pid)
            p.kill()
            p.communicate()
            if stuck:
                raise Violation(f"{prog} {' '.join(map(str, args))}: all its threads wait for each other")
            raise Inconclusive(f"{prog}: no result within {wall} s of wall time")
        out = out.decode("utf-8", "surrogateescape")
        err = err.decode("utf-8", "surrogateescape")
        if p.returncode == -signal.SIGKILL:
            raise Inconclusive(f"{prog} was killed")
        if p.returncode == -signal.SIGXCPU:
            raise Violation(f"{prog} {' '.join(map(str, args))}: did not end within {cpu} s of CPU time")
        if ok is not None and p.returncode not in ok:
            raise Violation(f"{prog} {' '.join(map(str, args))}: exit status {p.returncode}\nstderr: ...{err[-1500:]}")
        return p.returncode, out, err


class Suite:
    """gen(g) -> case; check(case, ctx); fixed: hand-made cases run in every run."""

    def __init__(self, name, gen, check, weight=1.0, fixed=(), nontrivial_rule=""):
        self.name, self.gen, self.check, self.weight, self.fixed = name, gen, check, weight, list(fixed)


class Cpp:
    """A harness program; its suites carry their own relative weights."""

    def __init__(self, name, srcs=None, libs=(), flavor="opt", inc=None, flags=(), link=(), weight=1.0, own=(),
                 replays=3, need=3, quick_only=False, thorough_only=False, env=None,
                 suites=()):
        srcs = srcs or [os.path.join(VERIF, "harness", name + ".cc")]
        srcs = [s if os.path.isabs(s) or s.startswith("repo:") else os.path.join(VERIF, "harness", s) for s in srcs]
        srcs = [os.path.join(vbuild.REPO, s[5:]) if s.startswith("repo:") else s for s in srcs]
        self.name, self.weight, self.replays, self.need = name, weight, replays, need
        self.thorough_only = thorough_only
        self.suites = list(suites)
        self.env = env or {}
        self.target = vbuild.Target(name, srcs, libs, flavor, inc, flags, link)


def near(a, b, tol=1e-6):
    if a == b:
        return True
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def check_that(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


# ---------------------------------------------------------------- running

def _judge(suite, case, ctx):
    """None, or the message of the violation."""
    ctx.reset()
    try:
        suite.check(case, ctx)
        return None
    except Violation as v:
        return str(v)
    except (Inconclusive, Discard):
        raise
    except MemoryError:
        raise Inconclusive("out of memory")
    except Exception:  # output that the oracle cannot even read
        return "unreadable outcome: " + traceback.format_exc()[-1500:]


def _case_seed(seed, worker, k, idx):
    return mix(mix(mix(seed) ^ ((worker + 1) * 0x1000193)) ^ mix(k * 7919 + 13) ^ mix(idx + 77))


def _py_worker(suites, bins, seed, worker, secs, maxcases, out, only):
    work = tempfile.mkdtemp(prefix=f"w{worker}-", dir=os.path.dirname(out))
    ctx = Ctx(bins, work)
    st = {s.name: {"cases": 0, "evaluations": 0, "nontrivial": 0, "secs": 0.0, "discarded": 0} for s in suites}
    res = {"failed": False, "suite": "", "msg": "", "suites": st, "labels": {}, "samples": [], "hashes": [],
           "inconclusive": []}
    seen = set()
    act = [s for s in suites if not only or s.name == only]
    t0 = t = time.monotonic()
    todo = []
    for s in act:
        for i, c in enumerate(s.fixed):
            if i % JOBS == worker % JOBS:
                todo.append((s, c))
    n = 0
    while n < maxcases and (todo or t - t0 < secs):
        n += 1
        choices = None
        if todo:
            s, case = todo.pop(0)
        else:
            s = min(act, key=lambda x: st[x.name]["secs"] / x.weight)
            g = Gen(_case_seed(seed, worker, suites.index(s), st[s.name]["cases"]))
            try:
                case = s.gen(g)
            except Discard:
                st[s.name]["cases"] += 1
                st[s.name]["discarded"] += 1
                t1 = time.monotonic()
                st[s.name]["secs"] += t1 - t
                t = t1
                continue
            choices = g.choices
        q = st[s.name]
        q["cases"] += 1
        try:
            msg = _judge(s, case, ctx)
        except Discard:
            q["discarded"] += 1
            t1 = time.monotonic()
            q["secs"] += t1 - t
            t = t1
            continue
        except Inconclusive as e:
            res["inconclusive"].append(f"{s.name}: {e}")
            if len(res["inconclusive"]) > 20:
                break
            t = time.monotonic()
            continue
        t1 = time.monotonic()
        q["secs"] += t1 - t
        t = t1
        q["evaluations"] += 1 + ctx.extra
        for k, v in ctx.labels.items():
            k = s.name + "/" + k
            res["labels"][k] = res["labels"].get(k, 0) + v
        if msg is not None:
            res.update(failed=True, suite=s.name, msg=msg, choices=choices, case=case)
            break
        if ctx.nt:
            txt = json.dumps(case, sort_keys=True)
            h = int.from_bytes(hashlib.blake2b((s.name + txt).encode("utf-8", "surrogateescape"), digest_size=8).digest(), "big")
            if h not in seen:
                seen.add(h)
                q["nontrivial"] += 1
                if q["nontrivial"] <= 2:
                    res["samples"].append(s.name + ": " + txt[:700])
    res["hashes"] = list(seen)
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)
    shutil.rmtree(work, ignore_errors=True)


def _read_choices(mapfile):
    with open(mapfile, "rb") as f:
        idx, suite, n = struct.unpack("<QII", f.read(16))
        return suite, list(struct.unpack(f"<{n}Q", f.read(8 * n)))


def shrink(choices, fails, secs):
    """Smaller choice sequences for which fails() still holds."""
    end = time.monotonic() + secs
    cur = list(choices)
    while cur and cur[-1] == 0:
        cur.pop()
    tried = set()

    def attempt(c):
        nonlocal cur
        c = list(c)
        while c and c[-1] == 0:
            c.pop()
        k = tuple(c)
        if k in tried or c == cur or time.monotonic() > end:
            return False
        tried.add(k)
        if fails(c):
            cur = c
            return True
        return False

    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for size in (64, 32, 16, 8, 6, 5, 4, 3, 2, 1):
            i = len(cur) - size
            while i >= 0 and time.monotonic() < end:
                if attempt(cur[:i] + cur[i + size:]):
                    changed = True
                    i = min(i, len(cur)) - size if size > 1 else i - 1
                else:
                    i -= max(1, size // 2)
        for size in (16, 4, 1):
            i = 0
            while i < len(cur) and time.monotonic() < end:
                if any(cur[i:i + size]) and attempt(cur[:i] + [0] * len(cur[i:i + size]) + cur[i + size:]):
                    changed = True
                i += size
        i = 0
        while i < len(cur) and time.monotonic() < end:
            v = cur[i]
            lo = 0
            while v > 0 and lo < v and time.monotonic() < end:
                m = (lo + v) // 2
                if attempt(cur[:i] + [m] + cur[i + 1:]):
                    changed = True
                    v = m
                    if i >= len(cur) or cur[i] != m:
                        break
                else:
                    lo = m + 1
            # drop one element of a list and lower its count at once
            if i < len(cur) and cur[i] > 0:
                for size in (1, 2, 3, 4):
                    if i + 1 + size <= len(cur) and attempt(cur[:i] + [cur[i] - 1] + cur[i + 1 + size:]):
                        changed = True
                        break
            i += 1
    return cur


def _limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Check:
    def __init__(self, prop, rule, py=(), cpp=(), programs=(), quick=40, thorough=600, assumptions=(), known=None,
                 technique=None, extra_targets=()):
        self.prop, self.rule, self.py, self.cpp = prop, rule, list(py), list(cpp)
        self.programs, self.quick, self.thorough = list(programs), quick, thorough
        self.assumptions = list(assumptions)
        self.known = known  # known(ctx) -> list of findings that still fail
        self.extra_targets = list(extra_targets)

    # -- C++ helpers
    def _replay_cpp(self, cpp, exe, suite, choices, tmp):
        cf, mf, of = (os.path.join(tmp, "rp" + x) for x in (".ch", ".map", ".json"))
        with open(cf, "w") as f:
            f.write(" ".join(map(str, choices)))
        if os.path.exists(of):
            os.unlink(of)
        e = dict(os.environ, TMPDIR=tmp, **cpp.env)
        p = subprocess.run([exe, "replay", suite, cf, mf, of], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e,
                           cwd=tmp)
        err = p.stderr.decode(errors="replace")
        try:
            with open(of) as f:
                r = json.load(f)
        except (OSError, ValueError):
            r = {"ok": False, "desc": "", "msg": self._died(p.returncode) + ": " + err[-1500:]}
            if p.returncode == -signal.SIGKILL:
                r["killed"] = True
        try:
            n = _read_choices(mf)[1]
        except (OSError, struct.error):
            n = choices
        r["choices"] = n
        return r

    @staticmethod
    def _died(rc):
        if rc == -signal.SIGPROF:
            return "the case did not end within its CPU time"
        if rc < 0:
            try:
                return "ended by " + signal.Signals(-rc).name
            except ValueError:
                return f"ended by signal {-rc}"
        return f"the process ended with status {rc} in the middle of the case"

    def main(self):
        ap = argparse.ArgumentParser()
        ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--replay")
        ap.add_argument("--secs", type=float)
        ap.add_argument("--suite")
        ap.add_argument("--jobs", type=int, default=JOBS)
        ap.add_argument("--max", type=int, default=1 << 60)
        ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
        ap.add_argument("--keep-going", action="store_true")
        a = ap.parse_args()
        _limits()
        t0 = time.monotonic()
        self.a = a
        tier = "thorough" if a.tier == "thorough" else "quick"
        secs = a.secs if a.secs is not None else (self.thorough if tier == "thorough" else 2 * self.quick)  # budgets were set for half a run
        cpps = [c for c in self.cpp if tier == "thorough" or not c.thorough_only or a.replay]
        try:
            targets = [vbuild.PROGRAMS[n] for n in self.programs] + [c.target for c in cpps] + self.extra_targets
            bins = vbuild.build(targets)
        except vbuild.BuildError as e:
            print(f"BUILD-ERROR property={self.prop} {e}")
            return 2
        tb = time.monotonic() - t0
        os.makedirs(os.path.join(VERIF, "scratch"), exist_ok=True)
        tmp = tempfile.mkdtemp(prefix=self.prop + "-", dir=os.path.join(VERIF, "scratch"))
        try:
            if a.replay:
                return self._replay_file(a.replay, bins, tmp)
            return self._search(tier, secs, bins, cpps, tmp, t0, tb)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def _replay_file(self, path, bins, tmp):
        with open(path) as f:
            r = json.load(f)
        if r["kind"] == "py":
            s = next(x for x in self.py if x.name == r["suite"])
            msg = _judge(s, r["case"], Ctx(bins, tmp))
        else:
            c = next(x for x in self.cpp if x.name == r["harness"])
            q = self._replay_cpp(c, bins[c.name], r["suite"], r["choices"], tmp)
            msg = None if q["ok"] else q["msg"]
            print(q["desc"])
        if msg is None:
            print("the property holds on this replay")
            return 0
        print(msg)
        print(f"VIOLATION property={self.prop} replay={path}")
        return 1

    def _search(self, tier, secs, bins, cpps, tmp, t0, tb):
        a = self.a
        seed, jobs = a.seed, a.jobs
        known_lines = []
        if self.known:
            wk = os.path.join(tmp, "known")
            os.makedirs(wk)
            known_lines = self.known(Ctx(bins, wk))
        only_py = [s for s in self.py if not a.suite or s.name == a.suite]
        wpy = sum(s.weight for s in only_py)
        use_cpp = [c for c in cpps if not a.suite or ":" in a.suite and c.name == a.suite.split(":")[0]]
        total = wpy + sum(c.weight for c in use_cpp)
        plan = []
        if only_py:
            plan.append(("py", None, secs * wpy / total))
        for c in use_cpp:
            plan.append(("cpp", c, secs * c.weight / total))
        results, fail, inconclusive = [], None, []
        for kind, cpp, share in plan:
            procs = {}
            keep = []  # a Popen that is dropped is reaped behind our back
            for w in range(jobs):
                out = os.path.join(tmp, f"{kind}-{cpp.name if cpp else 'py'}-{w}.json")
                if kind == "py":
                    pid = os.fork()
                    if pid == 0:
                        code = 3
                        try:
                            signal.signal(signal.SIGTERM, signal.SIG_DFL)
                            _py_worker(self.py, bins, seed, w, share, a.max, out, a.suite)
                            code = 0
                        except BaseException:
                            traceback.print_exc()
                        finally:
                            sys.stdout.flush()
                            sys.stderr.flush()
                            os._exit(code)
                    procs[pid] = (w, out, None, None)
                else:
                    d = os.path.join(tmp, f"{cpp.name}-w{w}")
                    os.makedirs(d, exist_ok=True)
                    m = os.path.join(d, "map")
                    errf = open(os.path.join(d, "err"), "w+b")
                    cmd = [bins[cpp.name], "run", str(seed), str(w), str(share), str(a.max), m, out]
                    if a.suite:
                        cmd.append(a.suite.split(":")[1])
                    elif cpp.suites:
                        cmd.append(",".join(cpp.suites))
                    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=errf, cwd=d,
                                         env=dict(os.environ, TMPDIR=d, **cpp.env))
                    procs[p.pid] = (w, out, m, errf)
                    keep.append(p)
            harness_error = None
            while procs:
                pid, status = os.wait()
                if pid not in procs:
                    continue
                w, out, m, errf = procs.pop(pid)
                rc = os.waitstatus_to_exitcode(status)
                if fail:
                    continue
                r = None
                if os.path.exists(out):
                    with open(out) as f:
                        r = json.load(f)
                if r is None:
                    if kind == "py" or rc == 2:
                        harness_error = f"worker {w} ended with status {rc}"
                        continue
                    if rc == -signal.SIGKILL:
                        inconclusive.append(f"worker {w} of {cpp.name} was killed")
                        continue
                    k, ch = _read_choices(m)
                    names = subprocess.run([bins[cpp.name]], stdout=subprocess.PIPE).stdout.decode().split()
                    errf.seek(0)
                    fail = {"kind": "cpp", "suite": names[k], "choices": ch,
                            "msg": self._died(rc) + ": " + errf.read().decode(errors="replace")[-1500:]}
                else:
                    results.append(r)
                    inconclusive += r.get("inconclusive", [])
                    if r["failed"]:
                        fail = {"kind": kind, "suite": r["suite"], "msg": r["msg"]}
                        if kind == "cpp":
                            fail["choices"] = _read_choices(m)[1]
                        else:
                            fail["choices"], fail["case"] = r["choices"], r["case"]
                if fail:
                    for q in procs:
                        try:
                            os.kill(q, signal.SIGTERM)
                        except OSError:
                            pass
            if harness_error:
                print(f"HARNESS-ERROR property={self.prop} {harness_error}")
                return 2
            if fail:
                if kind == "cpp":
                    fail["harness"] = cpp.name
                confirmed = self._confirm(fail, cpp, bins, tmp)
                if confirmed:
                    break
                inconclusive.append(f"{fail['suite']}: did not fail again: {fail['msg'][:300]}")
                fail = None
        self._evidence(tier, seed, results, t0, tb, fail, inconclusive, known_lines)
        for l in known_lines:
            print(f"KNOWN-FINDING: property={self.prop} {l}")
        for l in inconclusive[:10]:
            print(f"INCONCLUSIVE property={self.prop} {l}")
        if fail:
            print(fail["msg"][:4000])
            print(f"VIOLATION property={self.prop} replay={fail['path']}")
            return 1
        n = sum(q["evaluations"] for r in results for q in r["suites"].values())
        print(f"OK property={self.prop} evaluations={n} wall={time.monotonic() - t0:.1f}s build={tb:.1f}s")
        return 0

    def _confirm(self, fail, cpp, bins, tmp):
        """Shrinks, replays three times, writes the replay file."""
        if fail["kind"] == "py":
            s = next(x for x in self.py if x.name == fail["suite"])
            wk = os.path.join(tmp, "shrink")
            os.makedirs(wk, exist_ok=True)
            ctx = Ctx(bins, wk)

            def judge(case):
                try:
                    return _judge(s, case, ctx)
                except (Inconclusive, Discard):
                    return None
            if sum(judge(fail["case"]) is not None for _ in range(3)) < 3:
                return False
            if fail["choices"] is not None:
                def fails(ch):
                    try:
                        case = s.gen(Gen(choices=ch))
                    except Exception:
                        return False
                    return judge(case) is not None
                small = shrink(fail["choices"], fails, 40 if self.a.tier != "thorough" else 120)
                case = s.gen(Gen(choices=small))
                msgs = [judge(case) for _ in range(3)]
                if all(m is not None for m in msgs):
                    fail.update(choices=small, case=case, msg=msgs[0])
            fail["case_text"] = json.dumps(fail["case"])
        else:
            exe = bins[cpp.name]

            def rep(ch):
                r = self._replay_cpp(cpp, exe, fail["suite"], ch, tmp)
                if r.get("killed"):
                    r["ok"] = True
                return r
            rs = [rep(fail["choices"]) for _ in range(cpp.replays)]
            if sum(not r["ok"] for r in rs) < cpp.need:
                return False
            bad = next(r for r in rs if not r["ok"])
            fail["msg"] = bad["msg"]
            fail["desc"] = bad["desc"]
            if cpp.need == cpp.replays:
                small = shrink(fail["choices"], lambda ch: not rep(ch)["ok"], 40 if self.a.tier != "thorough" else 120)
                rs = [rep(small) for _ in range(3)]
                if all(not r["ok"] for r in rs):
                    fail.update(choices=small, msg=rs[0]["msg"], desc=rs[0]["desc"])
        d = os.path.join(VERIF, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        body = {k: v for k, v in fail.items() if k != "case_text"}
        body["property"] = self.prop
        txt = json.dumps(body, indent=1)
        path = os.path.join(d, hashlib.sha1(txt.encode("utf-8", "surrogateescape")).hexdigest()[:12] + ".json")
        with open(path, "w") as f:
            f.write(txt)
        fail["path"] = path
        return True

    def _evidence(self, tier, seed, results, t0, tb, fail, inconclusive, known_lines):
        suites, labels, samples, hashes = {}, {}, [], set()
        for r in results:
            for n, q in r["suites"].items():
                t = suites.setdefault(n, {})
                for k, v in q.items():
                    t[k] = round(t.get(k, 0) + v, 2)
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
            hashes.update(r["hashes"])
        want = {}
        for r in results:
            for s in r["samples"]:
                n = s.split(":", 1)[0]
                if want.get(n, 0) < 2:
                    want[n] = want.get(n, 0) + 1
                    samples.append(s)
        for n in suites.values():
            n.pop("nontrivial", None)  # counted per worker, not deduplicated
        ev = {"property": self.prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": int(sum(q.get("evaluations", 0) for q in suites.values())),
                           "distinct_nontrivial": len(hashes), "rule": self.rule, "samples": samples,
                           "suites": suites, "labels": dict(sorted(labels.items())),
                           "inconclusive": inconclusive[:50], "known_findings": known_lines,
                           "build_s": round(tb, 1)},
              "assumptions": self.assumptions, "wall_s": round(time.monotonic() - t0, 1),
              "violations": 1 if fail else 0}
        if fail:
            ev["coverage"]["violation"] = {"suite": fail["suite"], "message": fail["msg"][:2000], "replay": fail["path"]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)


def run_check(*args, **kw):
    sys.exit(Check(*args, **kw).main())
