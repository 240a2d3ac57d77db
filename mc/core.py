"""Driver shared by all checks: enumerates the cases of one property, runs every one of them on the real code in
forked workers, and turns the outcome into VIOLATION / KNOWN-FINDING lines, replay files and evidence.

A property module provides
    LEVEL            "model_checking" | "exploration"
    RULE             how cases are made (evidence)
    cases(tier)      the complete, deterministic list of JSON-able cases (each a dict with a unique "id")
    run(case, R)     runs one case against the code under test, reporting to the recorder R
    ASSUMPTIONS      optional list
    CPU_LIMIT        optional CPU seconds per case
A case that raises, dies, or exceeds its CPU limit is a failure of that case.
"""
import hashlib
import importlib
import json
import os
import pickle
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class CaseTimeout(BaseException):
    pass


class Recorder(object):
    """What one case reports."""
    def __init__(self, case):
        self.case = case
        self.fails = []       # (aspect, message)
        self.states = 0
        self.transitions = 0
        self.evals = 0
        self.traces = 0
        self.distinct = set()
        self.sample = None
        self.notes = {}
    def fail(self, aspect, msg):
        if not any(a == aspect for a, _ in self.fails):
            self.fails.append((aspect, str(msg)[:2000]))
    def count(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n
    def seen(self, obj):
        """Record one distinct outcome (anything with a stable repr)."""
        self.distinct.add(hashlib.md5(repr(obj).encode()).digest()[:8])
    # helpers ----------------------------------------------------------
    def close(self, aspect, got, want, tol, what=""):
        """got == want within tol (scalars or arrays of equal length), nan never equal to a number."""
        import numpy as np
        self.evals += int(np.size(want))
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            try:
                g = g.reshape(w.shape)
            except ValueError:
                self.fail(aspect, "%s: shape %s, expected %s" % (what, g.shape, w.shape))
                return False
        with np.errstate(all="ignore"):
            bad = ~((np.abs(g - w) <= tol) | (g == w))
        if np.any(bad):
            i = np.argmax(bad.ravel())
            self.fail(aspect, "%s: got %.12g, expected %.12g (tolerance %s, at index %d, %d of %d wrong)" % (
                what, g.ravel()[i], w.ravel()[i], np.asarray(tol).ravel()[0], i, int(bad.sum()), g.size))
            return False
        return True
    def true(self, aspect, cond, msg=""):
        self.evals += 1
        if not cond:
            self.fail(aspect, msg)
            return False
        return True
    def same(self, aspect, got, want, what=""):
        self.evals += 1
        if got != want:
            self.fail(aspect, "%s: got %r, expected %r" % (what, got, want))
            return False
        return True


def prepare_source():
    """Directory to import pacal from: REPO itself when its compiled kernel is the one its sources describe,
    otherwise a scratch copy with the kernel rebuilt.  Returns (dir, cleanup dir or None)."""
    h = hashlib.sha256()
    for f in [os.path.join(REPO, "setup.py")] + sorted(
            os.path.join(REPO, "pacal", n) for n in os.listdir(os.path.join(REPO, "pacal")) if n.endswith(".pyx")):
        with open(f, "rb") as fh:
            h.update(fh.read())
    want = h.hexdigest()
    have = None
    try:
        with open(os.path.join(REPO, "build", "bary_interp.sha256")) as fh:
            have = fh.read().split()[0]
    except (OSError, IndexError):
        pass
    so = [n for n in os.listdir(os.path.join(REPO, "pacal")) if n.startswith("bary_interp.") and n.endswith(".so")]
    if have == want and so:
        return REPO, None
    tmp = tempfile.mkdtemp(prefix="pacal_verif_")
    try:
        for n in ("setup.py", "README.md", "MANIFEST.in", "requirements.txt"):
            p = os.path.join(REPO, n)
            if os.path.exists(p):
                shutil.copy(p, tmp)
        shutil.copytree(os.path.join(REPO, "pacal"), os.path.join(tmp, "pacal"),
                        ignore=shutil.ignore_patterns("*.so", "bary_interp.c", "__pycache__"))
        env = dict(os.environ, PYTHONPATH=tmp)
        p = subprocess.run([sys.executable, "setup.py", "build_ext", "--inplace", "--force"], cwd=tmp, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            sys.stderr.write(p.stdout[-3000:])
            raise RuntimeError("the extension does not build")
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return tmp, tmp


def import_pacal(src, scratch):
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["MPLCONFIGDIR"] = scratch
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    os.environ["OMP_NUM_THREADS"] = "1"
    sys.dont_write_bytecode = True
    sys.path.insert(0, src)
    import warnings
    warnings.simplefilter("ignore")
    so = os.dup(1)
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 1)
    try:
        import pacal
        import numpy
    finally:
        sys.stdout.flush()
        os.dup2(so, 1)
        os.close(so)
        os.close(nul)
    numpy.seterr(all="ignore")
    f = os.path.realpath(pacal.__file__)
    if not f.startswith(os.path.realpath(src) + os.sep):
        raise RuntimeError("pacal imported from %s, not from %s" % (f, src))
    pacal.params.general.parallel = False
    pacal.params.general.warn_on_dependent = False
    pacal.params.interpolation_nd.debug_info = False


# ---------------------------------------------------------------- workers
def run_one(mod, case, cpu_limit):
    R = Recorder(case)
    def alarm(*a):
        raise CaseTimeout()
    signal.signal(signal.SIGPROF, alarm)
    signal.setitimer(signal.ITIMER_PROF, cpu_limit)
    try:
        mod.run(case, R)
    except CaseTimeout:
        R.fail("no_termination", "no answer after %s s of CPU time" % cpu_limit)
    except Exception as e:
        R.fail("exception", "%s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_exc()[-1500:])))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return R


def _read_exact(fd, n):
    b = b""
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            return None
        b += c
    return b


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<I", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    h = _read_exact(fd, 4)
    if h is None:
        return None
    b = _read_exact(fd, struct.unpack("<I", h)[0])
    return None if b is None else pickle.loads(b)


class Worker(object):
    def __init__(self, mod, cases, cpu_limit, others):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(w1)
                os.close(r2)
                for o in others:
                    for fd in (o.w, o.r):
                        try:
                            os.close(fd)
                        except OSError:
                            pass
                nul = os.open(os.devnull, os.O_RDWR)
                os.dup2(nul, 0)
                os.dup2(nul, 1)
                if not os.environ.get("VERIF_DEBUG"):
                    os.dup2(nul, 2)
                while True:
                    i = _recv(r1)
                    if i is None or i < 0:
                        break
                    if getattr(mod, "ISOLATE", False):      # every case in a process that has run nothing before
                        child = os.fork()
                        if child:
                            if os.waitpid(child, 0)[1] != 0:
                                break
                            continue
                    t = time.time()
                    R = run_one(mod, cases[i], cpu_limit)
                    R.case = None
                    R.wall = time.time() - t
                    _send(w2, (i, R))
                    if getattr(mod, "ISOLATE", False):
                        os._exit(0)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2
        self.current = None
        self.t0 = 0
    def give(self, i):
        self.current = i
        self.t0 = time.time()
        try:
            _send(self.w, i)
        except OSError:
            pass
    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        self.close()
    def close(self):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


def run_all(mod, cases, jobs, cpu_limit, progress=None):
    results = [None] * len(cases)
    wall_limit = 6 * cpu_limit + 60
    order = list(range(len(cases)))
    # heavy cases first, if the module says which
    order.sort(key=lambda i: -cases[i].get("cost", 0))
    order.reverse()
    workers = []
    def spawn():
        w = Worker(mod, cases, cpu_limit, workers)
        workers.append(w)
        return w
    def feed(w):
        if order:
            w.give(order.pop())
        else:
            w.current = None
            try:
                _send(w.w, -1)
            except OSError:
                pass
            workers.remove(w)
            w.close()
    for _ in range(min(jobs, len(cases))):
        feed(spawn())
    done = 0
    while workers:
        rl, _, _ = select.select([w.r for w in workers], [], [], 2.0)
        now = time.time()
        for w in list(workers):
            if w.r in rl:
                m = _recv(w.r)
                if m is None:   # died
                    i = w.current
                    workers.remove(w)
                    w.kill()
                    R = Recorder(None)
                    R.wall = now - w.t0
                    R.fail("crash", "the process running the case died")
                    results[i] = R
                    done += 1
                    if order:
                        feed(spawn())
                else:
                    i, R = m
                    results[i] = R
                    done += 1
                    feed(w)
            elif w.current is not None and now - w.t0 > wall_limit:
                i = w.current
                workers.remove(w)
                w.kill()
                R = Recorder(None)
                R.wall = now - w.t0
                R.fail("no_termination", "no answer after %d s" % wall_limit)
                results[i] = R
                done += 1
                if order:
                    feed(spawn())
        if progress:
            progress(done)
    return results


# ---------------------------------------------------------------- findings
def load_known(prop):
    known = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("#"):
                    continue
                d = json.loads(line)
                if d.get("property") != prop or "keys" not in d:
                    continue
                for k in d["keys"]:
                    known[k] = d["what"]
    return known


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--only", help="only cases whose id contains this")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--slow", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    prop = a.prop
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    jobs = a.jobs or min(8, len(os.sched_getaffinity(0)))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif_mpl_")
    src, cleanup = prepare_source()
    try:
        import_pacal(src, scratch)
        mod = importlib.import_module("mc." + prop.lower())
        return _main(mod, prop, tier, seed, jobs, a, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        if cleanup:
            shutil.rmtree(cleanup, ignore_errors=True)


def _main(mod, prop, tier, seed, jobs, a, t0):
    known = load_known(prop)
    cpu_limit = getattr(mod, "CPU_LIMIT", 120)
    if a.replay:
        with open(a.replay) as f:
            case = json.load(f)["case"]
        cases = [case]
    else:
        cases = mod.cases(tier)
        if a.only:
            cases = [c for c in cases if a.only in c["id"]]
    ids = [c["id"] for c in cases]
    assert len(set(ids)) == len(ids), "case ids are not unique: %s" % [i for i in ids if ids.count(i) > 1][:3]
    if a.list:
        for i in ids:
            print(i)
        print(len(ids))
        return 0
    results = run_all(mod, cases, jobs, cpu_limit)
    nviol = 0
    printed = 0
    seen_known = {}
    rdir = os.path.join(VERIF, "replays", prop)
    for c, R in zip(cases, results):
        for aspect, msg in R.fails:
            key = c["id"] + "|" + aspect
            if key in known:
                seen_known.setdefault(known[key], []).append(key)
                continue
            nviol += 1
            if printed < 25 or a.v:
                printed += 1
                os.makedirs(rdir, exist_ok=True)
                path = os.path.join(rdir, hashlib.md5(key.encode()).hexdigest()[:12] + ".json")
                with open(path, "w") as f:
                    json.dump({"property": prop, "key": key, "message": msg, "case": c, "tier": tier}, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("  " + key + ": " + msg.replace("\n", "\n    "))
    for what, keys in seen_known.items():
        print("KNOWN-FINDING: property=%s %s [%d case(s), e.g. %s]" % (prop, what, len(keys), keys[0]))
    distinct = set()
    for R in results:
        distinct |= R.distinct
    tot = lambda n: sum(getattr(R, n) for R in results)
    cov = {"exhaustive": not a.only and not a.replay,
           "cases": len(cases),
           "evaluations": tot("evals"),
           "distinct_nontrivial": len(distinct),
           "rule": mod.RULE}
    if mod.LEVEL == "model_checking":
        cov.update({"states": tot("states"), "transitions": tot("transitions"),
                    "traces_validated_against_impl": tot("traces")})
    notes = {}
    for R in results:
        for k, v in R.notes.items():
            notes[k] = notes.get(k, 0) + v
    if notes:
        cov["counts"] = notes
    step = max(1, len(cases) // 5)
    cov["samples"] = [{"case": cases[i], "observed": results[i].sample} for i in range(0, len(cases), step)][:6]
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov, "wall_s": round(wall, 2),
          "violations": nviol, "assumptions": getattr(mod, "ASSUMPTIONS", [])}
    if not a.only and not a.replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    print("%s %s: %d cases, %d evaluations, %d distinct outcomes%s, %d violation(s), %d known, %.1f s" % (
        prop, tier, len(cases), cov["evaluations"], len(distinct),
        (", %d states, %d transitions" % (cov["states"], cov["transitions"])) if "states" in cov else "",
        nviol, sum(map(len, seen_known.values())), wall))
    if a.slow:
        for w, i in sorted(((R.wall, i) for R, i in zip(results, ids)), reverse=True)[:15]:
            print("  %.2f s  %s" % (w, i))
    return 1 if nviol else 0
