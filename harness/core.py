"""Core of the conformance harness: environment, building the C extension from the tree
under test, running TLC, running cases in worker processes, verdicts and evidence."""
import hashlib
import importlib.abc
import importlib.util
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import sysconfig
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = ("/opt/veriftools/tla/tla2tools.jar:"
        "/opt/veriftools/tla/CommunityModules-deps.jar")


class MachineryError(Exception):
    """Something in the checking machinery (not in the code under test) failed."""


class Mismatch(Exception):
    """The implementation disagrees with the specification."""

    def __init__(self, clause, detail, key=""):
        super().__init__("%s: %s" % (clause, detail))
        self.clause = clause
        self.detail = detail
        self.key = key


class CaseTimeout(BaseException):
    pass


# --------------------------------------------------------------------------- build
class _ExtFinder(importlib.abc.MetaPathFinder):
    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        if name == "radvel._kepler":
            return importlib.util.spec_from_file_location(name, self.path)
        return None


def build_ext(scratch):
    """Compile the Kepler extension from REPO/src into `scratch` (never uses a stale .so)."""
    src = os.path.join(REPO, "src")
    bdir = os.path.join(scratch, "ext")
    os.makedirs(bdir, exist_ok=True)
    for f in os.listdir(src):
        if f.endswith((".pyx", ".c", ".h", ".pxd")) and f != "_kepler.c":
            shutil.copy(os.path.join(src, f), bdir)
    r = subprocess.run([sys.executable, "-m", "cython", "-3", "_kepler.pyx", "-o", "_kepler.c"],
                       cwd=bdir, capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("cython failed: " + r.stderr[-2000:])
    import numpy
    so = os.path.join(bdir, "_kepler" + sysconfig.get_config_var("EXT_SUFFIX"))
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-O2", "-fwrapv", "-fno-strict-aliasing",
                        "-I" + numpy.get_include(), "-I" + sysconfig.get_paths()["include"],
                        "_kepler.c", "-o", so, "-lm"], cwd=bdir, capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("gcc failed: " + r.stderr[-2000:])
    return so


def load_radvel(scratch):
    """Import radvel from REPO with the freshly built extension."""
    so = build_ext(scratch)
    sys.meta_path.insert(0, _ExtFinder(so))
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import radvel
    if os.path.dirname(os.path.dirname(os.path.abspath(radvel.__file__))) != os.path.realpath(REPO):
        raise MachineryError("radvel imported from %s" % radvel.__file__)
    import radvel._kepler
    if radvel._kepler.__file__ != so:
        raise MachineryError("extension imported from %s" % radvel._kepler.__file__)
    return radvel


# --------------------------------------------------------------------------- TLC
class TLCResult(object):
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.lines = []
        self.ok = False
        self.output = ""


def run_tlc(ctx, module, cfg, extra=(), timeout=600, workers=1, files=(), heap="3g", defs=None,
            expect_ok=True):
    """Run TLC on spec/<module>.tla with the given cfg text.

    Every line printed with PrintT(ToJson(..)) is returned decoded in `.lines`."""
    wd = tempfile.mkdtemp(prefix="tlc-", dir=ctx.scratch)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), wd)
    for name, text in files:
        with open(os.path.join(wd, name), "w") as fh:
            fh.write(text)
    with open(os.path.join(wd, "M.cfg"), "w") as fh:
        fh.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", JARS]
    if ctx.tier == "quick":
        cmd[1:1] = ["-XX:TieredStopAtLevel=1"]
    cmd += ["tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(wd, "meta"),
            "-config", "M.cfg", "-noGenerateSpecTE", "-seed", str(ctx.seed)]
    cmd += list(extra) + [module + ".tla"]
    out = os.path.join(wd, "out.txt")
    t0 = time.time()
    with open(out, "w") as fh:
        try:
            p = subprocess.run(cmd, cwd=wd, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -999
    res = TLCResult()
    other = []
    with open(out, errors="replace") as fh:
        for line in fh:
            if line.startswith('"{') or line.startswith('"['):
                try:
                    res.lines.append(json.loads(json.loads(line)))
                    continue
                except ValueError:
                    pass
            other.append(line)
            m = re.search(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                res.generated, res.distinct = int(m.group(1)), int(m.group(2))
            m = re.search(r"The number of states generated: (\d+)", line)
            if m:
                res.generated = max(res.generated, int(m.group(1)))
                res.distinct = max(res.distinct, int(m.group(1)))
            m = re.search(r"depth of the complete state graph search is (\d+)", line)
            if m:
                res.depth = int(m.group(1))
    res.output = "".join(other)
    res.rc = rc
    res.ok = rc == 0
    res.wall = time.time() - t0
    shutil.rmtree(wd, ignore_errors=True)
    if expect_ok and not res.ok:
        raise MachineryError("TLC on %s ended with %s:\n%s" % (module, rc, res.output[-6000:]))
    ctx.tlc_runs.append({"module": module, "states": res.distinct, "generated": res.generated,
                         "depth": res.depth, "emitted": len(res.lines),
                         "wall_s": round(res.wall, 2)})
    return res


def tla(v):
    """Python value -> TLA+ text."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)


# --------------------------------------------------------------------------- context
class Ctx(object):
    def __init__(self, prop, scratch):
        self.prop = prop
        self.scratch = scratch
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.tlc_runs = []
        self.comparisons = 0
        self.counts = {}
        self.notes = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *tags):
        h = hashlib.sha256(("%d|" % self.seed + "|".join(map(str, tags))).encode()).digest()
        return random.Random(int.from_bytes(h[:8], "big"))

    def nprng(self, *tags):
        import numpy as np
        h = hashlib.sha256(("%d|" % self.seed + "|".join(map(str, tags))).encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:8], "big"))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    # ---- comparisons: raise Mismatch naming the failing clause
    def eq(self, clause, got, want, detail="", key=""):
        self.comparisons += 1
        same = False
        try:
            same = bool(got == want)
        except Exception:
            same = False
        if not same:
            raise Mismatch(clause, "%s got %s, specification says %s" %
                           (detail, _short(got), _short(want)), key)

    def true(self, clause, cond, detail="", key=""):
        self.comparisons += 1
        if not cond:
            raise Mismatch(clause, detail, key)

    def close(self, clause, got, want, rtol=1e-8, atol=1e-9, detail="", key=""):
        import numpy as np
        self.comparisons += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except (TypeError, ValueError) as e:
            raise Mismatch(clause, "%s not numeric: got %s want %s (%s)" %
                           (detail, _short(got), _short(want), e), key)
        if g.shape != w.shape:
            if g.size == w.size and (g.ndim == 0 or w.ndim == 0 or g.ndim == w.ndim + 1 or
                                     w.ndim == g.ndim + 1):
                g = g.reshape(-1)
                w = w.reshape(-1)
            else:
                raise Mismatch(clause, "%s shape: got %s want %s" % (detail, g.shape, w.shape), key)
        with np.errstate(all="ignore"):
            ok = ((np.isnan(g) & np.isnan(w)) | (g == w) |
                  (np.abs(g - w) <= atol + rtol * np.maximum(np.abs(w), np.abs(g))))
            ok &= ~(np.isinf(w) & (g != w))
        if not np.all(ok):
            i = int(np.argmin(ok.reshape(-1)))
            raise Mismatch(clause, "%s element %d: got %r, specification says %r (%d of %d differ)" %
                           (detail, i, float(g.reshape(-1)[i]), float(w.reshape(-1)[i]),
                            int((~ok).sum()), ok.size), key)


def _short(v, n=400):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


# --------------------------------------------------------------------------- running cases
def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(ctx, mod, case):
    """Run one case; returns None or a dict describing the violation."""
    import warnings
    limit = getattr(mod, "CASE_TIMEOUT", 60)
    for attempt in (1, 2):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, limit * attempt)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                mod.run(ctx, case)
            return None
        except Mismatch as e:
            return {"clause": e.clause, "detail": e.detail, "key": e.key}
        except MachineryError:
            raise
        except CaseTimeout:
            if attempt == 2:
                return {"clause": "termination", "key": "",
                        "detail": "no result after %d s" % (2 * limit)}
        except (Exception, SystemExit) as e:
            tb = traceback.extract_tb(e.__traceback__)
            impl = [f for f in tb if os.path.realpath(f.filename).startswith(
                os.path.realpath(REPO) + os.sep)]
            text = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
            if impl:
                f = impl[-1]
                return {"clause": "exception", "key": type(e).__name__,
                        "detail": "unexpected %s: %s at %s:%s in %s" % (
                            type(e).__name__, str(e)[:300], os.path.relpath(f.filename, REPO),
                            f.lineno, f.name), "traceback": text}
            # the code under test handed back something the comparison cannot even read
            return {"clause": "unusable result", "key": type(e).__name__,
                    "detail": "%s: %s" % (type(e).__name__, str(e)[:300]), "traceback": text}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return None


def run_cases(ctx, mod, cases, nworkers=None):
    """Run the cases in forked workers. Returns the list of (case, violation)."""
    nworkers = nworkers or getattr(mod, "WORKERS", None) or min(8, os.cpu_count() or 1)
    nworkers = max(1, min(nworkers, len(cases)))
    wdir = tempfile.mkdtemp(prefix="work-", dir=ctx.scratch)
    pids = {}
    sys.stdout.flush()
    for w in range(nworkers):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                log = open(os.path.join(wdir, "w%d" % w), "w")
                devnull = os.open(os.devnull, os.O_WRONLY)
                errf = os.open(os.path.join(wdir, "e%d" % w), os.O_WRONLY | os.O_CREAT)
                os.dup2(devnull, 1)
                os.dup2(errf, 2)
                td = os.path.join(wdir, "t%d" % w)
                os.makedirs(td)
                os.chdir(td)
                os.environ["TMPDIR"] = td
                tempfile.tempdir = td
                ctx.workdir = td
                ctx.comparisons = 0
                ctx.counts = {}
                nviol = 0
                for i in range(w, len(cases), nworkers):
                    log.write("S %d\n" % i)
                    log.flush()
                    v = run_one(ctx, mod, cases[i])
                    if v is not None:
                        nviol += 1
                        log.write("V %d %s\n" % (i, json.dumps(v)))
                    log.write("D %d\n" % i)
                    log.flush()
                    os.chdir(td)
                    if nviol >= 25:
                        break
                log.write("C %s\n" % json.dumps([ctx.comparisons, ctx.counts]))
                log.flush()
            except MachineryError as e:
                log.write("M %s\n" % json.dumps(str(e)))
                log.flush()
            except BaseException:
                log.write("M %s\n" % json.dumps(traceback.format_exc()))
                log.flush()
            finally:
                os._exit(code)
        pids[pid] = w
    done = 0
    deadline = time.time() + getattr(mod, "TOTAL_TIMEOUT", ctx.pick(700, 20000))
    status = {}
    while pids:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid in pids:
            status[pids.pop(pid)] = st
            continue
        if time.time() > deadline:
            for p in list(pids):
                os.kill(p, signal.SIGKILL)
            for p in list(pids):
                _, st = os.waitpid(p, 0)
                status[pids.pop(p)] = -1
            break
        time.sleep(0.02)
    viol = []
    machinery = []
    slow = []
    for w in range(nworkers):
        started = None
        finished = False
        try:
            fh = open(os.path.join(wdir, "w%d" % w))
        except OSError:
            machinery.append("worker %d left no log" % w)
            continue
        for line in fh:
            tag, rest = line[0], line[2:].rstrip("\n")
            if tag == "S":
                started = int(rest)
            elif tag == "D":
                done += 1
                started = None
            elif tag == "V":
                i, _, js = rest.partition(" ")
                viol.append((cases[int(i)], json.loads(js)))
            elif tag == "C":
                c, counts = json.loads(rest)
                ctx.comparisons += c
                for k, n in counts.items():
                    ctx.count(k, n)
                finished = True
            elif tag == "M":
                machinery.append(json.loads(rest))
                finished = True
        fh.close()
        if not finished:
            if started is None:
                machinery.append("worker %d ended with status %s" % (w, status.get(w)))
            elif status.get(w) == -1:
                slow.append(started)
            else:
                viol.append((cases[started], {"clause": "process death", "key": "",
                                              "detail": "the process running this case ended "
                                              "(status %s)" % status.get(w)}))
    shutil.rmtree(wdir, ignore_errors=True)
    if machinery and not viol:
        raise MachineryError("\n".join(machinery[:3]))
    if slow and not viol:
        # the whole run did not finish; only a case that blocks by itself counts
        raise MachineryError("cases not finished in time: %s" % slow[:5])
    return done, viol


# --------------------------------------------------------------------------- graph walking
class Graph(object):
    """State graph emitted by TLC: edges {f, a, t}; covers every edge with walks."""

    def __init__(self, edges, init=None):
        self.out = {}
        self.init = None
        self.nedges = 0
        seen = set()
        for e in edges:
            f, t = _key(e["f"]), _key(e["t"])
            if self.init is None:
                self.init = f
            ek = (f, _key(e["a"]), t)
            if ek in seen:
                continue
            seen.add(ek)
            self.out.setdefault(f, []).append((e["a"], t, e["t"]))
            self.out.setdefault(t, [])
            self.nedges += 1
        if init is not None:
            self.init = _key(init)

    def _prepare(self):
        """One edge per successor, and the shortest path tree from the initial state."""
        self.succ = {}
        for u, es in self.out.items():
            one = {}
            for e in es:
                one.setdefault(e[1], e)
            self.succ[u] = list(one.values())
        self.tree = {self.init: None}
        queue = [self.init]
        for u in queue:
            for e in self.succ[u]:
                if e[1] not in self.tree:
                    self.tree[e[1]] = (u, e)
                    queue.append(e[1])

    def tour(self, maxlen=60, rng=None):
        """Walks from the initial state that together take every edge at least once."""
        self._prepare()
        todo = {s: list(range(len(o))) for s, o in self.out.items() if s in self.tree}
        if rng:
            for v in todo.values():
                rng.shuffle(v)
        pending = list(self.tree)[::-1]
        walks = []
        while True:
            while pending and not todo[pending[-1]]:
                pending.pop()
            if not pending:
                break
            # the first walk simply starts; later ones go to a state with an edge left
            path, u = [], (self.init if todo[self.init] else pending[-1])
            while self.tree[u] is not None:
                path.append(self.tree[u][1])
                u = self.tree[u][0]
            walk = [(e[0], e[2]) for e in path[::-1]]
            s = path[0][1] if path else self.init
            n0 = len(walk)
            while len(walk) < max(maxlen, n0 + 1):
                if todo[s]:
                    a, t, tv = self.out[s][todo[s].pop()]
                    walk.append((a, tv))
                    s = t
                    continue
                more = self._nearest(s, todo, 400)
                if more is None or len(walk) + len(more) >= maxlen:
                    break
                for (a, t, tv) in more:
                    walk.append((a, tv))
                    s = t
            walks.append(walk)
        return walks

    def _nearest(self, s, todo, limit):
        prev = {s: None}
        queue = [s]
        for u in queue:
            if todo[u] and u != s:
                path = []
                while prev[u] is not None:
                    pu, edge = prev[u]
                    path.append(edge)
                    u = pu
                return path[::-1]
            if len(prev) > limit:
                continue
            for edge in self.succ[u]:
                if edge[1] not in prev:
                    prev[edge[1]] = (u, edge)
                    queue.append(edge[1])
        return None

    def random_walks(self, n, length, rng):
        walks = []
        for _ in range(n):
            s, walk = self.init, []
            for _ in range(length):
                if not self.out[s]:
                    break
                a, t, tv = rng.choice(self.out[s])
                walk.append((a, tv))
                s = t
            walks.append(walk)
        return walks


def _key(v):
    return json.dumps(v, sort_keys=True)
