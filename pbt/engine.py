"""Drives one check: build, search with generated cases, shrink, replay, report.

A case is a JSON value (text stands for bytes, as latin-1).  A property gives a
Hypothesis strategy for cases and run(env, case), which raises Violation.
"""

import hashlib
import json
import os
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

from . import build as buildmod

VERIF = buildmod.VERIF
WORKERS = 8
UID_BASE = 64200
SHRINK_S = 60  # how long a worker may go on shrinking
CAPS = {"quick": 150, "thorough": 600}  # soft limit on a worker's search


class Violation(Exception):
    """The property does not hold for this case.  `finding` names the root
    cause when it is one that could be listed as a known finding."""

    def __init__(self, message, finding=None):
        super().__init__(message)
        self.finding = finding


class Stop(BaseException):
    """Ends a worker's search (cap reached, or shrinking took long enough)."""


class Outcome:
    def __init__(self, nontrivial=True, labels=()):
        self.nontrivial = nontrivial
        self.labels = labels


def B(text):
    return text.encode("latin-1")


def S(data):
    return data.decode("latin-1")


class Prop:
    id = None
    level = "exploration"
    wants = [("plain", "detox")]
    shims = []
    quick = 150  # cases per worker
    thorough = 3000
    workers = WORKERS
    rule = ""
    assumptions = []

    def prepare(self, env):
        """Runs once, as root, before the workers start (e.g. to build more)."""

    def strategy(self, env):
        raise NotImplementedError

    def run(self, env, case):
        raise NotImplementedError

    def fixed(self, env):
        """Cases run before the random ones, shared out among the workers:
        enumerations of small spaces and boundary values."""
        return []

    def fuzz(self, env):
        """A coverage-guided part, run after the generated cases.  Returns
        (evaluations, labels) and raises FuzzFailure."""
        return None


class FuzzFailure(Exception):
    def __init__(self, case, message):
        super().__init__(message)
        self.case = case


# ----------------------------------------------------------------- environment


give = None  # gives an entry to another user: give(path)


def giver(home, uid):
    """Starts a process that keeps its privileges, to give entries that the
    worker made below home to somebody else.  Returns how to ask it for that."""
    ask, tell = os.pipe(), os.pipe()
    if os.fork() == 0:
        try:
            os.close(ask[1])
            os.close(tell[0])
            with os.fdopen(ask[0], "rb") as f:
                while True:
                    n = f.readline()
                    if not n:
                        break
                    path = f.read(int(n))
                    try:
                        folder = os.path.dirname(os.path.realpath(os.path.dirname(path)) + b"/")
                        if folder == home or folder.startswith(home + b"/"):
                            os.chown(os.path.join(folder, os.path.basename(path)), uid, uid, follow_symlinks=False)
                    except OSError:
                        pass
                    os.write(tell[1], b".")
        finally:
            os._exit(0)
    os.close(ask[0])
    os.close(tell[1])

    def give(path):
        os.write(ask[1], b"%d\n" % len(path) + path)
        os.read(tell[0], 1)

    return give


class Env:
    def __init__(self, prop, scratch, bins, shims, tier, seed):
        self.prop = prop
        self.scratch = scratch
        self.bins = bins
        self.shims = shims
        self.tier = tier
        self.seed = seed
        self.home = None
        self.extra = {}
        self.timeout = 30

    def bin(self, program="detox", variant="plain"):
        return self.bins[(variant, program)]

    def worker(self, index, ident):
        """Turns this process into an unprivileged worker with its own folder."""
        os.setsid()
        home = os.path.join(self.scratch, "w%s" % ident)
        os.mkdir(home, 0o700)
        uid = UID_BASE + index
        os.chown(home, uid, uid)
        self.home = home
        if os.geteuid() == 0:
            global give
            give = giver(os.fsencode(self.home), uid + 500)
            os.setgroups([])
            os.setgid(uid)
            os.setuid(uid)
        os.umask(0o022)
        os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(home, "hyp")
        os.environ["HOME"] = home
        import resource

        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        os.chdir(home)
        self.fout = open(os.path.join(home, "stdout"), "w+b", buffering=0)
        self.ferr = open(os.path.join(home, "stderr"), "w+b", buffering=0)

    def fresh(self):
        """An empty folder for the next case."""
        d = os.path.join(self.home, "case")
        wipe(d)
        os.mkdir(d)
        return os.fsencode(d)

    def run(self, argv, cwd, stdin=b"", env=None, preload=None, timeout=None, check=True, executable=None, files=None, memory=None):
        """Runs a program, returns (status, stdout, stderr).  files and memory
        limit the number of open files and the address space."""
        full = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "HOME": "/nonexistent",
                "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=0:max_allocation_size_mb=1024",
                "MSAN_OPTIONS": "exitcode=99:allocator_may_return_null=1:handle_abort=0:max_allocation_size_mb=1024",
                "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99"}
        if preload:
            full["LD_PRELOAD"] = preload
        if env:
            full.update(env)
            full = {k: v for k, v in full.items() if v is not None}
        full = {k: B(v) if isinstance(v, str) else v for k, v in full.items()}
        for f in (self.fout, self.ferr):
            f.seek(0)
            f.truncate()

        def limits():
            if files:
                resource.setrlimit(resource.RLIMIT_NOFILE, (files, files))
            if memory:
                resource.setrlimit(resource.RLIMIT_AS, (memory, memory))

        if isinstance(stdin, (bytes, bytearray)):
            if stdin:
                fin = open(os.path.join(self.home, "stdin"), "w+b", buffering=0)
                fin.write(stdin)
                fin.seek(0)
            else:
                fin = open("/dev/null", "rb")
        else:
            fin = stdin
        try:
            p = subprocess.Popen(argv, cwd=cwd, stdin=fin, stdout=self.fout, stderr=self.ferr, env=full, executable=executable,
                                 preexec_fn=limits if files or memory else None)
            try:
                rc = p.wait(timeout or self.timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                raise Violation("%r did not finish within %d s" % (argv, timeout or self.timeout))
            except BaseException:
                p.kill()
                p.wait()
                raise
        finally:
            fin.close()
        self.fout.seek(0)
        self.ferr.seek(0)
        out, err = self.fout.read(16 << 20), self.ferr.read(4 << 20)
        if check and (rc < 0 or rc == 99):
            raise Violation("%r ended with %s\n%s" % (
                argv, "signal %d" % -rc if rc < 0 else "a sanitizer report", err[-3000:].decode("latin-1")))
        return rc, out, err


def wipe(path):
    """Removes one of our own scratch folders, whatever its permissions."""
    assert os.path.isabs(path) and "detoxpbt." in path
    if not os.path.lexists(path):
        return

    def onerror(func, p, exc):
        try:
            os.chmod(os.path.dirname(p), 0o700)
            if not os.path.islink(p):
                os.chmod(p, 0o700)
            func(p)
        except OSError:
            pass

    try:
        shutil.rmtree(os.fsencode(path), onerror=onerror)
    except RecursionError:
        pass
    if os.path.lexists(path):  # too deep for rmtree
        subprocess.run(["/bin/rm", "-rf", "--", path], stderr=subprocess.DEVNULL)


# --------------------------------------------------------------------- workers


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def guarded(prop, env, case):
    """run(), with a failure of the harness itself turned into a Violation."""
    try:
        return prop.run(env, case) or Outcome()
    except Violation:
        raise
    except (MemoryError, Stop):
        raise
    except Exception:
        raise Violation("the oracle could not interpret the result:\n" + traceback.format_exc())


def search(prop, env, index, count, known):
    """The body of one worker: returns its result as a dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    res = {"evaluations": 0, "keys": [], "labels": Counter(), "samples": [],
           "failure": None, "known": {}, "capped": False}
    keys = set()
    start = time.monotonic()
    cap = CAPS[env.tier]
    state = {"best": None, "since": None}

    def finish():
        res["keys"] = sorted(keys)
        res["wall_s"] = round(time.monotonic() - start, 2)
        return res

    def one(case):
        now = time.monotonic()
        if state["since"] is not None:
            if now - state["since"] > SHRINK_S:
                raise Stop()
        elif now - start > cap:
            res["capped"] = True
            raise Stop()
        res["evaluations"] += 1
        try:
            out = guarded(prop, env, case)
        except Violation as v:
            if v.finding is not None and v.finding in known:
                res["known"][v.finding] = str(v)[:300]
                res["labels"]["known finding, excluded"] += 1
                return
            size = len(json.dumps(case))
            if state["since"] is None:
                state["since"] = time.monotonic()
            if state["best"] is None or size <= state["best"][0]:
                state["best"] = (size, case, str(v))
            raise
        res["labels"].update(out.labels)
        if out.nontrivial:
            k = case_key(case)[:16]
            if k not in keys:
                keys.add(k)
                if len(res["samples"]) < 3 and len(json.dumps(case)) < 3000:
                    res["samples"].append(case)

    for case in prop.fixed(env)[index::prop.workers]:
        try:
            one(case)
        except Violation as v:
            res["failure"] = {"case": case, "message": str(v)}
            return finish()
        except Stop:
            break

    test = given(prop.strategy(env))(one)
    test = settings(max_examples=count, database=None, deadline=None, print_blob=False,
                    report_multiple_bugs=False, phases=[Phase.generate, Phase.shrink],
                    suppress_health_check=list(HealthCheck))(test)
    digest = hashlib.sha256(("%s:%d:%d" % (prop.id, env.seed, index)).encode()).digest()
    test = hypothesis.seed(int.from_bytes(digest[:8], "big"))(test)
    try:
        test()
    except Stop:
        pass
    except BaseException:
        if state["best"] is None:
            raise
    if state["best"] is not None:
        res["failure"] = {"case": state["best"][1], "message": state["best"][2]}
    return finish()


def forked(env, index, ident, body):
    """Runs body() in an unprivileged child; returns (pid, read end)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    status = 3
    try:
        os.close(r)
        env.worker(index, ident)
        try:
            result = body()
        except BaseException:
            result = {"error": traceback.format_exc()}
        data = json.dumps(result).encode()
        with os.fdopen(w, "wb") as f:
            f.write(data)
        status = 0
    except BaseException:
        traceback.print_exc()
    finally:
        os._exit(status)


def kill_group(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass


def collect(children, stop_early=True):
    """Waits for children {pid: fd}; returns their results."""
    results = []
    bufs = {fd: b"" for fd in children.values()}
    pids = {fd: pid for pid, fd in children.items()}
    stopping = None
    while bufs:
        ready, _, _ = select.select(list(bufs), [], [], 1.0)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                bufs[fd] += chunk
                continue
            os.close(fd)
            data = bufs.pop(fd)
            os.waitpid(pids[fd], 0)
            kill_group(pids[fd])
            res = json.loads(data) if data else {"error": "worker ended without a result"}
            results.append(res)
            if stop_early and (res.get("failure") or res.get("error")) and stopping is None:
                stopping = time.monotonic() + 3
        if stopping is not None and time.monotonic() > stopping:
            for fd in list(bufs):
                kill_group(pids[fd])
                os.waitpid(pids[fd], 0)
                os.close(fd)
                del bufs[fd]
    return results


_ident = [1000]


def isolated(prop, env, case):
    """Runs one case in a fresh worker; returns None or the violation."""

    def body():
        try:
            guarded(prop, env, case)
        except Violation as v:
            return {"violation": str(v), "finding": v.finding}
        return {"violation": None}

    _ident[0] += 1
    pid, fd = forked(env, 0, _ident[0], body)
    res = collect({pid: fd}, False)[0]
    if "error" in res:
        raise RuntimeError(res["error"])
    return res


# ---------------------------------------------------------------------- findings


def load_findings(prop_id):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    with open(path) as f:
        data = json.load(f)
    return {e["key"]: e for e in data["findings"] if e["property"] == prop_id}  # the "fixed" list suppresses nothing


def regress_cases(prop_id):
    d = os.path.join(VERIF, "regress", prop_id)
    out = []
    if os.path.isdir(d):
        for n in sorted(os.listdir(d)):
            if n.endswith(".json"):
                with open(os.path.join(d, n)) as f:
                    out.append((n, json.load(f)["case"]))
    return out


# -------------------------------------------------------------------------- main


def write_evidence(prop, env, res, wall, violations):
    cov = {
        "evaluations": res["evaluations"],
        "distinct_nontrivial": res["distinct"],
        "rule": prop.rule,
        "samples": res["samples"] or [{"note": "no case was completed"}],
        "labels": dict(sorted(res["labels"].items())),
        "regression_cases": res["regress"],
        "workers_capped": res["capped"],
    }
    cov.update(res.get("more", {}))
    ev = {"property": prop.id, "tier": env.tier, "seed": env.seed, "level": prop.level,
          "coverage": cov, "assumptions": list(prop.assumptions), "wall_s": round(wall, 2),
          "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop.id + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


def report(prop, env, case, message, res, start):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop.id, case_key(case)[:12]))
    with open(path, "w") as f:
        json.dump({"property": prop.id, "message": message, "case": case}, f, indent=1)
    write_evidence(prop, env, res, time.monotonic() - start, 1)
    print("%s: %s" % (prop.id, message[:2000]))
    print("case: %s" % json.dumps(case)[:2000])
    print("replay with: ./check %s --replay %s" % (prop.id, path))
    print("VIOLATION property=%s replay=%s" % (prop.id, path), flush=True)
    return 1


def confirm(prop, env, case):
    """Replays a failure three times; it has to fail every time."""
    got = [isolated(prop, env, case) for _ in range(3)]
    bad = [g for g in got if g["violation"]]
    return (len(bad) == 3), (bad[0] if bad else None)


def main(prop, argv):
    start = time.monotonic()
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in CAPS:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = 1
    replay = None
    if "--replay" in argv:
        replay = argv[argv.index("--replay") + 1]
    known = load_findings(prop.id)
    listed = {k for k, e in known.items() if e["status"] == "known"}

    base = "/tmp"
    scratch = tempfile.mkdtemp(prefix="detoxpbt.", dir=base)
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch, "hyp")
    os.chmod(scratch, 0o755)
    try:
        b = buildmod.Build(os.path.join(scratch, "build"))
        bins = b.compile(prop.wants)
        shims = {n: b.shim(n) for n in prop.shims}
        env = Env(prop, scratch, bins, shims, tier, seed)
        env.build = b
        prop.prepare(env)

        if replay:
            with open(replay) as f:
                case = json.load(f)["case"]
            got = isolated(prop, env, case)
            if got["violation"] and got["finding"] not in listed:
                print(got["violation"])
                print("VIOLATION property=%s replay=%s" % (prop.id, replay))
                return 1
            print("held: %s" % (got["violation"] or ""))
            return 0

        total = {"evaluations": 0, "distinct": 0, "labels": Counter(), "samples": [],
                 "regress": 0, "capped": 0, "known": {}}

        # saved cases first
        for name, case in regress_cases(prop.id):
            got = isolated(prop, env, case)
            total["regress"] += 1
            total["evaluations"] += 1
            if got["violation"]:
                if got["finding"] in listed:
                    total["known"][got["finding"]] = got["violation"]
                    continue
                ok, first = confirm(prop, env, case)
                if ok:
                    return report(prop, env, case, "saved case %s: %s" % (name, first["violation"]), total, start)
                print("note: saved case %s failed once and then held" % name)

        # generated cases
        warm()
        count = getattr(prop, tier)
        children = {}
        for i in range(prop.workers):
            pid, fd = forked(env, i, str(i), lambda i=i: search(prop, env, i, count, listed))
            children[pid] = fd
        keys = set()
        failures = []
        for res in collect(children):
            if "error" in res:
                print(res["error"], file=sys.stderr)
                print("error: a worker of %s failed" % prop.id, file=sys.stderr)
                return 2
            total["evaluations"] += res["evaluations"]
            total["labels"].update(res["labels"])
            total["capped"] += 1 if res["capped"] else 0
            total["known"].update(res["known"])
            keys.update(res["keys"])
            for s in res["samples"]:
                if len(total["samples"]) < 6:
                    total["samples"].append(s)
            if res["failure"]:
                failures.append(res["failure"])
        total["distinct"] = len(keys)
        failures.sort(key=lambda f: len(json.dumps(f["case"])))
        for f in failures:
            ok, first = confirm(prop, env, f["case"])
            if ok:
                return report(prop, env, f["case"], first["violation"], total, start)
            print("note: a failure did not reproduce and is not reported: %s" % f["message"][:500])
            total["labels"]["failure that did not reproduce"] += 1

        # coverage-guided part
        try:
            more = prop.fuzz(env)
        except FuzzFailure as f:
            return report(prop, env, f.case, str(f), total, start)
        if more:
            total["evaluations"] += more["evaluations"]
            total["more"] = {"fuzzing": more}

        for key in sorted(listed):
            if key in total["known"]:
                print("KNOWN-FINDING: property=%s %s" % (prop.id, known[key]["what"]))
            else:
                print("note: known finding %s was not observed in this run" % key)
        wall = time.monotonic() - start
        write_evidence(prop, env, total, wall, 0)
        print("%s held: %d cases, %d distinct non-trivial, %.1f s (%s, seed %d)" % (
            prop.id, total["evaluations"], total["distinct"], wall, tier, seed))
        return 0
    except buildmod.BuildError as e:
        print(str(e)[-4000:], file=sys.stderr)
        print("error: the build of /repo's sources failed", file=sys.stderr)
        return 2
    finally:
        wipe(scratch)


def warm():
    """Loads what Hypothesis imports lazily before privileges are dropped."""
    from hypothesis import HealthCheck, given, settings
    from hypothesis import strategies as st

    @settings(max_examples=5, database=None, deadline=None, suppress_health_check=list(HealthCheck))
    @given(st.recursive(st.text(max_size=3), lambda c: st.lists(c, max_size=2), max_leaves=3), st.integers(), st.binary())
    def t(a, b, c):
        pass

    t()

    @settings(max_examples=20, database=None, deadline=None, print_blob=False, suppress_health_check=list(HealthCheck))
    @given(st.lists(st.integers()))
    def u(a):
        assert len(a) < 3

    try:
        u()
    except AssertionError:
        pass
