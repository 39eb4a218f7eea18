"""Common machinery of the checks: environment, TLC runner, verdicts, evidence.

Outcomes of a check (see finish()):
  exit 0  the property held on everything explored (listed findings are printed)
  exit 1  'VIOLATION property=<id> replay=<path>' was printed
  other   the machinery itself failed (MachineryError or an unexpected exception here)
Exceptions raised by the code under test are observations, never machinery errors:
drivers record them and the specification judges them.
"""
import atexit
import json
import mmap
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NPROC = os.cpu_count() or 4

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"


class MachineryError(RuntimeError):
    pass


_scratch = None


def scratch():
    """A private scratch directory of this run, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="wtpverif-")
        owner = os.getpid()

        def clean():
            if os.getpid() == owner:
                shutil.rmtree(_scratch, ignore_errors=True)

        atexit.register(clean)
        os.environ["XDG_CACHE_HOME"] = os.path.join(_scratch, "xdg")
        os.environ["PYTHONPYCACHEPREFIX"] = os.path.join(_scratch, "pyc")
    return _scratch


def use_repo(repo=None):
    """Puts the code under test first on sys.path and silences its logger."""
    scratch()
    import logging
    logging.disable(logging.CRITICAL)
    repo = repo or REPO
    if repo in sys.path:
        sys.path.remove(repo)
    sys.path.insert(0, repo)


def cps(text):
    return [ord(c) for c in text]


def uncps(seq):
    return "".join(chr(c) for c in seq)


class Check:

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.rng = random.Random(SEED * 1000003 + sum(map(ord, prop)))
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violations = []
        self.known_hit = {}
        self.later = []
        self.known = load_known(prop)
        scratch()

    # -- coverage -----------------------------------------------------------
    def add_tlc(self, result, name):
        self.cov["states"] += result.distinct
        self.cov["transitions"] += result.generated
        self.cov.setdefault("tlc_runs", []).append(
            dict(spec=name, states=result.distinct, transitions=result.generated, seconds=round(result.seconds, 1)))

    def validated(self, n, what=None):
        self.cov["traces_validated_against_impl"] += n
        if what:
            d = self.cov.setdefault("validated_by_kind", {})
            d[what] = d.get(what, 0) + n

    def sample(self, obj, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(obj)

    # -- verdicts -----------------------------------------------------------
    def violation(self, clause, detail, key=None):
        """Records a violation; `key` identifies the failing input, call site or history
        for the known-findings file."""
        key = key if key is not None else json.dumps(detail, ensure_ascii=False, sort_keys=True, default=str)
        for k in self.known:
            if k["key"] == key:
                self.known_hit.setdefault(key, (k, clause))
                return
        self.violations.append(dict(clause=clause, key=key, detail=detail))

    def finish(self):
        for run, what, module in self.later:
            self.add_tlc(must(run.result(), what), module)
        self.later = []
        for key, (k, clause) in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        cov = dict(self.cov)
        ev = dict(property=self.prop, tier="thorough" if THOROUGH else "quick", seed=SEED, level=self.level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w", encoding="utf-8") as f:
            json.dump(ev, f, ensure_ascii=True, indent=1, default=str)
        os.replace(path + ".tmp", path)
        print("%s: %s in %.1fs; states=%d transitions=%d traces=%d violations=%d" %
              (self.prop, TIER, time.time() - self.t0, cov["states"], cov["transitions"],
               cov["traces_validated_against_impl"], len(self.violations)))
        if self.violations:
            rdir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            rpath = os.path.join(rdir, "%s.json" % self.prop)
            with open(rpath, "w", encoding="utf-8") as f:
                json.dump(dict(property=self.prop, seed=SEED, tier=TIER, violations=self.violations[:int(os.environ.get("VERIF_KEEP", "50"))],
                               total=len(self.violations)), f, ensure_ascii=True, indent=1, default=str)
            for v in self.violations[:5]:
                print("  clause=%s %s" % (v["clause"], json.dumps(v["detail"], ensure_ascii=True, default=str)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rpath))
            sys.stdout.flush()
            sys.exit(1)
        if cov["traces_validated_against_impl"] == 0 and self.level == "model_checking":
            raise MachineryError("vacuous run: nothing was validated against the implementation")
        sys.stdout.flush()
        sys.exit(0)


def load_known(prop):
    """known-findings.txt: '<status>: property=<id> key=<json string> <what>' lines."""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) key=("(?:[^"\\]|\\.)*") (.*)$', line.rstrip("\n"))
                if m and m.group(1) == prop:
                    out.append(dict(key=json.loads(m.group(2)), what=m.group(3)))
    return out


# -- TLC ---------------------------------------------------------------------
class TlcResult:

    def __init__(self, rc, out, seconds):
        self.rc, self.out, self.seconds = rc, out, seconds
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"The number of states generated: (\d+)", out)   # simulation mode
        if m and not self.generated:
            self.generated = self.distinct = int(m.group(1))
        self.ok = rc == 0 and ("No error has been found" in out or "Finished in" in out)
        self.invariant = None
        m = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated", out)
        if m:
            self.invariant = m.group(1) or m.group(2) or "temporal"

    def prints(self, tag):
        """The tuples printed as <<"tag", ...>>, as raw strings (TLC breaks long ones into lines)."""
        found = re.findall(r'^<< ?"%s",\s+(.*?) ?>>$' % re.escape(tag), self.out, re.M | re.S)
        return [re.sub(r"\n\s*", " ", x) for x in found]


def start_tlc(module, cfg, env=None, workers=None, timeout=600, heap="6g", extra=(), props=(), gc="Parallel"):
    """Starts TLC on spec/<module>.tla."""
    work = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    if "\n" in cfg:
        cfgpath = os.path.join(work, module + ".cfg")
        with open(cfgpath, "w") as f:
            f.write(cfg)
    else:
        cfgpath = os.path.join(SPEC, cfg)
    cmd = ["java", "-XX:+Use%sGC" % gc, "-XX:TieredStopAtLevel=4", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + work] + list(props) + [
        "-cp", TLA_CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(work, "meta"),
        "-workers", str(workers or NPROC), "-config", cfgpath] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    return TlcRun(module, cmd, e, work, timeout)


class TlcRun:
    """A TLC process under way; its output goes to a file."""

    def __init__(self, module, cmd, env, work, timeout):
        self.module, self.work, self.timeout, self.t0 = module, work, timeout, time.time()
        self.path = os.path.join(work, "out")
        with open(self.path, "wb") as f:
            self.proc = subprocess.Popen(cmd, cwd=SPEC, env=env, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT)
        atexit.register(self.proc.kill)

    def result(self):
        try:
            rc = self.proc.wait(timeout=max(1, self.timeout - (time.time() - self.t0)))
            seconds = time.time() - self.t0
            with open(self.path, "rb") as f:
                out = f.read().decode("utf-8", "replace")
        except subprocess.TimeoutExpired as ex:
            self.proc.kill()
            self.proc.wait()
            raise MachineryError("TLC timed out on %s" % self.module) from ex
        finally:
            shutil.rmtree(self.work, ignore_errors=True)
        return TlcResult(rc, out, seconds)


def run_tlc(module, cfg, **kw):
    """Runs TLC on spec/<module>.tla with cfg (a file name in spec/, or config text)."""
    return start_tlc(module, cfg, **kw).result()


def must(res, what):
    """TLC must finish without any error: used for runs whose failure is a machinery error."""
    if res.rc != 0:
        raise MachineryError("TLC failed on %s (rc=%d):\n%s" % (what, res.rc, res.out[-4000:]))
    return res


def model_check(chk, module, cfg, **kw):
    """Design-level model checking of the specification itself (no implementation involved).
    A failure here is a defect of the specification, hence of the machinery."""
    what = "%s/%s" % (module, cfg if "\n" not in cfg else "inline cfg")
    if THOROUGH:
        chk.add_tlc(must(run_tlc(module, cfg, **kw), what), module)
        return
    # the rest of the check goes on meanwhile; Check.finish collects the result
    chk.later.append((start_tlc(module, cfg, **dict(dict(workers=4, heap="3g"), **kw)), what, module))


def judge(chk, module, records, cfg=None, batch=20000, env=None, timeout=600, name=None, heap="3g"):
    """Has TLC judge recorded implementation observations.

    Every spec/<module>.tla of this kind reads the records (ND-JSON) from IOEnv.TRACE, runs
    its own machine over each, and prints <<"BAD", index, "clause">> for each rejected record
    and <<"DONE", count>> is checked through the number of distinct records visited.
    Returns a list of (index0, clause).
    """
    from concurrent.futures import ThreadPoolExecutor
    if not records:
        return []
    jobs = max(1, min(NPROC, len(records) // 40))
    size = min(batch, (len(records) + jobs - 1) // jobs)
    parts = [(lo, records[lo:lo + size]) for lo in range(0, len(records), size)]

    def one(job):
        lo, part = job
        path = os.path.join(scratch(), "trace-%s-%d.ndjson" % (module, lo))
        with open(path, "w", encoding="ascii") as f:
            for r in part:
                f.write(json.dumps(r, ensure_ascii=True) + "\n")
        e = dict(TRACE=path)
        e.update(env or {})
        # TLC evaluates long expressions no faster with more workers: split the records instead
        res = must(run_tlc(module, cfg or (module + ".cfg"), env=e, timeout=timeout, workers=1, heap=heap, gc="Serial"),
                   "%s (trace validation)" % module)
        os.unlink(path)
        seen = set()
        verdicts = res.prints("BAD")
        if len(verdicts) != res.out.count('"BAD",'):
            raise MachineryError("unparsed verdicts of " + module)
        for line in verdicts:
            m = re.match(r'(\d+), "([^"]*)"', line)
            if not m:
                raise MachineryError("unparsable verdict: " + line)
            seen.add((int(m.group(1)), m.group(2)))
        if res.distinct < 2 * len(part):
            raise MachineryError("%s judged fewer than the %d records (states %d)" % (module, len(part), res.distinct))
        return lo, len(part), seen, res

    bad = []
    with ThreadPoolExecutor(jobs) as ex:
        done = list(ex.map(one, parts))
    total = None
    for lo, n, seen, res in done:
        bad += [(lo + i - 1, clause) for i, clause in sorted(seen)]
        if total is None:
            total = res
        else:
            total.distinct += res.distinct
            total.generated += res.generated
            total.seconds = max(total.seconds, res.seconds)
        chk.validated(n, name or module)
    chk.add_tlc(total, name or module)
    return bad


def dump_json_states(module, cfg, out_env="OUT", env=None, timeout=600, workers=1):
    """Runs a generator specification that serializes its behaviours to the file IOEnv.OUT."""
    path = os.path.join(scratch(), "gen-%s.json" % module)
    e = {out_env: path}
    e.update(env or {})
    res = must(run_tlc(module, cfg, env=e, timeout=timeout, workers=workers), module + " (generation)")
    return path, res


# -- guarded execution of the code under test ----------------------------------
class CallTimeout(BaseException):
    pass


# a hanging call is a finding already: the later ones may cost less time (shared by forked children)
_timeouts = mmap.mmap(-1, 4096)


def call(fn, *args, limit=20, **kw):
    """Runs one call of the code under test: ('', value) or (exception name, text)."""
    import signal
    count = _timeouts[0]
    if count > 40:
        return "Timeout", "not tried again after many hanging calls"
    if count > 4:
        limit = max(1, min(limit, 40 / count))

    def onalarm(sig, frame):
        raise CallTimeout()

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return "", fn(*args, **kw)
    except CallTimeout:
        _timeouts[0] = min(200, _timeouts[0] + 1)
        return "Timeout", "no answer within %ds" % limit
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # noqa: observed, judged by the specification
        return type(e).__name__, str(e)[:300]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Died(Exception):
    pass


def pmap(fn, items, jobs=None, timeout=600):
    """[fn(x) for x in items] in forked children (the graphs built before are shared).
    An item whose child dies or hangs yields a Died instance."""
    import pickle
    import select
    import signal
    jobs = jobs or NPROC
    items = list(items)
    results = [None] * len(items)
    todo = list(range(len(items)))[::-1]
    live = {}
    sys.stdout.flush()
    sys.stderr.flush()
    while todo or live:
        while todo and len(live) < jobs:
            k = todo.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    try:
                        data = pickle.dumps(("ok", fn(items[k])))
                    except BaseException as e:  # harness failure inside the child
                        import traceback
                        data = pickle.dumps(("err", traceback.format_exc()))
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                except BaseException:
                    code = 1
                os._exit(code)
            os.close(w)
            live[r] = [k, pid, b"", time.time() + timeout]
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for r in list(live):
            k, pid, buf, deadline = live[r]
            done = False
            if r in ready:
                part = os.read(r, 1 << 20)
                if part:
                    live[r][2] = buf + part
                else:
                    done = True
            elif time.time() > deadline:
                os.kill(pid, signal.SIGKILL)
                done = True
                live[r][2] = b""
            if done:
                os.close(r)
                _, status = os.waitpid(pid, 0)
                data = live.pop(r)[2]
                if not data or status:
                    results[k] = Died("child ended with status %d" % status)
                else:
                    kind, value = pickle.loads(data)
                    if kind == "err":
                        raise MachineryError("driver failed:\n" + value)
                    results[k] = value
    return results


def chunks(seq, n):
    seq = list(seq)
    size = max(1, (len(seq) + n - 1) // n)
    return [seq[i:i + size] for i in range(0, len(seq), size)]


def collect(chk, results, what):
    """Flattens pmap results; a dead or hung driver is a violation, not a machinery error."""
    out = []
    for r in results:
        if isinstance(r, Died):
            chk.violation("the code under test died or gave no answer", dict(driver=what, reason=str(r)))
        else:
            out.extend(r)
    return out
