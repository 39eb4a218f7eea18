"""C06: the key lock (spec/CacheLock.tla, LockHist.tla, judged by LockTrace.tla)."""
import json
import os
import queue
import shutil
import threading
from multiprocessing import Pipe

import cachelib as L
import gate
import vlib

ENV = "WETEXTPROCESSING_CACHE_LOCK_TIMEOUT"


def bundles(root):
    return {1: L.bundle(root), 2: L.bundle(root, cache_config={"other": 1})}


# --------------------------------------------------- zero-timeout histories
class Boom(Exception):
    pass


def server(conn, root):
    """One process with a worker per actor; executes try/leave commands in order."""
    queues, out = {}, queue.Queue()
    B = bundles(root)

    def level(q):
        while True:
            cmd = q.get()
            if cmd[0] == "leave":
                return cmd[1]
            got = False
            try:
                with B[cmd[1]].lock(timeout=0):
                    got = True
                    out.put("got")
                    how = level(q)
                    if how == "error":
                        raise Boom()
                    if how == "interrupt":
                        raise KeyboardInterrupt()
                    if how == "exit":
                        raise SystemExit(3)
                left = "return"
            except Boom:
                left = "error"
            except KeyboardInterrupt:
                left = "interrupt"
            except SystemExit:
                left = "exit"
            except BaseException as e:
                left = type(e).__name__
                if got:
                    left = "after:" + left
            out.put(left)

    while True:
        try:
            cmd = conn.recv()
        except EOFError:
            os._exit(0)
        a = cmd[0]
        if a not in queues:
            queues[a] = queue.Queue()
            threading.Thread(target=level, args=(queues[a],), daemon=True).start()
        queues[a].put(cmd[1:])
        try:
            conn.send(out.get(timeout=15))
        except queue.Empty:
            conn.send("hang")


def hist_job(job):
    work, hists = job
    recs = []
    root = os.path.join(work, "h-%d" % os.getpid())
    for h in hists:
        procs = {}

        def proc(p):
            if p not in procs:
                mine, theirs = Pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        mine.close()
                        for c, _ in procs.values():
                            c.close()
                        server(theirs, root)
                    finally:
                        os._exit(1)
                theirs.close()
                procs[p] = (mine, pid)
            return procs[p]

        got, crashed = [], ""
        for e in h:
            p = e["a"] if e["what"] == "die" else (2 if e["a"] == 3 else 1)
            conn, pid = proc(p)
            if e["what"] == "die":
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                conn.close()
                procs.pop(p)
                got.append("died")
                continue
            try:
                conn.send((e["a"], "try", e["k"]) if e["what"] == "try" else (e["a"], "leave", e["how"]))
                r = conn.recv() if conn.poll(20) else "hang"
            except (EOFError, OSError):
                r, crashed = "crash", "died in " + e["what"]
            if r == "hang":
                crashed = "no answer to " + e["what"]
            got.append(r)
            if crashed or e["what"] == "try" and (r == "got") != e["ok"]:
                break
        for conn, pid in procs.values():
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            conn.close()
        recs.append(dict(kind="hist", hist=h[:len(got)], got=got, crashed=crashed))
        shutil.rmtree(root, ignore_errors=True)
    return recs


# ------------------------------------------------------------- timed waits
def waiter(root, timeout, via_env, mark):
    if via_env:
        os.environ[ENV] = repr(timeout)
    elif ENV in os.environ:
        del os.environ[ENV]
    b = L.bundle(root)
    try:
        with b.lock() if via_env else b.lock(timeout=timeout):
            mark("got")
            mark("hold")
        mark("left")
    except BaseException as e:
        mark("exc:" + type(e).__name__)
    return None


def timed_job(job):
    work, plans = job
    recs = []
    for n, plan in enumerate(plans):
        root = os.path.join(work, "t-%d" % os.getpid())
        shutil.rmtree(root, ignore_errors=True)
        recs.append(timed(root, plan))
    return recs


def timed(root, plan):
    """plan: actors [(ask ms, timeout s, hold ms, death?, via_env)], jumps [(ms, wall jump s)]."""
    import random
    rng = random.Random(plan["seed"])
    w = gate.World(root)
    t0 = w.clock.ns
    ev, alive = [], True
    kids, wake, state = {}, {}, {}
    starts = {a + 1: int(x[0] * 1e6) for a, x in enumerate(plan["actors"])}
    jumps = sorted(plan["jumps"])

    def now():
        return w.clock.ns - t0

    def ms():
        return now() // 10**6

    def settle(a):
        """Runs actor a until it sleeps, holds or ends (or at most until a preemption)."""
        c = kids[a]
        budget = rng.choice([1, 2, 5, 1000])
        while not c.over:
            op, arg, _ = c.pending
            if op == "sleep":
                wake[a] = now() + max(1, int(arg))
                state[a] = "sleep"
                return
            if op == "mark":
                if arg == "got":
                    ev.append([ms(), a, "got"])
                elif arg == "hold":
                    wake[a] = now() + int(plan["actors"][a - 1][2] * 1e6)
                    state[a] = "hold"
                    return
                elif arg == "left":
                    ev.append([ms(), a, "left"])
                elif arg.startswith("exc:"):
                    ev.append([ms(), a, "timeout" if arg == "exc:CacheLockTimeout" else arg])
                c.grant()
                continue
            c.grant()
            budget -= 1
            if budget <= 0 and state.get(a) != "hold":
                state[a] = "run"
                return
        state[a] = "over"

    try:
        steps = 0
        while True:
            steps += 1
            if steps > 40000:
                raise gate.Hang("no end")
            while jumps and jumps[0][0] * 10**6 <= now():
                w.clock.wall.value += int(jumps.pop(0)[1] * 10**9)
            due = [a for a in kids if state[a] == "run"]
            due += [a for a in kids if state[a] in ("sleep", "hold") and wake[a] <= now()]
            due += [a for a in starts if a not in kids and starts[a] <= now()]
            if not due:
                times = [wake[a] for a in kids if state[a] in ("sleep", "hold")] + [starts[a] for a in starts if a not in kids]
                if not times:
                    break
                w.clock.advance(min(times) - now())
                continue
            a = rng.choice(due)
            if a not in kids:
                _, timeout, _, _, via_env = plan["actors"][a - 1]
                ev.append([ms(), a, "ask"])
                kids[a] = w.spawn(lambda mark, t=timeout, v=via_env: waiter(root, t, v, mark), "w%d" % a)
                state[a] = "run"
            elif state[a] == "hold":
                if plan["actors"][a - 1][3]:
                    kids[a].kill()
                    ev.append([ms(), a, "died"])
                    state[a] = "over"
                else:
                    kids[a].grant()
                    while not kids[a].over and state[a] == "hold":     # leaving is one step
                        op, arg, _ = kids[a].pending
                        if op == "mark":
                            ev.append([ms(), a, "left" if arg == "left" else arg])
                            state[a] = "run"
                        kids[a].grant()
                    if kids[a].over:
                        state[a] = "over"
            else:
                if state[a] == "sleep":
                    kids[a].grant(advance=False)
                    state[a] = "run"
                settle(a)
    except gate.Hang:
        alive = False
    finally:
        w.close()
    limit = [min(int(x[1] * 1000), 10**9) for x in plan["actors"]]
    return dict(kind="timed", alive=alive, ev=ev, limit=limit + [0] * (4 - len(limit)), plan=plan)


def timed_plans(rng, n):
    plans = []
    Ts = [0, 0.001, 0.02, 0.05, 0.051, 0.3, 1, 2.5, 7.5, 60]
    for T in Ts + [600]:
        for R in (0.5 * T, max(0, T - 3), T + 3, T + 0.02, 3 * T + 5):
            for death in (False, True):
                plans.append(dict(actors=[[0, 5, R * 1000, death, False], [1, T, 10, False, bool(len(plans) % 2)]], jumps=[], seed=len(plans)))
    while len(plans) < n:
        k = rng.choice([2, 3, 3, 4])
        acts = []
        for a in range(k):
            acts.append([rng.choice([0, 0, 1, 40, 700, 3000]), rng.choice(Ts), rng.choice([0, 10, 200, 2500, 20000, 61000]),
                         rng.random() < 0.3, rng.random() < 0.3])
        jumps = [[rng.choice([5, 300, 2000]), rng.choice([-7200, 3600, 86400])] for _ in range(rng.choice([0, 1, 2]))]
        plans.append(dict(actors=acts, jumps=jumps, seed=rng.randint(0, 10**9)))
    return plans


# ------------------------------------------------- configuration and bytes
TEXTS = [("0", 1), ("0.0", 1), ("0.5", 1), ("7", 1), ("600", 1), ("1e3", 1), ("+2", 1), ("1.5e-3", 1), ("00012", 1), ("1e300", 1),
         ("-1", 0), ("-0.001", 0), ("nan", 0), ("NaN", 0), ("inf", 0), ("Infinity", 0), ("-inf", 0), ("-Infinity", 0), ("1e309", 0),
         ("-1e309", 0), ("", 0), ("abc", 0), ("1,5", 0), ("5s", 0), ("10 m", 0), ("0x10", 0), ("1e", 0), ("--1", 0), ("None", 0),
         ("true", 0), ("1 2", 0), ("-5e-324", 0), ("-nan", 0), ("1.2.3", 0), ("٣x", 0), ("+-1", 0)]


def conf_job(job):
    work, items = job
    recs = []
    for n, (how, value, valid) in enumerate(items):
        root = os.path.join(work, "c-%d" % os.getpid())
        shutil.rmtree(root, ignore_errors=True)
        os.environ.pop(ENV, None)
        if how == "env-lock":
            os.environ[ENV] = value

            def use():
                with L.bundle(root).lock():
                    pass
            exc, msg = vlib.call(use, limit=10)
        elif how == "env-ctor":
            os.environ[ENV] = value
            o = L.construct(root, n % 2 == 0, 1)
            exc, msg = o["exc"], o["msg"]
        else:
            def use():
                with L.bundle(root).lock(timeout=value):
                    pass
            exc, msg = vlib.call(use, limit=10)
        recs.append(dict(kind="conf", how=how, value=repr(value), valid=bool(valid), exc=exc, msg=msg, created=os.path.lexists(root)))
    return recs


def payloads(rng):
    deep = [b"[" * 60000, b'{"a":' * 10000, b"[" * 60000 + b"]" * 5000]
    out = [b"", b"\0", b"x", b"{}", b"[]", b"null", b"1", b'"s"', b"{", b'{"a":1}', b"\xff\xfe", b"\xed\xa0\x80", b'{"a":"\\ud800"}',
           b"1" * 5000, b"1e9999", b"NaN", b'{"a":NaN}', b"x" * 65536, b"x" * 65535, b'"' + b"\x00" * 100 + b'"', b"\x80" * 65000,
           b'{"k":"' + b"v" * 65000 + b'"}', b"\n" * 1000, b'{"a":1}{"b":2}', "{\"键\":\"值\"}".encode(), b"true", b"-", b"\xef\xbb\xbf{}"]
    out += deep
    for _ in range(40):
        out.append(bytes(rng.randrange(256) for _ in range(rng.choice([1, 3, 20, 300, 4000]))))
    res = []
    for p in out:
        res.append(p)              # replaces the whole file
        res.append(b"\0" + p)      # keeps the first byte
    return res


def bytes_job(job):
    work, items = job
    recs = []
    for data, size in items:
        root = os.path.join(work, "b-%d" % os.getpid())
        shutil.rmtree(root, ignore_errors=True)
        b = L.bundle(root)
        rec = dict(kind="bytes", exc="", names=False, msglen=0, next="", head=data[:24].hex(), size=max(len(data), size))
        with b.lock(timeout=0):
            with open(b.lock_path, "r+b") as f:
                f.truncate(0)
                f.write(data)
                if size:
                    f.truncate(size)

            def use():
                with L.bundle(root).lock(timeout=0):
                    pass

            import signal  # noqa: vlib.call truncates texts, so measure here
            holder = {}

            def use2():
                try:
                    use()
                except Exception as e:
                    holder["text"] = str(e)
                    raise

            rec["exc"], _ = vlib.call(use2, limit=20)
            text = holder.get("text", "")
            rec["names"] = os.fspath(b.lock_path) in text
            rec["msglen"] = len(text)
            with open(b.lock_path, "r+b") as f:
                f.truncate(0)
                f.write(data)
        rec["next"], _ = vlib.call(use, limit=20)
        recs.append(rec)
    return recs


def c06():
    gate.enable()
    chk = vlib.Check("C06")
    L.setup()
    work = os.path.join(vlib.scratch(), "w")
    os.makedirs(work)
    chk.assumptions += ["flock semantics of the kernel", "time is virtual in the timed part: only sleeps let it pass",
                        "answers may be late by 2 s of virtual time"]
    vlib.model_check(chk, "CacheLock", "CacheLock.cfg")
    res = vlib.must(vlib.run_tlc("LockHist", "LockHist.cfg" if not vlib.THOROUGH else
                                 open(os.path.join(vlib.SPEC, "LockHist.cfg")).read().replace("Len0 = 5", "Len0 = 6")), "LockHist")
    chk.add_tlc(res, "LockHist")
    hists = [json.loads(json.loads(x)) for x in sorted(set(res.prints("GEN")))]
    chk.cov["spec_histories"] = len(hists)
    hists = chk.rng.sample(hists, min(len(hists), 40000 if vlib.THOROUGH else 3000))
    recs = []
    for fn, items, name in ((hist_job, hists, "histories"),
                            (timed_job, timed_plans(chk.rng, 4000 if vlib.THOROUGH else 500), "timed waits"),
                            (conf_job, [(h, v, ok) for h in ("env-lock", "env-ctor") for v, ok in TEXTS]
                             + [("arg", v, ok) for v, ok in ((0, 1), (0.0, 1), (1, 1), (2.5, 1), (-1, 0), (-0.001, 0), (float("nan"), 0),
                                                             (float("inf"), 0), (float("-inf"), 0), ("x", 0), (-5e-324, 0), (10**400, 0))], "timeouts"),
                            (bytes_job, [(p, 0) for p in payloads(chk.rng)] + [(b"\0{", s) for s in (65536, 65537, 65538, 10**6, 10**9)],
                             "lock bytes")):
        jobs = [(work, part) for part in vlib.chunks(items, 8 if len(items) < 200 else 32)]
        got = vlib.collect(chk, vlib.pmap(fn, jobs, timeout=900), name)
        chk.cov[name] = len(got)
        recs += got
        chk.sample({k: v for k, v in got[len(got) // 2].items()} if got else {})
    keep = {"timed": ["kind", "alive", "ev", "limit"], "hist": ["kind", "hist", "got", "crashed"],
            "conf": ["kind", "valid", "exc", "created"], "bytes": ["kind", "exc", "names", "msglen", "next"]}
    slim = [{f: r[f] for f in keep[r["kind"]]} for r in recs]
    for i, clause in vlib.judge(chk, "LockTrace", slim, name="lock observations"):
        r = dict(recs[i])
        chk.violation(clause, r, key="%s|%s" % (clause, json.dumps(r.get("head") or r.get("value") or r.get("hist") or r.get("plan"))))
    chk.finish()
