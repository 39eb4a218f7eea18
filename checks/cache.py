"""C01, C02, C04: the bundle store under crashes, schedules and I/O faults (spec/CacheStore.tla)."""
import errno
import json
import os
import re
import shutil

import cachelib as L
import gate
import vlib

OLD, NEW, NEW2, PGEN, SGEN = 1, 2, 3, 98, 99
GENS = [OLD, NEW, NEW2, 4, PGEN, SGEN]


def num(state):
    """Bundle state as the integers of CacheRules."""
    return 0 if state == "absent" else int(state[1:]) if re.match(r"C\d+$", state) else -1


def out_rec(o):
    return dict(exc=o["exc"], t=o["t"], v=o["v"], built=o["built"])


DEAD = dict(exc="died", t=-1, v=-1, built=False)


def templates(work):
    """Base directories: what constructors find."""
    t = {}

    def new(name):
        t[name] = os.path.join(work, "tmpl-" + name)
        return t[name]

    new("fresh")                                             # nothing at all, not even the root
    os.makedirs(new("rooted"))                               # only the root
    L.construct(new("complete"), False, OLD)
    for name, how in (("corrupt", "flip"), ("nomanifest", "unlink"), ("garbled", "manifest"), ("emptydir", "empty")):
        L.construct(new(name), False, OLD)
        b = os.fspath(L.bundle(t[name]).path)
        files = sorted(os.listdir(b))
        big = max(files, key=lambda f: os.path.getsize(os.path.join(b, f)))
        small = [f for f in files if f.endswith("json")] or [files[0]]
        if how == "flip":
            with open(os.path.join(b, big), "r+b") as f:
                f.seek(1000)
                c = f.read(1)
                f.seek(1000)
                f.write(bytes([c[0] ^ 1]))
        elif how == "unlink":
            os.unlink(os.path.join(b, small[0]))
        elif how == "manifest":
            with open(os.path.join(b, small[0]), "r+b") as f:
                f.truncate(40)
        else:
            for f in files:
                os.unlink(os.path.join(b, f))
    return t


def start(src, work):
    """A private copy of a template; returns its cache root."""
    box = os.path.join(work, "run-%d" % os.getpid())
    if os.path.exists(box):
        shutil.rmtree(box)
    os.makedirs(box)
    root = os.path.join(box, "cache")
    if os.path.exists(src):
        shutil.copytree(src, root, symlinks=True)
    return root


class Watch:
    """Follows one gated constructor: steps, bundles seen under the final name, unsynced files."""

    def __init__(self, root, ref):
        self.root, self.ref = root, ref
        self.final = os.fspath(L.bundle(root).path)
        self.lock = os.fspath(L.bundle(root).lock_path)
        self.finals, self.steps, self.dirty = [], [], {}
        self.last = None
        self.lockfree = True

    def seen(self, op, path, arg):
        if self.last and self.last[0] in ("create", "write", "truncate", "openw", "fsync"):
            try:
                st = os.stat(self.last[1])
                if self.last[0] == "fsync":
                    self.dirty.pop(st.st_ino, None)
                elif self.last[0] != "openw":
                    self.dirty[st.st_ino] = True
            except OSError:
                pass
        if self.last is None or self.last[0] in L.MUTATORS:
            f = num(L.state_of(self.final, self.ref))
            if not self.finals or self.finals[-1] != f:
                self.finals.append(f)
        if op == "mark" and path == "over":
            self.lockfree = gate.lock_free(self.lock)
        self.steps.append((op, path, arg))
        self.last = (op, path, arg)


def crash_points(steps):
    """Steps before which a death leaves something new behind."""
    return [k for k, (op, path, arg) in enumerate(steps) if op in L.MUTATORS or op == "mark"]


def dry(root, ref, ow, gen):
    w = Watch(root, ref)
    c = gate.run_alone(root, L.ctor(root, ow, gen), lambda ch, op, p, a, k: w.seen(op, p, a))
    return w, c


def settle(root, ref):
    """The two constructions that follow, and what remains."""
    try:
        probe = L.construct(root, False, PGEN)
        left1 = len(L.snapshot(root, ref)["residuals"])
        second = L.construct(root, True, SGEN)
        after = L.snapshot(root, ref)
        lockfree = gate.lock_free(os.fspath(L.bundle(root).lock_path))
    except OSError as e:
        raise vlib.MachineryError("observer failed: %r" % e)
    return dict(probe=out_rec(probe), second=out_rec(second), probeleft=left1, left=len(after["residuals"]),
                leftnames=after["residuals"], lockfree=lockfree, msg=(probe["msg"], second["msg"]),
                probe_alive=probe["exc"] != "Timeout", second_alive=second["exc"] != "Timeout")


def destroy_unsynced(root, dirty, how):
    """Power cut: data of files not synced since their last write is gone."""
    n = 0
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            st = os.lstat(p)
            if st.st_ino in dirty and not os.path.islink(p):
                with open(p, "r+b") as fh:
                    if how == "empty":
                        fh.truncate(0)
                    else:
                        fh.write(b"\0" * st.st_size)
                n += 1
    return n


def crash_job(job):
    """Runs one constructor from a template, kills it before the given steps (one run each),
    and records what the next constructions find."""
    src, work, ref, ow, gen, kept0, gens, points, name, keep, lastsync, nsteps = job
    recs = []
    for k, variant in points:
        root = start(src, work)
        w = Watch(root, ref)

        def on_step(ch, op, p, a, i):
            w.seen(op, p, a)
            if i == k:
                if variant == "short" and op == "write":
                    return b"s1"
                if variant != "short":
                    return "kill"
            if i == k + 1:
                return "kill"
            return None

        try:
            c = gate.run_alone(root, L.ctor(root, ow, gen), on_step)
            returned = not c.killed
        except gate.Hang:
            recs.append(dict(kind="crash", hang=True, src=name, ow=ow, k=k, variant=variant))
            continue
        w.seen("end", "", "")
        dirty = dict(w.dirty)
        power = variant in ("empty", "zero")
        n = destroy_unsynced(root, dirty, variant) if power else 0
        if power and n == 0 and k < lastsync:
            continue                                  # same as a plain crash
        final = num(L.state_of(w.final, ref))
        if power:
            finals = [final]
        else:
            finals = w.finals if w.finals[-1] == final else w.finals + [final]
        snap = L.snapshot(root, ref)
        saved = None
        if keep:
            saved = os.path.join(work, "st-%d-%s-%d-%s-%s" % (os.getpid(), name.replace("/", "_"), k, variant, ow))
            shutil.copytree(root, saved, symlinks=True) if os.path.exists(root) else None
        # a power cut after the constructor returned may take back steps that no sync followed
        kepts = {kept0}
        if power and k >= lastsync:
            kepts.add(True)
        if returned:
            kepts = {True}
        ever = any(f >= 1 for f in finals) and not power
        more = settle(root, ref)
        for kept in sorted(kepts):
            recs.append(dict(kind="crash", hang=False, src=name, ow=ow, gen=gen, k=k, variant=variant, step=w.steps[min(k, len(w.steps) - 1)],
                             finals=finals, kept=bool(kept or ever), gens=sorted(gens | {gen}), pgen=PGEN, sgen=SGEN, power=power,
                             probelocked=final < 1, snap=snap, saved=saved, **more))
    return recs


def public(rec, fields):
    return {f: rec[f] for f in fields}


CRASH_FIELDS = ["kind", "finals", "kept", "gens", "pgen", "sgen", "power", "probelocked", "probe", "second", "probe_alive",
                "second_alive", "probeleft", "left", "lockfree", "ow"]


def relname(path):
    return re.sub(r"[0-9a-f]{32,}", "#", os.path.basename(path)).rsplit("-", 1)[0] if path.startswith("/") else path


def c01():
    gate.enable()
    chk = vlib.Check("C01")
    L.setup()
    work = os.path.join(vlib.scratch(), "w")
    os.makedirs(work)
    chk.assumptions += ["file systems commit metadata in order; a sync commits everything before it; data not synced since its last write may be lost",
                        "crash points are the libc calls under the cache root (the LD_PRELOAD gate sees them all)"]
    model(chk)
    try:
        ref = L.reference(work, GENS)
    except L.UndisturbedFailure as e:
        chk.violation("an undisturbed construction failed", dict(outcome=e.args[0]))
        chk.finish()
    t = templates(work)
    level = [(name, path, name in ("complete",), {OLD}) for name, path in sorted(t.items())]
    known = set()
    total = 0
    depth = 3 if vlib.THOROUGH else 2
    gen = NEW
    for d in range(depth):
        jobs = []
        for name, path, kept, gens in level:
            for ow in (False, True):
                root = start(path, work)
                try:
                    w, c = dry(root, ref, ow, gen)
                except gate.Hang:
                    chk.violation("an undisturbed construction hangs", dict(start=name, ow=ow))
                    continue
                pts = crash_points(w.steps)
                syncs = [k for k, s in enumerate(w.steps) if s[0] == "fsync"]
                lastsync = (syncs[-1] + 1) if syncs else len(w.steps) + 9
                points = [(k, "plain") for k in pts] + [(len(w.steps), "plain")]
                points += [(k, "short") for k in pts if w.steps[k][0] == "write"]
                if d == 0 or vlib.THOROUGH:
                    points += [(k, v) for k in pts + [len(w.steps)] for v in ("empty", "zero")]
                if d >= 1 and not vlib.THOROUGH:
                    # quick: later crashes only around the steps that move bundles about
                    points = [(k, v) for k, v in points if v == "plain"]
                for part in vlib.chunks(points, 4):
                    jobs.append((path, work, ref, ow, gen, kept, gens, part, name, d + 1 < depth, lastsync, len(w.steps)))
        chk.rng.shuffle(jobs)
        recs = vlib.collect(chk, vlib.pmap(crash_job, jobs), "crash")
        for r in [r for r in recs if r["hang"]]:
            chk.violation("a constructor hangs", dict(start=r["src"], ow=r["ow"], step=r["k"]))
        recs = [r for r in recs if not r["hang"]]
        total += len(recs)
        for i, clause in vlib.judge(chk, "CacheTrace", [public(r, CRASH_FIELDS) for r in recs], name="crash histories"):
            r = recs[i]
            chk.violation(clause, dict(start=r["src"], ow=r["ow"], variant=r["variant"], before=[r["step"][0], relname(r["step"][1])],
                                       finals=r["finals"], kept=r["kept"], probe=r["probe"], second=r["second"],
                                       left=r["leftnames"], msg=r["msg"]),
                          key="%s|%s|%s|%s|%s" % (clause, r["src"].split("/")[0], r["ow"], r["variant"], r["step"][0]))
        for r in recs[::max(1, len(recs) // 3)]:
            chk.sample(dict(start=r["src"], ow=r["ow"], killed_before=list(r["step"])[:1] + [relname(r["step"][1])], found=r["snap"], next=r["probe"]))
        # the next level starts from every new kind of wreckage
        nxt = []
        for r in recs:
            if r["saved"] is None or r["variant"] in ("zero",) and not vlib.THOROUGH:
                continue
            sig = (r["snap"]["final"], tuple(r["snap"]["residuals"]), r["kept"])
            if sig in known:
                continue
            known.add(sig)
            nxt.append(("%s/%d%s%s" % (r["src"], r["k"], r["variant"][0], "o" if r["ow"] else ""), r["saved"], r["kept"], set(r["gens"])))
        level = nxt
        gen += 1
    chk.cov["crash_histories"] = total
    chk.cov["distinct_wreckage"] = len(known)
    chk.finish()


def model(chk):
    vlib.model_check(chk, "CacheStore", "MCCacheStore.cfg")
    vlib.model_check(chk, "CacheStore", "MCCacheStore3.cfg")
    if vlib.THOROUGH:
        vlib.model_check(chk, "CacheStore", "MCCacheStoreLive.cfg")
        cfg = open(os.path.join(vlib.SPEC, "MCCacheStore.cfg")).read().replace("MaxFault = 1", "MaxFault = 2").replace("MaxCrash = 2", "MaxCrash = 3")
        vlib.model_check(chk, "CacheStore", cfg, timeout=1800)


# ----------------------------------------------------------------------- C04
ERRNOS = {
    "open": ["EACCES", "EMFILE", "EIO", "ENFILE"], "openw": ["EACCES", "EMFILE", "EIO", "EROFS"],
    "create": ["ENOSPC", "EACCES", "EMFILE", "EIO", "EROFS", "EDQUOT"], "opendir": ["EACCES", "EMFILE", "EIO"],
    "rename": ["EIO", "EACCES", "EBUSY", "ENOSPC", "EPERM"], "exchange": ["EINVAL", "EIO"], "link": ["EIO", "EPERM"], "symlink": ["EIO"],
    "unlink": ["EACCES", "EBUSY", "EIO", "EPERM"], "rmdir": ["EACCES", "EBUSY", "EIO", "EPERM"],
    "mkdir": ["ENOSPC", "EACCES", "EROFS", "EIO"], "truncate": ["EIO", "ENOSPC"], "chmod": ["EPERM", "EIO"], "fsync": ["EIO", "ENOSPC"],
    "write": ["ENOSPC", "EIO", "EDQUOT", "short", "zero"], "read": ["EIO"], "list": ["EIO", "EMFILE", "EACCES"], "stat": ["EIO", "EACCES"],
    "lock": ["ENOLCK", "EIO"], "unlock": ["EIO"],
}


def fault_job(job):
    src, work, ref, ow, gen, before, gens, points, name = job
    recs = []
    for plan in points:
        root = start(src, work)
        w = Watch(root, ref)
        hit = []

        def on_step(ch, op, p, a, i):
            w.seen(op, p, a)
            for k, e in plan:
                if i == k and op in ERRNOS:
                    hit.append((op, relname(p), e))
                    if e == "short":
                        return b"s1"
                    if e == "zero":
                        return b"s0"
                    return b"e%d" % getattr(errno, e)
            return None

        base = dict(kind="fault", src=name, ow=ow, gen=gen, gens=sorted(gens), before=before, plan=plan, pgen=PGEN, sgen=SGEN)
        try:
            c = gate.run_alone(root, L.ctor(root, ow, gen), on_step)
        except gate.Hang:
            recs.append(dict(base, alive=False, o=DEAD, finals=[], lockfree=False, probe=DEAD, second=DEAD, hit=hit, msg="",
                             probe_alive=False, second_alive=False, snap={}))
            continue
        o = c.result
        w.seen("end", "", "")
        snap = L.snapshot(root, ref)
        more = settle(root, ref)
        more.pop("lockfree")
        recs.append(dict(base, alive=o is not None, o=out_rec(o) if o else DEAD, finals=w.finals, lockfree=w.lockfree, hit=hit,
                         snap=snap, omsg=(o or {}).get("msg", ""), **more))
    return recs


FAULT_FIELDS = ["kind", "alive", "o", "gen", "gens", "before", "ow", "finals", "lockfree", "probe", "second", "sgen", "probe_alive",
                "second_alive"]


def c04():
    gate.enable()
    chk = vlib.Check("C04")
    L.setup()
    work = os.path.join(vlib.scratch(), "w")
    os.makedirs(work)
    chk.assumptions += ["a failing call has no effect, except short writes", "marks of the harness itself do not fail"]
    model(chk)
    try:
        ref = L.reference(work, GENS)
    except L.UndisturbedFailure as e:
        chk.violation("an undisturbed construction failed", dict(outcome=e.args[0]))
        chk.finish()
    t = templates(work)
    # wreckage of dead constructors, made by killing real ones
    wrecks = wreckage(chk, work, ref, t)
    starts = [("fresh", t["fresh"], False, 0), ("complete", t["complete"], True, OLD), ("complete", t["complete"], False, OLD),
              ("corrupt", t["corrupt"], False, -1), ("corrupt", t["corrupt"], True, -1), ("nomanifest", t["nomanifest"], False, -1)]
    for name, path, final in wrecks:
        starts += [(name, path, False, final), (name, path, True, final)]
    jobs = []
    for name, path, ow, before in starts:
        root = start(path, work)
        try:
            w, c = dry(root, ref, ow, NEW2)
        except gate.Hang:
            chk.violation("an undisturbed construction hangs", dict(start=name, ow=ow))
            continue
        plans = []
        for k, (op, p, a) in enumerate(w.steps):
            errs = ERRNOS.get(op, [])
            # a rename publishes, moves aside or restores: every way of failing counts
            if not vlib.THOROUGH and len(errs) > 2 and not (op == "rename" and ow):
                if name == "complete" and ow:
                    errs = chk.rng.sample(errs, 3)
                else:
                    errs = chk.rng.sample(errs, 2 if name in ("fresh", "corrupt", "complete") else 1)
            plans += [[(k, e)] for e in errs]
        if vlib.THOROUGH:
            idx = [k for k, s in enumerate(w.steps) if s[0] in ERRNOS]
            for _ in range(400):
                a, b = sorted(chk.rng.sample(idx, 2))
                plans.append([(a, chk.rng.choice(ERRNOS[w.steps[a][0]])), (b, chk.rng.choice(ERRNOS[w.steps[b][0]]))])
        for part in vlib.chunks(plans, 8):
            jobs.append((path, work, ref, ow, NEW2, before, {OLD, NEW}, part, name))
    chk.rng.shuffle(jobs)
    recs = vlib.collect(chk, vlib.pmap(fault_job, jobs, timeout=1200), "fault")
    for i, clause in vlib.judge(chk, "CacheTrace", [public(r, FAULT_FIELDS) for r in recs], name="fault histories"):
        r = recs[i]
        if len(r["plan"]) > 1 and clause in TWO_FAULTS_EXEMPT:
            continue
        chk.violation(clause, dict(start=r["src"], ow=r["ow"], faults=r["hit"], outcome=r["o"], finals=r["finals"], probe=r["probe"],
                                   second=r["second"], after=r["snap"], msg=[r.get("omsg"), r["msg"]]),
                      key="%s|%s|%s|%s" % (clause, r["src"], r["ow"], json.dumps(r["hit"])))
    for r in recs[::max(1, len(recs) // 4)]:
        chk.sample(dict(start=r["src"], ow=r["ow"], faults=r["hit"], outcome=r["o"], next=r["probe"]))
    chk.cov["fault_plans"] = len(recs)
    chk.finish()


# the property speaks of a single failing operation; pairs are explored for soundness of results only
TWO_FAULTS_EXEMPT = {"a failed replacement did not put the old bundle back",
                     "the old bundle was lost by a failed replacement"}


def wreckage(chk, work, ref, t):
    """Directories with residuals, left by real constructors killed in the middle."""
    out = []
    seen = set()
    for name, ow in (("complete", True), ("corrupt", False)):
        root = start(t[name], work)
        w, _ = dry(root, ref, ow, NEW)
        for k in crash_points(w.steps):
            root = start(t[name], work)
            gate.run_alone(root, L.ctor(root, ow, NEW), lambda ch, op, p, a, i: "kill" if i == k else None)
            s = L.snapshot(root, ref)
            kinds = tuple(sorted(x.split("=")[0] + ("c" if "=C" in x else "p") for x in s["residuals"]))
            sig = (s["final"], kinds)
            if not s["residuals"] or sig in seen:
                continue
            seen.add(sig)
            dst = os.path.join(work, "wreck-%s-%d" % (name, k))
            shutil.copytree(root, dst, symlinks=True)
            out.append(("wreck:%s:%s" % (s["final"], "+".join(kinds)), dst, num(s["final"])))
    return out


# ----------------------------------------------------------------------- C02
MILESTONES = {"lock", "unlock", "mark", "rename", "exchange", "rmdir", "link", "unlink"}


def run_schedule(src, work, ref, ows, gens, plan):
    """plan: list of (process index, how) where how is ('steps', n), ('miles', n), ('until', 'sleep')
    or ('end',); afterwards everybody runs to the end."""
    root = start(src, work)
    final = os.fspath(L.bundle(root).path)
    lock = os.fspath(L.bundle(root).lock_path)
    parents = {os.fspath(x) for x in (L.bundle(root).parent, L.bundle(root).parent.parent, root)}
    w = gate.World(root)
    marks, trace = [], []

    def note(c, i):
        op, path, arg = c.pending
        if op == "mark" and path in ("build-start", "build-end"):
            marks.append([i + 1, 1])
        elif op in L.MUTATORS and path not in (lock,) and path not in parents:
            marks.append([i + 1, 1])
        elif op == "unlock" and path == lock or op == "mark" and path == "over":
            marks.append([i + 1, 2])

    def step(i):
        c = w.children[i]
        note(c, i)
        c.grant()

    alive = True
    try:
        for i in range(len(ows)):
            w.spawn(L.ctor(root, ows[i], gens[i]), "p%d" % i)
        for i, how in plan:
            c = w.children[i]
            n = 0
            while not c.over:
                if how[0] in ("steps", "miles") and n >= how[1]:
                    break
                if how[0] != "sleepless" and c.pending[0] == "sleep":
                    if how[0] == "until" and n > 0 or how[0] != "until":
                        break
                mile = c.pending[0] in MILESTONES
                step(i)
                n += 1 if how[0] == "steps" or how[0] == "until" or mile else 0
        n = 0
        while any(not c.over for c in w.children):
            for i, c in enumerate(w.children):
                while not c.over:
                    asleep = c.pending[0] == "sleep"
                    step(i)
                    n += 1
                    if asleep:
                        break
            if n > 200000:
                raise gate.Hang("no end")
    except gate.Hang:
        alive = False
    finally:
        w.close()
    outs = [c.result or DEAD for c in w.children]
    if any(c.result is None for c in w.children):
        alive = False
    snap = L.snapshot(root, ref)
    del trace, final
    return dict(kind="sched", alive=alive, outs=[out_rec(o) for o in outs], ows=list(ows), gens=list(gens), marks=marks,
                after=num(snap["final"]), left=len(snap["residuals"]), msgs=[o.get("msg", "") for o in outs], snap=snap)


def sched_job(job):
    src, work, ref, name, before, ows, gens, plans = job
    out = []
    for plan in plans:
        r = run_schedule(src, work, ref, ows, gens, plan)
        r.update(src=name, before=before, plan=plan)
        out.append(r)
    return out


def c02():
    gate.enable()
    chk = vlib.Check("C02")
    L.setup()
    work = os.path.join(vlib.scratch(), "w")
    os.makedirs(work)
    model(chk)
    try:
        ref = L.reference(work, GENS)
    except L.UndisturbedFailure as e:
        chk.violation("an undisturbed construction failed", dict(outcome=e.args[0]))
        chk.finish()
    t = templates(work)
    wrecks = wreckage(chk, work, ref, t)
    starts = [("fresh", t["fresh"], 0), ("complete", t["complete"], OLD), ("corrupt", t["corrupt"], -1)]
    starts += wrecks if vlib.THOROUGH else wrecks[:4]
    jobs = []
    for name, path, before in starts:
        # a bundle moved aside by a dead constructor counts as there (the next one recovers it)
        effective = before
        if before == 0 and "previousc" in name:
            effective = OLD
        for ows in ((False, False), (False, True), (True, False), (True, True)):
            root = start(path, work)
            try:
                w, c = dry(root, ref, ows[0], NEW)
            except gate.Hang:
                chk.violation("an undisturbed construction hangs", dict(start=name))
                continue
            n = len(w.steps)
            plans = [[(0, ("steps", k)), (1, ("until",)), (0, ("end",))] for k in range(0, n + 1)]
            if name.startswith("wreck"):
                plans = plans[::2]
            extra = 300 if vlib.THOROUGH else 40
            for _ in range(extra):
                a, b = chk.rng.randint(0, n), chk.rng.randint(0, n)
                c3 = chk.rng.randint(0, n)
                plans.append([(0, ("steps", a)), (1, ("steps", b)), (0, ("steps", c3)), (1, ("until",)), (0, ("end",))])
            for part in vlib.chunks(plans, 4):
                jobs.append((path, work, ref, name, effective, ows, (NEW, NEW2), part))
    # behaviours of the specification as schedules of three constructors
    num_beh = 3000 if vlib.THOROUGH else 600
    res = vlib.must(vlib.run_tlc("CacheSched", "CacheSched.cfg", workers=1,
                                 extra=["-simulate", "num=%d" % num_beh, "-depth", "100", "-seed", str(vlib.SEED)]), "CacheSched")
    chk.add_tlc(res, "CacheSched")
    beh = {x for x in (json.loads(json.loads(y)) and y for y in res.prints("GEN"))}
    by = {}
    for y in sorted(beh):
        g = json.loads(json.loads(y))
        by.setdefault((g["init"], tuple(g["ow"])), []).append(g)
    init_src = {0: ("fresh", t["fresh"], 0), -1: ("corrupt", t["corrupt"], -1), 100: ("complete", t["complete"], OLD)}
    nb = 0
    for (init, ows), gs in sorted(by.items()):
        name, path, before = init_src[init]
        plans = []
        for g in gs:
            # one abstract step = one milestone of the real constructor
            plans.append([(p - 1, ("miles", 1)) for p in g["sched"]])
            nb += 1
        for part in vlib.chunks(plans, 4):
            jobs.append((path, work, ref, "spec:" + name, before, ows, (NEW, NEW2, 4), part))
    chk.rng.shuffle(jobs)
    recs = vlib.collect(chk, vlib.pmap(sched_job, jobs, timeout=1200), "sched")
    fields = ["kind", "alive", "outs", "ows", "gens", "marks", "before", "after"]
    for i, clause in vlib.judge(chk, "CacheTrace", [public(r, fields) for r in recs], name="schedules"):
        r = recs[i]
        chk.violation(clause, dict(start=r["src"], ows=r["ows"], plan=r["plan"][:60], outs=r["outs"], msgs=r["msgs"], after=r["snap"]),
                      key="%s|%s|%s" % (clause, r["src"], r["ows"]))
    chk.cov["schedules"] = len(recs)
    chk.cov["spec_behaviours_replayed"] = nb
    for r in recs[::max(1, len(recs) // 4)]:
        chk.sample(dict(start=r["src"], ows=r["ows"], plan=r["plan"][:8], outs=r["outs"]))
    chk.finish()
