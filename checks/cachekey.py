"""C03, C05: identity and integrity of bundles, and containment (spec/CacheIdentity.tla,
CacheLayout.tla, NamePath.tla, judged by KeyTrace.tla)."""
import contextlib
import hashlib
import itertools
import json
import os
import platform
import shutil

import cachelib as L
import vlib

F1, F2, F3 = "f" * 64, "f" * 63 + "e", "0" + "f" * 63

# identity families: three identities that differ in one respect (or swap two respects)
FAMILIES = {
    "prefix": [dict(prefix="p"), dict(prefix="p.x"), dict(prefix="P")],
    "ordertype": [dict(ordertype="tn"), dict(ordertype="itn"), dict(ordertype="en_tn")],
    "swapped": [dict(prefix="tn", ordertype="itn"), dict(prefix="itn", ordertype="tn"), dict(prefix="tn", ordertype="tn")],
    "fingerprint": [dict(fp=F1), dict(fp=F2), dict(fp=F3)],
    "builder": [dict(pynini="2.1.6"), dict(pynini="2.1.60"), dict(pynini="2.1.6", impl="PyPy")],
    "flags": [dict(config={"a": True, "b": False}), dict(config={"a": False, "b": True}), dict(config={"a": True, "b": True})],
    "presence": [dict(config={}), dict(config={"a": None}), dict(config={"a": False})],
    "types": [dict(config={"a": 1}), dict(config={"a": "1"}), dict(config={"a": 1.5})],
    "names": [dict(config={"a": "b"}), dict(config={"b": "a"}), dict(config={"ab": ""})],
    "nested": [dict(config={"a": {"b": 1}}), dict(config={"a": {"b": 2}}), dict(config={"a": {"c": 1}})],
    "lists": [dict(config={"a": [1, 2]}), dict(config={"a": [2, 1]}), dict(config={"a": [1, 2, 2]})],
    "unicode": [dict(config={"a": "年"}), dict(config={"a": "年 "}), dict(config={"a": "\\u5e74"})],
    "respects": [dict(config={"ordertype": "tn"}), dict(config={"prefix": "probe"}), dict(config={})],
}


@contextlib.contextmanager
def identity(d):
    """Makes the process a constructor of identity d; yields the arguments of cachelib."""
    import pynini
    saved = (L._state["fingerprint"], pynini.__version__, platform.python_implementation)
    L._state["fingerprint"] = d.get("fp", F1)
    if "pynini" in d:
        pynini.__version__ = d["pynini"]
    if "impl" in d:
        platform.python_implementation = lambda: d["impl"]
    try:
        yield {k: d[k] for k in ("prefix", "ordertype", "config") if k in d}
    finally:
        L._state["fingerprint"], pynini.__version__, platform.python_implementation = saved


def path_of(root, d):
    with identity(d) as kw:
        kw = dict(kw)
        if "config" in kw:
            kw["cache_config"] = kw.pop("config")
        return os.fspath(L.bundle(root, **kw).path)


def o_rec(o):
    return dict(exc=o["exc"], t=o["t"], v=o["v"], built=o["built"])


# ------------------------------------------------------------------ histories
def damage(path, kind, rng):
    files = sorted(os.listdir(path))
    fsts = [f for f in files if f.endswith(".fst")] or files
    f = os.path.join(path, rng.choice(fsts))
    if kind == 1:                                       # content
        how = rng.choice(["flip", "truncate", "swap", "grow"])
        if how == "flip":
            with open(f, "r+b") as h:
                k = rng.randrange(os.path.getsize(f))
                h.seek(k)
                c = h.read(1)
                h.seek(k)
                h.write(bytes([c[0] ^ (1 << rng.randrange(8))]))
        elif how == "truncate":
            os.truncate(f, rng.randrange(os.path.getsize(f)))
        elif how == "grow":
            with open(f, "ab") as h:
                h.write(b"\0")
        else:
            a, b = os.path.join(path, fsts[0]), os.path.join(path, fsts[-1])
            os.rename(a, a + "~")
            os.rename(b, a)
            os.rename(a + "~", b)
    else:                                               # presence
        how = "missing"
        os.unlink(os.path.join(path, rng.choice(files)))
    return how


def hist_job(job):
    import random
    work, items, seed = job
    recs = []
    for n, (hist, fam) in enumerate(items):
        rng = random.Random(seed * 7919 + n)
        root = os.path.join(work, "h-%d" % os.getpid())
        shutil.rmtree(root, ignore_errors=True)
        ids = FAMILIES[fam]
        outs, gen = [], 0
        for e in hist:
            d = ids[e["i"] - 1]
            o = dict(exc="", t=0, v=0, built=False)
            if e["what"] == "construct":
                gen += 1
                with identity(d) as kw:
                    if "config" in kw and n % 2:       # the same configuration written in another order
                        kw["config"] = dict(reversed(list(kw["config"].items())))
                    o = o_rec(L.construct(root, e["ow"], gen, **kw))
            elif e["what"] == "changed":
                gen += 1
                with identity(d) as kw:

                    def switch():
                        L._state["fingerprint"] = ids[e["j"] - 1].get("fp") or F3
                        if L._state["fingerprint"] == d.get("fp", F1):
                            L._state["fingerprint"] = F2

                    o = o_rec(L.construct(root, e["ow"], gen, during=switch, **kw))
            elif not os.path.isdir(path_of(root, d)):
                pass                                   # the code did not leave the bundle where its name says: judged above
            elif e["what"] == "damage":
                damage(path_of(root, d), e["j"], rng)
            elif e["what"] == "copy":
                src, dst = path_of(root, d), path_of(root, ids[e["j"] - 1])
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                if src != dst:
                    shutil.rmtree(dst, ignore_errors=True)
                    shutil.copytree(src, dst)
            elif e["what"] == "touch":
                p = path_of(root, d)
                os.utime(p, (1, 1))
                for f in os.listdir(p):
                    os.utime(os.path.join(p, f), (5, 5))
            outs.append(o)
        shutil.rmtree(root, ignore_errors=True)
        recs.append(dict(kind="hist", want=hist, o=outs, fam=fam))
    return recs


# ------------------------------------------------------------------ tampering
IDENTITY_KEYS = ("builder", "config", "ordertype", "prefix", "source_fingerprint")


def leaves(v, path=()):
    if isinstance(v, dict):
        for k in sorted(v):
            yield from leaves(v[k], path + (k,))
    else:
        yield path


def tampers(tmpl, other, rng, full):
    """(name, function(bundle directory), identity or graphs touched by design)."""
    out = []
    names = sorted(os.listdir(tmpl))
    fsts = [n for n in names if n.endswith(".fst")]
    manifest = [n for n in names if n.endswith(".json")]

    def put(name, data):
        def run(b):
            with open(os.path.join(b, name), "wb") as f:
                f.write(data)
        return run

    for n in names:
        data = open(os.path.join(tmpl, n), "rb").read()
        size = len(data)
        spots = range(size) if full else sorted(set(rng.sample(range(size), min(size, 60)) + [0, 1, size // 2, size - 2, size - 1]))
        for k in spots:
            out.append(("flip %s@%d" % (n, k), put(n, data[:k] + bytes([data[k] ^ (1 << rng.randrange(8))]) + data[k + 1:])))
        for k in sorted({0, 1, size // 2, size - 1, size - 4, size - 16}):
            out.append(("truncate %s to %d" % (n, k), put(n, data[:k])))
        for tail in (b"\0", b"\n", b" ", b"x" * 4096, data):
            out.append(("extend %s by %d" % (n, len(tail)), put(n, data + tail)))
        out.append(("zero %s" % n, put(n, b"\0" * size)))
        out.append(("delete %s" % n, lambda b, n=n: os.unlink(os.path.join(b, n))))
        out.append(("rename %s" % n, lambda b, n=n: os.rename(os.path.join(b, n), os.path.join(b, n.upper()))))
        if n in fsts:
            for k in rng.sample(range(size), min(size, 20)):          # moved bytes: same size, same multiset
                j = rng.randrange(size)
                d = bytearray(data)
                d[k], d[j] = d[j], d[k]
                out.append(("exchange bytes %d,%d of %s" % (k, j, n), put(n, bytes(d))))
            out.append(("other build's %s" % n, put(n, open(os.path.join(other, n), "rb").read())))
    if len(fsts) == 2:
        def swap(b):
            x, y = (os.path.join(b, f) for f in fsts)
            os.rename(x, x + "~")
            os.rename(y, x)
            os.rename(x + "~", y)
        out.append(("swap the graphs", swap))
        out.append(("both graphs of another build", lambda b: [shutil.copyfile(os.path.join(other, f), os.path.join(b, f)) for f in fsts]))
        out.append(("the tagger twice", lambda b: shutil.copyfile(os.path.join(b, fsts[0]), os.path.join(b, fsts[1]))))
    for extra in ("x", "tagger.fst~", ".hidden", "TAGGER.FST"):
        out.append(("extra file " + extra, put(extra, b"y")))
    out.append(("extra directory", lambda b: os.mkdir(os.path.join(b, "d"))))
    out.append(("empty bundle", lambda b: [os.unlink(os.path.join(b, n)) for n in names]))
    for m in manifest:
        raw = open(os.path.join(tmpl, m), "rb").read()
        try:
            doc = json.loads(raw)
        except ValueError:
            continue

        def text(s):
            return put(m, s if isinstance(s, bytes) else s.encode("utf-8", "surrogatepass"))

        out += [("manifest reindented", text(json.dumps(doc, indent=3))), ("manifest reordered", text(json.dumps(dict(reversed(list(doc.items()))))))]
        for s in ("", "null", "[]", "{}", "0", '"x"', "{", "nan", "[" * 200000, '{"a":' * 100000, "1" * 5000, b"\xff\xfe", "\ufeff" + json.dumps(doc),
                  b"\xff" + raw, raw.decode("utf-8").encode("utf-16"), "[" + raw.decode() + "]", raw.decode() + "{}",
                  '{"a": "\\ud800"}', json.dumps(doc)[:-1] + ', "big": ' + "9" * 6000 + "}", " " * (1 << 20) + raw.decode()):
            out.append(("manifest %r" % (s[:12],), text(s)))
        for path in list(leaves(doc)):
            for new in ("x", 0, 1, -1, 1 << 70, 1.5, True, None, [], {}, "1", float("nan"), float("inf")):
                d = json.loads(raw)
                node = d
                for k in path[:-1]:
                    node = node[k]
                old = node[path[-1]]
                if type(old) in (int, float, bool) and type(new) in (int, float, bool) and old == new:
                    continue
                if old == new:
                    continue
                node[path[-1]] = new
                out.append(("manifest %s = %r" % ("/".join(path), new), text(json.dumps(d))))
        for path in list(leaves(doc)) + [(k,) for k in doc]:
            d = json.loads(raw)
            node = d
            for k in path[:-1]:
                node = node[k]
            node.pop(path[-1], None)
            out.append(("manifest without " + "/".join(path), text(json.dumps(d))))
        for extra in ("a", "files2"):
            d = json.loads(raw)
            d[extra] = 1
            out.append(("manifest with " + extra, text(json.dumps(d))))
        for f in fsts:                                        # consistent with wrong content, but not of this size
            d = json.loads(raw)
            if isinstance(d.get("files"), dict):
                d["files"] = {k: v for k, v in d["files"].items() if k != f}
                out.append(("manifest lists no " + f, text(json.dumps(d))))
                d = json.loads(raw)
                d["files"] = {k: d["files"][g] for k, g in zip(fsts, reversed(fsts)) if g in d["files"]}
                out.append(("manifest lists the graphs crosswise", text(json.dumps(d))))
    return out


def tamper_job(job):
    work, tmpl_root, rel, other, names, seed = job
    import random
    rng = random.Random(seed)
    tmpl = os.path.join(tmpl_root, rel)
    allt = {}
    for name, fn in tampers(tmpl, other, rng, vlib.THOROUGH):
        allt.setdefault(name, fn)
    good = L.filemap(tmpl)
    doc = load_manifest(tmpl)
    recs = []
    root = os.path.join(work, "t-%d" % os.getpid())
    for name in names:
        L.copy_tree(tmpl_root, root)
        b = os.path.join(root, rel)
        allt[name](b)
        now = L.filemap(b)
        same = all(now.get(n) == good[n] for n in good if n.endswith(".fst"))
        d = load_manifest(b)
        if same and d is not None and doc is not None:
            same = all(k not in doc or d.get(k) == doc[k] and type(d.get(k)) is type(doc[k]) for k in IDENTITY_KEYS)
        o = o_rec(L.construct(root, False, 2))
        again = o_rec(L.construct(root, False, 3))
        recs.append(dict(kind="tamper", name=name, same=bool(same), o=o, again=again, gen=2, old=1))
    shutil.rmtree(root, ignore_errors=True)
    return recs


def load_manifest(b):
    try:
        m = [n for n in os.listdir(b) if n.endswith(".json")]
        with open(os.path.join(b, m[0]), "rb") as f:
            v = json.loads(f.read())
        return v if isinstance(v, dict) else None
    except (OSError, ValueError, IndexError, RecursionError):
        return None


# ------------------------------------------------------------------ option matrix
CLASSES = [
    ("tn.chinese.normalizer", "Normalizer", ["remove_interjections", "remove_erhua", "traditional_to_simple", "remove_puncts", "full_to_half", "tag_oov"]),
    ("tn.japanese.normalizer", "Normalizer", ["transliterate", "remove_interjections", "remove_puncts", "full_to_half", "tag_oov"]),
    ("itn.chinese.inverse_normalizer", "InverseNormalizer", ["remove_interjections", "enable_standalone_number", "enable_0_to_9", "enable_million"]),
    ("itn.japanese.inverse_normalizer", "InverseNormalizer", ["full_to_half", "enable_standalone_number", "enable_0_to_9", "enable_million"]),
    ("tn.english.normalizer", "Normalizer", []),
    ("itn.english.inverse_normalizer", "InverseNormalizer", []),
]


def matrix(work, rng):
    """All option settings of the six pipelines on one shared root, each twice, in random order."""
    import importlib
    import pynini
    from pynini.lib.pynutil import insert
    runs = []
    for mod, cls, opts in CLASSES:
        for vals in itertools.product((True, False), repeat=len(opts)):
            runs.append((mod, cls, dict(zip(opts, vals))))
    runs = [r for r in runs for _ in range(2)]
    # (the first pass meets every setting once, the second in another order)
    first = runs[::2]
    second = list(first)
    rng.shuffle(first)
    rng.shuffle(second)
    root = os.path.join(work, "matrix")
    keys, built, exc, excused, seen = [], [], [], [], {}
    count = [0]

    def stub(self):
        count[0] += 1
        self.hit = False
        self.tagger = pynini.cross("a", 'tok { value: "%d" }' % count[0])
        self.verbalizer = insert("x") + pynini.accep("b") + pynini.accep(str(count[0]))

    originals = {}
    for mod, cls, _ in CLASSES:
        c = getattr(importlib.import_module(mod), cls)
        originals[c] = c.__dict__.get("build_tagger_and_verbalizer")
        c.build_tagger_and_verbalizer = stub
    bytag = {}
    try:
        for mod, cls, kw in first + second:
            c = getattr(importlib.import_module(mod), cls)
            n = count[0]
            key = "%s %s" % (mod, " ".join(k for k in sorted(kw) if kw[k]))
            e, p = vlib.call(c, cache_dir=root, **kw)
            keys.append(key)
            exc.append(e)
            built.append(count[0] != n)
            tag = p.tagger.string("byte") if False else (p.tagger.write_to_string() if not e else b"")
            excused.append(False)
            if not e:
                if count[0] == n and key not in seen:
                    excused[-1] = None
                    bytag[len(keys) - 1] = (c, kw, seen_by(tag, seen))
                seen.setdefault(key, (tag, kw, c))
    finally:
        for c, fn in originals.items():
            if fn is None:
                del c.build_tagger_and_verbalizer
            else:
                c.build_tagger_and_verbalizer = fn
    # a setting that was served by another's bundle is fine only if the real graphs are the same
    for k, (c, kw, who) in bytag.items():
        ok = False
        if who is not None:
            kw2, c2 = who
            e1, a = vlib.call(c, cache_dir=False, limit=300, **kw)
            e2, b = vlib.call(c2, cache_dir=False, limit=300, **kw2)
            ok = not e1 and not e2 and (a.tagger.write_to_string(), a.verbalizer.write_to_string()) == (b.tagger.write_to_string(), b.verbalizer.write_to_string())
        excused[k] = ok
    shutil.rmtree(root, ignore_errors=True)
    return dict(kind="matrix", keys=keys, built=built, exc=exc, excused=[bool(x) for x in excused])


def seen_by(tag, seen):
    for t, kw, c in seen.values():
        if t == tag:
            return kw, c
    return None


def c03():
    chk = vlib.Check("C03")
    L.setup()
    work = os.path.join(vlib.scratch(), "w")
    os.makedirs(work)
    vlib.model_check(chk, "CacheIdentity", "MCCacheIdentity.cfg")
    num = 6000 if vlib.THOROUGH else 900
    res = vlib.must(vlib.run_tlc("CacheIdentity", "CacheIdentity.cfg", workers=1,
                                 extra=["-simulate", "num=%d" % num, "-depth", "12", "-seed", str(vlib.SEED)]), "CacheIdentity")
    chk.add_tlc(res, "CacheIdentity")
    hists = [json.loads(json.loads(x)) for x in sorted(set(res.prints("GEN")))]
    hists = chk.rng.sample(hists, min(len(hists), num))
    fams = sorted(FAMILIES)
    items = [(h, fams[k % len(fams)]) for k, h in enumerate(hists)]
    try:
        L.reference(work, [1])
    except L.UndisturbedFailure as e:
        chk.violation("an undisturbed construction failed", dict(outcome=e.args[0]))
        chk.finish()
    recs = vlib.collect(chk, vlib.pmap(hist_job, [(work, c, vlib.SEED * 100 + k) for k, c in enumerate(vlib.chunks(items, 24))]), "histories")
    # tampering
    troot, oroot = os.path.join(work, "tmpl"), os.path.join(work, "other")
    L.construct(troot, False, 1)
    L.construct(oroot, False, 7)
    rel = os.path.relpath(os.fspath(L.bundle(troot).path), troot)
    tmpl, other = os.path.join(troot, rel), os.path.join(oroot, os.path.relpath(os.fspath(L.bundle(oroot).path), oroot))
    import random
    names = list(dict.fromkeys(n for n, _ in tampers(tmpl, other, random.Random(vlib.SEED), vlib.THOROUGH)))
    jobs = [(work, troot, rel, other, c, vlib.SEED) for c in vlib.chunks(names, 32)]
    recs += vlib.collect(chk, vlib.pmap(tamper_job, jobs), "tampering")
    recs.append(matrix(work, chk.rng))
    for r in recs:
        r.setdefault("same", False)
    hist = [r for r in recs if r["kind"] == "hist"]
    for i, clause in vlib.judge(chk, "KeyTrace", recs, name="identity and tampering"):
        r = recs[i]
        if r["kind"] == "hist":
            detail = dict(family=r["fam"], history=[(e["what"], e["i"], e["j"], e["ow"], e["built"], e["g"]) for e in r["want"]], outcomes=r["o"])
        elif r["kind"] == "tamper":
            detail = dict(tamper=r["name"], o=r["o"], again=r["again"])
        else:
            detail = dict(exc=[x for x in r["exc"] if x][:3], wrong=[k for k, b, x in zip(r["keys"], r["built"], r["excused"]) if not b and not x][:4])
        chk.violation(clause, detail, key="%s|%s|%s" % (clause, r["kind"], r.get("name") or r.get("fam") or ""))
    chk.cov["histories"] = len(hist)
    chk.cov["tampers"] = sum(r["kind"] == "tamper" for r in recs)
    chk.cov["option_settings"] = len(set(recs[-1]["keys"])) if recs and recs[-1]["kind"] == "matrix" else 0
    for r in hist[:2]:
        chk.sample(dict(family=r["fam"], history=r["want"], outcomes=r["o"]))
    for r in [r for r in recs if r["kind"] == "tamper"][::400]:
        chk.sample(dict(tamper=r["name"], outcome=r["o"]))
    chk.assumptions.append("SHA-256 has no collisions; a tamperer does not recompute the digests")
    chk.finish()


# ------------------------------------------------------------------ C05
EXT = 66


def digest(path):
    st = os.lstat(path)
    if os.path.islink(path):
        return ["link", os.readlink(path), st.st_mtime_ns]
    if os.path.isdir(path):
        return ["dir", oct(st.st_mode), st.st_mtime_ns]
    with open(path, "rb") as f:
        return ["file", hashlib.sha256(f.read()).hexdigest(), oct(st.st_mode), st.st_mtime_ns]


def tree(path, only=None):
    out = {}
    for d, ds, fs in os.walk(path):
        out[os.path.relpath(d, path)] = digest(d)
        for n in ds + fs:
            p = os.path.join(d, n)
            out[os.path.relpath(p, path)] = digest(p)
    return out


def differ(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


def place(path, kind, out, inside, good):
    """Puts an object of the given kind at path; good: the usual file's source."""
    if kind == "absent":
        return
    if kind == "dir" or kind == "emptydir":
        os.mkdir(path)
    elif kind == "tree":
        os.makedirs(os.path.join(path, "sub"))
        with open(os.path.join(path, "sub", "precious"), "w") as f:
            f.write("precious " + os.path.basename(path))
        with open(os.path.join(path, "notes"), "w") as f:
            f.write("notes " + os.path.basename(path))
    elif kind == "file":
        if good and os.path.exists(good):
            shutil.copyfile(good, path)
        else:
            with open(path, "wb") as f:
                f.write(b"precious file " + os.path.basename(path)[:12].encode())
    elif kind == "emptyfile":
        open(path, "w").close()
    elif kind == "linkdir":
        name = os.path.basename(path)                   # a bundle's place is linked to a bundle, an ancestor's to a chain
        os.symlink(os.path.join(out, "exact" if len(name) >= 64 and os.path.basename(os.path.dirname(os.path.dirname(path))) != "cache" else "bundle"), path)
    elif kind == "linkfile":
        base = os.path.basename(path)
        t = os.path.join(out, "same", base)
        os.symlink(t if os.path.exists(t) else os.path.join(out, "file"), path)
    elif kind == "dangling":
        os.symlink(os.path.join(out, "nowhere"), path)
    elif kind == "loop":
        os.symlink(os.path.basename(path), path)
    elif kind == "inside":
        os.symlink(inside, path)


FILENAME = {"tagger": "tagger.fst", "verbalizer": "verbalizer.fst", "manifest": "manifest.json", "extra": "keep.txt"}


def layout_job(job):
    work, box0, rel, layouts = job
    recs = []
    for kind, intact, odd, ow in layouts:
        box = os.path.join(work, "l-%d" % os.getpid())
        shutil.rmtree(box, ignore_errors=True)
        shutil.copytree(box0, box, symlinks=True)
        out, root, tmpl = (os.path.join(box, n) for n in ("outside", "cache", "good"))
        prefix, config, digest_ = rel.split(os.sep)
        pos = {"prefix": prefix, "config": prefix + "/" + config, "final": rel}
        cdir = prefix + "/" + config + "/"
        pos.update(lock=cdir + ".%s.lock" % digest_, tmp=cdir + ".%s.tmp-abc12345" % digest_,
                   previous=cdir + ".%s.previous-%s" % (digest_, "0" * 32), corrupt=cdir + ".%s.corrupt-%s" % (digest_, "1" * 32))
        inside = os.path.join(root, "elsewhere")
        precious = []
        for n in sorted(kind, key=lambda n: (n.count("/"), ["prefix", "config"].index(n) if n in ("prefix", "config") else 9)):
            if "/" in n:
                d, f = n.split("/")
                path = os.path.join(root, pos[d], FILENAME[f])
                good = os.path.join(tmpl, FILENAME[f])
            else:
                path, good = os.path.join(root, pos[n]), os.path.join(tmpl, "lock") if n == "lock" else ""
            if kind[n] == "absent":
                continue
            if kind[n] == "dir" and os.path.isdir(path):
                continue
            if os.path.lexists(path):
                shutil.rmtree(path) if os.path.isdir(path) and not os.path.islink(path) else os.unlink(path)
            place(path, kind[n], out, inside, good)
            if kind[n] == "dir" and n == "previous":
                # a recoverable residual holds both graphs
                shutil.copyfile(os.path.join(tmpl, "verbalizer.fst"), os.path.join(path, "verbalizer.fst"))
            if n.endswith("extra") and kind[n] == "file":
                precious.append("file")
            if kind[n] == "tree":
                precious.append("tree")
        if kind["prefix"] == "dir" and kind["config"] == "dir":
            # things of other keys beside the key's own
            c = os.path.join(root, prefix, config)
            for n in (".%s.tmp-zz" % ("0" * 64), ".%s.previous-x" % digest_[:-1], "%s.previous-x" % digest_, ".%s.keep" % digest_, "readme"):
                with open(os.path.join(c, n), "w") as f:
                    f.write("foreign " + n)
            for n in (".%s.corrupt-q" % ("0" * 64), "9" * 64, "x" + digest_, ".%s.previous-y" % digest_[:-1], ".%s0.tmp-y" % digest_,
                      ".%s.tmp-00" % ("9" * 64), "%s.tmp-z" % digest_, ".x.%s.corrupt-y" % digest_, ".%s.keep-y" % digest_):
                shutil.copytree(tmpl, os.path.join(c, n), ignore=shutil.ignore_patterns("lock"))
        def foreign():
            t = {}
            for top in sorted(os.listdir(root)):
                if top != prefix:
                    t[top] = digest(os.path.join(root, top))
                    if os.path.isdir(os.path.join(root, top)) and not os.path.islink(os.path.join(root, top)):
                        t.update({top + "/" + k: v for k, v in tree(os.path.join(root, top)).items()})
            pre = os.path.join(root, prefix)
            if os.path.isdir(pre) and not os.path.islink(pre):
                for k in os.listdir(pre):
                    if k != config:
                        t["p/" + k] = digest(os.path.join(pre, k))
                con = os.path.join(pre, config)
                if os.path.isdir(con) and not os.path.islink(con):
                    for k in os.listdir(con):
                        own = k == digest_ or k == ".%s.lock" % digest_ or any(k.startswith(".%s.%s-" % (digest_, w)) for w in ("tmp", "previous", "corrupt"))
                        if not own:
                            t["c/" + k] = digest(os.path.join(con, k))
                            if os.path.isdir(os.path.join(con, k)) and not os.path.islink(os.path.join(con, k)):
                                t.update({"c/" + k + "/" + q: v for q, v in tree(os.path.join(con, k)).items()})
            return t

        def keepsakes():
            """Contents of files that no bundle consists of, wherever they are."""
            res = []
            for d, _, fs in os.walk(root):
                for f in fs:
                    if f in ("precious", "notes", "keep.txt") and not os.path.islink(os.path.join(d, f)):
                        with open(os.path.join(d, f), "rb") as h:
                            res.append(f + ":" + h.read(40).decode("utf-8", "replace"))
            return sorted(res)

        out0, f0, k0 = tree(out), foreign(), keepsakes()
        top0 = sorted(os.listdir(box))
        o = L.construct(root, ow, 2)
        out1, f1, k1 = tree(out), foreign(), keepsakes()
        changed = differ(out0, out1) + [n for n in set(os.listdir(box)) ^ set(top0)]
        lost = differ(f0, f1) + [x for x in k0 if k0.count(x) > k1.count(x)]
        recs.append(dict(kind="layout", layout={n: k for n, k in kind.items() if n in odd}, base=[kind["final"], kind["tmp"]], ow=ow, intact=intact,
                         exc=o["exc"], o=o_rec(o), outside=changed[:5], foreign=lost[:5], ext=EXT, msg=o["msg"][:160]))
        shutil.rmtree(box, ignore_errors=True)
    return recs


def name_job(job):
    work, items = job
    recs = []
    from itn.utils import get_abs_path
    import itn.utils as iu
    pkg = os.path.dirname(os.path.realpath(iu.__file__))
    for x in items:
        s = ("/" if x["abs"] else "") + "/".join(x["name"])
        # cache prefix
        box = os.path.join(work, "n-%d" % os.getpid())
        shutil.rmtree(box, ignore_errors=True)
        root = os.path.join(box, "a", "b", "pkg", "itn")
        os.makedirs(root)
        os.makedirs(os.path.join(box, "a", "b", "pkg", "itnx"))
        before = tree(box)
        # an absolute name must never be acted upon: only ask where it would lead
        e, b = vlib.call(lambda: os.fspath(L.bundle(root, prefix=s).path))
        under = e != "" or os.path.realpath(b).startswith(os.path.realpath(root) + os.sep)
        if not x["abs"] and not e and under:
            e = L.construct(root, False, 1, prefix=s)["exc"]
            touched = False
        else:
            touched = differ(before, tree(box)) != []
        recs.append(dict(kind="name", what="prefix", name=s, inside=bool(x["strict"] and not x["abs"]), must=bool(x["single"]), exc=e, under=under, touched=touched))
        e, b = vlib.call(get_abs_path, s)
        under = e != "" or os.path.realpath(b) == pkg or os.path.realpath(b).startswith(pkg + os.sep)
        recs.append(dict(kind="name", what="resource", name=s, inside=bool(x["inside"]), must=bool(x["plain"]), exc=e, under=under, touched=False))
        shutil.rmtree(box, ignore_errors=True)
    return recs


ODD_PREFIXES = ["..\\x", "a\0b", "a\nb", "年", "a b", "~", "~root", "$HOME", "%TEMP%", "C:", "c:\\x", "-x", "...", "..a", "a..", ".a", "a.", "x" * 200,
                "nul", "a:b", "a*", "\u2024\u2024", "\uff0e\uff0e", "..\u2215", "../", "/", "//", "./..", "..;", " ..", ".. "]


def c05():
    chk = vlib.Check("C05")
    L.setup()
    import itn.utils  # noqa: before forking
    work = os.path.join(vlib.scratch(), "w")
    os.makedirs(work)
    box0 = os.path.join(work, "box0")
    out, root, good = (os.path.join(box0, n) for n in ("outside", "cache", "good"))
    try:
        L.reference(work, [1])
    except L.UndisturbedFailure as e:
        chk.violation("an undisturbed construction failed", dict(outcome=e.args[0]))
        chk.finish()
    os.makedirs(out)
    L.construct(os.path.join(work, "x66"), False, EXT)
    b66 = L.bundle(os.path.join(work, "x66"))
    rel = os.path.relpath(os.fspath(b66.path), os.path.join(work, "x66"))
    shutil.copytree(os.fspath(b66.path), os.path.join(out, "bundle"))
    # the link target of an ancestor holds the whole chain below, the link target of a file is a copy of the right file
    for n in range(len(rel.split(os.sep))):
        sub = os.path.join(work, "x66", *rel.split(os.sep)[:n + 1])
        for name in os.listdir(sub):
            p = os.path.join(sub, name)
            if os.path.isdir(p):
                shutil.copytree(p, os.path.join(out, "bundle", name))
    L.construct(os.path.join(work, "x1"), False, 1)
    b1 = os.fspath(L.bundle(os.path.join(work, "x1")).path)
    shutil.copytree(b1, good)
    with open(os.path.join(good, "lock"), "wb") as f:
        f.write(b"\0")
    shutil.copytree(b1, os.path.join(out, "same"))
    with open(os.path.join(out, "file"), "wb") as f:
        f.write(b"precious")
    os.makedirs(root)
    L.construct(os.path.join(work, "xo"), False, 5, prefix="elsewhere")
    shutil.copytree(os.path.join(work, "xo", "elsewhere"), os.path.join(root, "elsewhere"))
    with open(os.path.join(root, "top"), "w") as f:
        f.write("foreign top")
    # (the bundle directory with extra chain entries is not complete: a second, exact one is linked for 'final')
    shutil.copytree(os.fspath(b66.path), os.path.join(out, "exact"))
    res = vlib.must(vlib.run_tlc("CacheLayout", "CacheLayout.cfg", workers=4), "CacheLayout")
    chk.add_tlc(res, "CacheLayout")
    lay = [json.loads(json.loads(x)) for x in sorted(set(res.prints("GEN")))]
    if len(lay) < 1000:
        raise vlib.MachineryError("only %d layouts" % len(lay))
    single = [x for x in lay if len(x["odd"]) < 2]
    pairs = [x for x in lay if len(x["odd"]) == 2]
    if not vlib.THOROUGH:
        pairs = chk.rng.sample(pairs, 1400)
    runs = [(x["kind"], x["intact"], x["odd"], ow) for x in single for ow in (False, True)]
    runs += [(x["kind"], x["intact"], x["odd"], ow) for x in pairs for ow in ((False, True) if vlib.THOROUGH else (chk.rng.random() < 0.4,))]
    chk.rng.shuffle(runs)
    recs = vlib.collect(chk, vlib.pmap(layout_job, [(work, box0, rel, c) for c in vlib.chunks(runs, 32)]), "layouts")
    nres = vlib.must(vlib.run_tlc("NamePath", "NamePath.cfg", workers=4), "NamePath")
    chk.add_tlc(nres, "NamePath")
    names = [json.loads(json.loads(x)) for x in sorted(set(nres.prints("GEN")))]
    if not vlib.THOROUGH:
        names = [x for x in names if len(x["name"]) <= 2] + chk.rng.sample(names, 2500)
    recs += vlib.collect(chk, vlib.pmap(name_job, [(work, c) for c in vlib.chunks(names, 16)]), "names")
    recs += odd_names(work)
    blank = dict(outside=[], foreign=[], ext=0, intact=False, o=dict(exc="", t=0, v=0, built=False), inside=True, must=False, under=True, touched=False, exc="")
    slim = [{k: r.get(k, blank[k]) for k in list(blank)} | dict(kind=r["kind"]) for r in recs]
    for i, clause in vlib.judge(chk, "KeyTrace", slim, name="layouts and names"):
        r = recs[i]
        v = {k: r[k] for k in r if k in ("what", "name", "layout", "base", "ow", "exc", "o", "outside", "foreign", "msg")}
        chk.violation(clause, v, key="%s|%s|%s" % (clause, r["kind"], json.dumps(r.get("layout") or [r.get("what"), r.get("name")], sort_keys=True)))
    chk.cov["layouts"] = sum(r["kind"] == "layout" for r in recs)
    chk.cov["names"] = sum(r["kind"] == "name" for r in recs)
    k = {}
    for r in recs:
        if r["kind"] == "layout":
            w = r["exc"] or ("built" if r["o"]["built"] else "loaded")
            k[w] = k.get(w, 0) + 1
    chk.cov["layout_outcomes"] = k
    for r in recs[::max(1, len(recs) // 6)]:
        chk.sample({q: r[q] for q in r if q in ("what", "name", "layout", "ow", "exc", "outside", "foreign")})
    chk.assumptions.append("the objects do not change while a constructor runs; regular files, directories and symbolic links only")
    chk.finish()


def odd_names(work):
    recs = []
    root = os.path.join(work, "odd", "a", "root")
    os.makedirs(root)
    for s in ODD_PREFIXES:
        before = tree(os.path.join(work, "odd"))
        e, b = vlib.call(lambda: os.fspath(L.bundle(root, prefix=s).path))
        under = e != "" or os.path.realpath(b).startswith(os.path.realpath(root) + os.sep)
        esc = os.path.normpath(os.path.join(root, s)) == root or not os.path.normpath(os.path.join(root, s)).startswith(root + os.sep)
        recs.append(dict(kind="name", what="prefix", name=s, inside=not esc, must=False, exc=e, under=under, touched=before != tree(os.path.join(work, "odd"))))
    return recs
