"""C07: the source fingerprint (spec/SourceTree.tla, judged by SourceTrace.tla)."""
import hashlib
import json
import os
import re
import shutil

import vlib

POOL = None


def pool():
    """The spec's path pool, read from the specification itself."""
    global POOL
    if POOL is None:
        text = open(os.path.join(vlib.SPEC, "SourceTree.tla"), encoding="utf-8").read()
        body = text[text.index("Pool == <<"):text.index("Paths ==")]
        POOL = [tuple(re.findall(r'"([^"]*)"', m)) for m in re.findall(r"<< <<(.*?)>>", body)]
    return POOL


CONTENTS = {
    "plain": [b"alpha\n", b"beta\n", b"alpha\n\n", b""],
    "ends": [b"alpha\r\n", b"alpha\n", b"alpha", b"alpha \n"],
    "bytes": [b"\x00", b"\xff\xfe", b"\x00\x00", b"\xef\xbb\xbf"],
    "big": [b"x" * (1 << 20), b"x" * (1 << 20) + b"y", b"x" * ((1 << 20) - 1) + b"y", b"z" + b"x" * ((1 << 20) - 1)],
    "bigger": [b"x" * (3 << 20), b"x" * (2 << 20) + b"y" + b"x" * ((1 << 20) - 1), b"x" * ((3 << 20) - 1) + b"q", b"x" * ((2 << 20) + 5)],
    "lookalike": [b"tn/b.py", b"tn/b.py\x00beta", b"\x00" * 7 + b"\x07tn/b.pybeta\n", b"beta\n"],
    "unicode": ["年".encode(), "é".encode(), b"e\xcc\x81", b"e"],
}


def fp(root):
    from tn.cache import production_source_fingerprint
    return vlib.call(production_source_fingerprint, root, limit=60)


def record_tree(root):
    out = []
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            comps = os.path.relpath(p, root).split(os.sep)
            with open(p, "rb") as fh:
                out.append([comps, os.path.splitext(f)[1], hashlib.md5(fh.read()).hexdigest()])
    return sorted(out)


def put(root, comps, data):
    p = os.path.join(root, *comps)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data)
    return p


def fresh(root):
    shutil.rmtree(root, ignore_errors=True)
    for pkg in ("tn", "itn"):
        os.makedirs(os.path.join(root, pkg))


def hist_job(job):
    work, items = job
    recs = []
    base = os.path.join(work, "s-%d" % os.getpid())
    for n, (hist, family) in enumerate(items):
        shutil.rmtree(base, ignore_errors=True)
        root = os.path.join(base, "one")
        fresh(root)
        trees, fps, excs = [], [], []

        def take():
            e, v = fp(root)
            trees.append(record_tree(root))
            fps.append(v if not e else "exc")
            excs.append(e)

        take()
        for k, a in enumerate(hist):
            P = pool()
            p = os.path.join(root, *P[a["p"] - 1]) if a["p"] else None
            q = os.path.join(root, *P[a["q"] - 1]) if a["q"] else None
            if a["what"] == "set":
                put(root, P[a["p"] - 1], CONTENTS[family][a["c"] - 1])
            elif a["what"] == "del":
                os.unlink(p)
            elif a["what"] == "swap":
                os.rename(p, p + "~")
                os.rename(q, p)
                os.rename(p + "~", q)
            elif a["what"] == "move":
                os.makedirs(os.path.dirname(q), exist_ok=True)
                os.rename(p, q)
            elif a["what"] == "touch":
                os.utime(p, (k * 1000, k * 1000))
                os.chmod(p, 0o600 if k % 2 else 0o644)
            else:
                new = os.path.join(base, "moved-%d" % k, "年 x" if k % 2 else "test")
                os.makedirs(os.path.dirname(new), exist_ok=True)
                os.rename(root, new)
                root = new
            take()
        recs.append(dict(trees=trees, fps=fps, excs=excs, what="history", hist=hist, family=family))
    shutil.rmtree(base, ignore_errors=True)
    return recs


def glues(a, b, ca, cb):
    """Byte strings by which file a's content could imitate the beginning of file b's."""
    pb = "/".join(b).encode()
    out = [len(pb).to_bytes(w, o) + pb for w in (1, 2, 4, 8) for o in ("big", "little")]
    out += [str(len(pb)).encode() + pb, pb, b"\0" + pb, pb + b"\0", b"\0" + pb + b"\0", b"\n" + pb + b"\n", pb + b":", b"", b"\n", b"\0",
            pb + len(cb).to_bytes(8, "big"), len(pb).to_bytes(8, "big") + pb + len(cb).to_bytes(8, "big"),
            "/".join(b[1:]).encode(), b[-1].encode(), pb + b"\n", pb + b" "]
    return out


def merge_job(job):
    work, items = job
    recs = []
    root = os.path.join(work, "m-%d" % os.getpid())
    for a, b, ca, cb in items:
        trees, fps, excs = [], [], []
        variants = [[(a, ca), (b, cb)]]
        variants += [[(a, ca + g + cb)] for g in glues(a, b, ca, cb)]
        variants += [[(a, ca + cb), (b, b"")], [(a, b""), (b, ca + cb)], [(a, cb), (b, ca)], [(a, ca)], [(b, cb)]]
        c = (a[0], "z", a[-1])
        variants += [[(c, ca), (b, cb)], [((a[0], "z") + a[1:], ca), (b, cb)], [(("tn" if a[0] == "itn" else "itn",) + a[1:], ca), (b, cb)]]
        for v in variants:
            fresh(root)
            for comps, data in v:
                put(root, comps, data)
            e, val = fp(root)
            trees.append(record_tree(root))
            fps.append(val if not e else "exc")
            excs.append(e)
        recs.append(dict(trees=trees, fps=fps, excs=excs, what="merge", files=[list(a), list(b)]))
    shutil.rmtree(root, ignore_errors=True)
    return recs


def real_job(job):
    """Single edits of a copy of the real tree."""
    work, src, paths = job
    root = os.path.join(work, "r-%d" % os.getpid())
    if not os.path.exists(root):
        for pkg in ("tn", "itn"):
            shutil.copytree(os.path.join(src, pkg), os.path.join(root, pkg), ignore=shutil.ignore_patterns("*.pyc"))
    recs = []

    def entry(p):
        comps = os.path.relpath(p, root).split(os.sep)
        with open(p, "rb") as f:
            return [comps, os.path.splitext(p)[1], hashlib.md5(f.read()).hexdigest()]

    for rel in paths:
        p = os.path.join(root, rel)
        with open(p, "rb") as f:
            data = f.read()
        trees, fps, excs = [], [], []

        def take(tree):
            e, v = fp(root)
            trees.append(tree)
            fps.append(v if not e else "exc")
            excs.append(e)

        take([entry(p)])           # the rest of the tree is the same in all of these
        for new in (data + b"\n", data[:-1] + bytes([(data[-1] if data else 0) ^ 1]), b"\n" + data):
            with open(p, "wb") as f:
                f.write(new)
            take([entry(p)])
        os.unlink(p)
        take([])
        with open(p, "wb") as f:
            f.write(data)
        take([entry(p)])
        recs.append(dict(trees=trees, fps=fps, excs=excs, what="real", file=rel))
    return recs


def c07():
    chk = vlib.Check("C07")
    vlib.use_repo()
    import tn.cache  # noqa: imported before forking
    work = os.path.join(vlib.scratch(), "w")
    os.makedirs(work)
    num = 4000 if vlib.THOROUGH else 350
    res = vlib.must(vlib.run_tlc("SourceTree", "SourceTree.cfg", workers=1,
                                 extra=["-simulate", "num=%d" % num, "-depth", "16", "-seed", str(vlib.SEED)]), "SourceTree")
    chk.add_tlc(res, "SourceTree")
    hists = [json.loads(json.loads(x)) for x in sorted(set(res.prints("GEN")))]
    hists = chk.rng.sample(hists, min(len(hists), num))
    fams = sorted(CONTENTS)
    items = [(h, fams[k % len(fams)]) for k, h in enumerate(hists)]
    items = [(h, f) for k, (h, f) in enumerate(items) if not f.startswith("big") or k % 3 == 0 or vlib.THOROUGH]
    files = [p for p in pool()] + [("tn", "年.tsv"), ("tn", "a b.py"), ("itn", "sub", "q.py")]
    prod = [f for f in files if f[0] in ("tn", "itn") and len(f) > 1 and f[-1].rsplit(".", 1)[-1] in ("py", "tsv", "far")
            and not {"test", "__pycache__"} & set(f[:-1]) and f[-1] != "_version.py"]
    small = [b"alpha\n", b"b", b"", b"1\t2\n", b"x" * 300]
    merges = []
    for a in prod:
        for b in prod:
            if a != b:
                merges.append((a, b, chk.rng.choice(small), chk.rng.choice(small)))
    if not vlib.THOROUGH:
        merges = chk.rng.sample(merges, 90)
    real = []
    for pkg in ("tn", "itn"):
        for d, _, fs in os.walk(os.path.join(vlib.REPO, pkg)):
            real += [os.path.relpath(os.path.join(d, f), vlib.REPO) for f in fs if not f.endswith(".pyc")]
    real = sorted(real)
    recs = []
    recs += vlib.collect(chk, vlib.pmap(hist_job, [(work, c) for c in vlib.chunks(items, 24)]), "histories")
    recs += vlib.collect(chk, vlib.pmap(merge_job, [(work, c) for c in vlib.chunks(merges, 16)]), "merges")
    recs += vlib.collect(chk, vlib.pmap(real_job, [(work, vlib.REPO, c) for c in vlib.chunks(real, 8)]), "real tree")
    slim = [dict(trees=r["trees"], fps=r["fps"], excs=r["excs"]) for r in recs]
    for i, clause in vlib.judge(chk, "SourceTrace", slim, name="fingerprint histories"):
        r = recs[i]
        v = dict((k, r[k]) for k in ("what", "hist", "family", "files", "file") if k in r)
        chk.violation(clause, dict(v, fps=[f[:8] for f in r["fps"]], excs=sorted(set(r["excs"]))),
                      key="%s|%s|%s" % (clause, r["what"], json.dumps(r.get("file") or r.get("files") or r.get("hist"))))
    chk.cov["fingerprints"] = sum(len(r["fps"]) for r in recs)
    for w in ("history", "merge", "real"):
        k = [r for r in recs if r["what"] == w]
        chk.cov[w + "_records"] = len(k)
        if k:
            r = k[0]
            chk.sample(dict(what=w, file=r.get("file"), files=r.get("files"), hist=(r.get("hist") or [])[:3], fps=[f[:8] for f in r["fps"]][:6]))
    chk.assumptions.append("regular files with UTF-8 names; no links")
    chk.finish()
