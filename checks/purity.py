"""C13: totality, determinism and purity of the processors (spec/Purity.tla; judged by PurityTrace.tla)."""
import json
import os
import queue
import subprocess
import sys
import threading

import pipes
import texts
import vlib
from vlib import cps

PIPES = list(pipes.COST)
COMPARED = ["plain", "nbest", "tag", "map"]
OTHERS = {"zt": [dict(remove_puncts=True, tag_oov=True, remove_erhua=False, traditional_to_simple=False)], "jt": [dict(transliterate=True, tag_oov=True, full_to_half=False)],
          "ji": [dict(full_to_half=True, enable_0_to_9=True)], "ei": [], "zi": [dict(enable_0_to_9=True, enable_standalone_number=False)], "et": []}


# texts on which every option shows
SPECIAL = {"zt": ["那儿的花儿真好玩儿", "呃這個國語Ａ１，嗯。", "𝟙ß号"], "jt": ["カタカナＡＢＣ、テスト。", "えー、東京ß한"], "zi": ["呃一百二十三", "十一二零", "三千万"],
           "ji": ["ＡＢＣ一二三", "百万円", "一"], "et": ["Dr. 5 1980s"], "ei": ["one o one"]}


def perform(p, pipe, op, text, tagged=None):
    """One call; its whole observable outcome as a string."""
    try:
        if op in ("plain", "plain2"):
            v = p.normalize(text)
        elif op == "nbest":
            v = p.normalize(text, nbest=4)
        elif op == "scribble":
            v = []
            for n in (2, 3, 4):
                w = p.normalize(text, nbest=n)
                v.append(list(w))
                del w[:]
            w = p.tag(text, nbest=3)
            v.append(list(w))
            del w[1:]
            d = p.normalize_with_mapping(text).as_dict()
            d["mappings"].clear()
        elif op == "tag":
            v = p.tag(text)
        elif op == "tagn":
            v = p.tag(text, nbest=3)
        elif op == "map":
            v = p.normalize_with_mapping(text).as_dict()
        elif op == "mapid":
            v = p.normalize_with_mapping(text, include_identity=True).as_dict()
        elif op == "mapn":
            v = [r.as_dict() for r in p.normalize_with_mapping(text, nbest=3)]
        elif op == "verb":
            v = p.verbalize(tagged if tagged is not None else p.tag(text))
        elif op == "badn":
            v = p.normalize(text, nbest=0)
        elif op == "badtoken":
            v = p.verbalize((tagged or "char ") + 'date { month: "2" year: "1')
        elif op == "badtype":
            v = p.normalize([text])
        elif op == "empty":
            v = [p.normalize(""), p.normalize("", nbest=2), p.tag(""), p.normalize_with_mapping("").as_dict()]
        elif op == "parser":
            q = p.token_parser()
            try:
                q.reorder('money { currency: "x" value: "y')
            except ValueError:
                pass
            v = q.reorder('date { day: "1" x: "2" year: "3" } char { value: "%s" }' % "".join(c for c in text if c not in '"\\'))
        elif op == "fresh":
            q = pipes.shell(pipe)
            q.tagger, q.verbalizer = p.tagger, p.verbalizer
            v = q.normalize(text)
        else:
            raise AssertionError(op)
    except AssertionError:
        raise
    except Exception as e:  # noqa: an outcome like any other
        v = ["raised", type(e).__name__]
    return json.dumps(v, ensure_ascii=True, sort_keys=True)


def play(p, pipe, hist, ts):
    """Runs a generated history with real threads; outcomes in starting order."""
    lanes, out, started = {}, [], {}

    def worker(q):
        while True:
            job = q.get()
            if job is None:
                return
            k, op, text, over = job
            out[k] = perform(p, pipe, op, text)
            over.set()

    for e in hist:
        h = e["h"]
        if h not in lanes:
            lanes[h] = queue.Queue()
            threading.Thread(target=worker, args=(lanes[h],), daemon=True).start()
        if e["e"] == "start":
            over = threading.Event()
            out.append(None)
            started[h] = over
            lanes[h].put((len(out) - 1, e["op"], ts[e["t"] - 1], over))
        else:
            started[h].wait(100)
    for q in lanes.values():
        q.put(None)
    return out


SCRIPT = """
import json, logging, sys
logging.disable(logging.CRITICAL)
sys.path[:0] = [%(repo)r, %(lib)r, %(checks)r]
import pipes, purity
pipe, others, texts = json.loads(sys.stdin.read())
for o in others:
    q = pipes.cls(pipe)(cache_dir=False, **o)
    q.normalize(texts[0])
p = pipes.cls(pipe)(cache_dir=False)
print(json.dumps([[purity.perform(p, pipe, op, t) for op in purity.COMPARED] for t in texts]))
"""


def made(job):
    """Results under one way of making the processor."""
    how, pipe, ts = job
    import copy
    if how == "process":
        env = dict(os.environ, PYTHONHASHSEED=str(1 + sum(map(ord, pipe))))
        here = os.path.dirname(os.path.abspath(__file__))
        src = SCRIPT % dict(repo=vlib.REPO, lib=os.path.join(os.path.dirname(here), "lib"), checks=here)
        r = subprocess.run([sys.executable, "-B", "-c", src], input=json.dumps([pipe, OTHERS[pipe], ts]).encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=env, timeout=800)
        if r.returncode:
            return {how: r.stderr.decode("utf-8", "replace")[-300:]}
        return {how: json.loads(r.stdout)}
    c = pipes.cls(pipe)
    out = {}

    def results(p):
        return [[perform(p, pipe, op, t) for op in COMPARED] for t in ts]

    e, p = vlib.call(c, cache_dir=False, limit=600)
    if e:
        return {"memory": e + p}
    out["memory"] = results(p)
    graphs = (p.tagger.copy(), p.verbalizer.copy())

    def again(self):
        self.tagger, self.verbalizer = graphs[0].copy(), graphs[1].copy()

    c.build_tagger_and_verbalizer = again
    d = os.path.join(vlib.scratch(), "made-" + pipe)
    for name in ("fresh", "loaded", "overwritten", "loaded again"):
        e, q = vlib.call(c, cache_dir=d, overwrite_cache=name == "overwritten", limit=600)
        out[name] = results(q) if not e else e + str(q)
    out["memory, later"] = results(p)
    del copy
    return out


def weight(fst):
    from pynini import shortestdistance
    if fst.start() == -1:
        return None
    w = float(shortestdistance(fst, reverse=True)[fst.start()])
    return None if w == float("inf") else w


def cost_job(job):
    p, pipe, items = job
    from pynini import accep, escape, shortestpath
    recs = []
    for text in items:
        exc, out = vlib.call(p.normalize, text)
        recs.append(dict(kind="total", pipe=pipe, text=cps(text), exc=exc, what=dict(pipe=pipe, text=text, exc=exc, msg=out if exc else "")))
        if exc or len(text) > 40 or text == "" or (len(text) > 12 and (len(text) + ord(text[0])) % 3):
            continue
        lattice = (accep(escape(text)) @ p.tagger).project("output").rmepsilon()
        it = shortestpath(lattice, nshortest=12, unique=True).paths()
        cand = []
        while not it.done():
            cand.append((it.ostring(), float(it.weight())))
            it.next()
        low = min(w for _, w in cand)
        ties = [(t, w) for t, w in cand if w <= low + 0.01]
        if len(ties) == len(cand) == 12:
            continue

        def measure(tags, output):
            rows = []
            for tag, w in tags:
                lat = accep(escape(p.token_parser().reorder(tag))) @ p.verbalizer
                best, mine = weight(lat), weight(lat @ accep(escape(output)))
                rows.append([round(w * 1e4), -1 if best is None else round(best * 1e4) + 10 ** 8, -1 if mine is None else round(mine * 1e4) + 10 ** 8])
            return rows

        recs.append(dict(kind="least", exc="", tags=measure(ties, out), what=dict(pipe=pipe, text=text, plain=out, tags=ties)))
        e, tag = vlib.call(p.tag, text)
        e2, said = vlib.call(p.verbalize, tag) if not e else (e, "")
        if e or e2:
            recs.append(dict(kind="total", pipe=pipe, text=cps(text), exc=e or e2, what=dict(pipe=pipe, text=text, call="verbalize(tag(text))", exc=e or e2)))
        else:
            # tag() is a cheapest tagging, and verbalize() a cheapest reading of it
            w = weight(lattice @ accep(escape(tag)))
            rows = [[10 ** 8 if w is None else round(w * 1e4)] + measure([(tag, 0.0)], said)[0][1:]]
            rows += [[round(low * 1e4), -1, -1]]
            recs.append(dict(kind="least", exc="", tags=rows, what=dict(pipe=pipe, text=text, tagged=tag, verbalized=said)))
    return recs


def fuzz(chk, pipe, n):
    rng = chk.rng
    a = texts.atoms(pipe)
    out = []
    if pipe in texts.SPACED:
        letters = "abcdefghijklmnopqrstuvwxyz" + ("ABCDEFGHIJKLMNOPQRSTUVWXYZ" if pipe == "et" else "")
        for _ in range(n):
            t = ""
            for _ in range(rng.choice([1, 2, 3, 5, 8])):
                k = rng.randrange(6)
                w = ("".join(rng.choice(letters) for _ in range(rng.randint(1, 8))) if k < 2 else
                     "".join(rng.choice("0123456789") for _ in range(rng.randint(1, 9))) if k == 2 else
                     "".join(rng.choice(letters + "0123456789") for _ in range(rng.randint(1, 6))) if k == 3 else
                     rng.choice([x for x in a["num"] + a["date"] + a["word"]]))
                t += w + rng.choice([" ", " ", "  ", ", ", ". ", "! ", " - ", ": ", "; ", "?", ".", "-", "' ", " (", ") ", "...", "?!", " ? ! "])
            out.append(t.rstrip() if rng.random() < 0.7 else t)
    else:
        ranges = [(1, 0x7f), (0x80, 0x7ff), (0x3000, 0x30ff), (0x4e00, 0x9fff), (0xff00, 0xffef), (0x1f300, 0x1f64f), (0x10000, 0x10ffff), (0x2000, 0x206f), (0x30, 0x39), (0xe000, 0xf8ff), (0xfe00, 0xfe0f)]
        for _ in range(n):
            t = ""
            for _ in range(rng.choice([1, 2, 3, 6, 12, 25])):
                if rng.random() < 0.35:
                    t += texts.near(rng, rng.choice(a[rng.choice(["num", "date", "unit", "rule", "punct"])]))
                else:
                    lo, hi = rng.choice(ranges)
                    t += chr(rng.randint(lo, hi))
            out.append(t)
    return out


def blocks(chk):
    """Every character of the basic plane (thorough: of Unicode), a hundred at a time."""
    chars = [c for c in range(1, 0x10000) if not 0xd800 <= c < 0xe000]
    astral = range(0x10000, 0x110000)
    chars += astral if vlib.THOROUGH else chk.rng.sample(astral, 6000)
    return ["".join(map(chr, chars[k:k + 100])) for k in range(0, len(chars), 100)]


def c13():
    chk = vlib.Check("C13")
    vlib.use_repo()
    vlib.model_check(chk, "Purity", "MCPurity.cfg")
    num = 60 if vlib.THOROUGH else 12
    res = vlib.must(vlib.run_tlc("Purity", "PurityGen.cfg", workers=1, extra=["-simulate", "num=%d" % (num * 3), "-depth", "80", "-seed", str(vlib.SEED + 13)]), "PurityGen")
    chk.add_tlc(res, "PurityGen")
    hists = [json.loads(json.loads(x)) for x in sorted(set(res.prints("GEN")))]
    chk.rng.shuffle(hists)
    with pipes.reported(chk):
        P = pipes.build({k: (k, {}) for k in PIPES})
    free, spaced = texts.shapes(chk, False, 200), texts.shapes(chk, True, 200)
    corpus = {k: texts.texts(chk, k, 4000 if vlib.THOROUGH else 120, spaced if k in texts.SPACED else free) for k in PIPES}
    recs = []

    # constructions: memory, fresh, loaded, other process and hash seed, after other options
    pick = {k: SPECIAL[k] + chk.rng.sample(corpus[k], 40 if vlib.THOROUGH else 14) for k in PIPES}
    jobs = [("here", k, pick[k]) for k in PIPES if vlib.THOROUGH or k in ("jt", "ji", "zt", "ei", "zi")]
    jobs += [("process", k, pick[k]) for k in PIPES if vlib.THOROUGH or k in ("jt", "ji", "zt", "ei")]
    if not vlib.THOROUGH:
        # the slowest pipeline: what was handed over through files against the same files through the cache
        jobs.insert(0, ("files", "et", pick["et"]))

    def run(job):
        how, k, ts = job
        if how != "files":
            return made(job)
        c = pipes.cls(k)
        graphs = P[k].tagger.copy(), P[k].verbalizer.copy()

        def again(self):
            self.tagger, self.verbalizer = graphs[0].copy(), graphs[1].copy()

        c.build_tagger_and_verbalizer = again
        d = os.path.join(vlib.scratch(), "made-files-" + k)
        out = {}
        for name in ("fresh", "loaded"):
            e, q = vlib.call(c, cache_dir=d, limit=600)
            out[name] = [[perform(q, k, op, t) for op in COMPARED] for t in ts] if not e else e + str(q)
        return out

    # references: every call alone in a process forked before any call was made
    plans = []
    for k in PIPES:
        for h in chk.rng.sample(hists, min(len(hists), num)):
            plans.append((k, h, chk.rng.sample(corpus[k], 3)))
    wanted = {}
    for k, h, ts in plans:
        for e in h:
            if e["e"] == "start":
                wanted[(k, e["op"], ts[e["t"] - 1])] = None
    for k in PIPES:
        for t in pick[k]:
            for op in COMPARED:
                wanted[(k, op, t)] = None
    keys = sorted(wanted)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(1) as ex:
        makes = ex.submit(lambda: vlib.pmap(run, jobs, jobs=4, timeout=850))
        refs = vlib.pmap(lambda q: perform(P[q[0]], *q), keys, jobs=6, timeout=120)
        played = vlib.pmap(lambda q: play(P[q[0]], *q), plans, jobs=6, timeout=300)
        cost = []
        for k in PIPES:
            ts = corpus[k] + fuzz(chk, k, 3000 if vlib.THOROUGH else 120)
            if k not in texts.SPACED:
                ts += blocks(chk)
            cost += [(P[k], k, c) for c in vlib.chunks(ts, 8)]
        recs += vlib.collect(chk, vlib.pmap(cost_job, cost, jobs=6, timeout=1500), "texts")
        makes = makes.result()
    number = {}

    def num_of(v):
        return number.setdefault(v, len(number))

    for q, v in zip(keys, refs):
        if isinstance(v, vlib.Died):
            chk.violation("the code under test died or gave no answer", dict(call=q, reason=str(v)))
            v = "died"
        wanted[q] = v
    for (k, h, ts), got in zip(plans, played):
        if isinstance(got, vlib.Died):
            chk.violation("the code under test died or gave no answer", dict(pipe=k, history=h, texts=ts, reason=str(got)))
            continue
        calls, what = [], []
        for e, v in zip([e for e in h if e["e"] == "start"], got):
            ref = wanted[(k, e["op"], ts[e["t"] - 1])]
            calls.append(dict(op=e["op"], got=num_of(v), ref=num_of(ref)))
            if v != ref:
                what.append(dict(op=e["op"], text=ts[e["t"] - 1], got=v, alone=ref))
        recs.append(dict(kind="history", calls=calls, what=dict(pipe=k, differs=what[:3], history=[[e["e"], e["h"], e["op"]] for e in h])))
    for (how, k, ts), out in zip(jobs, makes):
        if isinstance(out, vlib.Died):
            chk.violation("the code under test died or gave no answer", dict(pipe=k, how=how, reason=str(out)))
            continue
        for j, t in enumerate(ts):
            for n, op in enumerate(COMPARED):
                vals = {"reference": wanted[(k, op, t)]}
                for name, rows in out.items():
                    vals[name] = rows if isinstance(rows, str) else rows[j][n]
                recs.append(dict(kind="same", ids=[num_of(v) for v in vals.values()], what=dict(pipe=k, op=op, text=t, results=vals if len(set(vals.values())) > 1 else "")))
    for k, p in P.items():
        e, v = vlib.call(lambda: [p.normalize("") == "", p.normalize("", nbest=3) == [""], p.tag("") == "", p.tag("", nbest=2) == [""], p.verbalize("") == "",
                                  p.normalize_with_mapping("").as_dict() == dict(input="", output="", mappings=[])])
        recs.append(dict(kind="empty", ok=v if not e else [False], what=dict(pipe=k, ok=v)))
    slim = [{a: b for a, b in r.items() if a != "what"} for r in recs]
    for i, clause in vlib.judge(chk, "PurityTrace", slim, name="calls"):
        r = recs[i]
        chk.violation(clause, r["what"], key="%s|%s" % (clause, json.dumps({a: r["what"].get(a) for a in ("pipe", "text", "op", "history")}, sort_keys=True, ensure_ascii=True)))
    chk.cov["references"] = len(keys)
    chk.cov["records_by_kind"] = {k: sum(r["kind"] == k for r in recs) for k in {r["kind"] for r in recs}}
    for r in recs[::max(1, len(recs) // 5)]:
        chk.sample(r["what"])
    chk.assumptions += ["totality is decided for NUL-free Chinese and Japanese texts and for English texts of ASCII words, numbers, spaces and sentence punctuation",
                        "costs are compared with a tolerance of 0.002"]
    chk.finish()
