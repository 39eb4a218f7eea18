"""C10: n-best lists (spec/NBest.tla; judged by NBestTrace.tla)."""
import json
import os

import pipes
import vlib

OUTS = ["O1", "O1x", "年", "[b]", "ba\\ck", 'quo"te', "", "two words", "\U0001d7d9", "o1"] + ["o%d" % k for k in range(11, 41)]
INPUTS = ["input", "in[p]ut", "年\\x", "a b", '"q"']
NS, WIDE = 7, 22


def text_of(t, form):
    """The tagged text of tagging t in the given form, and its canonical order."""
    v = "v%d" % ((t + 1) // 2)
    if form == 2:
        return 'money { value: "%s" currency: "c" } ' % v, 'money { value: "%s" currency: "c" }' % v
    if form == 3:
        return 'money { currency: "c" value: "%s" } ' % v, 'money { value: "%s" currency: "c" }' % v
    if form == 4:
        s = 'tok { value: "年[%s]" } tok { value: "\\"" } ' % v
        return s, s[:-1]
    return 'tok { value: "w%d" } ' % t, 'tok { value: "w%d" }' % t


def relation(steps):
    """steps -> (tag arcs, output arcs, relation): the arcs of the two graphs, and the relation they define."""
    forms, tagarcs, outarcs = {}, [], []
    for s in steps:
        if s["what"] == "tag":
            forms[s["t"]] = s["o"]
            tagarcs.append((text_of(s["t"], s["o"])[0], s["w"]))
        elif s["what"] == "again":
            tagarcs.append((text_of(s["t"], forms[s["t"]])[0], s["w"]))
        else:
            outarcs.append((text_of(s["t"], forms[s["t"]])[1], s["o"], s["w"]))
    canon = {text_of(t, f)[0]: text_of(t, f)[1] for t, f in forms.items()}
    rel = []
    for tag in sorted(canon):
        w = min(w for x, w in tagarcs if x == tag)
        rel.append([w, [[o, v] for x, o, v in outarcs if x == canon[tag]]])
    return tagarcs, outarcs, sorted(canon), rel


def make(inp, tagarcs, outarcs):
    from pynini import accep, cross, escape, union, Fst
    from pynini.lib.pynutil import add_weight
    from tn.processor import Processor
    p = Processor("tok", token_orders={"money": ["value", "currency"], "tok": ["value"]})
    p.tagger = union(*[add_weight(cross(escape(inp), escape(t)), w / 4) for t, w in tagarcs])
    p.verbalizer = union(*[add_weight(cross(escape(t), escape(OUTS[o - 1])), w / 4) for t, o, w in outarcs]) if outarcs else Fst()
    return p


def ids(value, table):
    return [table.get(x, 0) for x in value]


def rel_job(job):
    seed, items, NS = job
    import random
    rng = random.Random(seed)
    recs = []
    table = {o: k + 1 for k, o in enumerate(OUTS)}
    for steps in items:
        inp = rng.choice(INPUTS)
        tagarcs, outarcs, tags, rel = relation(steps)
        if not tagarcs:
            continue
        rng.shuffle(tagarcs)
        rng.shuffle(outarcs)
        p = make(inp, tagarcs, outarcs)
        if rng.random() < 0.5:
            p.tagger.optimize()
            p.verbalizer.optimize()
        runs = [None] * NS
        order = list(range(1, NS + 1))
        rng.shuffle(order)
        for n in order:
            e, v = vlib.call(p.normalize, inp, nbest=n) if n > 1 else vlib.call(lambda: [p.normalize(inp, nbest=1)])
            runs[n - 1] = dict(exc=e, out=ids(v, table) if not e else [])
        e, v = vlib.call(p.normalize, inp)
        recs.append(dict(kind="rel", rel=rel, runs=runs, plain=[table.get(v, 0)] if not e else [], slack=0, ns=[], what=dict(input=inp, tags=tagarcs, outs=outarcs)))
        tt = {t: k + 1 for k, t in enumerate(tags)}
        runs = []
        for n in range(1, NS + 1):
            e, v = vlib.call(p.tag, inp, nbest=n) if n > 1 else vlib.call(lambda: [p.tag(inp, nbest=1)])
            runs.append(dict(exc=e, out=ids(v, tt) if not e else []))
        e, v = vlib.call(p.tag, inp)
        recs.append(dict(kind="tag", rel=[[r[0], [[k + 1, 0]]] for k, r in enumerate(rel)], runs=runs, plain=[tt.get(v, 0)] if not e else [], slack=0, ns=[],
                         what=dict(input=inp, tags=tagarcs)))
        if len(recs) % 50 == 0:
            bad = [0, -1, True, False, 1.0, 2.5, "2", None, [1], float("nan"), float("inf"), -10 ** 9, b"1"]
            for f in (p.tag, p.normalize, p.normalize_with_mapping):
                for text in (inp, ""):
                    runs = [dict(exc=vlib.call(f, text, nbest=b)[0], out=[]) for b in bad]
                    recs.append(dict(kind="reject", rel=[], runs=runs, plain=[], slack=0, ns=[], what=dict(f=f.__name__, accepted=[repr(b) for b, r in zip(bad, runs) if not r["exc"]])))
    return recs


# ------------------------------------------------------------- shipped graphs
RULES = [
    ("tn.english.rules.cardinal", "Cardinal", ["7", "100", "256", "1,001", "-12", "007", "2100", "1000000", "90210"]),
    ("tn.english.rules.ordinal", "Ordinal", ["1st", "102nd", "1,000th", "13th"]),
    ("tn.english.rules.decimal", "Decimal", [".05", "0.05", "12.30", "-3.14", "1.5 million"]),
    ("tn.english.rules.fraction", "Fraction", ["1/2", "3/4", "2 1/100", "23 4/5"]),
    ("tn.english.rules.telephone", "Telephone", ["123-123-5078", "+1 800-555-0100"]),
    ("tn.english.rules.whitelist", "WhiteList", ["Dr.", "Mr.", "e.g."]),
    ("tn.english.rules.range", "Range", ["2-3", "10-200", "2x3"]),
    ("tn.english.rules.time", "Time", ["12:05", "3:30 p.m.", "8:00"]),
]
TEXTS = {
    "zt": ["共465篇，约315万字", "2.5平方电线", "1985-1989年", "3:05开始", "￥100元", "5/6", "-3.5%", "hello[世]界", "2024年5月1日", "0", "呃对"],
    "jt": ["2024年5月1日", "3:05", "100円", "-2.5", "1/2", "123,456", "10時15分", "5kg", "テスト"],
    "ei": ["two hundred and five", "may third twenty twelve", "five dollars", "three point one four", "hello world", "twenty one"],
    "ji": ["二千二十四年五月一日", "三時五分", "百円", "二分の一", "千二百三十四"],
}
CAP = 4000


def every(lattice):
    """All outputs of a finite lattice with their least weights, or None if there are too many."""
    from pynini import ACYCLIC
    lat = lattice.copy().project("output").rmepsilon()
    if lat.properties(ACYCLIC, True) != ACYCLIC:
        return None
    best, n = {}, 0
    it = lat.paths()
    while not it.done():
        n += 1
        if n > CAP * 5:
            return None
        o, w = it.ostring(), float(it.weight())
        if o not in best or w < best[o]:
            best[o] = w
        it.next()
    return best


def enumerated(p, text):
    """The whole relation of a real rule for one text, or None."""
    from pynini import accep, escape
    tags = every(accep(escape(text)) @ p.tagger)
    if tags is None or len(tags) > 60:
        return None
    rel, table = [], {}
    for tag in sorted(tags):
        e, r = vlib.call(lambda: p.token_parser().reorder(tag))
        outs = every(accep(escape(r)) @ p.verbalizer) if not e else None
        if outs is None or len(outs) > 800:
            return None
        rel.append([round(tags[tag] * 10000), [[table.setdefault(o, len(table) + 1), round(w * 10000)] for o, w in sorted(outs.items())]])
    return rel, table


def rule_job(job):
    mod, name, texts = job
    import importlib
    recs = []
    e, p = vlib.call(getattr(importlib.import_module(mod), name), deterministic=False, limit=300)
    if e:
        return [dict(kind="real", rel=[], runs=[dict(exc=e, out=[])], plain=[], slack=0, ns=[1], what=dict(rule=name, error=p))]
    for text in texts:
        x = enumerated(p, text)
        ns = list(range(1, 9)) if x else [1, 2, 3, 5, 8]
        runs, table = [], (x[1] if x else {})
        for n in ns:
            e, v = vlib.call(lambda: p.normalize(text, nbest=n) if n > 1 else [p.normalize(text)])
            if x:
                out = ids(v, table) if not e else []
            else:
                out = [table.setdefault(o, len(table) + 1) for o in v] if not e else []
            runs.append(dict(exc=e, out=out))
        e, v = vlib.call(p.normalize, text)
        recs.append(dict(kind="rel" if x else "real", rel=x[0] if x else [], runs=runs, plain=[table.get(v, 0)] if not e else [], slack=4, ns=ns,
                         what=dict(rule=name, text=text, outputs=len(table))))
    return recs


def pipe_job(job):
    p, name, texts = job
    recs = []
    for text in texts:
        ns, table, runs = [1, 2, 3, 5, 9], {}, []
        for n in ns:
            e, v = vlib.call(lambda: p.normalize(text, nbest=n) if n > 1 else [p.normalize(text)])
            runs.append(dict(exc=e, out=[table.setdefault(o, len(table) + 1) for o in v] if not e else []))
        e, v = vlib.call(p.normalize, text)
        recs.append(dict(kind="real", rel=[], runs=runs, plain=[table.get(v, 0)] if not e else [], slack=0, ns=ns, what=dict(pipeline=name, text=text)))
    return recs


def c10():
    chk = vlib.Check("C10")
    vlib.use_repo()
    import tn.processor  # noqa: before forking
    vlib.model_check(chk, "NBest", "MCNBest.cfg")
    vlib.model_check(chk, "NBest", "MCNBest3.cfg")
    if vlib.THOROUGH:
        cfg = open(os.path.join(vlib.SPEC, "MCNBest3.cfg")).read().replace("NOuts = 2", "NOuts = 3").replace("{0, 1, 2}", "{0, 1}")
        vlib.model_check(chk, "NBest", cfg, timeout=1800)
    want = 40000 if vlib.THOROUGH else 4000
    seqs = []
    for depth in (3, 5, 8, 12, 18, 26):
        cfg = open(os.path.join(vlib.SPEC, "NBestGen.cfg")).read().replace("Depth = 16", "Depth = %d" % depth)
        res = vlib.must(vlib.run_tlc("NBestGen", cfg, workers=1, extra=["-simulate", "num=%d" % (30 if vlib.THOROUGH else 6), "-depth", str(depth + 2), "-seed", str(vlib.SEED + depth)]), "NBestGen")
        chk.add_tlc(res, "NBestGen")
        raw = sorted(set(res.prints("GEN")))
        seqs += [json.loads(json.loads(x)) for x in chk.rng.sample(raw, min(len(raw), want // 6))]
    # many outputs and many taggings: the streams are expanded several times
    wide = []
    for depth in (24, 40, 60):
        cfg = open(os.path.join(vlib.SPEC, "NBestGen.cfg")).read().replace("Depth = 16", "Depth = %d" % depth).replace("NOuts = 7", "NOuts = 38").replace("MaxTags = 6", "MaxTags = 24")
        res = vlib.must(vlib.run_tlc("NBestGen", cfg, workers=1, extra=["-simulate", "num=%d" % (16 if vlib.THOROUGH else 2), "-depth", str(depth + 2), "-seed", str(vlib.SEED + depth)]), "NBestGen")
        chk.add_tlc(res, "NBestGen")
        raw = sorted(set(res.prints("GEN")))
        wide += [json.loads(json.loads(x)) for x in chk.rng.sample(raw, min(len(raw), want // 60))]
    chk.rng.shuffle(seqs)
    chk.rng.shuffle(wide)
    recs = vlib.collect(chk, vlib.pmap(rel_job, [(vlib.SEED * 1000 + k, c, NS) for k, c in enumerate(vlib.chunks(seqs, 32))]), "relations")
    recs += vlib.collect(chk, vlib.pmap(rel_job, [(vlib.SEED * 2000 + k, c, WIDE) for k, c in enumerate(vlib.chunks(wide, 32))]), "wide relations")
    jobs = [(m, n, [t]) if n in ("Time", "Decimal") else (m, n, ts) for m, n, ts in RULES for t in (ts if n in ("Time", "Decimal") else [0])]
    recs += vlib.collect(chk, vlib.pmap(rule_job, jobs), "rules")
    with pipes.reported(chk):
        P = pipes.build({k: (k, {}) for k in (TEXTS if not vlib.THOROUGH else list(TEXTS) + ["zi", "et"])})
    texts = dict(TEXTS)
    if vlib.THOROUGH:
        texts["zi"] = ["二零二四年五月一日", "三点五", "百分之五", "一百二十三万", "你好", "一千块"]
        texts["et"] = ["on 1/2/2012 at 3:30 p.m.", "$3.50", "Dr. Smith", "10-20", "hello world"]
    recs += vlib.collect(chk, vlib.pmap(pipe_job, [(P[k], k, [t]) for k in sorted(texts) for t in texts[k]]), "pipelines")
    slim = [{k: v for k, v in r.items() if k != "what"} for r in recs]
    for i, clause in vlib.judge(chk, "NBestTrace", slim, name="n-best lists"):
        r = recs[i]
        chk.violation(clause, dict(r["what"], rel=r["rel"], runs=r["runs"], plain=r["plain"]), key="%s|%s" % (clause, json.dumps(r["what"], sort_keys=True)))
    k = {}
    for r in recs:
        k[r["kind"]] = k.get(r["kind"], 0) + 1
    chk.cov["records"] = k
    for r in recs[::max(1, len(recs) // 5)]:
        chk.sample(dict(r["what"], rel=r["rel"][:3], runs=r["runs"][:3]))
    chk.assumptions.append("weights of generated relations are multiples of 1/4, exactly representable; real graphs are compared with a slack of 0.0004")
    chk.finish()
