"""C11: span tracing along one path (spec/AlignRules.tla, Alignment.tla; judged by AlignTrace.tla)."""
import json
import os
import random

import vlib


def linear(arcs, weight=0.0):
    from pynini import Arc, Fst, Weight
    f = Fst()
    s = f.add_state()
    f.set_start(s)
    for il, ol in arcs:
        t = f.add_state()
        f.add_arc(s, Arc(il, ol, Weight("tropical", 0), t))
        s = t
    f.set_final(s, Weight("tropical", weight))
    return f


def apart(inb, outb, rng):
    """Another path for the same pair of texts."""
    style = rng.randrange(3)
    if style == 0:
        return [(a, 0) for a in inb] + [(0, b) for b in outb]
    if style == 1:
        return [(0, b) for b in outb] + [(a, 0) for a in inb]
    n = max(len(inb), len(outb))
    return [(inb[k] if k < len(inb) else 0, outb[k] if k < len(outb) else 0) for k in range(n)]


def malformed(rng, spans, n):
    s = [list(x) for x in spans] or [[0, min(1, n)]]
    k = rng.randrange(len(s))
    how = rng.randrange(7)
    if how == 0:
        s[k][1] = n + rng.randrange(1, 3)
    elif how == 1:
        s[k] = [s[k][1], s[k][0]]
    elif how == 2:
        s.append(list(s[0]))
    elif how == 3:
        s[k][0] -= 1
    elif how == 4:
        s.insert(k, [s[k][0], s[k][0]])
    elif how == 5:
        s = s[::-1]
    else:
        s[0][0] = -1
    return s


def replay(job):
    seed, items = job
    rng = random.Random(seed)
    from tn.alignment import trace_input_spans, transduce_with_spans
    recs = []

    def fwd(fst, case, spans, select, what, noise=None):
        inp, out = vlib.uncps(case["i"]), vlib.uncps(case["o"])
        kw = dict(output_text=noise if noise is not None else out) if select else {}
        given = iter([tuple(x) for x in spans]) if rng.random() < 0.2 else tuple(tuple(x) for x in spans)
        e, v = vlib.call(transduce_with_spans, inp, fst, given, **kw)
        rec = dict(kind="fwd", arcs=case["a"], input=case["i"], output=vlib.cps(noise) if noise is not None else case["o"], spans=[list(x) for x in spans],
                   exc=e, out=vlib.cps(v[0]) if not e else [], got=[list(x) for x in v[1]] if not e else [], what=what)
        recs.append(rec)

    def bwd(fst, case, spans, what, noise=None):
        inp, out = vlib.uncps(case["i"]), vlib.uncps(case["o"])
        e, v = vlib.call(trace_input_spans, noise if noise is not None else inp, out, fst, tuple(tuple(x) for x in spans))
        recs.append(dict(kind="bwd", arcs=case["a"], input=vlib.cps(noise) if noise is not None else case["i"], output=case["o"], spans=[list(x) for x in spans],
                         exc=e, out=case["o"] if not e else [], got=[list(x) for x in v] if not e else [], what=what))

    for case in items:
        inb, outb = [a for a, _ in case["a"] if a], [b for _, b in case["a"] if b]
        fst = linear(case["a"], 0.5)
        pick = rng.random()
        what = "alone"
        if pick < 0.25:      # a dearer path for the same texts
            fst = fst.union(linear(apart(inb, outb, rng), 3.0))
            what = "with a dearer path of the same texts"
        elif pick < 0.5:     # a dearer path to another output
            fst = fst.union(linear(apart(inb, outb + [33], rng), 2.0))
            what = "with a dearer other output"
        fwd(fst, case, case["f"], rng.random() < 0.5, what)
        bwd(fst, case, case["g"], what)
        if rng.random() < 0.3:
            low = linear(case["a"], 0.5).union(linear(apart(inb, [111] + outb, rng), -1.0), linear(apart(inb, outb, rng), 9.0))
            fwd(low, case, case["f"], True, "selected output, cheaper other output")
            bwd(low, case, case["g"], "selected output, cheaper other output")
        if rng.random() < 0.15:
            fwd(fst, case, malformed(rng, case["f"], len(case["i"])), rng.random() < 0.5, "malformed spans")
            bwd(fst, case, malformed(rng, case["g"], len(case["o"])), "malformed spans")
        if rng.random() < 0.05:
            fwd(linear(case["a"]), case, case["f"], True, "no such output", noise=vlib.uncps(case["o"]) + "?")
            bwd(linear(case["a"]), case, case["g"], "no such input", noise=vlib.uncps(case["i"]) + "?")
    return recs


def c11():
    chk = vlib.Check("C11")
    vlib.use_repo()
    import tn.alignment  # noqa: before forking
    cases = []
    cfg = open(os.path.join(vlib.SPEC, "MCAlignment.cfg")).read()
    vlib.model_check(chk, "MCAlignment", cfg)
    vlib.model_check(chk, "MCAlignment", cfg.replace("MaxIdle = 0", "MaxIdle = 1").replace("<- Out2", "<- Out1"))
    if vlib.THOROUGH:
        vlib.model_check(chk, "MCAlignment", cfg.replace("In2", "In3").replace("Out2", "Out3"), timeout=3000)
    # every complete small walk
    res = vlib.must(vlib.run_tlc("AlignGen", cfg.replace("CursorIsRule Disjoint OwnOutput Covered Separators InOrder", "Emit"), workers=1), "AlignGen")
    chk.add_tlc(res, "AlignGen")
    cases += [json.loads(json.loads(x)) for x in sorted(res.prints("GEN"))]
    small = len(cases)
    want = 60000 if vlib.THOROUGH else 9000
    cfg = cfg.replace("In2", "Big").replace("Out2", "BigOut").replace("MaxIdle = 0", "MaxIdle = 2").replace("CursorIsRule Disjoint OwnOutput Covered Separators InOrder", "Emit")
    res = vlib.must(vlib.run_tlc("AlignGen", cfg, workers=1, extra=["-simulate", "num=%d" % (want // 3), "-depth", "24", "-seed", str(vlib.SEED + 3)]), "AlignGen")
    chk.add_tlc(res, "AlignGen")
    raw = sorted(set(res.prints("GEN")))
    cases += [json.loads(json.loads(x)) for x in chk.rng.sample(raw, min(len(raw), want))]
    chk.cov["paths"] = dict(every_small=small, sampled_large=len(cases) - small)
    chk.rng.shuffle(cases)
    recs = vlib.collect(chk, vlib.pmap(replay, [(vlib.SEED * 100 + k, c) for k, c in enumerate(vlib.chunks(cases, 40))]), "paths")
    slim = [{k: v for k, v in r.items() if k != "what"} for r in recs]
    for i, clause in vlib.judge(chk, "AlignTrace", slim, name="traced paths"):
        r = recs[i]
        chk.violation(clause, dict(direction=r["kind"], how=r["what"], input=vlib.uncps(r["input"]), output=vlib.uncps(r["output"]), arcs=r["arcs"], spans=r["spans"], exc=r["exc"], got=r["got"]),
                      key="%s|%s" % (clause, json.dumps([r["kind"], r["arcs"], r["spans"]])))
    kinds = {}
    for r in recs:
        kinds[r["kind"] + ", " + r["what"]] = kinds.get(r["kind"] + ", " + r["what"], 0) + 1
    chk.cov["records"] = kinds
    chk.cov["refused"] = sum(1 for r in recs if r["exc"])
    for r in recs[::max(1, len(recs) // 5)]:
        chk.sample(dict(direction=r["kind"], input=vlib.uncps(r["input"]), output=vlib.uncps(r["output"]), spans=r["spans"], got=r["got"], exc=r["exc"]))
    chk.assumptions.append("paths are linear transducers (alone, or as the cheapest of several); which of several equally cheap paths is traced is not specified")
    chk.finish()
