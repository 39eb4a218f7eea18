"""C12: mapping-producing normalization (spec/MappingRules.tla; judged by MappingTrace.tla)."""
import json
import os

import pipes
import texts
import vlib
from vlib import cps


def flat(m):
    return [m.kind, m.input_start, m.input_end, m.output_start, m.output_end, cps(m.input_text), cps(m.output_text)]


def result(r):
    ms = [flat(m) for m in r.mappings]
    d = r.as_dict()
    again = [[m["kind"], m["input"]["start"], m["input"]["end"], m["output"]["start"], m["output"]["end"], cps(m["input"]["text"]), cps(m["output"]["text"])] for m in d["mappings"]]
    same = again == ms and d["input"] == r.input_text and d["output"] == r.output_text and [m["token_type"] for m in d["mappings"]] == [m.token_type for m in r.mappings]
    return {"in": cps(r.input_text), "out": cps(r.output_text), "ms": ms, "types": [m.token_type for m in r.mappings], "same": same}


def many(f, *a, n, **kw):
    e, v = vlib.call(f, *a, nbest=n, **kw) if n > 1 else vlib.call(f, *a, **kw)
    return e, ([] if e else list(v) if n > 1 else [v])


def names_of(p, tagged):
    parser = p.token_parser()
    parser.parse(tagged)
    return [t.name for t in parser.tokens]


def job(j):
    p, name, items = j
    recs = []
    for text, n in items:
        pe, plain = many(p.normalize, text, n=n)
        fe, full = many(p.normalize_with_mapping, text, n=n, include_identity=True)
        ne, part = many(p.normalize_with_mapping, text, n=n)
        rec = dict(input=cps(text), n=n, pexc=pe, fexc=fe, nexc=ne, plain=[cps(x) for x in plain], full=[], part=[], names=[], modelled=False, want=[], wanted=[])
        if not (pe or fe or ne):
            e, v = vlib.call(lambda: ([result(x) for x in full], [result(x) for x in part]))
            if e:
                rec["fexc"] = "result:" + e
            else:
                rec["full"], rec["part"] = v
                e, v = vlib.call(lambda: [names_of(p, t) for t in [p.tag(text)] + p.tag(text, nbest=6)] if text else [])
                rec["names"] = [] if e else v
        rec["what"] = dict(pipeline=name, text=text, n=n)
        recs.append(rec)
    return recs


def modelled(j):
    """Runs of the Mapping model on pipelines made of exactly those tokens."""
    seed, items = j
    import random
    from pynini import accep, cross, escape
    from pynini.lib.pynutil import delete, insert
    from tn.processor import Processor
    rng = random.Random(seed)

    def wire(text):
        return text.replace("\\", "\\\\").replace('"', '\\"')

    recs = []
    for case in items:
        p = Processor("tok", token_orders={"two": ["left", "right"]})
        tag, verb, names = accep(""), accep(""), []
        inp, out = vlib.uncps(case["i"]), vlib.uncps(case["o"])
        ai = ao = 0
        for k, (kind, a, b, c, d, w, s) in enumerate(case["m"]):
            w, s = vlib.uncps(w), vlib.uncps(s)
            tag += delete(inp[ai:a]) if a > ai else accep("")
            verb += insert(out[ao:c]) if c > ao else accep("")
            if k:
                verb += delete(" ")
            ai, ao = b, d
            lead = " " if k else ""
            name = rng.choice(["tok", "char", "date_x", "two"])
            if name == "two" and len(w) == 2:
                # written in one order, spoken in the other
                tag += insert('two { right: "') + cross(escape(w[0]), escape(wire(w[0]))) + insert('" left: "') + cross(escape(w[1]), escape(wire(w[1]))) + insert('" } ')
                said = 'two { left: "%s" right: "%s" }' % (wire(w[1]), wire(w[0]))
            else:
                name = "tok" if name == "two" else name
                tag += insert(name + ' { value: "') + cross(escape(w), escape(wire(w))) + insert('" } ')
                said = '%s { value: "%s" }' % (name, wire(w))
            cut = said.index('"') + 1
            verb += delete(escape(said[:cut])) + cross(escape(said[cut:-3]), escape(s)) + delete('" }')
            names.append(name)
        if len(inp) > ai:
            tag += delete(inp[ai:])
        p.tagger, p.verbalizer = tag, verb
        if rng.random() < 0.5:
            p.tagger.optimize()
        rec = job((p, "modelled", [(inp, 1)]))[0]
        rec["names"] = [names]
        rec.update(modelled=True, want=case["m"], wanted=case["o"])
        recs.append(rec)
    return recs


OPTIONS = {"zt": {}, "jt": {}, "zi": {}, "ji": {}, "et": {}, "ei": {},
           "zt-erhua": ("zt", dict(remove_erhua=True, full_to_half=False, remove_puncts=True, tag_oov=True)),
           "jt-half": ("jt", dict(full_to_half=True, remove_puncts=True, tag_oov=True))}


def c12():
    chk = vlib.Check("C12")
    vlib.use_repo()
    cfg = open(os.path.join(vlib.SPEC, "MCMapping.cfg")).read()
    vlib.model_check(chk, "MCMapping", cfg if not vlib.THOROUGH else cfg.replace("MaxTokens = 2", "MaxTokens = 3"))
    gen = open(os.path.join(vlib.SPEC, "MappingGen.cfg")).read()
    res = vlib.must(vlib.run_tlc("MappingGen", gen, workers=1, extra=["-simulate", "num=%d" % (8000 if vlib.THOROUGH else 4000), "-depth", "8", "-seed", str(vlib.SEED)]), "MappingGen")
    chk.add_tlc(res, "MappingGen")
    raw = sorted(set(res.prints("GEN")))
    runs = [json.loads(json.loads(x)) for x in raw]
    # what is said before the first token counts as its output (C11), so the model must not begin with a blank
    runs = [r for r in runs if not r["m"] or r["m"][0][3] == 0]
    runs = chk.rng.sample(runs, min(len(runs), 20000 if vlib.THOROUGH else 2500))
    made = vlib.collect(chk, vlib.pmap(modelled, [(vlib.SEED + k, c) for k, c in enumerate(vlib.chunks(runs, 24))]), "modelled pipelines")
    with pipes.reported(chk):
        P = pipes.build({k: (v if v else (k, {})) for k, v in OPTIONS.items()})
    per = 6000 if vlib.THOROUGH else 330
    free, spaced = texts.shapes(chk, False, 400), texts.shapes(chk, True, 400)
    jobs = []
    chk.cov["modelled_runs"] = len(made)
    for name, p in P.items():
        pipe = name[:2]
        ts = texts.texts(chk, pipe, per, spaced if pipe in texts.SPACED else free)
        items = [("", 1), ("", 3)] + [(t, 1 if chk.rng.random() < 0.7 else chk.rng.choice([2, 3, 5])) for t in ts]
        jobs += [(p, name, c) for c in vlib.chunks(items, 8)]
    chk.rng.shuffle(jobs)
    recs = made + vlib.collect(chk, vlib.pmap(job, jobs, timeout=1500), "pipelines")
    slim = [{k: v for k, v in r.items() if k != "what"} for r in recs]
    for i, clause in vlib.judge(chk, "MappingTrace", slim, name="mapped normalizations"):
        r = recs[i]
        show = [[m[0], vlib.uncps(m[5]), vlib.uncps(m[6]), m[1:5]] for x in r["full"][:1] for m in x["ms"]]
        chk.violation(clause, dict(r["what"], plain=[vlib.uncps(x) for x in r["plain"]], exc=[r["pexc"], r["fexc"], r["nexc"]], mappings=show, types=r["full"][0]["types"] if r["full"] else []),
                      key="%s|%s" % (clause, json.dumps(r["what"], sort_keys=True, ensure_ascii=True)))
    by = {}
    for r in recs:
        by[r["what"]["pipeline"]] = by.get(r["what"]["pipeline"], 0) + 1
    chk.cov["texts_by_pipeline"] = by
    chk.cov["not_normalizable"] = sum(1 for r in recs if r["pexc"])
    chk.cov["results"] = sum(len(r["full"]) for r in recs)
    for r in recs[::max(1, len(recs) // 5)]:
        chk.sample(dict(r["what"], output=vlib.uncps(r["plain"][0]) if r["plain"] else None))
    chk.assumptions.append("texts are free of NUL; which tokens a text is split into is not judged here (C14, C15-C19)")
    chk.finish()
