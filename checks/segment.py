"""C14: tagging only segments the written text (spec/SegmentRules.tla; judged by SegmentTrace.tla)."""
import json
import os
import re

import pipes
import texts
import vlib
from vlib import cps

OPTIONS = {
    "zt": ("zt", {}), "jt": ("jt", {}), "zi": ("zi", {}), "ji": ("ji", {}), "et": ("et", {}), "ei": ("ei", {}),
    # without any post-processing: plain text must come back
    "zt-plain": ("zt", dict(remove_interjections=False, remove_erhua=False, traditional_to_simple=False, full_to_half=False)),
    "jt-plain": ("jt", dict(full_to_half=False)),
    "jt-kana": ("jt", dict(transliterate=True)),
    "zi-plain": ("zi", dict(remove_interjections=False, enable_0_to_9=True)),
    "ji-half": ("ji", dict(full_to_half=True, enable_0_to_9=True)),
}
WHOLE = {"zt-plain", "jt-plain", "zi-plain", "ji", "et", "ei"}


def job(j):
    p, name, items = j
    recs = []
    for text in items:
        e, tagged = vlib.call(p.tag, text)
        out = ""
        if not e and name in WHOLE:
            e, out = vlib.call(p.normalize, text)
        recs.append(dict(input=cps(text), tagged=cps(tagged) if not e else [], out=cps(out) if not e else [], exc=e, whole=name in WHOLE,
                         tight=text == text.strip() and not re.search(r"\s\s", text) and not re.search(r"[^\S ]", text), what=dict(pipeline=name, text=text)))
    return recs


def plain_texts(chk, n):
    """Texts of characters no rule mentions: any script, any punctuation."""
    rng = chk.rng
    ranges = [(0x4e00, 0x9fa5), (0x3041, 0x30ff), (0xac00, 0xd7a3), (0x400, 0x4ff), (0x1f600, 0x1f640), (0x20000, 0x20050), (0x21, 0x2f), (0x3a, 0x7e), (0x2190, 0x2300), (0xe0, 0x17f), (0x3001, 0x3030), (0x1, 0x1f), (0x600, 0x6ff), (0xe000, 0xe010), (0xffe0, 0xffef), (0x10fffe, 0x10ffff)]
    out = []
    for _ in range(n):
        r = rng.sample(ranges, rng.choice([1, 1, 2, 3]))
        t = ""
        for _ in range(rng.choice([1, 2, 3, 5, 9])):
            lo, hi = rng.choice(r)
            t += chr(rng.randint(lo, hi))
        out.append(t)
    return out


def c14():
    chk = vlib.Check("C14")
    vlib.use_repo()
    cfg = open(os.path.join(vlib.SPEC, "MCSegment.cfg")).read()
    vlib.model_check(chk, "Segment", cfg.replace("MaxLen = 5", "MaxLen = %d" % (6 if vlib.THOROUGH else 4)), timeout=3000)
    with pipes.reported(chk):
        P = pipes.build(OPTIONS)
    per = 8000 if vlib.THOROUGH else 260
    free, spaced = texts.shapes(chk, False, 400), texts.shapes(chk, True, 400)
    jobs = []
    for name, p in P.items():
        pipe = name[:2]
        ts = texts.texts(chk, pipe, per, spaced if pipe in texts.SPACED else free)
        if pipe not in texts.SPACED:
            ts += plain_texts(chk, per // 2)
            structured = [x for k in ("num", "date", "unit") for x in texts.atoms(pipe)[k]]
            # one more digit at every place of every structured atom
            digits = "0123456789" if pipe in ("zt", "jt") else "一二三五九零十"
            more = sorted({x[:k] + d + x[k:] for x in structured for k in range(1, len(x)) for d in {digits[0] if digits[0] == "0" else "零", chk.rng.choice(digits), x[k - 1], x[k]}})
            ts += [texts.near(chk.rng, chk.rng.choice(structured)) for _ in range(per // 4)]
            ts += more if name == pipe or vlib.THOROUGH else chk.rng.sample(more, per // 4)
            ts = [t for t in ts if t]
        else:
            ts += [" ".join(chk.rng.choice(texts.atoms(pipe)["word"]) for _ in range(chk.rng.choice([1, 2, 4]))) for _ in range(30)]
        jobs += [(p, name, c) for c in vlib.chunks(ts, 8)]
    chk.rng.shuffle(jobs)
    recs = vlib.collect(chk, vlib.pmap(job, jobs, timeout=1500), "pipelines")
    slim = [{k: v for k, v in r.items() if k != "what"} for r in recs]
    for i, clause in vlib.judge(chk, "SegmentTrace", slim, name="taggings"):
        r = recs[i]
        chk.violation(clause, dict(r["what"], tagged=vlib.uncps(r["tagged"]), output=vlib.uncps(r["out"]), exc=r["exc"]),
                      key="%s|%s" % (clause, json.dumps(r["what"], sort_keys=True, ensure_ascii=True)))
    by = {}
    for r in recs:
        by[r["what"]["pipeline"]] = by.get(r["what"]["pipeline"], 0) + 1
    chk.cov["texts_by_pipeline"] = by
    for r in recs[::max(1, len(recs) // 5)]:
        chk.sample(dict(r["what"], tagged=vlib.uncps(r["tagged"])))
    chk.assumptions.append("texts are free of NUL; English texts are words and numbers separated by spaces or punctuation")
    chk.finish()
