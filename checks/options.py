"""C20: construction options (spec/Options.tla, OptionsMC.tla, OptionsGen.tla; judged by OptionTrace.tla)."""
import json
import os

import components
import numerals
import pipes
import texts
import vlib
from vlib import cps

DEFAULT = {
    "zt": dict(remove_interjections=True, remove_erhua=True, traditional_to_simple=True, remove_puncts=False, full_to_half=True, tag_oov=False),
    "jt": dict(transliterate=False, remove_interjections=False, remove_puncts=False, full_to_half=True, tag_oov=False),
    "zi": dict(remove_interjections=True, enable_standalone_number=True, enable_0_to_9=False, enable_million=False),
    "ji": dict(full_to_half=False, enable_standalone_number=True, enable_0_to_9=False, enable_million=False),
}
# options that work on the finished text, by the name of their stage
POST = {
    "zt": dict(remove_interjections="interj", traditional_to_simple="simple", remove_puncts="puncts", full_to_half="half", tag_oov="oov"),
    "jt": dict(remove_interjections="interj", remove_puncts="puncts", full_to_half="half", tag_oov="oov"),
    "zi": dict(remove_interjections="interj"),
    "ji": {},
}
# ... except where the tagger works on half-width text as well
TAGGED = {"zt": ["remove_erhua"], "jt": ["transliterate", "full_to_half"], "zi": ["enable_standalone_number", "enable_0_to_9", "enable_million"],
          "ji": ["full_to_half", "enable_standalone_number", "enable_0_to_9", "enable_million"]}
LANG = dict(zt="zh", zi="zh", jt="ja", ji="ja")
NEITHER = {"zt": [("我们说", "好的"), ("看", "吗")], "jt": [("これは", "です")], "zi": [("", ""), ("我们说", "对吧")], "ji": [("", ""), ("これは", "です")]}
ER_WORDS = ["儿女", "儿子", "女儿", "胎儿", "婴儿", "新生儿", "幼儿", "少儿", "儿歌", "儿童", "儿科", "托儿所", "孤儿", "鹿儿岛", "正儿八经", "吊儿郎当", "容祖儿"]
ER_PLAIN = ["这", "那", "花", "玩", "味", "一块", "小孩", "今", "空", "门"]
MIX = ["，", "，然后", "、", "？", "跟", "！好"]
ODD_CJK = list("［］．＼／｛｝～＠＃ＡｚＺ０９《》〈〉·•“”‘’「」。．，、！？…—") + ["\u3000", "\u00a0", " ", "αβ", "😀", "𠮷", "한국", "é", "<oov>", "\\", '"', "[x]", "１２", "呃", "啊", "嗯", "呃呃", "啊！"]


def key(pipe, o):
    return pipe + "".join("01"[o[k]] for k in sorted(o))


def chosen(pipe, every, rng, big):
    """The assignments to build: all, or those that differ from the default or from its base in one option, and a sample."""
    if big or pipe == "ji":
        return every
    d = DEFAULT[pipe]
    away = lambda o, x: sum(o[k] != x[k] for k in o)  # noqa: E731
    off = {k: False for k in d}
    near = [o for o in every if away(o, d) <= 1 or away(o, off) <= (0 if pipe == "zi" else 1) or away(o, {k: True for k in d}) == 0]
    rest = [o for o in every if o not in near]
    return near + rng.sample(rest, min(len(rest), 1 if pipe == "zi" else 4))


def outputs(p, ts):
    return [vlib.call(p.normalize, t) for t in ts]


def job(data):
    kind, P, pipe, payload = data
    return globals()["do_" + kind](P, pipe, payload)


def blank(kind, lang, **kw):
    return dict(dict(kind=kind, lang=lang, exc=""), **kw)


def readings(p, t):
    """The text the pipeline gives."""
    e, out = vlib.call(p.normalize, t)
    return e, [] if e else [out]


def stages(pipe, o):
    return dict({s: False for s in ("simple", "interj", "puncts", "half", "oov")}, **{s: o[k] for k, s in POST[pipe].items()})


def do_post(P, pipe, payload):
    base, combos, ts = payload
    recs = []
    for t in ts:
        e0, bare = readings(P[base], t)
        if e0:
            recs.append(blank("post", LANG[pipe], exc=e0, what=dict(text=t, options=base)))
            continue
        for name, o in combos:
            e, out = vlib.call(P[name].normalize, t)
            recs.append(blank("post", LANG[pipe], o=stages(pipe, o), bare=[cps(b) for b in bare], out=cps(out) if not e else [], exc=e,
                              what=dict(text=t, options=o, plain=bare, out=out)))
    return recs


def do_half(P, pipe, payload):
    on, off, ts = payload
    recs = []
    for t in ts:
        h = "".join(chr(ord(c) - 65248) if 65281 <= ord(c) <= 65374 else {"。": ".", "“": '"', "”": '"'}.get(c, c) for c in t)
        (e1, a), (e2, b), (e3, c) = vlib.call(P[on].normalize, t), vlib.call(P[on].normalize, h), vlib.call(P[off].normalize, h)
        recs.append(blank("half", LANG[pipe], ta=cps(t), tb=cps(h), a=cps(a) if not e1 else [], b=cps(b) if not e2 else [], exc=e1 or e2, what=dict(text=t, options=on, out=a, half=h, out_half=b)))
        recs.append(blank("plain", LANG[pipe], opt="full_to_half", t=cps(h), a=cps(b) if not e2 else [], b=cps(c) if not e3 else [], exc=e2 or e3, what=dict(text=h, option="full_to_half", on=b, off=c)))
    return recs


def do_plain(P, pipe, payload):
    opt, on, off, ts = payload
    recs = []
    for t in ts:
        (e1, a), (e2, b) = vlib.call(P[on].normalize, t), vlib.call(P[off].normalize, t)
        recs.append(blank("plain", LANG[pipe], opt=opt, t=cps(t), a=cps(a) if not e1 else [], b=cps(b) if not e2 else [], exc=e1 or e2, what=dict(text=t, option=opt, on=a, off=b)))
    return recs


def do_only(P, pipe, payload):
    opt, on, off, ts = payload
    recs = []
    for t in ts:
        e1, m = vlib.call(P[on].normalize_with_mapping, t, include_identity=True)
        e2, b = vlib.call(P[off].normalize, t)
        if e1 or e2:
            recs.append(blank("only", LANG[pipe], exc=e1 or e2, what=dict(text=t, option=opt)))
            continue
        recs.append(blank("only", LANG[pipe], opt=opt, a=cps(m.output_text), b=cps(b), toks=[dict(type=x.token_type or "", t=cps(x.input_text), out=cps(x.output_text)) for x in m.mappings],
                          what=dict(text=t, option=opt, on=m.output_text, off=b)))
    return recs


def piece(k, t, **kw):
    return dict(dict(k=k, t=cps(t), w=[], n=[], unit=[], pre=[], post=[]), **{**kw, **{"class": kw.get("cls", "")}})


def do_pieces(P, pipe, payload):
    combos, items = payload
    recs = []
    for pieces in items:
        text = "".join(vlib.uncps(p["t"] + p["unit"]) for p in pieces)
        for name, o in combos:
            e, out = vlib.call(P[name].normalize, text)
            sent = [{k: v for k, v in p.items() if k != "cls"} for p in pieces]
            recs.append(blank("pieces", LANG[pipe], pieces=sent, out=cps(out) if not e else [], exc=e, what=dict(text=text, options=o, out=out),
                              o=dict(stages(pipe, o), erhua=o.get("remove_erhua", False), trans=o.get("transliterate", False), standalone=o.get("enable_standalone_number", True),
                                     zero9=o.get("enable_0_to_9", False), million=o.get("enable_million", False))))
    return recs


def do_liang(P, pipe, combos):
    """The spoken number whose word for two is also a unit, when numbers by themselves are left alone."""
    recs = do_pieces(P, pipe, (combos, [[piece("num", "一万两千", n=[1, 2, 0, 0, 0], cls="plain")]]))
    return [dict(x, key="standalone off 一万两千") for x in recs]


# -- the texts -------------------------------------------------------------------
def mixed(chk, pipe, n, shaped, tables):
    """Generated texts in which characters that some option names are scattered."""
    r = chk.rng
    base = texts.texts(chk, pipe, n, shaped)
    trad = [chr(c) for c in tables["trad"]]
    pools = [ODD_CJK, [chr(c) for c in tables["punct_zh"]], trad, [chr(c) for c in range(65281, 65375)], [chr(r.randrange(0x3400, 0x9fff)) for _ in range(400)]]
    out = []
    for t in base:
        for _ in range(r.choice([1, 1, 2, 3])):
            at = r.choice([0, len(t), r.randint(0, len(t))])
            t = t[:at] + r.choice(r.choice(pools)) + t[at:]
        out.append(t)
    return out


def apart(r, pipe, n):
    """Examples and parts that do not touch each other (numbers side by side may be split in several ways)."""
    a = texts.atoms(pipe)
    # 两 is a unit as well as a number, 千克 a unit that begins like a number
    fit = lambda t: "两" not in t and "千克" not in t  # noqa: E731
    links = ["，我们看", "，还有，", "！请问"] if LANG[pipe] == "zh" else ["、それは", "と、また", "。"]
    pool = [x for k in ("num", "date", "unit", "rule", "word") for x in a[k] if fit(x)]
    out = [t for t in texts.corpus(pipe) if fit(t)]
    out = r.sample(out, min(len(out), n // 2))
    while len(out) < n:
        out.append("".join(r.choice(pool) + r.choice(links) for _ in range(r.randint(1, 4))))
    return out


def erhua(r, n):
    out = []
    for _ in range(n):
        ps = []
        for _ in range(r.randint(1, 3)):
            if r.random() < 0.5:
                ps += [piece("text", r.choice(["看", "有", "的", "他说，", "去"]) + r.choice(ER_WORDS) + r.choice(["们", "好", "，"]))]
            else:
                ps += [piece("text", r.choice(ER_PLAIN)), piece("er", "儿"), piece("text", r.choice(["，", "好", "很", "有", "！"]))]
        out.append(ps)
    return out


def translit(r, n, tables):
    words = [vlib.uncps(x["t"]) for x in tables["trans"]]
    out = []
    for _ in range(n):
        ps = []
        for _ in range(r.randint(1, 3)):
            ps += [piece("text", r.choice(["これは", "東京の", "私は"])), piece("trans", r.choice(words)), piece("text", r.choice(["です", "を見る", "、"]))]
        out.append(ps)
    return out


def number(r, lang, mk):
    """One number of a class an option names, or a component that no option names."""
    say = numerals.zh_words if lang == "zh" else numerals.ja_words
    kind = r.choice(["plain", "plain", "plain", "measure", "measure", "money", "fixed"])
    if kind == "fixed":
        t, w = r.choice([("三分之一", "1/3"), ("百分之五", "5%"), ("一点五", "1.5"), ("二零零八年", "2008年"), ("三点零五分", "3:05"), ("负一点二", "-1.2"), ("五月三日", "05/03")] if lang == "zh" else
                        [("三分の一", "1/3"), ("一点五", "1.5"), ("三時五分", "3時5分"), ("五月三日", "5月3日"), ("二千八年", "2008年")])
        return piece("fixed", t, w=cps(w))
    n = r.choice([str(r.randint(1, 9)), str(r.randint(10, 99)), mk.fill(r.choice(mk.by[3])), mk.fill(r.choice(mk.by[4])), mk.fill(r.choice(mk.by[5])), mk.fill(r.choice(mk.by[7])), mk.fill(r.choice(mk.by[7])), mk.fill(r.choice(mk.by[8]))])
    unit, pre, post = "", "", ""
    if kind == "measure":
        unit, post = r.choice([("个", "个"), ("公里", "km"), ("岁", "岁")] if lang == "zh" else [("個", "個"), ("キロメートル", "km"), ("歳", "歳")])
    if kind == "money":
        unit, pre = r.choice([("美元", "$"), ("欧元", "€")] if lang == "zh" else [("ドル", "$"), ("ユーロ", "€")])
    return piece("num", say(n), n=numerals.digits(n), unit=cps(unit), pre=cps(pre), post=cps(post), cls=kind)


def numbers(r, lang, mk, count):
    out = []
    link = ["，我们看", "，还有，", "是，"] if lang == "zh" else ["、それは", "と、また", "は、"]
    for _ in range(count):
        ps = []
        for k in range(r.choice([1, 1, 2, 3])):
            ps += [piece("text", r.choice(link))] if k else [piece("text", r.choice(["", "这是" if lang == "zh" else "これは"]))]
            ps.append(number(r, lang, mk))
        ps.append(piece("text", r.choice(["", "，好的" if lang == "zh" else "、です"])))
        out.append(ps)
    return out


def main():
    chk = vlib.Check("C20")
    big, r = vlib.THOROUGH, chk.rng
    cfg = open(os.path.join(vlib.SPEC, "OptionsMC.cfg")).read()
    vlib.model_check(chk, "OptionsMC", cfg.replace("MaxLen = 2", "MaxLen = 3") if big else cfg)
    with open(os.path.join(vlib.SPEC, "OptionTables.json")) as f:
        tables = json.load(f)
    every = {p: [] for p in DEFAULT}
    for g in components.generated(chk, "OptionsGen", "OptionsGen.cfg", 128):
        every[g["pipe"]].append(g["o"])
    mk = numerals.Make(chk, numerals.patterns(chk))
    built, bases = {}, {}
    for pipe in DEFAULT:
        for o in chosen(pipe, sorted(every[pipe], key=lambda o: key(pipe, o)), r, big):
            built[key(pipe, o)] = (pipe, o)
            if POST[pipe]:
                b = {k: o[k] if k in TAGGED[pipe] else False for k in o}
                built[key(pipe, b)] = (pipe, b)
    with pipes.reported(chk):
        P = pipes.build(built)

    def sides(pipe, opt, want=1):
        """Pairs of built pipelines that differ in one option only."""
        pairs = []
        for name, (p, o) in sorted(built.items()):
            other = key(pipe, dict(o, **{opt: False})) if p == pipe and o[opt] else None
            if other in built:
                pairs.append((name, other))
        d = key(pipe, dict(DEFAULT[pipe], **{opt: True}))
        pairs.sort(key=lambda x: x[0] != d)
        return pairs[:1] + r.sample(pairs[1:], min(len(pairs) - 1, want - 1))

    jobs = []
    shaped = texts.shapes(chk, False, 400)
    for pipe in DEFAULT:
        if not POST[pipe]:
            continue
        groups = {}
        for name, (p, o) in sorted(built.items()):
            if p == pipe:
                groups.setdefault(key(pipe, {k: o[k] if k in TAGGED[pipe] else False for k in o}), []).append((name, o))
        singles = [chr(c) for c in sorted(set(tables["punct_zh"]) | set(range(65281, 65375)) | set(range(33, 127)) | {8220, 8221, 12288, 160, 32})] + ODD_CJK
        rare = [chr(c) for c in r.sample(range(0x3400, 0x9fff), 400 if not big else 20000)] + [chr(r.choice(tables["trad"])) for _ in range(300)]
        strings = ["".join(r.choice(rare) for _ in range(8)) for _ in range(150 if not big else 4000)]
        for base, combos in sorted(groups.items()):
            combos = [c for c in combos if c[0] != base]
            some = max(4, (1500 if pipe == "zi" else 3000) // max(1, len(groups) * len(combos))) if not big else 1200
            ts = mixed(chk, pipe, some * 2, shaped, tables) + r.sample(strings, min(len(strings), some))
            ts += [r.choice("好の") + c + "A" for c in (singles if big else r.sample(singles, min(len(singles), some)))]
            for part in vlib.chunks(ts, 16):
                jobs.append(("post", P, pipe, (base, combos, part)))
        # each option alone, over every character that it or another one names
        off = {k: False for k in DEFAULT[pipe]}
        base = key(pipe, off)
        alone = [(key(pipe, dict(off, **{k: True})), dict(off, **{k: True})) for k in POST[pipe] if k not in TAGGED[pipe]]
        alone = [a for a in alone if a[0] in built]
        chars = [chr(c) for c in tables["trad"]] if pipe == "zt" else []
        chars = singles + (chars if big else r.sample(chars, min(len(chars), 900)))
        chars += [chr(c) for c in r.sample(tables["charset_zh" if pipe != "jt" else "charset_ja"], 300 if not big else 2500)]
        lines = [chars[k::len(chars) // 6 + 1] for k in range(len(chars) // 6 + 1)]
        for part in vlib.chunks(["".join(x) for x in lines], 16):
            jobs.append(("post", P, pipe, (base, alone, part)))
    n = 150 if not big else 3000
    for pipe in ("jt", "ji"):
        wide = lambda t: "".join(chr(ord(c) + 65248) if 33 <= ord(c) <= 126 and r.random() < 0.6 else c for c in t)  # noqa: E731
        for on, off in sides(pipe, "full_to_half", 4):
            for part in vlib.chunks([wide(t) for t in texts.texts(chk, pipe, n, shaped)], 8):
                jobs.append(("half", P, pipe, (on, off, part)))
    for pipe, opt in (("zi", "enable_million"), ("ji", "enable_million"), ("zt", "remove_erhua"), ("jt", "transliterate")):
        for on, off in sides(pipe, opt, 2):
            for part in vlib.chunks(texts.texts(chk, pipe, n * 2, shaped), 8):
                jobs.append(("plain", P, pipe, (opt, on, off, part)))
    for pipe, opt in (("zi", "enable_standalone_number"), ("ji", "enable_standalone_number"), ("zi", "enable_0_to_9"), ("ji", "enable_0_to_9")):
        for on, off in sides(pipe, opt, 2):
            for part in vlib.chunks(apart(r, pipe, n * 2), 8):
                jobs.append(("only", P, pipe, (opt, on, off, part)))
    for pipe, items in (("zt", erhua(r, n)), ("jt", translit(r, n, tables)), ("zi", numbers(r, "zh", mk, n * 3)), ("ji", numbers(r, "ja", mk, n * 3))):
        combos = [(name, o) for name, (p, o) in sorted(built.items()) if p == pipe]
        if pipe == "zi":
            jobs.append(("liang", P, pipe, [c for c in combos if not c[1]["enable_standalone_number"]]))
        for part in vlib.chunks(items, 16):
            jobs.append(("pieces", P, pipe, (combos if len(combos) < 9 or big else r.sample(combos, 8), part)))
    recs = vlib.collect(chk, vlib.pmap(job, jobs), "option runs")
    for k, clause in vlib.judge(chk, "OptionTrace", [{a: b for a, b in x.items() if a not in ("what", "key")} for x in recs], name="runs under options"):
        chk.violation(clause, recs[k]["what"], key=recs[k].get("key"))
    for x in recs[:: max(1, len(recs) // 3)][:3]:
        chk.sample(x["what"])
    chk.assumptions += ["the tables of traditional characters, punctuation, character sets and transliterations are those of the specification",
                        "which of several equally good readings is chosen is left open"]
    chk.finish()

