"""C15-C18: numbers (spec/Numerals.tla, NumeralsEn.tla; judged by NumberTrace.tla, EnglishTrace.tla)."""
import json

import pipes
import vlib
from vlib import cps

DZH, DJA = "零一二三四五六七八九", "〇一二三四五六七八九"
PHONES = "110 111 112 114 119 120 122 10010 10086 12110 12306 12315 12320 12328 12333 12345 12366 95110 95128 95188 95500 95511 95533 95555 95566 95588 95598 95599".split()
PUT = {"zh": [("", ""), ("共", "了"), ("有", "的"), ("一共是", "左右")], "ja": [("", ""), ("計", "だ"), ("これは", "でした")],
       "en": [("", ""), ("about ", " things"), ("we saw ", ""), ("it costs ", " now")]}


def patterns(chk, module="NumeralsMC", cfg="NumeralsGen.cfg"):
    """All patterns of zero and non-zero digits, generated by the specification (with its laws checked)."""
    res = vlib.must(vlib.run_tlc(module, cfg, workers=1), module)
    chk.add_tlc(res, module + " (generation)")
    out = [json.loads(json.loads(x)) for x in res.prints("GEN")]
    if len(out) < 4000:
        raise vlib.MachineryError("too few digit patterns generated: %d" % len(out))
    return out


class Make:
    """Concrete numbers along the generated patterns."""

    def __init__(self, chk, pats):
        self.rng = chk.rng
        self.by = {}
        for p in pats:
            self.by.setdefault(len(p), []).append(p)

    def fill(self, p):
        r = self.rng
        return "".join("0" if x == 0 else r.choice("111222345678" "9") for x in p)

    def integer(self, most, least=1):
        n = self.rng.randint(least, most)
        if n > 12:
            return self.fill([1] + [self.rng.randint(0, 1) for _ in range(n - 1)])
        return self.fill(self.rng.choice(self.by[n]))

    def decimals(self):
        return "".join(self.rng.choice("0123456789") for _ in range(self.rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 7])))


def digits(s):
    return [int(c) for c in s]


def commas(s):
    return "{:,}".format(int(s))


def cases(mk, per, lang, pats, signs, units):
    """Written numbers as records without text: every pattern once whole, then the other forms."""
    r = mk.rng
    out = []

    def add(form, a, f="", b="", bf="", sign="", group=False, unit=""):
        out.append(dict(form=form, a=digits(a), f=digits(f), b=digits(b), bf=digits(bf), sign=sign, group=group, unit=cps(unit), _n=(a, f, b, bf, unit)))

    for p in pats:
        add("int", mk.fill(p), sign=r.choice(signs + [""] * 3))
    group = (lambda: r.random() < 0.4) if lang == "ja" else (lambda: False)
    for _ in range(per):
        add("dec", mk.integer(10), mk.decimals(), sign=r.choice(signs), group=group())
        add("pct", mk.integer(12), r.choice(["", mk.decimals()]), sign=r.choice(signs), group=group())
        add("frac", mk.integer(8), r.choice(["", "", "", mk.decimals()]), mk.integer(8), r.choice(["", "", "", mk.decimals()]), sign=r.choice(signs))
        add("meas", mk.integer(12), unit=r.choice(units), group=r.random() < 0.5)
        add("meas", mk.integer(4), mk.decimals(), sign=r.choice(signs), unit=r.choice(units))
    if lang == "ja":
        for _ in range(per):
            add("int", mk.integer(12, 4), sign=r.choice(signs), group=True)
    return out


def full(s):
    return "".join(chr(ord(c) + 65248) if "0" <= c <= "9" else c for c in s)


def text_of(c, wide=False):
    a, f, b, bf, unit = c["_n"]
    a, b = (commas(a), commas(b) if b else b) if c["group"] else (a, b)
    t = c["sign"] + a + ("." + f if f else "")
    t += {"pct": "%", "frac": "/" + b + ("." + bf if bf else ""), "meas": unit}.get(c["form"], "")
    return full(t) if wide else t


def read_cn(jobdata):
    """TN of zh/ja (and ITN of what was said)."""
    P, lang, items = jobdata
    tn, back = P
    recs = []
    for c, (x, y), wide in items:
        text = x + text_of(c, wide) + y
        e, said = vlib.call(tn.normalize, text)
        base = {k: v for k, v in c.items() if k != "_n"}
        base.update(lang=lang, before=cps(x), after=cps(y), text=cps(text), zero9=False, million=False, ra=[], rf=[], rb=[], rbf=[])
        recs.append(dict(base, dir="tn", out=cps(said) if not e else [], said=[], exc=e, what=dict(text=text, out=said)))
        if back is not None and not e:
            e, out = vlib.call(back.normalize, said)
            recs.append(dict(base, dir="round", said=cps(said), out=cps(out) if not e else [], exc=e, what=dict(text=text, said=said, out=out)))
    return recs


def judged(chk, module, recs, name):
    for k, clause in vlib.judge(chk, module, [{a: b for a, b in r.items() if a != "what"} for r in recs], name=name):
        chk.violation(clause, recs[k]["what"])
    for r in recs[:: max(1, len(recs) // 3)][:3]:
        chk.sample(dict(kind=name, **r["what"]))


def reading(prop, lang, pipe, units):
    chk = vlib.Check(prop)
    vlib.use_repo()
    cfg = open(vlib.os.path.join(vlib.SPEC, "NumeralsMC.cfg")).read()
    vlib.model_check(chk, "NumeralsMC", cfg.replace("MaxLen = 9", "MaxLen = %d" % (11 if vlib.THOROUGH else 8)))
    pats = patterns(chk)
    with pipes.reported(chk):
        P = pipes.build({"tn": (pipe, {})})
    mk = Make(chk, pats)
    per = 12000 if vlib.THOROUGH else 1100
    cs = cases(mk, per, lang, pats * (8 if vlib.THOROUGH else 1), ["", "", "-", "+", "±"], units)
    if lang == "zh":
        cs += [dict(form="int", a=digits(p), f=[], b=[], bf=[], sign="", group=False, unit=[], _n=(p, "", "", "", "")) for p in PHONES]
    for z in ("0", "1", "2", "10", "100", "1000", "10000", "100000000", "200", "2000", "20000", "200000000"):
        cs.append(dict(form="int", a=digits(z), f=[], b=[], bf=[], sign="", group=False, unit=[], _n=(z, "", "", "", "")))
    items = []
    for c in cs:
        wide = not c["group"] and not c["f"] and not c["bf"] and c["sign"] == "" and c["form"] == "int" and chk.rng.random() < 0.15
        items.append((c, chk.rng.choice(PUT[lang]), wide))
    recs = vlib.collect(chk, vlib.pmap(read_cn, [((P["tn"], None), lang, part) for part in vlib.chunks(items, 48)]), "numbers")
    judged(chk, "NumberTrace", recs, "readings of written numbers")
    chk.cov["numbers"] = len(recs)
    chk.assumptions += ["numbers up to twelve digits; a decimal or fraction that is also a date (yyyy.mm, mm/d with two-digit months) may be read as the date",
                        "numbers of eleven digits and the service numbers of the phone list may be read digit by digit"] if lang == "zh" else [
                            "numbers up to twelve digits; those of nine or more without commas may be read digit by digit"]
    chk.finish()


def c15():
    reading("C15", "zh", "zt", ["个", "个", "人", "本"])


def c17():
    reading("C17", "ja", "jt", ["個", "個", "人"])


# -- English -------------------------------------------------------------------
ONES = "zero one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen".split()
TENS = "_ _ twenty thirty forty fifty sixty seventy eighty ninety".split()
SCALES = ["", "thousand", "million", "billion", "trillion", "quadrillion", "quintillion", "sextillion"]
SUF = {"one": "first", "two": "second", "three": "third", "five": "fifth", "eight": "eighth", "nine": "ninth", "twelve": "twelfth"}
QUANTITIES = ["million", "billion", "trillion"]


def en_words(s, and_):
    """The words of a number, to speak to ITN (the specification checks that they mean the number)."""
    n = int(s)
    if n == 0:
        return ["zero"]
    groups = []
    while n:
        n, g = divmod(n, 1000)
        groups.append(g)
    out = []
    for k in range(len(groups) - 1, -1, -1):
        g = groups[k]
        if not g:
            continue
        h, t = divmod(g, 100)
        if h:
            out += [ONES[h], "hundred"]
        if t and and_ and (h or (out and k == 0 and not h)):
            out.append("and")
        if t:
            out += [ONES[t]] if t < 20 else [TENS[t // 10]] + ([ONES[t % 10]] if t % 10 else [])
        if k:
            out.append(SCALES[k])
    return out


def ordinal(ws):
    w = ws[-1]
    w = SUF.get(w) or (w[:-1] + "ieth" if w.endswith("y") else w + "th")
    return ws[:-1] + [w]


def suffix(s):
    if s[-2:-1] == "1":
        return "th"
    return {"1": "st", "2": "nd", "3": "rd"}.get(s[-1], "th")


def en_cases(mk, pats, per):
    r = mk.rng
    out = []

    def add(form, a, f="", q="", sign="", group=False):
        out.append(dict(form=form, a=digits(a), f=digits(f), q=q, sign=sign, group=group, _n=(a, f, q)))

    for p in pats:
        add("int", mk.fill(p), sign=r.choice(["", "", "-"]), group=r.random() < 0.4)
    for _ in range(per):
        add("int", mk.integer(15, 1), sign=r.choice(["", "-"]), group=r.random() < 0.6)
        add("dec", mk.integer(9), mk.decimals(), sign=r.choice(["", "", "-"]), group=r.random() < 0.4)
        add("ord", mk.integer(7), group=r.random() < 0.4)
        add("pct", mk.integer(6), r.choice(["", mk.decimals()]), sign=r.choice(["", "-"]), group=r.random() < 0.3)
        add("qty", mk.integer(3), r.choice(["", mk.decimals()]), q=r.choice(QUANTITIES), sign=r.choice(["", "", "-"]))
    for _ in range(per // 2):
        add("qty", mk.integer(6, 4), q=r.choice(QUANTITIES), sign=r.choice(["", "", "-"]), group=True)
    return out


def en_text(c):
    a, f, q = c["_n"]
    t = c["sign"] + (commas(a) if c["group"] else a) + ("." + f if f else "")
    return t + {"ord": suffix(a), "pct": "%", "qty": " " + q}.get(c["form"], "")


def en_base(c, x, y):
    base = {k: v for k, v in c.items() if k != "_n"}
    base.update(before=x.split(), after=y.split(), bc=cps(x), ac=cps(y), num=cps(en_text(c)), signword="", words=[], said=[], out=[], kept=False)
    return base


def read_en(jobdata):
    (tn, back), items = jobdata
    recs = []
    for c, (x, y) in items:
        text = x + en_text(c) + y
        e, said = vlib.call(tn.normalize, text)
        base = en_base(c, x, y)
        words = said.split(" ") if not e else []
        recs.append(dict(base, dir="tn", said=words, exc=e, what=dict(text=text, out=said)))
        if back is not None and not e:
            e, out = vlib.call(back.normalize, said)
            recs.append(dict(base, dir="round", said=words, out=cps(out) if not e else [], kept=out == said, exc=e, what=dict(text=text, said=said, out=out)))
    return recs


def c16():
    chk = vlib.Check("C16")
    vlib.use_repo()
    cfg = open(vlib.os.path.join(vlib.SPEC, "NumeralsEnMC.cfg")).read()
    vlib.model_check(chk, "NumeralsEnMC", cfg.replace("MaxLen = 9", "MaxLen = %d" % (12 if vlib.THOROUGH else 9)))
    pats = patterns(chk, "NumeralsEnMC", "NumeralsEnGen.cfg")
    with pipes.reported(chk):
        P = pipes.build({"tn": ("et", {})})
    mk = Make(chk, pats)
    cs = en_cases(mk, pats * (8 if vlib.THOROUGH else 1), 12000 if vlib.THOROUGH else 700)
    items = [(c, chk.rng.choice(PUT["en"])) for c in cs]
    recs = vlib.collect(chk, vlib.pmap(read_en, [((P["tn"], None), part) for part in vlib.chunks(items, 48)]), "numbers")
    judged(chk, "EnglishTrace", recs, "readings of English numbers")
    chk.cov["numbers"] = len(recs)
    chk.assumptions += ["numbers up to fifteen digits; four plain digits may be read as a year in pairs"]
    chk.finish()


# -- inverse -------------------------------------------------------------------
def zh_words(s, short=False, two=False):
    """Digits to words for ITN (checked by the specification's understanding)."""
    if s == "0":
        return "零"
    n, out, gap, some = len(s), "", False, False
    for k, c in enumerate(s):
        p = n - 1 - k
        q, x = p % 4, int(c)
        if x:
            out += ("零" if gap and out else "") + ("" if x == 1 and q == 1 and not out else DZH[x]) + ["", "十", "百", "千"][q]
            gap, some = False, True
        else:
            gap = True
        if q == 0:
            if some and p:
                out += {4: "万", 8: "亿"}[p]
            gap, some = not some, False
    if two:
        for m in "百千万亿":
            out = out.replace("二" + m, "两" + m)
        out = out.replace("十两", "十二")
    if short and n > 2 and s[-1] == "0" and s[-2] != "0" and s[-3] != "0" and out.endswith("十"):
        out = out[:-1]
    return out


def ja_words(s):
    if s == "0":
        return "〇"
    n, out, some = len(s), "", False
    for k, c in enumerate(s):
        p = n - 1 - k
        q, x = p % 4, int(c)
        if x:
            out += ("" if x == 1 and (q in (1, 2) or p == 3) else DJA[x]) + ["", "十", "百", "千"][q]
            some = True
        if q == 0:
            if some and p:
                out += {4: "万", 8: "億"}[p]
            some = False
    return out


def write_cn(jobdata):
    itn, lang, zero9, million, items = jobdata
    recs = []
    for c, (x, y), words in items:
        a, f, b, bf = words
        n = a + ("点" + f if f else "")
        d = b + ("点" + bf if bf else "")
        unit = "".join(map(chr, c["unit"]))
        sign = {"": "", "-": "负" if lang == "zh" else "マイナス"}[c["sign"]]
        said = sign + {"pct": "百分之" + n if lang == "zh" else n + "パーセント", "frac": d + ("分之" if lang == "zh" else "分の") + n, "meas": n + unit}.get(c["form"], n)
        text = x + said + y
        e, out = vlib.call(itn.normalize, text)
        base = {k: v for k, v in c.items() if k != "_n"}
        base.update(dir="itn", lang=lang, before=cps(x), after=cps(y), text=cps(text), out=cps(out) if not e else [], said=[], exc=e, zero9=zero9, million=million,
                    ra=cps(a), rf=cps(f), rb=cps(b), rbf=cps(bf), what=dict(said=text, out=out, zero9=zero9, million=million))
        recs.append(base)
    return recs


def write_en(jobdata):
    itn, items = jobdata
    recs = []
    for c, (x, y), sign, words in items:
        text = x + " ".join(([sign] if sign else []) + words) + y
        e, out = vlib.call(itn.normalize, text)
        base = en_base(c, x, y)
        base.update(dir="itn", signword=sign, words=words, out=cps(out) if not e else [], kept=out == text, exc=e, what=dict(said=text, out=out))
        recs.append(base)
    return recs


ITN_OPTS = {"zi": ("zi", {}), "zi9": ("zi", dict(enable_0_to_9=True)), "zim": ("zi", dict(enable_million=True)), "ji": ("ji", {}), "ji9": ("ji", dict(enable_0_to_9=True)), "ei": ("ei", {}),
            "zt": ("zt", {}), "jt": ("jt", {}), "et": ("et", {})}


def c18():
    chk = vlib.Check("C18")
    vlib.use_repo()
    pats = patterns(chk)
    vlib.model_check(chk, "NumeralsEnMC", "NumeralsEnMC.cfg")
    with pipes.reported(chk):
        P = pipes.build(ITN_OPTS)
    mk = Make(chk, pats)
    r = chk.rng
    big = vlib.THOROUGH
    jobs, kinds = [], []
    for lang, names, units in (("zh", ["zi", "zi9", "zim"], ["个"]), ("ja", ["ji", "ji9"], ["個"])):
        for name in names:
            cs = cases(mk, 5000 if big else 160, lang, [p for p in pats if r.random() < (1 if big else 0.35)], ["", "", "-"], units)
            cs = [c for c in cs if not c["group"] or c["form"] == "meas"]
            items = []
            for c in cs:
                c["group"] = False
                a, f, b, bf, unit = c["_n"]
                if lang == "zh":
                    w = lambda s: zh_words(s, r.random() < 0.2 and c["form"] in ("int",), r.random() < 0.3) if s else ""  # noqa: E731
                    items.append((c, r.choice(PUT[lang][:2]), (w(a), "".join(DZH[int(k)] for k in f), w(b), "".join(DZH[int(k)] for k in bf))))
                else:
                    w = lambda s: ja_words(s) if s else ""  # noqa: E731
                    items.append((c, r.choice(PUT[lang][:2]), (w(a), "".join(DJA[int(k)] for k in f), w(b), "".join(DJA[int(k)] for k in bf))))
            for part in vlib.chunks(items, 16):
                jobs.append((write_cn, (P[name], lang, "9" in name, name == "zim", part)))
    for lang, tn, back, units in (("zh", "zt", "zi", ["个"]), ("ja", "jt", "ji", ["個"])):
        cs = cases(mk, 4000 if big else 120, lang, [p for p in pats if r.random() < (1 if big else 0.2)], ["", "", "-"], units)
        items = [(c, r.choice(PUT[lang][:2]), False) for c in cs]
        for part in vlib.chunks(items, 16):
            jobs.append((read_cn, ((P[tn], P[back]), lang, part)))
    cs = en_cases(mk, [p for p in pats if r.random() < (1 if big else 0.5)], 6000 if big else 500)
    items = []
    for c in cs:
        a, f, q = c["_n"]
        if c["form"] == "int" and r.random() < 0.3:
            a = mk.integer(24, 9)
            c.update(a=digits(a), _n=(a, f, q))
        c["group"] = False
        if c["form"] == "ord" and a == "0":
            continue
        w = en_words(a, r.random() < 0.4)
        w = ordinal(w) if c["form"] == "ord" else w
        if f:
            z = r.choice(["zero", "o", "oh"])
            w = w + ["point"] + [z if k == "0" else ONES[int(k)] for k in f]
        w += {"pct": ["percent"], "qty": [q]}.get(c["form"], [])
        items.append((c, r.choice(PUT["en"]), {"": "", "-": r.choice(["minus", "negative"])}[c["sign"]], w))
    for part in vlib.chunks(items, 24):
        jobs.append((write_en, (P["ei"], part)))
    rounds = [(c, r.choice(PUT["en"])) for c in en_cases(mk, [p for p in pats if r.random() < (1 if big else 0.15)], 3000 if big else 200)]
    for part in vlib.chunks(rounds, 24):
        jobs.append((read_en, ((P["et"], P["ei"]), part)))
    res = vlib.pmap(lambda j: (j[0].__name__, j[0](j[1])), jobs)
    cn, en = [], []
    for x in res:
        if isinstance(x, vlib.Died):
            chk.violation("the code under test died or gave no answer", dict(driver="numbers", reason=str(x)))
        else:
            (cn if x[0].endswith("cn") else en).extend(x[1])
    # the readings themselves are judged under C15-C17
    judged(chk, "NumberTrace", [x for x in cn if x["dir"] != "tn"], "writings of Chinese and Japanese numbers")
    judged(chk, "EnglishTrace", [x for x in en if x["dir"] != "tn"], "writings of English numbers")
    chk.cov["numbers"] = len(cn) + len(en)
    chk.finish()
