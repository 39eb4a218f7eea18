"""C19: dates, times of day, money, fractions and periods (spec/Components.tla, ComponentsEn.tla; judged by ComponentTrace.tla, ComponentEnTrace.tla)."""
import json
import os
import re

import numerals
import pipes
import vlib
from vlib import cps

PUT = {"zh": [("", ""), ("在", "见面"), ("他说", "吧")], "ja": [("", ""), ("会議は", "です"), ("これは", "だ")],
       "en": [("", ""), ("on ", " we"), ("it was ", " again")]}
MARKS = {"": [""], "am": ["am", "AM", "a.m.", " am", " AM", " a.m.", " a m", "a m"], "pm": ["pm", "PM", "p.m.", " pm", " PM", " p.m.", " p m", "p m"]}
NOON = {"zh": {"": [""], "am": ["上午", "早上", "早晨"], "pm": ["下午", "晚上", "傍晚"]}, "ja": {"": [""], "am": ["午前"], "pm": ["午後"]}}
BLANK = dict(y=-1, mo=-1, d=-1, h=-1, mi=-1, s=-1, noon="")


def generated(chk, module, cfg, least):
    res = vlib.must(vlib.run_tlc(module, cfg, workers=1), module)
    chk.add_tlc(res, module + " (generation)")
    out = [json.loads(json.loads(x)) for x in res.prints("GEN")]
    if len(out) < least:
        raise vlib.MachineryError("too few cases generated: %d" % len(out))
    return out


def currencies():
    """The marks and names of the specification (the judge compares with its own table)."""
    text = open(os.path.join(vlib.SPEC, "Currency.tla"), encoding="utf8").read()
    seq = lambda t: "".join(chr(int(x)) for x in t.split(","))  # noqa: E731
    return [dict(sym=seq(a), zh=seq(b), ja=seq(c)) for a, b, c in re.findall(r"sym \|-> <<([\d, ]+)>>, zh \|-> <<([\d, ]+)>>, ja \|-> <<([\d, ]+)>>", text)]


# -- Chinese and Japanese --------------------------------------------------------
def record(lang, kind, **kw):
    r = dict(lang=lang, dir="tn", kind=kind, v=BLANK, w=BLANK, two=False, f="", sep=0, pad=False, padd=False, colon=0, dm=0x65e5, hm=0x6642, mark="", mark2="", link="", sym="", gap=False,
             a=[], fr=[], name="", ra="", rf="", before="", after="", said="", _written="")
    r.update(kw)
    return r


def two(n, pad):
    return "%02d" % n if pad else str(n)


def write_date(v, f, sep, pad, padd):
    y, m, d, m2 = str(v["y"]), two(v["mo"], pad), two(v["d"], padd), two(v["mo"], True)
    return sep.join({"ymd": (y, m, d), "dmy": (d, m, y), "ym": (y, m2), "my": (m2, y), "md": (m2, d)}[f])


def write_time(v, pad, colon, mark):
    return two(v["h"], pad) + colon + two(v["mi"], True) + (colon + two(v["s"], True) if v["s"] >= 0 else "") + mark


def written_cases(lang, vs, r, money):
    """Written dates, times, ranges and amounts along the generated components."""
    out = []
    dates = [v for v in vs if v["h"] < 0]
    clocks = [v for v in vs if v["h"] >= 0]

    def forms(v):
        if v["d"] < 0:
            return ["ym", "my"] if lang == "zh" or v["mo"] < 10 else []
        return ["ymd", "dmy"] if v["y"] >= 0 else ["md"] if lang == "zh" or v["mo"] < 10 else []

    def year(v):
        return v if v["y"] < 0 else dict(v, y=r.choice([r.randint(1000, 9999), r.randint(1900, 2099), r.randint(10, 99) * 100 + r.choice([0, 1, 10, 11])]))

    for v in dates:
        v = year(v)
        for f in forms(v):
            sep, pad, padd = r.choice("/-."), r.random() < 0.5, r.random() < 0.5
            out.append(record(lang, "when", v=v, f=f, sep=ord(sep), pad=pad, padd=padd, _written=write_date(v, f, sep, pad, padd)))
    for v in clocks:
        v = dict(v, mi=r.choice([v["mi"], v["mi"], r.randint(0, 59)]))
        if v["s"] > 0:
            v["s"] = r.choice([v["s"], r.randint(1, 59)])
        pad, colon, mark = r.random() < 0.5 or v["h"] == 0, r.choice("::：") if lang == "zh" else ":", r.choice(MARKS[v["noon"]])
        out.append(record(lang, "when", v=v, f="time", pad=pad, colon=ord(colon), mark=mark, _written=write_time(v, pad, colon, mark)))
    for v in dates + r.sample(clocks, len(clocks) // 2):
        if v["d"] >= 0 and r.random() < 0.3:
            v = dict(v, y=-1)
        v, pad = year(v), lang == "zh" and 0 not in (v["h"], v["s"]) and r.random() < 0.3
        day, hour = (r.choice("日号"), r.choice("点时")) if lang == "zh" else "日時"
        t = NOON[lang][v["noon"]][0] + "".join(two(v[k], pad and k != "y") + m for k, m in (("y", "年"), ("mo", "月"), ("d", day), ("h", hour), ("mi", "分"), ("s", "秒")) if v[k] >= 0)
        out.append(record(lang, "when", v=v, f="words", pad=pad, dm=ord(day), hm=ord(hour), _written=t))
    for _ in range(len(clocks) // 12):
        v, w = r.choice(clocks), r.choice(clocks)
        w = dict(w, noon=v["noon"])
        mark, link = r.choice(MARKS[v["noon"]]), r.choice("-~")
        out.append(record(lang, "when", v=v, w=w, two=True, f="time", pad=True, colon=58, mark=mark, mark2=mark, link=link,
                          _written=write_time(v, True, ":", mark) + link + write_time(w, True, ":", mark)))
    whole = [v for v in dates if v["y"] >= 0 and v["d"] >= 0]
    for _ in range(len(dates) // 12):
        v, w = year(r.choice(whole)), year(r.choice(whole))
        sep, pad, padd, link = r.choice("/."), r.random() < 0.5, r.random() < 0.5, r.choice("-~")
        out.append(record(lang, "when", v=v, w=w, two=True, f="ymd", sep=ord(sep), pad=pad, padd=padd, link=link,
                          _written=write_date(v, "ymd", sep, pad, padd) + link + write_date(w, "ymd", sep, pad, padd)))
    for c, a, f in money:
        gap = r.random() < 0.2
        out.append(record(lang, "money", sym=c["sym"], gap=gap, a=numerals.digits(a), fr=numerals.digits(f), name=c[lang], _written=c["sym"] + (" " if gap else "") + a + ("." + f if f else "")))
    return out


def spoken_cases(lang, vs, r, money):
    """Spoken dates, times and amounts; Words are checked by the listener of the specification."""
    say = numerals.zh_words if lang == "zh" else numerals.ja_words
    out = []
    for v in vs:
        t = ""
        if v["h"] < 0:
            if v["y"] >= 0:
                v = dict(v, y=r.choice([r.randint(1000, 9999), r.randint(1900, 2099), v["y"]]))
                t = ("".join(numerals.DZH[int(k)] for k in str(v["y"])) if lang == "zh" else say(str(v["y"]))) + "年"
            t += say(str(v["mo"])) + "月" + (say(str(v["d"])) + (r.choice("日号") if lang == "zh" else "日") if v["d"] >= 0 else "")
        else:
            v = dict(v, mi=r.choice([v["mi"], r.randint(1, 59)]))
            if v["s"] == 0:
                v["s"] = -1
            # an hour alone and seconds without minutes are left to the reader; zero hours have no spoken form that is not a decimal
            if v["mi"] == 0 and (v["s"] > 0 or lang == "zh") or lang == "zh" and v["h"] == 0:
                continue
            hour = "两" if lang == "zh" and v["h"] == 2 else say(str(v["h"]))
            t = r.choice(NOON[lang][v["noon"]]) + hour + ("点" if lang == "zh" else "時")
            if lang == "zh" and v["mi"] == 30 and v["s"] < 0 and r.random() < 0.5:
                t += "半"
            elif v["mi"]:
                t += ("零" if lang == "zh" and v["mi"] < 10 else "") + say(str(v["mi"]))
                t += "" if lang == "zh" and (v["mi"] > 9 or v["noon"]) and v["s"] < 0 and r.random() < 0.3 else "分"
            t += say(str(v["s"])) + "秒" if v["s"] > 0 else ""
        out.append(record(lang, "when", dir="itn", v=v, said=t, _written=t))
    for y in r.sample(range(1000, 10000), 60):
        v = dict(BLANK, y=y)
        t = ("".join(numerals.DZH[int(k)] for k in str(y)) if lang == "zh" else say(str(y))) + "年"
        out.append(record(lang, "when", dir="itn", v=v, said=t, _written=t))
    for _ in range(80 if lang == "zh" else 0):
        a = "%d" % r.choice([r.randint(10, 99), r.randint(100, 99999)])
        f = str(r.randint(1, 9)) + r.choice(["", str(r.randint(1, 9))])
        ra = say(a)
        t = ra + "元" + numerals.DZH[int(f[0])] + r.choice("毛角") + (numerals.DZH[int(f[1])] + "分" if f[1:] else "")
        out.append(record(lang, "money", dir="itn", f="jiao", sym="¥", a=numerals.digits(a), fr=numerals.digits(f), name="元", ra=ra, _written=t))
    for c, a, f in money:
        if len(a) < 2 or len(a) > 8:
            continue
        ra, rf = say(a), ("点" + "".join((numerals.DZH if lang == "zh" else numerals.DJA)[int(k)] for k in f) if f else "")
        out.append(record(lang, "money", dir="itn", sym=c["sym"], a=numerals.digits(a), fr=numerals.digits(f), name=c[lang], ra=ra, rf=rf, _written=ra + rf + c[lang]))
    return out


TEXT = "mark mark2 link sym name ra rf before after said".split()


def run_cn(jobdata):
    first, back, items = jobdata
    recs = []
    for c, (x, y) in items:
        text = x + c["_written"] + y
        e, out = vlib.call(first.normalize, text)
        base = {k: (cps(v) if k in TEXT else v) for k, v in c.items() if k != "_written"}
        base.update(before=cps(x), after=cps(y), text=cps(text))
        recs.append(dict(base, out=cps(out) if not e else [], exc=e, what=dict(text=text, out=out)))
        if back is not None and not e:
            e, again = vlib.call(back.normalize, out)
            recs.append(dict(base, dir="round", said=cps(out), out=cps(again) if not e else [], exc=e, what=dict(text=text, said=out, out=again)))
    return recs


# -- English -----------------------------------------------------------------------
MONTHS = "January February March April May June July August September October November December".split()
CUR = {"usd": ("$", "dollar", "dollars"), "gbp": ("£", "british pound", "british pounds"), "eur": ("€", "euro", "euros"), "krw": ("₩", "won", "won"), "jpy": ("¥", "yen", "yen")}
EBASE = dict(dir="tn", kind="", v=dict(y=-1, mo=1, d=-1, h=-1, mi=-1, s=-1, noon="", zone=""), f="", sep="", pad=False, month="", mword="", mark="", sym="", symcp=[], cur="usd", group=False,
             atext="", a=[0], q="", w=[], b=[1], y=-1, n=1, part="H", _written="", _words=None)


def erec(kind, **kw):
    r = dict(EBASE, kind=kind)
    r["f"] = [] if kind in ("money", "fraction") else ""
    v = dict(EBASE["v"], **kw.pop("v", {}))
    r.update(kw, v=v)
    return r


def small(n):
    return numerals.en_words(str(n), False)


def year_words(y, r):
    a, b = divmod(y, 100)
    if a % 10 == 0:
        out = [numerals.ONES[a // 10], "thousand"] if a else []
        return out + ((["and"] if r.random() < 0.4 else []) + small(b) if b else [])
    return small(a) + (["hundred"] if b == 0 else [r.choice(["oh", "o"]), numerals.ONES[b]] if b < 10 else small(b))


def en_written(cs, r, mk, big):
    out = []
    for c in cs:
        if c["kind"] == "date":
            v = dict(y=c["y"] if c["y"] < 0 else r.choice([r.randint(1000, 2099), r.randint(1900, 2030), r.randint(20, 21) * 100 + r.randint(0, 9)]), mo=c["mo"], d=c["d"])
            full = MONTHS[v["mo"] - 1]
            month = r.choice([full, full, full.lower(), full[:3], full[:3] + ".", full[:3].lower()]) if full != "May" else r.choice(["May", "may"])
            mw = month.lower().rstrip(".")
            y, d = v["y"], v["d"]
            suf = numerals.suffix(str(d)) if d >= 0 else ""
            if y >= 0 and d >= 0:
                sep, pad = r.choice("/-."), r.random() < 0.6
                m, dd = two(v["mo"], pad), two(d, pad)
                pick = ["Mdy", "Mdy2", "thMy", "ymd", "mdy"] + (["dMy"] if month != "May" else []) + (["dmy"] if d > 12 else [])
                f = r.choice(pick)
                if f in ("Mdy", "Mdy2", "dMy", "thMy"):
                    t = {"Mdy": f"{month} {d}, {y}", "Mdy2": f"{month} {d} {y}", "dMy": f"{d} {month} {y}", "thMy": f"the {d}{suf} of {month} {y}"}[f]
                else:
                    t = sep.join({"ymd": (str(y), m, dd), "mdy": (m, dd, str(y)), "dmy": (dd, m, str(y))}[f])
                out.append(erec("date", v=v, f=f, sep=sep, pad=pad, month=month, mword=mw, _written=t))
            elif d >= 0:
                f = r.choice(["Md", "dM"]) if month != "May" else "Md"
                out.append(erec("date", v=v, f=f, month=month, mword=mw, _written=f"{month} {d}" if f == "Md" else f"{d} {month}"))
            else:
                out.append(erec("date", v=v, f="My", month=month, mword=mw, _written=f"{month} {y}"))
        else:
            v = {k: c[k] for k in ("h", "mi", "s", "noon", "zone")}
            v["mi"] = r.choice([v["mi"], r.randint(0, 59)])
            if v["s"] > 0:
                v["s"] = r.choice([v["s"], r.randint(1, 59)])
            marks = {"": [""], "am": [" am", " a.m.", " AM", "am", "a.m."], "pm": [" pm", " p.m.", " PM", "pm", "p.m."]}
            mark = r.choice(marks[v["noon"]])
            f = "h:m"
            if v["noon"] and v["s"] < 0:
                f = r.choice(["h:m", "h:m", "h.m"] + (["h"] if v["mi"] == 0 else []))
            pad = r.random() < 0.5
            zone = v["zone"] and r.choice(["cst", "cet", "pst", "est", "pt", "et", "gmt"])
            v["zone"] = zone
            t = two(v["h"], pad) + ("" if f == "h" else f[1] + "%02d" % v["mi"]) + (":%02d" % v["s"] if v["s"] >= 0 else "") + mark + (" " + zone if zone else "")
            out.append(erec("time", v=v, f=f, pad=pad, mark=mark, _written=t))
    n = 6000 if big else 500
    for _ in range(n):
        cur = r.choice(list(CUR))
        sym = CUR[cur][0]
        group, q = r.random() < 0.4, r.choice(["", "", "", "million", "billion", "trillion"])
        a = mk.integer(3 if q else 9)
        a = "7" if a == "0" and q else a
        f = r.choice(["", "", "%02d" % r.randint(0, 99), str(r.randint(0, 9)), "".join(r.choice("0123456789") for _ in range(r.randint(3, 5)))])
        group = group and not q
        at = numerals.commas(a)
        out.append(erec("money", sym=sym, symcp=cps(sym), cur=cur, group=group, atext=at, a=numerals.digits(a), f=numerals.digits(f), q=q,
                        _written=sym + (at if group else a) + ("." + f if f else "") + (" " + q if q else "")))
    for _ in range(n):
        w = r.choice(["", "", mk.integer(3)])
        a, b = mk.integer(r.choice([1, 2, 3])), mk.integer(r.choice([1, 2, 2, 3, 4]))
        if b == "1":
            continue
        out.append(erec("fraction", w=numerals.digits(w), a=numerals.digits(a), b=numerals.digits(b), _written=(w + " " if w else "") + a + "/" + b))
    for y in list(range(1000, 2100, 10)):
        out.append(erec("decade", y=y, _written="%ds" % y))
    for y in r.sample(range(0, 100), 60):
        for part, m in (("H", 2), ("Q", 4)):
            k = r.randint(1, m)
            out.append(erec("period", n=k, part=part, y=y, _written="%d%s%02d" % (k, part, y)))
    return out


def en_spoken(cs, r, mk, big):
    out = []
    for c in cs:
        if c["kind"] == "date":
            v = dict(y=c["y"] if c["y"] < 0 else r.choice([r.randint(1000, 2099), r.randint(1900, 2030), r.randint(2000, 2009)]), mo=c["mo"], d=c["d"])
            m = MONTHS[v["mo"] - 1].lower()
            y = year_words(v["y"], r) if v["y"] >= 0 else []
            day = r.choice([numerals.ordinal(small(v["d"])), small(v["d"])]) if v["d"] >= 0 else []
            if day and r.random() < 0.4:
                w = ["the"] + numerals.ordinal(small(v["d"])) + ["of", m] + y
            else:
                w = [m] + day + y
            if y and day and w[0] != "the" and day[-1] in numerals.TENS and y[0] in numerals.ONES[1:10]:
                pass
            out.append(erec("date", dir="itn", v=v, _words=w))
        elif c["s"] < 0 and c["h"] > 0:
            v = {k: c[k] for k in ("h", "mi", "s", "noon", "zone")}
            v["mi"] = r.choice([v["mi"], r.randint(1, 59)])
            noon = {"": [[]], "am": [["a", "m"], ["am"], ["a.m."]], "pm": [["p", "m"], ["pm"], ["p.m."]]}[v["noon"]]
            n = r.choice(noon)
            z = [v["zone"]] if v["zone"] else []
            h, nxt = small(v["h"]), small(1 if v["h"] == 12 else v["h"] + 1)
            if v["mi"] == 0:
                f, w = ("h", h + n + z) if v["noon"] else ("clock", h + ["o'clock"] + z)
            elif v["noon"]:
                f = r.choice(["hm", "hm", "to"]) if v["h"] <= 12 else "hm"
                w = (h + ([r.choice(["o", "oh"])] if v["mi"] < 10 else []) + small(v["mi"]) + n + z) if f == "hm" else small(60 - v["mi"]) + [r.choice(["to", "till"])] + nxt + n
            else:
                v["zone"] = ""
                if v["h"] > 12:
                    continue
                v["mi"] = r.choice([v["mi"], 15, 30, 45])
                f = "past"
                w = ({30: ["half"], 15: ["quarter"]}.get(v["mi"]) if v["mi"] in (15, 30) and r.random() < 0.7 else small(v["mi"])) + ["past"] + h
                if v["mi"] == 45 and r.random() < 0.7:
                    f, w = "to", ["quarter", "to"] + nxt
            if f == "to":
                v["zone"] = ""
            out.append(erec("time", dir="itn", v=v, f=f, _words=w))
    n = 4000 if big else 300
    for _ in range(n):
        cur = r.choice(list(CUR))
        sym, one, more = CUR[cur]
        q = r.choice(["", "", "", "million", "billion", "trillion"])
        a = mk.integer(3 if q else 7)
        a = "7" if a == "0" and q else a
        f = r.choice(["", "", "".join(r.choice("0123456789") for _ in range(r.randint(1, 4)))])
        w = numerals.en_words(a, r.random() < 0.3) + (["point"] + [r.choice(["zero", "o", "oh"]) if k == "0" else numerals.ONES[int(k)] for k in f] if f else [])
        w += [q] if q else []
        if not q and not f and a != "0" and cur in ("usd", "eur") and r.random() < 0.4:
            k = r.randint(1, 99)
            f = "%02d" % k
            w += [one if a == "1" else more] + (["and"] if r.random() < 0.5 else []) + small(k) + ["cent" if k == 1 else "cents"]
        else:
            w += (one if (a, f, q) == ("1", "", "") else more).split()
        out.append(erec("money", dir="itn", sym=sym, symcp=cps(sym), cur=cur, a=numerals.digits(a), f=numerals.digits(f), q=q, _words=w))
    for k in range(1, 100):
        cur = r.choice(["usd", "eur"])
        sym, one, more = CUR[cur]
        a = mk.integer(4)
        a = "3" if a == "0" else a
        form = r.choice(["cents", "bare", "only"])
        cents = small(k) + ["cent" if k == 1 else "cents"]
        if form == "only":
            out.append(erec("money", dir="itn", sym="$", symcp=cps("$"), cur="usd", a=[0], f=numerals.digits("%02d" % k), _words=cents))
        else:
            w = small(a) + [one if a == "1" else more] + (r.choice([[], ["and"]]) + cents if form == "cents" else small(k))
            out.append(erec("money", dir="itn", sym=sym, symcp=cps(sym), cur=cur, a=numerals.digits(a), f=numerals.digits("%02d" % k), _words=w))
    for y in r.sample(range(1000, 2100), 300 if not big else 1100):
        out.append(erec("year", dir="itn", y=y, _words=year_words(y, r)))
    return out


def tokens(text):
    out = []
    for t in text.split(" "):
        t, comma = (t[:-1], [","]) if t.endswith(",") and len(t) > 1 else (t, [])
        out += ([t] if t else []) + comma
    return out


def run_en(jobdata):
    norm, items = jobdata
    recs = []
    for c, (x, y) in items:
        text = x + (c["_written"] if c["_words"] is None else " ".join(c["_words"])) + y
        e, out = vlib.call(norm.normalize, text)
        base = {k: v for k, v in c.items() if k[0] != "_"}
        mid = out[len(x):len(out) - len(y)] if not e and out.startswith(x) and out.endswith(y) else ""
        base.update(text=text, before=x, after=y, bw=x.split(), aw=y.split(), words=c["_words"] or [], said=[t.lower() for t in tokens(out)] if not e and c["dir"] == "tn" else [],
                    out=tokens(mid) if c["dir"] == "itn" else [], cps=cps(mid), exc=e, what=dict(text=text, out=out))
        recs.append(base)
    return recs


OPTS = {"zt": ("zt", {}), "jt": ("jt", {}), "et": ("et", {}), "zi": ("zi", {}), "ji": ("ji", {}), "ei": ("ei", {})}


def c19():
    chk = vlib.Check("C19")
    vlib.use_repo()
    big = vlib.THOROUGH
    for m in ("ComponentsMC", "ComponentsEnMC"):
        cfg = open(os.path.join(vlib.SPEC, m + ".cfg")).read()
        vlib.model_check(chk, m, cfg.replace("EveryDay = FALSE", "EveryDay = TRUE") if big else cfg.replace("1000, 1001, 1011, 1200, 1999, 2000, 2008, 2024, 9999", "1001, 1200, 2008, 9999"))
    cn = generated(chk, "ComponentsMC", "ComponentsGen.cfg", 5000)
    en = generated(chk, "ComponentsEnMC", "ComponentsEnGen.cfg", 5000)
    pats = numerals.patterns(chk)
    with pipes.reported(chk):
        P = pipes.build(OPTS)
    r, mk = chk.rng, numerals.Make(chk, pats)
    some = lambda xs, n: list(xs) * 3 if big else r.sample(xs, min(n, len(xs)))  # noqa: E731
    sums = [(c, mk.integer(8), r.choice(["", "", "%02d" % r.randint(0, 99), str(r.randint(0, 9))])) for c in currencies() for _ in range(200 if big else 12)]
    jobs = []
    for lang, tn, itn in (("zh", "zt", "zi"), ("ja", "jt", "ji")):
        vs = [x["v"] for x in cn if x["lang"] == lang]
        days, hours = [v for v in vs if v["h"] < 0], [v for v in vs if v["h"] >= 0]
        put = PUT[lang]
        cases = written_cases(lang, some(days, 700) + some(hours, 1100), r, sums)
        wr = [(c, r.choice(put)) for c in cases]
        jobs += [(run_cn, (P[tn], None, part)) for part in vlib.chunks(wr, 24)]
        cases = spoken_cases(lang, some(days, 700) + some(hours, 1300), r, sums)
        jobs += [(run_cn, (P[itn], None, part)) for part in vlib.chunks([(c, r.choice(put[:2])) for c in cases], 24)]
        jobs += [(numerals.read_cn, ((P[tn], P[itn]), lang, part)) for part in vlib.chunks(
            [(c, r.choice(numerals.PUT[lang][:2]), False) for c in numerals.cases(mk, 3000 if big else 250, lang, [], ["", "", "-"], ["个" if lang == "zh" else "個"]) if c["form"] in ("frac", "pct") and not c["group"]], 16)]
    dates, clocks = [c for c in en if c["kind"] == "date"], [c for c in en if c["kind"] == "time"]
    items = [(c, r.choice(PUT["en"])) for c in en_written(some(dates, 700) + some(clocks, 1000), r, mk, big)]
    jobs += [(run_en, (P["et"], part)) for part in vlib.chunks(items, 32)]
    items = [(c, r.choice(PUT["en"])) for c in en_spoken(some(dates, 600) + some(clocks, 1400), r, mk, big)]
    jobs += [(run_en, (P["ei"], part)) for part in vlib.chunks(items, 24)]
    pct = [c for c in numerals.en_cases(mk, [], 1500 if big else 120) if c["form"] == "pct"]
    jobs += [(numerals.read_en, ((P["et"], P["ei"]), part)) for part in vlib.chunks([(c, r.choice(numerals.PUT["en"])) for c in pct], 8)]
    got = {run_cn: [], run_en: [], numerals.read_cn: [], numerals.read_en: []}
    for (fn, _), x in zip(jobs, vlib.pmap(lambda j: j[0](j[1]), jobs)):
        if isinstance(x, vlib.Died):
            chk.violation("the code under test died or gave no answer", dict(driver="components", reason=str(x)))
        else:
            got[fn].extend(x)
    numerals.judged(chk, "ComponentTrace", got[run_cn], "Chinese and Japanese dates, times and money")
    numerals.judged(chk, "ComponentEnTrace", got[run_en], "English dates, times, money, fractions and periods")
    numerals.judged(chk, "NumberTrace", got[numerals.read_cn], "fractions and percentages read and written back")
    numerals.judged(chk, "EnglishTrace", got[numerals.read_en], "English percentages read and written back")
    chk.cov["components"] = sum(map(len, got.values()))
    chk.assumptions += ["the supported written forms are those of spec/Components.tla and ComponentsEn.tla"]
    chk.finish()
