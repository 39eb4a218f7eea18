"""C08, C09, C22: the tagged-token wire format (spec/TokenStream.tla)."""
import json
import os
import string
import subprocess

import vlib
from vlib import cps

LETTERS = string.ascii_letters + "_"
NAMES = ["date", "fraction", "measure", "money", "time", "telephone", "electronic", "char", "cardinal", "w", "p",
         "whitelist", "x", "math", "sport", "range", "ordinal", "decimal"]
KEYS = ["year", "month", "day", "preserve_order", "denominator", "numerator", "value", "currency", "noon", "hour",
        "minute", "second", "text", "integer_part", "fractional_part", "quantity", "currency_maj", "sign", "units",
        "decimal", "zone", "country_code", "number_part", "username", "domain", "protocol", "v", "name", "integer",
        "left", "right", "extra", "Z_"]
TABLE_KEYS = {
    "zh": {"date": ["year", "month", "day"], "fraction": ["denominator", "numerator"],
           "measure": ["denominator", "numerator", "value"], "money": ["value", "currency"],
           "time": ["noon", "hour", "minute", "second"]},
    "en": {"date": ["preserve_order", "text", "day", "month", "year"],
           "money": ["integer_part", "fractional_part", "quantity", "currency_maj"]},
    "itn": {"date": ["year", "month", "day", "preserve_order"], "fraction": ["sign", "numerator", "denominator"],
            "measure": ["numerator", "denominator", "value", "units"],
            "money": ["currency", "value", "decimal", "quantity"],
            "time": ["hour", "minute", "second", "noon", "zone"], "telephone": ["country_code", "number_part"],
            "electronic": ["username", "domain", "protocol"]},
}
TABLE_KEYS["ja"] = TABLE_KEYS["zh"]
SPECIAL = ['"', "\\", " ", "{", "}", ":", "\n", "\t", "\u3000", "é", "年", "😀", "\u2028", "<EOS>", "0", "a", "[", "]",
           "\x01", "\x7f", "\u0301", "\ufeff", "true", 'k: "v"', " } ", '" }', "\\\\", '\\"', "\\n"]


def esc(v):
    return v.replace("\\", "\\\\").replace('"', '\\"')


def encode(toks):
    """The harness's own writer of the wire format (the judge re-reads it as `intended`)."""
    return " ".join("%s {%s }" % (n, "".join(' %s: "%s"' % (k, esc(v)) for k, v in f)) for n, f in toks)


def rand_value(rng):
    n = rng.choice([0, 1, 1, 1, 2, 2, 3, 6])
    out = []
    for _ in range(n):
        t = rng.random()
        if t < 0.6:
            out.append(rng.choice(SPECIAL))
        elif t < 0.8:
            out.append(chr(rng.randint(0x20, 0x7e)))
        else:
            c = rng.choice([rng.randint(1, 0x2ff), rng.randint(0x3000, 0x9fff), rng.randint(0x10000, 0x10ffff)])
            out.append(chr(c))
    return "".join(out)


def rand_tokens(rng, table):
    orders = TABLE_KEYS.get(table, {})
    toks = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        name = rng.choice(list(orders)) if orders and rng.random() < 0.7 else rng.choice(NAMES)
        pool = list(orders.get(name, [])) or rng.sample(KEYS, 4)
        ks = [k for k in pool if rng.random() < 0.8]
        if rng.random() < 0.3:
            ks += rng.sample(KEYS, rng.randint(1, 2))
        if rng.random() < 0.35:
            ks.append("preserve_order")
        ks = list(dict.fromkeys(ks))
        rng.shuffle(ks)
        f = []
        for k in ks:
            v = rand_value(rng)
            if k == "preserve_order":
                v = rng.choice(["true", "true", "true", "false", "", "True", "true "])
            f.append((k, v))
        toks.append((name, f))
    return toks


def mutate(rng, s):
    s = list(s)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        op = rng.random()
        i = rng.randint(0, len(s)) if s else 0
        if op < 0.3 and s:
            del s[min(i, len(s) - 1)]
        elif op < 0.55:
            s.insert(i, rng.choice(['"', "\\", " ", "{", "}", ":", "a", "_", "é", "\n", "\t", "1", "\u00a0", "\x0b"]))
        elif op < 0.75 and s:
            s[min(i, len(s) - 1)] = rng.choice(['"', "\\", " ", "{", "}", ":", "a", "B", "é", "\n", "\r", "9"])
        elif op < 0.9:
            s = s[:i]
        elif s:
            j = min(i, len(s) - 1)
            s[j:j + 1] = [s[j], s[j]]
    return "".join(s)


# ---------------------------------------------------------------- model side
def control_inputs(chk):
    """Representative inputs of every abstract control state of the automaton (from TLC),
    each extended by every character class and by completions."""
    res = vlib.must(vlib.run_tlc("MCTokenStream", "TokenGen.cfg", workers=1), "TokenGen")
    chk.add_tlc(res, "TokenGen")
    reps = [json.loads(json.loads(x)) for x in res.prints("GEN")]
    classes = ["a", "Z", "_", " ", "{", "}", ":", '"', "\\", "1", "é", "年", "\n", "\t", "😀", "-", "\x0b", "\xa0"]
    tails = ["", " ", "}", " }", '"', '" }', ' { a: "x" }', ': "v" }', "a", ' b { }', ' "v" }', '{ }', ' }b { k: "v"}',
             '\\" }', '" b: "" }', '" a: "" }']
    out = []
    for rep in reps:
        base = vlib.uncps(rep)
        for c in [""] + classes:
            for t in tails:
                out.append(base + c + t)
    return list(dict.fromkeys(x for x in out))


# ------------------------------------------------------ implementation side
def tok_rec(tokens):
    toks = []
    spanned = True
    for t in tokens:
        order = list(t.order)
        toks.append(dict(n=cps(t.name), f=[[cps(k), cps(t.members[k])] for k in order],
                         s=t.start if isinstance(t.start, int) else -1, e=t.end if isinstance(t.end, int) else -1))
    return toks, spanned


def parse_rec(parser, text):
    exc, _ = vlib.call(parser.parse, text, limit=10)
    toks = []
    if not exc:
        e2, v = vlib.call(lambda: tok_rec(parser.tokens))
        if e2:
            exc = "tokens:" + e2
        else:
            toks = v[0]
    return dict(kind="parse", **{"in": cps(text)}, exc=exc, toks=toks, spanned=True)


def reorder_rec(parser, text, tbl, orders=None):
    exc, v = vlib.call(parser.reorder_with_spans, text, limit=10)
    rec = dict(kind="reorder", **{"in": cps(text)}, exc=exc, tbl=tbl, reo=[], spans=[], spanned=True,
               orders=orders or [])
    if not exc:
        e2, w = vlib.call(lambda: (cps(v[0]), [list(x) for x in v[1]]))
        if e2:
            rec["exc"] = "result:" + e2
        else:
            rec["reo"], rec["spans"] = w
            e3, plain = vlib.call(parser.reorder, text, limit=10)
            if e3 or plain != v[0]:
                rec["exc"] = "reorder-disagrees"
    return rec


def pipelines_parsers():
    """Token parsers as configured by the six shipped pipelines (no graphs are built)."""
    from unittest import mock
    from tn.processor import Processor
    out = {}
    with mock.patch.object(Processor, "build_fst", lambda *a, **k: None):
        from tn.chinese.normalizer import Normalizer as A
        from tn.english.normalizer import Normalizer as B
        from tn.japanese.normalizer import Normalizer as C
        from itn.chinese.inverse_normalizer import InverseNormalizer as D
        from itn.english.inverse_normalizer import InverseNormalizer as E
        from itn.japanese.inverse_normalizer import InverseNormalizer as F
        for nm, cls, tbl in (("zh_tn", A, "zh"), ("en_tn", B, "en"), ("ja_tn", C, "ja"), ("zh_itn", D, "itn"),
                             ("en_itn", E, "itn"), ("ja_itn", F, "itn")):
            out[nm] = (cls().token_parser, tbl)
    return out


def custom_orders(rng):
    orders = {}
    for n in rng.sample(NAMES, rng.randint(0, 4)):
        orders[n] = rng.sample(KEYS, rng.randint(0, 6))
    return orders


def rec_orders(orders):
    return [[cps(n), [cps(k) for k in o]] for n, o in orders.items()]


def key_of(rec):
    return json.dumps([rec["kind"], rec.get("tbl", ""), vlib.uncps(rec["in"])], ensure_ascii=True)


def report(chk, module, recs):
    for i, clause in vlib.judge(chk, module, recs):
        r = recs[i]
        chk.violation(clause, dict(kind=r["kind"], input=vlib.uncps(r["in"]), table=r.get("tbl", ""), exc=r.get("exc", ""),
                                   output=vlib.uncps(r.get("reo", [])), pipeline=r.get("pipe", "")), key=key_of(r))


def c08():
    chk = vlib.Check("C08")
    vlib.model_check(chk, "MCTokenStream", "MCTokenStream.cfg")
    vlib.use_repo()
    rng = chk.rng
    parsers = pipelines_parsers()
    n = 12000 if vlib.THOROUGH else 1500
    jobs = []
    for k in range(n):
        pipe = rng.choice(list(parsers))
        tbl = parsers[pipe][1]
        jobs.append(("pipe", pipe, rand_tokens(rng, tbl)))
        if k % 3 == 0:
            orders = custom_orders(rng)
            toks = []
            for _ in range(rng.randint(1, 3)):
                nm = rng.choice(list(orders) or NAMES)
                ks = list(dict.fromkeys(rng.sample(KEYS, rng.randint(0, 4)) + rng.sample(orders.get(nm, KEYS), min(
                    len(orders.get(nm, KEYS)), 2))))
                rng.shuffle(ks)
                toks.append((nm, [(x, rand_value(rng)) for x in ks]))
            jobs.append(("custom", orders, toks))
    # every permutation of every canonical field list, with and without an extra field
    import itertools
    for pipe, (_, tbl) in parsers.items():
        for name, order in TABLE_KEYS[tbl].items():
            for ks in itertools.islice(itertools.permutations(order), 0, 130 if len(order) > 4 else None):
                jobs.append(("pipe", pipe, [(name, [(k, "true" if k == "preserve_order" and len(jobs) % 2 else "v" + k)
                                                    for k in ks])]))
            jobs.append(("pipe", pipe, [(name, [("extra", "1")] + [(k, "x") for k in reversed(order)] + [("Z_", "2")])]))
    values = [rand_value(rng) for _ in range(1200 if not vlib.THOROUGH else 6000)]
    values += ["".join(t) for r in (1, 2) for t in itertools.product(['"', "\\", " ", "a", "}", "é", "[", "😀"], repeat=r)]
    values = [v for v in dict.fromkeys(values) if "\0" not in v and not any(0xd800 <= ord(c) < 0xe000 for c in v)]

    from tn.token_parser import TokenParser, escape_value

    def drive(part):
        out = []
        for kind, cfg, toks in part:
            text = encode(toks)
            if kind == "pipe":
                factory, tbl = parsers[cfg]
                p = factory()
                orders = []
            else:
                tbl, orders = "custom", rec_orders(cfg)
                p = TokenParser(dict(cfg))
            out.append(dict(kind="intended", **{"in": cps(text)},
                            intended=[[cps(n), [[cps(k), cps(v)] for k, v in f]] for n, f in toks]))
            a = parse_rec(p, text)
            b = reorder_rec(p, text, tbl, orders)
            a["pipe"] = b["pipe"] = cfg if kind == "pipe" else "custom"
            out += [a, b]
            if not b["exc"]:   # the reordered text is itself a stream: reorder it again
                c = reorder_rec(p, vlib.uncps(b["reo"]), tbl, orders)
                c["pipe"] = b["pipe"]
                out.append(c)
        return out

    recs = vlib.collect(chk, vlib.pmap(drive, vlib.chunks(jobs, 32)), "token parser")

    def wire(part):
        from pynini import accep, escape, shortestpath
        from tn.processor import Processor
        p = Processor("tok")
        tagger = p.add_tokens(p.tag_field("value", p.VCHAR.star))
        verbalizer = p.delete_tokens(p.verbalize_field("value"))
        out = []
        for v in part:
            def tag():
                return shortestpath(accep(escape(v)) @ tagger, nshortest=1, unique=True).string()
            exc, w = vlib.call(tag)
            rec = dict(kind="wire", **{"in": []}, exc=exc, value=cps(v), back=[])
            if not exc:
                rec["in"] = cps(w)

                def verb():
                    t = TokenParser({}).reorder(w)
                    return shortestpath(accep(escape(t)) @ verbalizer, nshortest=1, unique=True).string()
                exc, b = vlib.call(verb)
                rec["exc"] = exc
                if not exc:
                    rec["back"] = cps(b)
            out.append(rec)
            exc, e = vlib.call(escape_value, v)
            out.append(dict(kind="esc", **{"in": cps(v)}, back=cps(e) if not exc else [-1]))
        return out

    recs += vlib.collect(chk, vlib.pmap(wire, vlib.chunks(values, 8)), "field graphs")
    for k in (0, 1, 2, len(recs) - 2):
        if k < len(recs):
            chk.sample(dict(kind=recs[k]["kind"], input=vlib.uncps(recs[k]["in"])))
    report(chk, "TokenTrace", recs)
    chk.finish()


def c09():
    chk = vlib.Check("C09")
    vlib.model_check(chk, "MCTokenStream", "MCTokenStream.cfg")
    vlib.use_repo()
    rng = chk.rng
    inputs = control_inputs(chk)
    chk.cov["control_inputs"] = len(inputs)
    for _ in range(40000 if vlib.THOROUGH else 7000):
        toks = rand_tokens(rng, rng.choice(["zh", "en", "itn", "none"]))
        t = encode(toks)
        if len(t) > 160:
            t = t[:rng.randint(1, 160)]
        inputs.append(mutate(rng, t) if rng.random() < 0.85 else t)
    for _ in range(1500):
        inputs.append("".join(rng.choice(SPECIAL + ['a { b: "']) for _ in range(rng.randint(1, 9))))
    # truncation of long streams at every character
    for _ in range(40):
        t = encode(rand_tokens(rng, "zh"))[:200]
        inputs += [t[:k] for k in range(len(t) + 1)]
    inputs += [c for c in map(chr, list(range(1, 256)) + [0x3000, 0x2028, 0xff5b, 0x1f600])]
    inputs += ["a%s { b: \"c\" }" % c for c in map(chr, list(range(1, 256)) + [0x430, 0xff41, 0x212a, 0xaa])]
    inputs += ["a { b%s: \"c\" }" % c for c in map(chr, list(range(1, 256)) + [0x430, 0xff41, 0x212a, 0xaa])]
    inputs += ["a { b: \"c\"%s }" % c for c in map(chr, range(1, 256))]
    inputs += ["a { b: \"\\%s\" }" % c for c in map(chr, range(1, 256))]
    inputs += [""]
    inputs = list(dict.fromkeys(inputs))
    rng.shuffle(inputs)

    from tn.token_parser import TokenParser

    def drive(part):
        # one parser object per ~25 inputs: a history of successes and failures
        out = []
        p = None
        for k, t in enumerate(part):
            if k % 25 == 0:
                p = TokenParser(rng.choice(["tn", "itn", "en_tn"]))
            r = parse_rec(p, t)
            out.append(r)
            if k % 5 == 0:
                tbl, name = rng.choice([("zh", "tn"), ("en", "en_tn"), ("itn", "itn")])
                out.append(reorder_rec(TokenParser(name), t, tbl))
        return out

    recs = vlib.collect(chk, vlib.pmap(drive, vlib.chunks(inputs, 32)), "token parser")
    chk.cov["accepted"] = sum(1 for r in recs if not r["exc"])
    chk.cov["rejected"] = sum(1 for r in recs if r["exc"])
    for r in recs[:4]:
        chk.sample(dict(input=vlib.uncps(r["in"]), outcome=r["exc"] or "accepted"))
    report(chk, "TokenTrace", recs)
    chk.finish()


# --------------------------------------------------------------------- C22
STUB_LOG = r"""
#pragma once
#include <sstream>
#include <stdexcept>
#include <string>
struct FatalLog {
  std::ostringstream s; bool on;
  explicit FatalLog(bool on = true) : on(on) {}
  ~FatalLog() noexcept(false) { if (on) throw std::runtime_error("FATAL " + s.str()); }
  template <class T> FatalLog& operator<<(const T& t) { s << t; return *this; }
};
enum { INFO = 0, WARNING = 0, ERROR = 0, FATAL = 1 };
#define LOG(x) FatalLog(x == 1)
#define VLOG(x) FatalLog(false)
#define CHECK(a) FatalLog(!(a))
#define CHECK_LE(a, b) FatalLog(!((a) <= (b)))
#define CHECK_LT(a, b) FatalLog(!((a) < (b)))
#define CHECK_GE(a, b) FatalLog(!((a) >= (b)))
#define CHECK_GT(a, b) FatalLog(!((a) > (b)))
#define CHECK_EQ(a, b) FatalLog(!((a) == (b)))
#define CHECK_NE(a, b) FatalLog(!((a) != (b)))
"""
DRIVER = r"""
#include <cstdio>
#include <cstdint>
#include <iostream>
#include <map>
#include <string>
#include "processor/wetext_token_parser.h"
// input: repeated <type> <length>\n<bytes>; output: <O|E|X> <length>\n<bytes>
int main() {
  int type; size_t n;
  std::map<int, wetext::TokenParser*> ps;
  while (scanf("%d %zu", &type, &n) == 2) {
    getchar();
    std::string s(n, '\0');
    if (n && fread(&s[0], 1, n, stdin) != n) return 3;
    char kind = 'O'; std::string out;
    try {
      if (!ps.count(type)) ps[type] = new wetext::TokenParser(static_cast<wetext::ParseType>(type));
      out = ps[type]->Reorder(s);
    } catch (const std::invalid_argument& e) { kind = 'E'; out = e.what();
    } catch (const std::exception& e) { kind = 'X'; out = e.what(); }
    printf("%c %zu\n", kind, out.size());
    fwrite(out.data(), 1, out.size(), stdout);
    fflush(stdout);
  }
  return 0;
}
"""
CPP_TYPES = {"zh_tn": (0, "zh"), "zh_itn": (1, "itn"), "en_tn": (2, "en"), "en_itn": (3, "itn"), "ja_tn": (4, "ja"),
             "ja_itn": (5, "itn")}


def build_cpp():
    d = os.path.join(vlib.scratch(), "cpp")
    os.makedirs(os.path.join(d, "glog"), exist_ok=True)
    with open(os.path.join(d, "glog", "logging.h"), "w") as f:
        f.write(STUB_LOG)
    with open(os.path.join(d, "driver.cc"), "w") as f:
        f.write(DRIVER)
    rt = os.path.join(vlib.REPO, "runtime")
    exe = os.path.join(d, "driver")
    cmd = ["g++", "-std=c++14", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-I", rt,
           "-I", d, os.path.join(d, "driver.cc"), os.path.join(rt, "processor/wetext_token_parser.cc"),
           os.path.join(rt, "utils/wetext_string.cc"), "-o", exe]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if r.returncode:
        raise vlib.MachineryError("cannot compile the C++ token parser:\n" + r.stdout.decode("utf-8", "replace")[-3000:])
    return exe


def run_cpp(exe, cases):
    """cases: [(type, bytes)] -> [(kind, bytes)]; a crash yields ('CRASH', stderr) for that case."""
    out = []
    k = 0
    while k < len(cases):
        blob = b"".join(b"%d %d\n" % (t, len(b)) + b for t, b in cases[k:])
        try:
            r = subprocess.run([exe], input=blob, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                               env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
            data, err = r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            data, err = e.stdout or b"", b"timeout"
        i = 0
        while i < len(data):
            j = data.find(b"\n", i)
            if j < 0:
                break
            kind, n = data[i:j].split(b" ")
            n = int(n)
            if j + 1 + n > len(data):
                break
            out.append((kind.decode(), data[j + 1:j + 1 + n]))
            i = j + 1 + n
            k += 1
        if k < len(cases):
            out.append(("CRASH", err[-500:]))
            k += 1
    return out


def c22():
    chk = vlib.Check("C22")
    vlib.model_check(chk, "MCTokenStream", "MCTokenStream.cfg")
    exe = build_cpp()
    vlib.use_repo()
    rng = chk.rng
    parsers = pipelines_parsers()
    cases = []
    for _ in range(20000 if vlib.THOROUGH else 2500):
        pipe = rng.choice(list(CPP_TYPES))
        toks = rand_tokens(rng, CPP_TYPES[pipe][1])
        toks = [(n, [(k, "".join(c for c in v if not 0xd800 <= ord(c) < 0xe000)) for k, v in f]) for n, f in toks]
        cases.append((pipe, encode(toks)))
    import itertools
    for pipe in CPP_TYPES:
        for name, order in TABLE_KEYS[CPP_TYPES[pipe][1]].items():
            for ks in itertools.islice(itertools.permutations(order), 0, 130):
                cases.append((pipe, encode([(name, [(k, "v" + k) for k in ks])])))
        for name in NAMES:
            for _ in range(6):
                ks = rng.sample(KEYS, 5)
                cases.append((pipe, encode([(name, [(k, rand_value(rng)) for k in ks]), ("char", [("value", "x")])])))
    cases = [(p, t) for p, t in cases if not any(0xd800 <= ord(c) < 0xe000 for c in t) and t.strip(" \t\n\r\f\v") == t]
    got = run_cpp(exe, [(CPP_TYPES[p][0], t.encode("utf-8")) for p, t in cases])
    recs = []
    for (pipe, text), (kind, out) in zip(cases, got):
        exc = {"O": "", "E": "TokenParseError"}.get(kind, kind)
        rec = dict(kind="reorder", **{"in": cps(text)}, exc=exc, tbl=CPP_TYPES[pipe][1], reo=[], spans=[], spanned=False,
                   orders=[], pipe="cpp:" + pipe)
        if not exc:
            try:
                rec["reo"] = cps(out.decode("utf-8"))
            except UnicodeDecodeError:
                rec["exc"] = "invalid UTF-8"
        if kind == "CRASH":
            rec["why"] = out.decode("utf-8", "replace")
        recs.append(rec)
        p = parsers[pipe][0]()
        r2 = reorder_rec(p, text, CPP_TYPES[pipe][1])
        r2["pipe"] = "python:" + pipe
        recs.append(r2)
    for r in recs[:4]:
        chk.sample(dict(input=vlib.uncps(r["in"]), pipe=r["pipe"], output=vlib.uncps(r["reo"])))
    chk.cov["cpp_cases"] = len(cases)
    chk.assumptions.append("C++ parser compiled from runtime/ with a stub glog (no OpenFst headers offline), under ASan/UBSan")
    report(chk, "TokenTrace", recs)
    chk.finish()
