"""C21: the command line (spec/CliRules.tla, Cli.tla, CliLines.tla; judged by CliTrace.tla)."""
import contextlib
import inspect
import io
import json
import os
import subprocess
import sys

import pipes
import vlib
from vlib import cps

WORDS = {"W1": "a=b 1 c", "W2": "三 百\t", "W3": " x ", "W4": "line\none\r\ntwo", "N5": "-5", "DASH": "-", "SP": " true "}
CACHES = {"C1": "here/is a=b", "C2": "true"}
CLASSES = [("tn", "zh", "tn.chinese.normalizer", "Normalizer"), ("tn", "en", "tn.english.normalizer", "Normalizer"), ("tn", "ja", "tn.japanese.normalizer", "Normalizer"),
           ("itn", "zh", "itn.chinese.inverse_normalizer", "InverseNormalizer"), ("itn", "en", "itn.english.inverse_normalizer", "InverseNormalizer"),
           ("itn", "ja", "itn.japanese.inverse_normalizer", "InverseNormalizer")]
made = []


def record():
    """Stands in for the constructors and the work of the processors."""
    import importlib
    for d, lang, module, name in CLASSES:
        c = getattr(importlib.import_module(module), name)
        sig = inspect.signature(c.__init__)

        def init(self, *a, _sig=sig, _d=d, _lang=lang, **kw):
            b = _sig.bind(self, *a, **kw)
            b.apply_defaults()
            made.append((_d, _lang, {k: v for k, v in b.arguments.items() if k != "self"}))

        c.__init__ = init
        c.tag = lambda self, x, *a, **k: "\ue000" + x
        c.verbalize = lambda self, x, *a, **k: "\ue001" + x
        c.normalize = lambda self, x, *a, **k: "\ue001\ue000" + x


class Stdin(io.BytesIO):
    touched = False

    def read(self, *a):
        self.touched = True
        return super().read(*a)

    def read1(self, *a):
        self.touched = True
        return super().read1(*a)

    def readinto(self, *a):
        self.touched = True
        return super().readinto(*a)


def argv(ts, words):
    out = []
    for t in ts:
        v = words.get(t["v"], t["v"])
        out.append({"opt": t["o"], "opteq": t["o"] + "=" + v, "val": v}[t["j"]])
    return out


def work(job):
    record()
    import itn.main
    import tn.main
    recs = []
    top = os.path.join(vlib.scratch(), "cli-%d" % os.getpid())
    os.makedirs(top, exist_ok=True)
    path = os.path.join(top, "in put=1.txt")
    words = dict(WORDS, **CACHES)
    words.update(F1=path, F2=os.path.join(top, "missing"))
    back = {v: k for k, v in CACHES.items()}
    for d, ts, stdin, content, argtext, loose in job:
        with open(path, "wb") as f:
            f.write(content.encode())
        words["W1"] = argtext
        line = loose or argv(ts, words)
        del made[:]
        raw = Stdin(stdin.encode())
        rec = dict(kind="cli", dir=d, ts=ts, loose=bool(loose), exit=-1, exc="", stdin=cps(stdin), files={"F1": cps(content)},
                   words={k: cps(words.get(k, k)) for k in {t["v"] for t in ts} | {""}})
        old = sys.argv, sys.stdin, sys.stdout, sys.stderr
        out = io.StringIO()
        sys.argv, sys.stdin, sys.stdout, sys.stderr = [d] + line, io.TextIOWrapper(raw, encoding="utf-8", newline="\n"), out, io.StringIO()
        try:
            (tn.main if d == "tn" else itn.main).main()
        except SystemExit as e:
            rec["exit"] = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except KeyboardInterrupt:
            raise
        except BaseException as e:  # noqa: observed, judged by the specification
            rec["exc"] = type(e).__name__
        finally:
            err = sys.stderr.getvalue()
            sys.argv, sys.stdin, sys.stdout, sys.stderr = old
        rec.update(made=len(made), out=cps(out.getvalue()), read=raw.touched)
        g = made[-1] if made else ("", "", {})
        cache = g[2].get("cache_dir")
        rec.update(gdir=g[0], glang=g[1], on=sorted(k for k, v in g[2].items() if v is True), over=g[2].get("overwrite_cache") is True,
                   cache="unset" if cache is None else back.get(cache, repr(cache)))
        if any(not isinstance(v, bool) for k, v in g[2].items() if k != "cache_dir"):
            rec["exc"] = rec["exc"] or "an option is no boolean"
        rec["what"] = dict(direction=d, argv=line, stdin=stdin if len(stdin) < 60 else "", got=repr(g)[:300], exit=rec["exit"], exc=rec["exc"],
                           printed=out.getvalue()[:200], err=err[-120:])
        recs.append(rec)
    return recs


def real(job):
    """Whole commands in processes of their own, against the library."""
    name, pipe, opts, extra, lines, how, end, d = job
    py = [sys.executable, "-B", "-m", name]
    text = end.join(lines) + end
    path = os.path.join(d, "%s-%s-%d" % (pipe, how, len(text)))
    env = dict(os.environ, PYTHONPATH=vlib.REPO, PYTHONUTF8="1")
    args = py + extra + ["--cache_dir", os.path.join(d, "cache-" + pipe + "".join(sorted(opts)))]
    if how == "text":
        text = lines[0]
        lines = lines[:1]
        args += ["--text", text]
    elif how == "file":
        with open(path, "wb") as f:
            f.write(text.encode())
        args += ["--file", path]
    r = subprocess.run(args, input=text.encode() if how == "stdin" else b"", stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=d, timeout=600)
    return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")[-300:], args, lines


ABBREV = [(["--lang", "ja"], [dict(j="opt", o="--language", v=""), dict(j="val", o="", v="ja")]),
          (["--lang=en"], [dict(j="opteq", o="--language", v="en")]),
          (["--no-remove-p"], [dict(j="opt", o="--no-remove-puncts", v="")]),
          (["--tag", "TRUE"], [dict(j="opt", o="--tag-oov", v=""), dict(j="val", o="", v="TRUE")]),
          (["--enable-m"], [dict(j="opt", o="--enable-million", v="")]),
          (["--enable_0=true"], [dict(j="opteq", o="--enable_0_to_9", v="true")]),
          (["--overwrite"], [dict(j="opt", o="--overwrite_cache", v="")]),
          (["--no-enable-st"], [dict(j="opt", o="--no-enable-standalone-number", v="")]),
          (["--full=false"], [dict(j="opteq", o="--full-to-half", v="false")])]


def c21():
    chk = vlib.Check("C21")
    vlib.use_repo()
    vlib.model_check(chk, "Cli", "MCCli.cfg")
    res = vlib.must(vlib.run_tlc("Cli", "CliGen.cfg", workers=1), "CliGen")
    chk.add_tlc(res, "CliGen")
    cases = [json.loads(json.loads(x)) for x in sorted(set(res.prints("GEN")))]
    long = []
    for n, num in ((2, 4000), (3, 2500), (5, 1200)):
        cfg = "SPECIFICATION Spec\nCONSTANTS MaxItems = %d  Small = FALSE  Random = TRUE\nINVARIANTS EmitFull\nCHECK_DEADLOCK FALSE\n" % n
        if vlib.THOROUGH:
            num *= 12
        res = vlib.must(vlib.run_tlc("Cli", cfg, workers=1, extra=["-simulate", "num=%d" % num, "-depth", "7", "-seed", str(vlib.SEED + n)]), "CliGen %d" % n)
        chk.add_tlc(res, "CliGen %d" % n)
        long += [json.loads(json.loads(x)) for x in sorted(set(res.prints("GEN")))]
    # option-heavy longer lists with one language are accepted more often: build from the single ones
    good = {d: [c["ts"] for c in cases if c["dir"] == d and c["ts"]] for d in ("tn", "itn")}
    okay = {}
    foreign = {"tn": ("enable",), "itn": ("erhua", "traditional", "puncts", "oov", "transliterate")}
    for d in good:
        for lang in ("zh", "ja", "en"):
            mine = [ts for ts in good[d] if ts[0]["o"] not in ("--language", "--file", "--text", "--verbose", "--no-text", "--nbest", "") and
                    not any(w in ts[0]["o"] for w in foreign[d]) and ts[-1]["v"].lower() in ("", "true", "false", "c1", "c2") and not (ts[-1]["v"] == "" and ts[-1]["j"] != "opt")]
            if lang == "en":
                mine = [ts for ts in mine if "cache" in ts[0]["o"]]
            if lang == "ja":
                mine = [ts for ts in mine if not any(w in ts[0]["o"] for w in ("erhua", "traditional"))]
                if d == "itn":
                    mine = [ts for ts in mine if "interjections" not in ts[0]["o"]]
            okay[(d, lang)] = mine
    rng = chk.rng
    for _ in range(20000 if vlib.THOROUGH else 3000):
        d, lang = rng.choice(sorted(okay))
        items = [rng.choice(okay[(d, lang)]) for _ in range(rng.choice([1, 2, 2, 3, 4, 6, 9]))]
        if lang != "zh" or rng.random() < 0.3:
            items.append([dict(j="opteq", o="--language", v=lang)] if rng.random() < 0.5 else [dict(j="opt", o="--language", v=""), dict(j="val", o="", v=lang)])
        r = rng.random()
        if r < 0.4:
            items.append([dict(j="opt", o="--text", v=""), dict(j="val", o="", v=rng.choice(["W1", "W2", "W3", "true"]))])
        elif r < 0.7:
            items.append([dict(j="opteq", o="--file", v="F1")])
        rng.shuffle(items)
        long.append(dict(dir=d, ts=[t for it in items for t in it]))
    res = vlib.must(vlib.run_tlc("CliLines", "CliLinesGen.cfg", workers=1), "CliLines")
    chk.add_tlc(res, "CliLines")
    streams = [vlib.uncps(json.loads(json.loads(x))) for x in sorted(set(res.prints("GEN")))]
    alphabet = sorted(set("".join(streams)) | {"b", "1", "\u2029", "\x1c", "\x1a", "\u3000", "'"})
    more = ["".join(rng.choice(alphabet) if rng.random() < 0.7 else rng.choice(["\n", "\r\n", "\r", "one"]) for _ in range(rng.randint(4, 14)))
            for _ in range(20000 if vlib.THOROUGH else 2500)]
    stdin = "one\ntwo 2\r\n\n\u2028 x\rlast"
    # argparse takes an unknown option=value with a space for a plain word
    quirk = [v for v, w in WORDS.items() if any(c.isspace() for c in w)] + ["W1"]
    long = [c for c in long if not any(t["j"] == "opteq" and t["v"] in quirk and t["o"] != "--text" for t in c["ts"])]
    jobs = [(c["dir"], c["ts"], stdin, "first\n\nsec\x0bond\r\nthird ", "a=b 1 c", "") for c in cases + long]
    chk.cov["argument_lists"] = len(jobs)
    T = [dict(j="opt", o="--text", v=""), dict(j="val", o="", v="W1")]
    F = [dict(j="opteq", o="--file", v="F1")]
    for k, s in enumerate(streams + more):
        d = ("tn", "itn")[k % 2]
        jobs += [(d, [], s, "unused", "x", ""), (d, F, "unused", s, "x", "")]
        if not s.startswith("--"):
            jobs.append((d, [dict(j="opteq", o="--text", v="W1")] if k % 3 else T, "unused", "unused", s, ""))
    for d in ("tn", "itn"):
        for words, ts in ABBREV:
            jobs += [(d, ts, stdin, "f", "x", words), (d, [dict(j="opteq", o="--language", v="ja")] + ts, stdin, "f", "x", ["--language=ja"] + words)]
    rng.shuffle(jobs)
    recs = vlib.collect(chk, vlib.pmap(work, vlib.chunks(jobs, 16)), "command lines")

    # whole commands
    d = os.path.join(vlib.scratch(), "real")
    os.makedirs(d)
    ja = ["2時30分に、ﾃｽﾄ", " ３個 ", "", "Ａ-1。えー"]
    itn = ["二千二十年三月", "百円 ", "x\u2028y"]
    plans = [[("tn", "jt", {}, ["--language", "ja"], ja, "file", "\r\n", d), ("tn.main", "jt", {}, ["--language=ja"], ja, "stdin", "\n", d),
              ("tn", "jt", {}, ["--language=ja", "--overwrite-cache"], ja, "text", "\n", d)],
             [("itn", "ji", dict(enable_million=True), ["--enable-million", "--language", "ja"], itn + ["三百万"], "stdin", "\r\n", d)],
             [("itn.main", "ei", {}, ["--language", "en"], ["twenty three", "two thirty p m"], "stdin", "\n", d)],
             [("tn.main", "zt", dict(remove_puncts=True, tag_oov=True), ["--remove_puncts", "True", "--tag-oov"], ["2024年，儿", "100%ß"], "file", "\n", d)]]
    if vlib.THOROUGH:
        plans.append([("itn", "zi", {}, [], ["二零二四年", "三点一四"], "file", "\n", d)])

    def whole(plan):
        out = []
        for job in plan:
            out.append((job, real(job)))
        return out

    got = vlib.pmap(whole, plans, timeout=800)
    with pipes.reported(chk):
        P = pipes.build({json.dumps([j[1], j[2]], sort_keys=True): (j[1], j[2]) for plan in plans for j in plan[:1]})
    for plan, res in zip(plans, got):
        if isinstance(res, vlib.Died):
            chk.violation("the code under test died or gave no answer", dict(plan=plan, reason=str(res)))
            continue
        for job, (rc, out, err, args, lines) in res:
            p = P[json.dumps([job[1], job[2]], sort_keys=True)]
            e, want = vlib.call(lambda: "".join("%s\n%s\n" % (p.tag(t), p.verbalize(p.tag(t))) for t in lines))
            recs.append(dict(kind="real", exc="" if rc == 0 else "status %d" % rc, out=cps(out), want=cps(want) if not e else [],
                             what=dict(args=args[2:], lines=lines, printed=out[:300], wanted=want[:300], err=err)))
    slim = [{a: b for a, b in r.items() if a != "what"} for r in recs]
    for i, clause in vlib.judge(chk, "CliTrace", slim, name="command lines"):
        w = recs[i]["what"]
        chk.violation(clause, w, key="%s|%s" % (clause, json.dumps([w.get("direction"), w.get("argv", w.get("args"))], ensure_ascii=True)))
    chk.cov["records_by_kind"] = dict(cli=sum(r["kind"] == "cli" for r in recs), real=sum(r["kind"] == "real" for r in recs),
                                      accepted=sum(r.get("made", 0) > 0 for r in recs))
    for r in recs[::max(1, len(recs) // 5)]:
        chk.sample(r["what"])
    chk.assumptions += ["UTF-8 input; abbreviated option names may be refused or understood", "the words -- and -h and values that look like options are not generated"]
    chk.finish()
