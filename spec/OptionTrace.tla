------------------------------ MODULE OptionTrace ------------------------------
(* Judges what the real pipelines did under their options (spec/Options.tla).  Record kinds:
     post    out is the post-processed form of (one of) the texts the same pipeline gives without
             post-processing options
     half    a text and its half-width form are normalized alike when the option is on
     plain   the outputs a and b of one text under two values of the option named by opt, which the
             text gives nothing to do
     only    the option named by opt is on in a, off in b: b differs from a at most in tokens of the
             classes it names, which are then left as they were written
     pieces  a text made of pieces whose reading under the options is known *)
EXTENDS Options, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
TransOf(t) == {Tables.trans[k].w : k \in {k \in 1..Len(Tables.trans) : Tables.trans[k].t = t}}

HalfAll(t) == [k \in 1..Len(t) |-> Half(t[k])]
Has(t, S) == \E k \in 1..Len(t) : t[k] \in S
FullForms == (65281..65374) \cup {12290, 8220, 8221}
Bigs == {Wan, YiZh, OkuJa, 20806}
NothingToDo(opt, t) == CASE opt = "full_to_half" -> ~Has(t, FullForms)
                         [] opt = "enable_million" -> ~Has(t, Bigs)
                         [] opt = "remove_erhua" -> ~Has(t, {20799})
                         [] opt = "transliterate" -> ~Has(t, (65..90) \cup (97..122) \cup (65281..65374))
           [] OTHER -> FALSE
Named(opt) == CASE opt = "enable_standalone_number" -> {"cardinal"}
                [] opt = "enable_0_to_9" -> {"cardinal", "measure", "money"}
                [] opt = "remove_erhua" -> {"whitelist"}
                [] OTHER -> {}

\* numbers next to each other share one token or take digits from each other: not decided here
SideBySide(tok) == tok.type \in {"cardinal", "measure"} /\ Has(tok.out, {32}) /\ ~Has(tok.t, {32})

\* matching a text against a sequence of sets of alternatives: the set of reachable positions
StartsAt(out, w, p) == p + Len(w) <= Len(out) /\ SubSeq(out, p + 1, p + Len(w)) = w
RECURSIVE Reach(_, _, _, _)
Reach(Alts(_), n, k, st) ==
  IF k > n THEN st.at ELSE Reach(Alts, n, k + 1, [out |-> st.out, at |-> {p + Len(w) : <<p, w>> \in {<<p, w>> \in st.at \X Alts(k) : StartsAt(st.out, w, p)}}])
Matches(Alts(_), n, out) == Len(out) \in Reach(Alts, n, 1, [out |-> out, at |-> {0}])

Sound(lang, p) == p.k = "num" => Understand(lang, p.t) = p.n
Forms(lang, o, p) ==
  CASE p.k = "text"  -> {p.t}
    [] p.k = "fixed" -> {p.w}
    [] p.k = "er"    -> IF o.erhua THEN {<<>>} ELSE {p.t}
    [] p.k = "trans" -> IF o.trans THEN TransOf(p.t) ELSE {p.t}
    [] p.k = "num"   -> IF Converted(o, p.class, p.n) THEN {p.pre \o a \o p.post : a \in Arabic(lang, o, p.class, p.n)} \cup (IF lang = "zh" /\ p.class = "measure" /\ p.n = <<1>> THEN {p.t \o p.unit} ELSE {})
                        ELSE {p.t \o p.unit}

Good(r) ==
  CASE r.kind = "post"   -> \E k \in 1..Len(r.bare) : Post(r.lang, r.o, r.bare[k]) = r.out
    [] r.kind = "half"   -> r.tb = HalfAll(r.ta) /\ r.a = r.b
    [] r.kind = "plain"  -> NothingToDo(r.opt, r.t) => r.a = r.b
    [] r.kind = "only"   -> r.a = r.b \/ (\E k \in 1..Len(r.toks) : SideBySide(r.toks[k])) \/ Matches(LAMBDA k : IF r.toks[k].type \in Named(r.opt) THEN {r.toks[k].out, r.toks[k].t} ELSE {r.toks[k].out}, Len(r.toks), r.b)
    [] r.kind = "pieces" -> /\ \A k \in 1..Len(r.pieces) : Sound(r.lang, r.pieces[k])
                            /\ Matches(LAMBDA k : {Post(r.lang, r.o, f) : f \in Forms(r.lang, r.o, r.pieces[k])}, Len(r.pieces), r.out)
Says(r) ==
  CASE r.kind = "post" -> "the result is not the post-processed plain reading"
    [] r.kind = "half" -> "full-width and half-width text are normalized differently although the option makes them the same"
    [] r.kind = "plain" -> "an option changes a text that gives it nothing to do"
    [] r.kind = "only" -> "an option changes more than the class it names"
    [] OTHER -> "a piece is not read as its options say"
Clause(r) == IF r.exc # "" THEN "no answer" ELSE IF Good(r) THEN "" ELSE Says(r)
VARIABLES i, phase
Init == i \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ phase' = "judged" /\ i' = i
        /\ LET c == Clause(Trace[i]) IN c = "" \/ PrintT(<<"BAD", i, c>>)
Spec == Init /\ [][Next]_<<i, phase>>
===============================================================================
