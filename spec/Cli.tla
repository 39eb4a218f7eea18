---------------------------------- MODULE Cli ----------------------------------
(* Argument lists growing option by option: laws of the interface, and generation. *)
EXTENDS CliRules, Json
CONSTANTS MaxItems, Small, Random
VARIABLES dir, items
vars == <<dir, items>>
Opt(o) == [j |-> "opt", o |-> o, v |-> ""]
OptEq(o, v) == [j |-> "opteq", o |-> o, v |-> v]
Val(v) == [j |-> "val", o |-> "", v |-> v]
Words == IF Small THEN {"True", "false", "zh"} ELSE {"True", "true", "tRuE", "False", "FALSE", "fAlSe", "yes", "1", "0", "", "zh", "ja", "W1", "W2", "W3", "SP", "None"}
Inputs == IF Small THEN {"W1", "true"} ELSE {"W1", "W2", "W3", "W4", "", "true", "ja", "N5", "DASH"}
LangVals == IF Small THEN {"zh", "ja"} ELSE {"zh", "en", "ja", "ZH", "", "fr", "W1"}
Some == IF Small THEN {"remove_puncts", "enable_million", "tag_oov"} ELSE AllNames
Items == TLCEval(
  UNION {{<<Opt(o)>> : o \in OnOf[n] \cup OffOf[n]} : n \in Some}
  \cup UNION {{<<Opt(o), Val(w)>> : o \in OnOf[n], w \in Words} : n \in Some}
  \cup UNION {{<<OptEq(o, w)>> : o \in OnOf[n], w \in Words} : n \in Some}
  \cup UNION {{<<OptEq(o, "true")>> : o \in OffOf[n]} : n \in Some}
  \cup {<<Opt("--text"), Val(w)>> : w \in Inputs} \cup {<<OptEq("--text", w)>> : w \in Inputs}
  \cup {<<Opt("--file"), Val("F1")>>, <<OptEq("--file", "F1")>>, <<Opt("--file"), Val("F2")>>, <<Opt("--text")>>, <<Opt("--file")>>}
  \cup {<<Opt("--language"), Val(w)>> : w \in LangVals} \cup {<<OptEq("--language", w)>> : w \in LangVals} \cup {<<Opt("--language")>>}
  \cup {<<Opt(o), Val("C1")>> : o \in CacheOpts} \cup {<<OptEq(o, "C2")>> : o \in CacheOpts} \cup {<<Opt("--cache_dir")>>}
  \cup {<<Opt(o)>> : o \in OverOpts} \cup {<<OptEq("--overwrite_cache", "true")>>, <<Val("W1")>>, <<Opt("--verbose")>>, <<Opt("--no-text")>>, <<OptEq("--nbest", "2")>>})
Init == dir \in Directions /\ items = <<>>
Next == Len(items) < MaxItems /\ \E it \in (IF Random THEN {RandomElement(Items)} ELSE Items) : items' = Append(items, it) /\ dir' = dir
Spec == Init /\ [][Next]_vars
Tokens(is) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, is)
P == Parse(Tokens(items), dir)

(* laws *)
Bare(it) == Len(it) = 1 /\ it[1].j = "opt"
(* a boolean or language option is only what it names: taking away any other option's items
   leaves its value alone (last one wins) *)
Sets(it, n) == Word(it[1].o)[2] = n
Only(n) == Tokens(SelectSeq(items, LAMBDA it : Sets(it, n) \/ it[1].o = "--language"))
Independent == ~P.refused => \A n \in DOMAIN P.opts : P.opts[n] = Parse(Only(n), dir).opts[n]
LastWins == ~P.refused => \A n \in DOMAIN P.opts :
  LET mine == SelectSeq(items, LAMBDA it : Sets(it, n)) IN
  IF mine = <<>> THEN P.opts[n] = Defaults(dir, P.lang)[n]
  ELSE LET it == mine[Len(mine)] IN
       P.opts[n] = (it[1].o \in OnOf[n] /\ (Bare(it) \/ it[Len(it)].v \in True))
(* nothing of another language or direction is accepted *)
NoForeign == ~P.refused => \A k \in 1..Len(items) : \A n \in AllNames : Sets(items[k], n) => n \in Names(dir, P.lang)
(* refusal needs a reason in a single item, a pair, or a bare boolean followed by a stray word *)
OneInput == ~P.refused => P.text = "unset" \/ P.file = "unset"
Kind == ~P.refused => P.lang \in Languages /\ DOMAIN P.opts = Names(dir, P.lang)
Emit == PrintT(<<"GEN", ToJson([dir |-> dir, ts |-> Tokens(items)])>>)
EmitFull == Len(items) < MaxItems \/ Emit
===============================================================================
