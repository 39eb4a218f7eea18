------------------------------- MODULE CliRules -------------------------------
(* The command-line interface (C21).  An argument list is a sequence of tokens:
     [j |-> "opt", o |-> "--name", v |-> ""]        an option alone
     [j |-> "opteq", o |-> "--name", v |-> value]   option=value in one word
     [j |-> "val", o |-> "", v |-> value]           a word that is no option
   Parse gives the outcome: refused, or the constructor options, processor and input. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Languages == {"zh", "en", "ja"}
Directions == {"tn", "itn"}
(* constructor options of every processor with their defaults *)
Defaults(dir, lang) ==
  IF dir = "tn" /\ lang = "zh" THEN
    [remove_interjections |-> TRUE, remove_erhua |-> TRUE, traditional_to_simple |-> TRUE, remove_puncts |-> FALSE, full_to_half |-> TRUE, tag_oov |-> FALSE]
  ELSE IF dir = "tn" /\ lang = "ja" THEN
    [transliterate |-> FALSE, remove_interjections |-> FALSE, remove_puncts |-> FALSE, full_to_half |-> TRUE, tag_oov |-> FALSE]
  ELSE IF dir = "itn" /\ lang = "zh" THEN
    [enable_standalone_number |-> TRUE, enable_0_to_9 |-> FALSE, enable_million |-> FALSE, remove_interjections |-> TRUE]
  ELSE IF dir = "itn" /\ lang = "ja" THEN
    [enable_standalone_number |-> TRUE, enable_0_to_9 |-> FALSE, enable_million |-> FALSE, full_to_half |-> FALSE]
  ELSE <<>>
Names(dir, lang) ==
  CASE dir = "tn" /\ lang = "zh" -> {"remove_interjections", "remove_erhua", "traditional_to_simple", "remove_puncts", "full_to_half", "tag_oov"}
    [] dir = "tn" /\ lang = "ja" -> {"transliterate", "remove_interjections", "remove_puncts", "full_to_half", "tag_oov"}
    [] dir = "itn" /\ lang = "zh" -> {"enable_standalone_number", "enable_0_to_9", "enable_million", "remove_interjections"}
    [] dir = "itn" /\ lang = "ja" -> {"enable_standalone_number", "enable_0_to_9", "enable_million", "full_to_half"}
    [] OTHER -> {}
AllNames == {"remove_interjections", "remove_erhua", "traditional_to_simple", "remove_puncts", "full_to_half", "tag_oov", "transliterate", "enable_standalone_number", "enable_0_to_9", "enable_million"}

(* the spellings of an option: with underscores or hyphens, and the negated switch *)
OnOf == [remove_interjections |-> {"--remove-interjections", "--remove_interjections"},
         remove_erhua |-> {"--remove-erhua", "--remove_erhua"},
         traditional_to_simple |-> {"--traditional-to-simple", "--traditional_to_simple"},
         remove_puncts |-> {"--remove-puncts", "--remove_puncts"},
         full_to_half |-> {"--full-to-half", "--full_to_half"},
         tag_oov |-> {"--tag-oov", "--tag_oov"},
         transliterate |-> {"--transliterate"},
         enable_standalone_number |-> {"--enable-standalone-number", "--enable_standalone_number"},
         enable_0_to_9 |-> {"--enable-0-to-9", "--enable_0_to_9"},
         enable_million |-> {"--enable-million", "--enable_million"}]
OffOf == [remove_interjections |-> {"--no-remove-interjections", "--no-remove_interjections"},
          remove_erhua |-> {"--no-remove-erhua", "--no-remove_erhua"},
          traditional_to_simple |-> {"--no-traditional-to-simple", "--no-traditional_to_simple"},
          remove_puncts |-> {"--no-remove-puncts", "--no-remove_puncts"},
          full_to_half |-> {"--no-full-to-half", "--no-full_to_half"},
          tag_oov |-> {"--no-tag-oov", "--no-tag_oov"},
          transliterate |-> {"--no-transliterate"},
          enable_standalone_number |-> {"--no-enable-standalone-number", "--no-enable_standalone_number"},
          enable_0_to_9 |-> {"--no-enable-0-to-9", "--no-enable_0_to_9"},
          enable_million |-> {"--no-enable-million", "--no-enable_million"}]
CacheOpts == {"--cache_dir", "--cache-dir"}
OverOpts == {"--overwrite_cache", "--overwrite-cache"}

True == {"True", "true", "TRUE", "tRuE"}
False == {"False", "false", "FALSE", "fAlSe"}

(* what an option word means, and whether a direction and language know it *)
Word(o) ==
  CASE o = "--text" -> <<"text", "">>
    [] o = "--file" -> <<"file", "">>
    [] o = "--language" -> <<"language", "">>
    [] o \in CacheOpts -> <<"cache", "">>
    [] o \in OverOpts -> <<"over", "">>
    [] o \in {"--remove-interjections", "--remove_interjections"} -> <<"on", "remove_interjections">>
    [] o \in {"--no-remove-interjections", "--no-remove_interjections"} -> <<"off", "remove_interjections">>
    [] o \in {"--remove-erhua", "--remove_erhua"} -> <<"on", "remove_erhua">>
    [] o \in {"--no-remove-erhua", "--no-remove_erhua"} -> <<"off", "remove_erhua">>
    [] o \in {"--traditional-to-simple", "--traditional_to_simple"} -> <<"on", "traditional_to_simple">>
    [] o \in {"--no-traditional-to-simple", "--no-traditional_to_simple"} -> <<"off", "traditional_to_simple">>
    [] o \in {"--remove-puncts", "--remove_puncts"} -> <<"on", "remove_puncts">>
    [] o \in {"--no-remove-puncts", "--no-remove_puncts"} -> <<"off", "remove_puncts">>
    [] o \in {"--full-to-half", "--full_to_half"} -> <<"on", "full_to_half">>
    [] o \in {"--no-full-to-half", "--no-full_to_half"} -> <<"off", "full_to_half">>
    [] o \in {"--tag-oov", "--tag_oov"} -> <<"on", "tag_oov">>
    [] o \in {"--no-tag-oov", "--no-tag_oov"} -> <<"off", "tag_oov">>
    [] o \in {"--transliterate"} -> <<"on", "transliterate">>
    [] o \in {"--no-transliterate"} -> <<"off", "transliterate">>
    [] o \in {"--enable-standalone-number", "--enable_standalone_number"} -> <<"on", "enable_standalone_number">>
    [] o \in {"--no-enable-standalone-number", "--no-enable_standalone_number"} -> <<"off", "enable_standalone_number">>
    [] o \in {"--enable-0-to-9", "--enable_0_to_9"} -> <<"on", "enable_0_to_9">>
    [] o \in {"--no-enable-0-to-9", "--no-enable_0_to_9"} -> <<"off", "enable_0_to_9">>
    [] o \in {"--enable-million", "--enable_million"} -> <<"on", "enable_million">>
    [] o \in {"--no-enable-million", "--no-enable_million"} -> <<"off", "enable_million">>
    [] OTHER -> <<"unknown", "">>
Meaning(o, dir, lang) ==
  LET w == Word(o) IN IF w[1] \in {"on", "off"} /\ w[2] \notin Names(dir, lang) THEN <<"unknown", "">> ELSE w

(* the language is the last one named; naming an unsupported one is refused *)
RECURSIVE Language(_, _, _)
Language(ts, k, lang) ==
  IF k > Len(ts) THEN lang
  ELSE IF ts[k].o # "--language" THEN Language(ts, k + 1, lang)
  ELSE IF ts[k].j = "opteq" THEN IF ts[k].v \in Languages THEN Language(ts, k + 1, ts[k].v) ELSE "refused"
  ELSE IF k < Len(ts) /\ ts[k + 1].j = "val" /\ ts[k + 1].v \in Languages THEN Language(ts, k + 2, ts[k + 1].v)
  ELSE "refused"

Refused == [refused |-> TRUE]
Start(dir, lang) == [refused |-> FALSE, dir |-> dir, lang |-> lang, opts |-> Defaults(dir, lang), cache |-> "unset",
                     over |-> FALSE, text |-> "unset", file |-> "unset"]
(* `unset` is no value any word can have *)
Put(st, m, v) ==
  CASE m[1] = "text" -> IF st.file # "unset" THEN Refused ELSE [st EXCEPT !.text = v]
    [] m[1] = "file" -> IF st.text # "unset" THEN Refused ELSE [st EXCEPT !.file = v]
    [] m[1] = "cache" -> [st EXCEPT !.cache = v]
    [] m[1] = "language" -> st
    [] m[1] = "on" -> IF v \in True THEN [st EXCEPT !.opts[m[2]] = TRUE] ELSE IF v \in False THEN [st EXCEPT !.opts[m[2]] = FALSE] ELSE Refused
    [] OTHER -> Refused
RECURSIVE Walk(_, _, _)
Walk(ts, k, st) ==
  IF st.refused \/ k > Len(ts) THEN st
  ELSE IF ts[k].j = "val" THEN Refused                            \* a stray word
  ELSE LET m == Meaning(ts[k].o, st.dir, st.lang)
           next == k < Len(ts) /\ ts[k + 1].j = "val"
       IN IF m[1] = "unknown" THEN Refused
          ELSE IF ts[k].j = "opteq" THEN Walk(ts, k + 1, Put(st, m, ts[k].v))
          ELSE IF m[1] = "over" THEN Walk(ts, k + 1, [st EXCEPT !.over = TRUE])
          ELSE IF m[1] = "off" THEN Walk(ts, k + 1, [st EXCEPT !.opts[m[2]] = FALSE])
          ELSE IF next THEN Walk(ts, k + 2, Put(st, m, ts[k + 1].v))
          ELSE IF m[1] = "on" THEN Walk(ts, k + 1, [st EXCEPT !.opts[m[2]] = TRUE])
          ELSE Refused                                            \* a value is missing
Parse(ts, dir) == LET lang == Language(ts, 1, "zh") IN IF lang = "refused" THEN Refused ELSE Walk(ts, 1, Start(dir, lang))

-------------------------------------------------------------------------------
(* input texts of a file or of standard input: cut after every line end (LF, CR LF, CR), the
   ends removed; a last line needs none.  Texts are sequences of code points. *)
RECURSIVE Cut(_, _, _)
Cut(t, k, line) ==
  IF k > Len(t) THEN IF line = <<>> THEN <<>> ELSE <<line>>
  ELSE IF t[k] = 10 THEN <<line>> \o Cut(t, k + 1, <<>>)
  ELSE IF t[k] = 13 THEN <<line>> \o Cut(t, IF k < Len(t) /\ t[k + 1] = 10 THEN k + 2 ELSE k + 1, <<>>)
  ELSE Cut(t, k + 1, Append(line, t[k]))
Lines(t) == Cut(t, 1, <<>>)
(* standard input: the platform's text stream may hand over lines that end with LF only; then a
   CR at the end of a line goes with it and any other CR is part of the line *)
NoCr(line) == IF line # <<>> /\ line[Len(line)] = 13 THEN SubSeq(line, 1, Len(line) - 1) ELSE line
RECURSIVE CutLf(_, _, _)
CutLf(t, k, line) ==
  IF k > Len(t) THEN IF line = <<>> THEN <<>> ELSE <<NoCr(line)>>
  ELSE IF t[k] = 10 THEN <<NoCr(line)>> \o CutLf(t, k + 1, <<>>)
  ELSE CutLf(t, k + 1, Append(line, t[k]))
LinesLf(t) == CutLf(t, 1, <<>>)
===============================================================================
