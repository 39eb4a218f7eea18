-------------------------------- MODULE CliTrace --------------------------------
(* Judges recorded command lines (C21).
   r.dir, r.ts       direction and argument tokens
   r.loose           an abbreviated spelling was used: refusing it is right too
   r.exit            -1 when the program ended by itself, else its exit status
   r.exc             other exception
   r.made            number of processors made; r.gdir, r.glang, r.names, r.on, r.cache, r.over of the last
   r.read            whether standard input was touched
   r.stdin           its code points; r.words / r.files: text of a word, content of a file (absent: missing)
   r.out             everything printed to standard output: the recorder tags x as E000 x and
                     verbalizes x as E001 x
   or r.kind = "real": r.out against r.want of the library. *)
EXTENDS CliRules, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, phase
Printed(lines) == FoldLeft(LAMBDA acc, x : acc \o <<57344>> \o x \o <<10, 57345, 57344>> \o x \o <<10>>, <<>>, lines)
Texts(r, P) ==
  IF P.text # "unset" THEN <<r.words[P.text]>>
  ELSE IF P.file # "unset" THEN Lines(r.files[P.file])
  ELSE Lines(r.stdin)
Stopped(r) == r.exit = 2 /\ r.out = <<>> /\ r.made = 0 /\ ~r.read
Clause(r) ==
  IF r.kind = "real" THEN IF r.exc # "" THEN "the command failed" ELSE IF r.out # r.want THEN "the command prints something else than the library gives" ELSE ""
  ELSE LET P == Parse(r.ts, r.dir) IN
  IF P.refused THEN IF Stopped(r) THEN "" ELSE "a wrong command line was not refused before processing"
  ELSE IF r.loose /\ Stopped(r) THEN ""
  ELSE IF r.made = 0 /\ P.file \notin DOMAIN r.files /\ P.file # "unset" /\ r.exit = 2 /\ r.out = <<>> THEN ""
  ELSE IF r.made = 0 THEN "a right command line was refused"
  ELSE IF r.made # 1 THEN "more than one processor was made"
  ELSE IF r.gdir # P.dir \/ r.glang # P.lang THEN "the processor of another language or direction was made"
  ELSE IF \E n \in DOMAIN P.opts : ~((\E k \in 1..Len(r.on) : r.on[k] = n) <=> P.opts[n]) THEN "an option has another value"
  ELSE IF r.cache # P.cache THEN "another cache directory"
  ELSE IF r.over # P.over THEN "cache overwriting differs"
  ELSE IF P.file # "unset" /\ P.file \notin DOMAIN r.files THEN IF r.exit = 2 /\ r.out = <<>> THEN "" ELSE "a missing file was not refused"
  ELSE IF r.exc # "" \/ r.exit \notin {-1, 0} THEN "the command failed"
  ELSE IF r.read /\ (P.text # "unset" \/ P.file # "unset") THEN "standard input was read beside another input"
  ELSE IF r.out # Printed(Texts(r, P)) /\ ~(P.text = "unset" /\ P.file = "unset" /\ r.out = Printed(LinesLf(r.stdin))) THEN "the lines printed are not those of the input"
  ELSE ""
Init == i \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ phase' = "judged" /\ i' = i
        /\ LET c == Clause(Trace[i]) IN c = "" \/ PrintT(<<"BAD", i, c>>)
Spec == Init /\ [][Next]_<<i, phase>>
===============================================================================
