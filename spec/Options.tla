------------------------------ MODULE Options ------------------------------
(* How the runtime is configured.  An option may be given on the command      *)
(* line, in a configuration file (-- vt_input_config), in a YAML file         *)
(* (-- vt_input_config_yaml) or by the program (AppConfig); the first of       *)
(* these that gives it decides, and otherwise its default holds.  Options not *)
(* mentioned anywhere are untouched.  The arguments are a mix of the          *)
(* program's and the runtime's: what follows "vt_args" up to "--" is the      *)
(* runtime's, and before either of the two appears, so is what starts like one *)
(* of its options; everything else stays with the program, in order.           *)
EXTENDS Integers, Sequences
Absent == -1
Success == -1
Value(c, f, y, a, d) == IF c # Absent THEN c ELSE IF f # Absent THEN f ELSE IF y # Absent THEN y ELSE IF a # Absent THEN a ELSE d
\* one parse: the values seen afterwards
Configured(rc, d, a, y, f, c, g) ==
  /\ rc = Success /\ Len(g) = Len(d)
  /\ \A i \in 1 .. Len(d) : g[i] = Value(c[i], f[i], y[i], a[i], d[i])
\* which arguments are left to the program; kinds: 0 a word, 1 "vt_args",
\* 2 "--", 3 an option of the runtime, 4 what looks like one
Side(s, k) == IF k = 1 THEN "vt" ELSE IF k = 2 THEN "app" ELSE IF s = "open" /\ k \in {3, 4} THEN "vt" ELSE s
Keeps(s, k) == k \notin {1, 2} /\ Side(s, k) # "vt"
RECURSIVE Left(_, _, _)
Left(s, ks, xs) ==
  IF ks = <<>> THEN <<>>
  ELSE (IF Keeps(s, Head(ks)) THEN <<Head(xs)>> ELSE <<>>) \o Left(Side(s, Head(ks)), Tail(ks), Tail(xs))
Parsed(ks, xs, rest) == rest = Left("open", ks, xs)
\* the configuration a run wrote out, read by another run
WrittenAndRead(rc, rc2, before, after) == rc = Success /\ rc2 = Success /\ after = before
=============================================================================
