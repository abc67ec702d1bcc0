------------------------------ MODULE Logging ------------------------------
(* The package logger: a level and at most one attached handler, changed by  *)
(* setup_logging and by the deprecated verbose switch that many functions    *)
(* take.  Used as a design model (all call sequences are enumerated and      *)
(* exported) and, through LogTrace, to judge recorded sequences.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Levels == [DEBUG |-> 10, INFO |-> 20, WARNING |-> 30, ERROR |-> 40, CRITICAL |-> 50]
(* spellings a user may write, with the level they name ("": unknown)        *)
Spelling == ("DEBUG" :> "DEBUG") @@ ("info" :> "INFO") @@ ("Info" :> "INFO")
         @@ ("Warning" :> "WARNING") @@ ("WARNING" :> "WARNING") @@ ("error" :> "ERROR")
         @@ ("critical" :> "CRITICAL") @@ ("CRITICAL" :> "CRITICAL") @@ ("<default>" :> "WARNING")
         @@ ("LOUD" :> "") @@ ("" :> "") @@ ("BASIC_FORMAT" :> "") @@ ("20" :> "")
Handlers == {"none", "A", "B"}
Switches == {"direct", "params", "get_state", "get_time_state", "exposure_time"}
Settings == {"True", "False", "None", "omitted"}

(* the state is [level, handlers]                                            *)
Fresh == [level |-> 0, handlers |-> <<>>]
Effective(s) == IF s.level = 0 THEN 30 ELSE s.level

Attach(s, h) == IF s.handlers # <<>> THEN s.handlers
                ELSE IF h = "none" THEN <<"stream">> ELSE <<h>>
SetUp(s, name, h) ==
  IF Spelling[name] = "" THEN s
  ELSE [level |-> Levels[Spelling[name]], handlers |-> Attach(s, h)]
Refused(name) == Spelling[name] = ""

Switch(s, v) == CASE v = "True" -> SetUp(s, "Info", "none")
                  [] v = "False" -> SetUp(s, "error", "none")
                  [] OTHER -> s
Deprecated(v) == v \in {"True", "False"}

Apply(s, c) == IF c.op = "setup" THEN SetUp(s, c.level, c.handler) ELSE Switch(s, c.v)

Calls == [op : {"setup"}, level : DOMAIN Spelling, handler : Handlers]
         \cup [op : {"switch"}, fn : Switches, v : Settings]

MaxCalls == IF "CALLS" \in DOMAIN IOEnv THEN atoi(IOEnv.CALLS) ELSE 2
VARIABLES prog, st
vars == <<prog, st>>
Init == prog = <<>> /\ st = Fresh
Next == /\ Len(prog) < MaxCalls
        /\ \E c \in Calls : prog' = Append(prog, c) /\ st' = Apply(st, c)
Spec == Init /\ [][Next]_vars

OneHandler == Len(st.handlers) <= 1
KnownLevel == st.level \in {0} \cup {Levels[l] : l \in DOMAIN Levels}
KeepsHandler == [][st.handlers # <<>> => st'.handlers = st.handlers]_vars
RefusalChangesNothing ==
  [][(prog' # prog /\ prog'[Len(prog')].op = "setup" /\ Refused(prog'[Len(prog')].level))
     => st' = st]_vars

Collect == IF Len(prog) = MaxCalls THEN TLCSet(42, TLCGet(42) \cup {prog}) ELSE TRUE
ASSUME TLCSet(42, {})
Export == JsonSerialize(IOEnv.OUT, SetToSeq(TLCGet(42)))
=============================================================================
