------------------------------ MODULE LogTrace ------------------------------
(* Judges recorded call sequences on the package logger: the specification   *)
(* state is advanced call by call and compared with the observed one.        *)
EXTENDS Records

Lg == INSTANCE Logging WITH prog <- <<>>, st <- <<>>

One(before, x) ==
  LET want == Lg!Apply(before, x)
      refused == x.op = "setup" /\ Lg!Refused(x.level)
      dep == x.op = "switch" /\ Lg!Deprecated(x.v)
  IN When(refused /\ x.err # "ValueError", "log.refuse", <<x.level, x.err>>)
     \cup When(~refused /\ x.err # "", "log.error", x.err)
     \cup When(x.after.level # want.level, "log.level", <<x, want.level>>)
     \cup When(x.after.handlers # want.handlers, "log.handlers", <<x, want.handlers>>)
     \cup When(dep /\ x.deprecations = 0, "log.nodeprecation", x)
     \cup When(~dep /\ x.deprecations > 0, "log.deprecation", x)
     \cup When(/\ x.err = "" /\ x.speaks
               /\ want.handlers \in {<<"A">>, <<"B">>}
               /\ (x.emitted > 0) # (Lg!Effective(want) <= 20), "log.effect", x)

LogVerdict(r) ==
  UNION { One(IF i = 1 THEN Lg!Fresh ELSE r.calls[i - 1].after, r.calls[i])
        : i \in DOMAIN r.calls }
=============================================================================
