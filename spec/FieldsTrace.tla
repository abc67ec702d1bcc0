---------------------------- MODULE FieldsTrace ----------------------------
(* Judges the attributes of recorded Particles objects against Fields.       *)
EXTENDS Fields, Records

CellsOf(e) == (0 .. (e.L - 1)) \X (0 .. (e.W - 1))
Same(got, want, tol) == IF want = NAN THEN got = NAN
                        ELSE got # NAN /\ Abs(got - want) <= tol + Abs(want) \div 2000
Field(r, name, Want(_), tol) ==
  IF Len(r.out[name]) # r.e.L \/ \E i \in 1 .. Len(r.out[name]) : Len(r.out[name][i]) # r.e.W
  THEN {F("field." \o name, "shape")}
  ELSE UNION { When(~Same(Val(r.out[name], c), Want(c), tol), "field." \o name,
                    <<c, Val(r.out[name], c), Want(c)>>) : c \in CellsOf(r.e) }
FieldsVerdict(r) ==
  LET e == r.e
      o == r.opt
  IN IF ~Sufficient(e) \/ r.badroi
     THEN When(r.err # "ValueError", "field.refuse", r.err)
     ELSE IF r.err # "" THEN {F("field.error", r.err)}
     ELSE Field(r, "depth", LAMBDA c : DepthAt(e, c), 0)
       \cup Field(r, "stage", LAMBDA c : StageAt(e, c), 0)
       \cup Field(r, "qx", LAMBDA c : QDownAt(e, c), 1)
       \cup Field(r, "qy", LAMBDA c : QRightAt(e, c), 1)
       \cup Field(r, "u", LAMBDA c : VDownAt(e, c), 2)
       \cup Field(r, "v", LAMBDA c : VRightAt(e, c), 2)
       \cup (IF e.ctype = <<>> THEN Field(r, "cell_type", LAMBDA c : TypeAt(e, Dry(o), c), 0)
             ELSE Field(r, "cell_type", LAMBDA c : Val(e.ctype, c), 0))
       \cup When(r.attr.theta2 # Theta2(o), "field.option", <<"theta", r.attr.theta2>>)
       \cup When(r.attr.gamma # Gamma(o), "field.option", <<"gamma", r.attr.gamma>>)
       \cup When(r.attr.dry # Dry(o), "field.option", <<"dry_depth", r.attr.dry>>)
       \cup When(r.attr.dc # Diffusion(o), "field.option", <<"diff_coeff", r.attr.dc>>)
       \cup When(r.warned # Warns(o), "field.warning", <<o.dc, o.verbose, r.warned>>)
       \cup When(r.attr.sd # (IF Steepest(o) THEN 1 ELSE 0), "field.option",
                 <<"steepest_descent", r.attr.sd>>)
=============================================================================
