------------------------------- MODULE Walker -------------------------------
(***************************************************************************)
(* The observable state machine of a walk.  A handle of kind "cap" or      *)
(* "ecap" on a device is a pointer still to be followed and the structures *)
(* already followed; Step says what the next call reports, Advance what    *)
(* the handle is afterwards.  Handles share nothing: a clone is a copy of  *)
(* this state.                                                             *)
(* A device is a record: h (header region bytes), d (device dependent      *)
(* region from 40h), x (extended region from 100h).                        *)
(***************************************************************************)
EXTENDS Iters, TLC

Fresh(w, dv) == [p |-> IF w = "cap" THEN FirstCapPtr(dv.h) ELSE 256, seen |-> {}, h |-> << 0, 0 >>]
(* h: the calls made since a certain moment, the start or the latest       *)
(* skipping, which leaves open how many were made.                         *)
(* A walk may also start where the caller says (p >= 0).                   *)
FreshAt(w, dv, p) == IF p < 0 THEN Fresh(w, dv) ELSE [p |-> (p \div 4) * 4, seen |-> {}, h |-> << 0, 0 >>]
Step(w, dv, rs, s) == IF w = "cap" THEN CapStep(dv.d, dv.h, rs, s.p, s.seen)
                      ELSE EcapStep(dv.x, s.p, s.seen)
Advance(s, r) == [p |-> r.p, seen |-> IF r.t = "end" THEN s.seen ELSE s.seen \cup {s.p}, h |-> << s.h[1], s.h[2] + 1 >>]
(* n calls whose reports nobody looks at                                   *)
RECURSIVE After(_,_,_,_,_), Reports(_,_,_,_)
After(w, dv, rs, s, n) == IF n = 0 THEN s ELSE After(w, dv, rs, Advance(s, Step(w, dv, rs, s)), n - 1)
Skip(w, dv, rs, s, n, moment) == [After(w, dv, rs, s, n) EXCEPT !.h = << moment, 0 >>]
(* all that is still to be reported                                        *)
Reports(w, dv, rs, s) ==
  LET r == TLCEval(Step(w, dv, rs, s))
  IN IF r.t = "end" THEN << >> ELSE << [x \in (DOMAIN r) \ {"p"} |-> r[x]] >> \o Reports(w, dv, rs, Advance(s, r))
(* Two walks after some calls: with different reports to come they are not *)
(* equal; the same walk after the same calls is.                           *)
WalksEqual(w, dv1, s1, dv2, s2, rs) ==
  IF dv1 = dv2 /\ s1 = s2 THEN {"true"}
  ELSE IF Reports(w, dv1, rs, s1) # Reports(w, dv2, rs, s2) THEN {"false"}
  ELSE {"true", "false"}
(* Likewise what two walks report: reports that say different things are   *)
(* not equal.                                                              *)
ReportsEqual(w, dv1, s1, dv2, s2, rs) ==
  IF dv1 = dv2 /\ s1.p = s2.p /\ s1.seen = s2.seen THEN {"true"}
  ELSE LET said(dv, s) == LET r == Step(w, dv, rs, s)
                          IN [x \in (DOMAIN r) \ {"p"} |-> IF x = "f" THEN Meaning(r).f ELSE r[x]]
       IN IF said(dv1, s1) # said(dv2, s2) THEN {"false"} ELSE {"true", "false"}
=============================================================================
