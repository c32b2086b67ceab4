-------------------------------- MODULE EaMC --------------------------------
(***************************************************************************)
(* Model of reading the entries of an Enhanced Allocation capability one   *)
(* by one, in the two ways a build may find the next entry: by the size an *)
(* entry declares, or by what it holds.  Every sequence of entry shapes    *)
(* (declared size, 64-bit base, 64-bit offset), every promised number of   *)
(* entries, the structure cut at several places, for both header types     *)
(* that have one.  o[m]: where the reader of mode m is; out[m]: what it    *)
(* has read.                                                               *)
(* Every device is printed for replay into the real code.                  *)
(***************************************************************************)
EXTENDS Decode, FiniteSets, Json, IOUtils, TLC

Deep == IOEnv.DEEP = "1"
Emit == IOEnv.EMIT = "1"
Modes == {"declared", "content"}

Shape == [es : IF Deep THEN 0..7 ELSE {0, 2, 3, 4, 6}, b64 : {0, 1}, o64 : {0, 1}]
Shapes == { << s >> : s \in Shape } \cup { << s, u >> : s, u \in Shape }
Holds(s) == 2 + s.b64 + s.o64
Entry(s, k) == << s.es + 16 * k, 5 + k, 255 - k, 129 >> \o << 1 + 2 * s.b64, 16 * k, 34, 51 >> \o << 252 + 2 * s.o64, 255, 0, k >>
               \o (IF s.b64 = 1 THEN << 1, 2, 3, 128 + k >> ELSE << >>) \o (IF s.o64 = 1 THEN << 9, 0, 0, k >> ELSE << >>)
Concat(ss) == Entry(ss[1], 1) \o (IF Len(ss) > 1 THEN Entry(ss[2], 2) ELSE << >>)
Cuts == {0, 1, 5}

VARIABLES ss, bridge, promised, cut, o, out
vars == << ss, bridge, promised, cut, o, out >>
Skip == IF bridge THEN 6 ELSE 2
Whole == << promised, 0 >> \o (IF bridge THEN << 1, 5, 0, 0 >> ELSE << >>) \o Concat(ss)
Body == SubSeq(Whole, 1, Len(Whole) - cut)

Init == /\ ss \in Shapes /\ bridge \in BOOLEAN /\ promised \in 0..3 /\ cut \in Cuts
        /\ o = [m \in Modes |-> Skip] /\ out = [m \in Modes |-> << >>]
Read(m) == /\ Len(out[m]) < promised
           /\ \E e \in {EaEntry(Body, o[m], m = "content")} :
                /\ e.ok
                /\ out' = [out EXCEPT ![m] = Append(@, [at |-> o[m], f |-> e.f])]
                /\ o' = [o EXCEPT ![m] = e.next]
           /\ UNCHANGED << ss, bridge, promised, cut >>
Next == \E m \in Modes : Read(m)
Spec == Init /\ [][Next]_vars

Done == ~ENABLED Next
(* the entries written are the entries read, when their sizes say so       *)
Written == { SubSeq(ss, 1, k) : k \in 0..Len(ss) }
Honest == \A k \in 1..Len(ss) : ss[k].es = Holds(ss[k])
Agree == Done /\ Honest => out["declared"] = out["content"]
AsMany == Done => /\ Len(out["content"]) <= Min(promised, Len(ss))
                  /\ cut = 0 => Len(out["content"]) = Min(promised, Len(ss))
                  /\ Honest /\ cut = 0 => Len(out["declared"]) = Min(promised, Len(ss))
                  /\ Honest /\ cut > 0 => Len(out["declared"]) = Min(promised, Len(ss) - 1)
Ahead == \A m \in Modes : \A k \in 2..Len(out[m]) : out[m][k].at >= out[m][k - 1].at + 4
Inside == \A m \in Modes : \A k \in 1..Len(out[m]) : out[m][k].at + 12 <= Len(Body)
Apart == \A k \in 2..Len(out["content"]) : out["content"][k].at = out["content"][k - 1].at + 4 * (1 + Holds(ss[k - 1]))
(* the structure as a whole is this many entries                           *)
Total(m) == LET f == EnhancedAllocation(Body, bridge, m = "content")
            IN f.ok /\ << "entries.#", Str(Len(out[m])) >> \in { f.f[k] : k \in 1..Len(f.f) }
Agrees == Done => Total("declared") /\ Total("content")

Header == [i \in 1..64 |-> IF i = 15 THEN (IF bridge THEN 1 ELSE 0) ELSE IF i = 53 THEN 64 ELSE 0]
Emitted == Done /\ Emit => PrintT("REPLAY " \o ToJson([w |-> "cap", h |-> Header, d |-> << 20, 0 >> \o Body, x |-> << >>, ops |-> << 1, 1 >>]))
=============================================================================
