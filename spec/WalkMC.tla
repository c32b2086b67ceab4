------------------------------- MODULE WalkMC -------------------------------
(***************************************************************************)
(* Model of the two capability-list walks on every small configuration     *)
(* space: SLOTS consecutive four-byte slots, each with any of a few ids    *)
(* and any of a few links (to every slot, to nowhere, below the region,    *)
(* beyond its end, with reserved low bits), the region ending at various   *)
(* places, walked through one or two handles interleaved in every way.     *)
(* The guarantees are stated against the reachability relation of the      *)
(* links, independently of how Step finds its way.                         *)
(* Every complete behaviour is printed for replay into the real code.      *)
(***************************************************************************)
EXTENDS Walker, FiniteSets, Json, IOUtils

Kind == IOEnv.KIND            \* "cap" or "ecap"
Slots == atoi(IOEnv.SLOTS)
Deep == IOEnv.DEEP = "1"
Clones == IOEnv.CLONES = "1"  \* the handle may be duplicated at any point
Emit == IOEnv.EMIT = "1"

Base == IF Kind = "cap" THEN 64 ELSE 256
SlotAt(k) == Base + 4 * (k - 1)
Ids == IF Kind = "cap" THEN (IF Deep THEN {4, 34, 3} ELSE {4, 3})
       ELSE (IF Deep THEN {17, 14, 0} ELSE {14, 0})         \* 3 and 14 need 8 bytes, the others fit a slot
Links == { SlotAt(k) : k \in 1..Slots } \cup {0}
         \cup (IF Kind = "cap" THEN {60, 252} ELSE {252, 4092})
         \cup (IF Deep THEN { SlotAt(Slots) + 2 } ELSE {})
Lens == IF Clones THEN {4 * Slots} ELSE {4 * Slots + 4, 4 * Slots, 4 * Slots - 1, 4 * Slots - 3}
Firsts == IF Kind = "ecap" THEN {256} ELSE IF Deep THEN Links ELSE {64, 68}

(* a slot: id, link; an extended slot also has a version, and may be blank *)
SlotBytes(s) ==
  IF Kind = "cap" THEN << s.id, s.next, 7, 9 >>
  ELSE IF s.id = 0 /\ s.next = 0 THEN << 0, 0, 0, 0 >>
  ELSE << s.id, 0, 1 + 16 * (s.next % 16), s.next \div 16 >>
RECURSIVE Bytes(_)
Bytes(ss) == IF ss = << >> THEN << >> ELSE SlotBytes(Head(ss)) \o Bytes(Tail(ss))
Region(ss, len) == SubSeq(Bytes(ss) \o << 0, 0, 0, 0 >>, 1, len)
HeaderWith(first) == [i \in 1..64 |-> IF i = 53 /\ Kind = "cap" THEN first ELSE 0]
Device(ss, len, first) == [h |-> HeaderWith(first), d |-> IF Kind = "cap" THEN Region(ss, len) ELSE << >>,
                           x |-> IF Kind = "ecap" THEN Region(ss, len) ELSE << >>]
Slot == [id : Ids, next : Links]

VARIABLES dev, hnd, out, ops
vars == << dev, hnd, out, ops >>
(* out[i]: what handle i has reported; ops: the calls made so far          *)

Init == /\ \E ss \in [1..Slots -> Slot] : \E len \in Lens : \E first \in Firsts : dev = Device(ss, len, first)
        /\ hnd = << Fresh(Kind, dev) >> /\ out = << << >> >> /\ ops = << >>

Ended(i) == Len(out[i]) > 0 /\ out[i][Len(out[i])].t = "end"
Twice(i) == Ended(i) /\ Len(out[i]) > 1 /\ out[i][Len(out[i]) - 1].t = "end"
Brief(r) == [t |-> r.t, at |-> r.at, p |-> r.p]
Call(i) == /\ i <= Len(hnd) /\ ~Twice(i)
           /\ \E r \in {Step(Kind, dev, FALSE, hnd[i])} :
                /\ out' = [out EXCEPT ![i] = Append(@, Brief(r))]
                /\ hnd' = [hnd EXCEPT ![i] = Advance(@, r)]
           /\ ops' = Append(ops, i) /\ UNCHANGED dev
Duplicate == /\ Clones /\ Len(hnd) = 1 /\ ~Twice(1)
             /\ hnd' = << hnd[1], hnd[1] >> /\ out' = << out[1], out[1] >>
             /\ ops' = Append(ops, 0) /\ UNCHANGED dev
Complete == \A i \in 1..Len(hnd) : Twice(i)
Next == \/ \E i \in 1..2 : Call(i)
        \/ Duplicate
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(*------------------------------ guarantees --------------------------------*)
(* Where a list leads, by its links alone.                                 *)
Mem == IF Kind = "cap" THEN dev.d ELSE dev.x
HeadLen == IF Kind = "cap" THEN 2 ELSE 4
Readable(p) == p >= Base /\ p - Base + HeadLen <= Len(Mem)
Blank(p) == Kind = "ecap" /\ \A k \in 1..4 : Mem[p - Base + k] = 0
Exists(p) == Readable(p) /\ ~Blank(p)
LinkOf(p) == IF Kind = "cap" THEN 4 * (Mem[p - Base + 2] \div 4)
             ELSE 4 * ((Mem[p - Base + 3] \div 64) + 4 * Mem[p - Base + 4])
First == IF Kind = "cap" THEN 4 * (dev.h[53] \div 4) ELSE 256
RECURSIVE Reach(_, _)
Reach(S, n) == IF n = 0 THEN S ELSE Reach(S \cup { LinkOf(p) : p \in { q \in S : Exists(q) } }, n - 1)
Structures == { p \in Reach({First}, Slots + 1) : Exists(p) }

Places(i) == SelectSeq(out[i], LAMBDA r : r.at # 0)
PlaceSet(i) == { Places(i)[k].at : k \in 1..Len(Places(i)) }
Handles == 1..Len(hnd)

NothingInvented == \A i \in Handles : PlaceSet(i) \subseteq Structures
EachOnce == \A i \in Handles : Cardinality(PlaceSet(i)) = Len(Places(i))
Complete_ == \A i \in Handles : Ended(i) => PlaceSet(i) = Structures
InListOrder == \A i \in Handles : LET s == Places(i)
   IN /\ Len(s) > 0 => s[1].at = First
      /\ \A k \in 1..(Len(s) - 1) : s[k + 1].at = LinkOf(s[k].at)
(* an error that is not about a structure is about a link that leads nowhere; it is the last report *)
DanglingLink == \A i \in Handles : \A k \in 1..Len(out[i]) :
   (out[i][k].t = "err" /\ out[i][k].at = 0) =>
      /\ \A j \in (k + 1)..Len(out[i]) : out[i][j].t = "end"
      /\ LET p == IF k = 1 THEN First ELSE LinkOf(out[i][k - 1].at) IN p # 0 /\ ~Readable(p)
StaysEnded == \A i \in Handles : \A j, k \in 1..Len(out[i]) : (j < k /\ out[i][j].t = "end") => out[i][k].t = "end"
Bounded == \A i \in Handles : Len(out[i]) <= Slots + 3
Independent == Len(hnd) = 2 => \A k \in 1..Min(Len(out[1]), Len(out[2])) : out[1][k] = out[2][k]
Terminates == <>(\A i \in 1..Len(hnd) : Ended(i))

(* The walk is one of those WalkProof is about.                             *)
AllPlaces == { SlotAt(k) : k \in 1..(Slots + 1) }
RealPlaces == { p \in AllPlaces : Exists(p) }
Seq1 == LET s == Places(1) IN [k \in 1..Len(s) |-> s[k].at]
Here == IF Seq1 = << >> THEN First ELSE LinkOf(Seq1[Len(Seq1)])
W == INSTANCE WalkList WITH real <- RealPlaces, link <- [p \in RealPlaces |-> LinkOf(p)], first <- First,
                            pos <- Here, rep <- Seq1, done <- Len(Seq1) < Len(out[1])
Refines == W!Spec
(* and a handle that has not ended stands where its list goes on            *)
Stands == Len(Seq1) = Len(out[1]) => hnd[1].p = Here

Emitted == Complete /\ Emit => PrintT("REPLAY " \o ToJson([w |-> Kind, h |-> dev.h, d |-> dev.d, x |-> dev.x, ops |-> ops]))
=============================================================================
