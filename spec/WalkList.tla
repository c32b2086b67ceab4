------------------------------- MODULE WalkList -------------------------------
(***************************************************************************)
(* A walk over a list of any size: a set of real structures, a link from   *)
(* each of them, and the place where the list starts.  `WalkMC` checks     *)
(* that the walk specified in Decode.tla is such a walk whatever the bytes *)
(* (property Refines); `WalkProof` proves the guarantees for every list.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences

VARIABLES real, link, first, pos, rep, done
vars == << real, link, first, pos, rep, done >>
list == << real, link, first >>

Seen == { rep[k] : k \in 1..Len(rep) }

Init == /\ real \subseteq Nat /\ link \in [real -> Nat] /\ first \in Nat
        /\ pos = first /\ rep = << >> /\ done = FALSE
Report == /\ ~done /\ pos \in real /\ pos \notin Seen
          /\ rep' = Append(rep, pos) /\ pos' = link[pos]
          /\ UNCHANGED << list, done >>
(* nowhere to go, back at a structure already reported, or a link which    *)
(* leads nowhere                                                           *)
Stop == /\ (pos \notin real \/ pos \in Seen)
        /\ done' = TRUE /\ UNCHANGED << list, pos, rep >>
Next == Report \/ Stop
Spec == Init /\ [][Next]_vars

TypeOK == /\ real \subseteq Nat /\ link \in [real -> Nat] /\ first \in Nat
          /\ pos \in Nat /\ rep \in Seq(Nat) /\ done \in BOOLEAN
NothingInvented == \A k \in 1..Len(rep) : rep[k] \in real
EachOnce == \A j, k \in 1..Len(rep) : rep[j] = rep[k] => j = k
InListOrder == /\ Len(rep) > 0 => rep[1] = first
               /\ \A k \in 1..Len(rep) : k > 1 => rep[k] = link[rep[k - 1]]
AtTheEnd == pos = IF Len(rep) = 0 THEN first ELSE link[rep[Len(rep)]]
DoneMeans == done => (pos \notin real \/ pos \in Seen)
Inv == TypeOK /\ NothingInvented /\ EachOnce /\ InListOrder /\ AtTheEnd /\ DoneMeans

(* what can be reached: the smallest set with these closure properties     *)
Closed(S) == /\ first \in real => first \in S
             /\ \A p \in S \cap real : link[p] \in real => link[p] \in S
Least == \A S \in SUBSET real : Closed(S) => Seen \subseteq S
Complete == done => Closed(Seen)
=============================================================================
