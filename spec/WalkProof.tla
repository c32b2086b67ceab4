------------------------------ MODULE WalkProof ------------------------------
(* The guarantees of a walk, for lists of any size; checked with tlapm.     *)
EXTENDS WalkList, FiniteSets, FiniteSetTheorems, NaturalsInduction, TLAPS

LEMMA Initially == Init => Inv
  BY DEF Init, Inv, TypeOK, NothingInvented, EachOnce, InListOrder, AtTheEnd, DoneMeans, Seen

LEMMA Inductive == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1> USE DEF Inv
<1>1. CASE Report
  <2> DEFINE n == Len(rep)
  <2>0. /\ n \in Nat /\ rep' \in Seq(Nat) /\ Len(rep') = n + 1 /\ rep'[n + 1] = pos
        /\ \A k \in 1..n : rep'[k] = rep[k]
    BY <1>1 DEF Report, TypeOK
  <2>1. TypeOK'
    BY <1>1, <2>0 DEF Report, TypeOK, list
  <2>2. NothingInvented'
    BY <1>1, <2>0 DEF Report, NothingInvented, list
  <2>3. EachOnce'
    <3>1. \A k \in 1..n : rep[k] # pos
      BY <1>1 DEF Report, Seen
    <3> QED BY <2>0, <3>1 DEF EachOnce
  <2>4. InListOrder'
    <3>1. n = 0 => rep'[1] = first
      BY <1>1, <2>0 DEF AtTheEnd, Report
    <3>2. n > 0 => rep'[1] = first
      BY <2>0 DEF InListOrder
    <3>3. n > 0 => rep'[n + 1] = link[rep'[n]]
      BY <1>1, <2>0 DEF AtTheEnd, Report
    <3>4. \A k \in 1..n : k > 1 => rep'[k] = link[rep'[k - 1]]
      BY <2>0 DEF InListOrder
    <3> QED BY <1>1, <2>0, <3>1, <3>2, <3>3, <3>4 DEF InListOrder, Report, list
  <2>5. AtTheEnd'
    BY <1>1, <2>0 DEF AtTheEnd, Report, list
  <2>6. DoneMeans'
    BY <1>1 DEF DoneMeans, Report
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6
<1>2. CASE Stop
  BY <1>2 DEF Stop, TypeOK, NothingInvented, EachOnce, InListOrder, AtTheEnd, DoneMeans, Seen, list
<1>3. CASE UNCHANGED vars
  BY <1>3 DEF vars, TypeOK, NothingInvented, EachOnce, InListOrder, AtTheEnd, DoneMeans, Seen
<1> QED BY <1>1, <1>2, <1>3 DEF Next

THEOREM Safety == Spec => []Inv
  BY Initially, Inductive, PTL DEF Spec

(* Everything reachable is reported by the time the walk is done, ...      *)
THEOREM Completeness == Inv => Complete
<1> SUFFICES ASSUME Inv, done PROVE Closed(Seen)
  BY DEF Complete
<1> USE DEF Inv
<1>0. Len(rep) \in Nat /\ \A k \in 1..Len(rep) : rep[k] \in Nat
  BY DEF TypeOK
<1>1. first \in real => first \in Seen
  <2>1. CASE Len(rep) = 0
    BY <2>1 DEF AtTheEnd, DoneMeans
  <2>2. CASE Len(rep) > 0
    BY <1>0, <2>2 DEF InListOrder, Seen
  <2> QED BY <1>0, <2>1, <2>2
<1>2. ASSUME NEW k \in 1..Len(rep), link[rep[k]] \in real PROVE link[rep[k]] \in Seen
  <2>1. CASE k = Len(rep)
    BY <1>0, <1>2, <2>1 DEF AtTheEnd, DoneMeans
  <2>2. CASE k < Len(rep)
    <3>1. k + 1 \in 1..Len(rep) /\ k + 1 > 1 /\ (k + 1) - 1 = k
      BY <1>0, <2>2
    <3>2. rep[k + 1] = link[rep[k]]
      BY <3>1 DEF InListOrder
    <3> QED BY <3>1, <3>2 DEF Seen
  <2> QED BY <1>0, <2>1, <2>2
<1> QED BY <1>1, <1>2 DEF Closed, Seen

(* ... and nothing else ever is.                                           *)
THEOREM Soundness == Inv => Least
<1> SUFFICES ASSUME Inv, NEW S \in SUBSET real, Closed(S) PROVE Seen \subseteq S
  BY DEF Least
<1> USE DEF Inv
<1> DEFINE P(k) == k \in 1..Len(rep) => rep[k] \in S
<1>0. Len(rep) \in Nat
  BY DEF TypeOK
<1>1. P(0)
  OBVIOUS
<1>2. ASSUME NEW k \in Nat, P(k) PROVE P(k + 1)
  <2> SUFFICES ASSUME k + 1 \in 1..Len(rep) PROVE rep[k + 1] \in S
    OBVIOUS
  <2>1. CASE k = 0
    BY <1>0, <2>1 DEF InListOrder, NothingInvented, Closed
  <2>2. CASE k > 0
    <3>1. k \in 1..Len(rep) /\ k + 1 > 1 /\ (k + 1) - 1 = k
      BY <1>0, <2>2
    <3>2. rep[k + 1] = link[rep[k]] /\ rep[k] \in S /\ rep[k] \in real /\ rep[k + 1] \in real
      BY <1>2, <3>1 DEF InListOrder, NothingInvented
    <3> QED BY <3>2 DEF Closed
  <2> QED BY <1>0, <2>1, <2>2
<1>3. \A k \in Nat : P(k)
  <2> HIDE DEF P
  <2> QED BY <1>1, <1>2, NatInduction
<1> QED BY <1>0, <1>3 DEF Seen

(* A walk over finitely many structures reports no more than there are;    *)
(* and each call which is not the last reports one.                        *)
THEOREM Bounded == Inv /\ IsFiniteSet(real) => Len(rep) <= Cardinality(real)
<1> SUFFICES ASSUME Inv, IsFiniteSet(real) PROVE Len(rep) <= Cardinality(real)
  OBVIOUS
<1> USE DEF Inv
<1> DEFINE n == Len(rep)
           f == [k \in 1..n |-> rep[k]]
<1>0. n \in Nat
  BY DEF TypeOK
<1>1. f \in Injection(1..n, real)
  BY <1>0 DEF Injection, IsInjective, EachOnce, NothingInvented
<1>2. Cardinality(1..n) <= Cardinality(real)
  <2> HIDE DEF f
  <2> QED BY <1>1, FS_Injection
<1>3. Cardinality(1..n) = n
  BY <1>0, FS_Interval
<1> QED BY <1>2, <1>3

THEOREM Progress == Inv /\ ~done => (ENABLED Report \/ ENABLED Stop)
  BY ExpandENABLED DEF Report, Stop, list
=============================================================================
