------------------------------- MODULE IterMC -------------------------------
(***************************************************************************)
(* Model of the iterators over the contents of structures: every kind, on  *)
(* contents of a few elements (distinct ones, equal ones, a cut-off last   *)
(* one), asked through one handle and a duplicate made at any point, in    *)
(* every order.  The guarantees are stated on the sequences of reports.    *)
(* Every complete behaviour is printed for replay into the real code,      *)
(* where the handles are compared after each call as well.                 *)
(***************************************************************************)
EXTENDS Iters, FiniteSets, Json, IOUtils, TLC

Most == atoi(IOEnv.MOST)      \* elements
Emit == IOEnv.EMIT = "1"

RECURSIVE Rep(_,_)
Rep(s, k) == IF k = 0 THEN << >> ELSE s \o Rep(s, k - 1)
Mixed(k) == [i \in 1..k |-> (37 * i + 11) % 256]
Cut(n, es) == { SubSeq(Mixed(es * k + extra), 1, es * k + extra) : k \in 0..n, extra \in {0, es - 1} }
              \cup { Rep([i \in 1..es |-> IF i = 1 THEN 33 ELSE 0], k) : k \in 1..n }
With(bs, vs) == { << b, v >> : b \in bs, v \in vs }
(* an Enhanced Allocation entry: its size in double words, 64-bit base and offset *)
Entry(es, b64, o64) == << es, 0, 0, 128 >> \o << 0 + 2 * b64, 16, 32, 48 >> \o << 252 + 2 * o64, 255, 0, 0 >>
                       \o (IF b64 = 1 THEN << 1, 0, 0, 0 >> ELSE << >>) \o (IF o64 = 1 THEN << 2, 0, 0, 0 >> ELSE << >>)
EaSamples == { Entry(2, 0, 0), Entry(4, 1, 1), Entry(3, 1, 0) }
Ea == With({ << >> } \cup EaSamples \cup { a \o b : a \in EaSamples, b \in EaSamples }
           \cup (IF Most > 2 THEN { Entry(2, 0, 0) \o Entry(3, 0, 1) \o Entry(2, 0, 0) } ELSE {}), 0..Most)
      \cup With({ SubSeq(a \o b, 1, Len(a) + k) : a \in EaSamples, b \in {Entry(2, 0, 0)}, k \in {3, 11} }, {2})
Regs == { << 0, 0, 0, 0 >>, << 1, 224, 0, 0 >>, << 8, 0, 0, 128 >>, << 4, 0, 16, 255 >> }
Contents == [
  ea    |-> Ea,
  vat   |-> With(IF Most > 3 THEN { << >>, << 33 >>, << 33, 67 >>, << 17, 17 >> } ELSE { << >>, << 33 >>, << 17 >> }, {0}),
  pat   |-> With(Cut(Most, 1), {8}) \cup With({ << 33 >>, << 17 >> }, {4}) \cup (IF Most > 3 THEN With({ << 27 >> }, {2}) ELSE {}),
  fat   |-> With(Cut(Most, 1), {8}) \cup With({ << 33 >>, << 17 >> }, {4}) \cup (IF Most > 3 THEN With({ << 27 >> }, {2}) ELSE {}),
  ecv   |-> With({ << >>, << 5 >>, << 5, 1, 2, 3 >> }, 0..Most),
  pmux  |-> With(Cut(Most, 4), {0}),
  le    |-> With(Cut(Most, 16), 0..Most),
  evc   |-> With(Cut(Most, 12), 0..(Most - 1)),
  rebar |-> With({ b \in Cut(Most, 8) : Len(b) % 8 = 0 }, {0}),
  bar   |-> With({ a \o b : a \in Regs, b \in Regs }, {2}) \cup (IF Most > 2 THEN With({ a \o b \o c : a \in Regs, b \in Regs, c \in Regs }, {3}) ELSE {}) ]

VARIABLES it, hnd, out, ops
vars == << it, hnd, out, ops >>

Init == /\ \E n \in DOMAIN Contents : \E c \in Contents[n] : it = [n |-> n, b |-> c[1], v |-> c[2]]
        /\ hnd = << IterFresh(it.n, it.b, it.v, FALSE) >> /\ out = << << >> >> /\ ops = << >>

Ended(i) == Len(out[i]) > 0 /\ out[i][Len(out[i])].t = "end"
Twice(i) == Ended(i) /\ Len(out[i]) > 1 /\ out[i][Len(out[i]) - 1].t = "end"
Call(i) == /\ i <= Len(hnd) /\ ~Twice(i)
           /\ out' = [out EXCEPT ![i] = Append(@, IterStep(hnd[i]))]
           /\ hnd' = [hnd EXCEPT ![i] = IterNext(@)]
           /\ ops' = Append(ops, i) /\ UNCHANGED it
Duplicate == /\ Len(hnd) = 1 /\ ~Twice(1)
             /\ hnd' = << hnd[1], hnd[1] >> /\ out' = << out[1], out[1] >>
             /\ ops' = Append(ops, 0) /\ UNCHANGED it
Complete == \A i \in 1..Len(hnd) : Twice(i)
Next == (\E i \in 1..2 : Call(i)) \/ Duplicate
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(*------------------------------ guarantees --------------------------------*)
Handles == 1..Len(hnd)
Items(i) == SelectSeq(out[i], LAMBDA r : r.t = "item")
(* room for elements, by their least size in bits                          *)
Least == [ea |-> 96, vat |-> 4, pat |-> it.v, fat |-> it.v, ecv |-> 1, pmux |-> 32, le |-> 128, evc |-> 96, rebar |-> 64, bar |-> 32]
Room == \A i \in Handles : Len(Items(i)) * Least[it.n] <= 8 * (IF it.n = "ecv" THEN 4 * ((Len(it.b) + 3) \div 4) ELSE Len(it.b))
Promised == it.n \in {"ea", "ecv", "le"} => \A i \in Handles : Len(Items(i)) <= it.v
StaysEnded == \A i \in Handles : \A j, k \in 1..Len(out[i]) : (j < k /\ out[i][j].t = "end") => out[i][k].t = "end"
Independent == Len(hnd) = 2 => \A k \in 1..Min(Len(out[1]), Len(out[2])) : out[1][k] = out[2][k]
(* equality may hold only between handles that will report the same        *)
Compared == Len(hnd) = 2 => LET e == ItersEqual(hnd[1], hnd[2])
   IN /\ "true" \in e => IterLeft(hnd[1]) = IterLeft(hnd[2])
      /\ Len(out[1]) = Len(out[2]) => e = {"true"}
Terminates == <>(\A i \in 1..Len(hnd) : Ended(i))

Emitted == Complete /\ Emit => PrintT("REPLAY " \o ToJson([w |-> "it:" \o it.n, h |-> << it.v >>, d |-> it.b, x |-> << >>, ops |-> ops]))
=============================================================================
