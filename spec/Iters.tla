-------------------------------- MODULE Iters --------------------------------
(***************************************************************************)
(* The iterators a caller can make over bytes of its own, without a walk:  *)
(* the elements of each, and when two of them may compare equal.           *)
(* An iterator is given by its kind n, its bytes b, one argument v (a      *)
(* count, a width in bits) and rs (see EaEntry).  Its elements are         *)
(* sequences of << path, value >> pairs; what it yields after i calls is   *)
(* the rest from element i+1 on.                                           *)
(***************************************************************************)
EXTENDS Decode

One(s) == << << "", s >> >>
Groups(n, f(_)) == [k \in 1..n |-> f(k)]

RECURSIVE EaRest(_,_,_,_)
EaRest(b, o, left, rs) ==
  IF left = 0 THEN << >>
  ELSE LET e == EaEntry(b, o, rs)
       IN IF ~e.ok THEN << >> ELSE << e.f >> \o EaRest(b, e.next, left-1, rs)

IterElems(n, b, v, rs) ==
  CASE n = "ea" -> EaRest(b, 0, v, rs)
    [] n = "vat" -> Groups(2*Len(b), LAMBDA k : One(Str(Bits(b, 4*(k-1), 3))))
    [] n \in {"pat", "fat"} -> Groups((8*Len(b)) \div v, LAMBDA k : One(Str(Bits(b, v*(k-1), v))))
    \* dword by dword, bytes the last one lacks being 0
    [] n = "ecv" -> Groups(Min(v, 32*((Len(b)+3) \div 4)), LAMBDA k : One(IF k > 8*Len(b) THEN "false" ELSE Bl(b, k-1)))
    [] n = "lanes" -> Groups(Len(b) \div 2, LAMBDA k : Fields(b, 16*(k-1), "", LaneReg))
    [] n = "pmux" -> Groups(Len(b) \div 4, LAMBDA k : Fields(b, 32*(k-1), "", PmuxEntry))
    [] n = "le" -> Groups(Min(v, Len(b) \div 16), LAMBDA k : LinkEntry(b, 16*(k-1)))
    [] n = "evc" -> Groups(Min(v+1, Len(b) \div 12), LAMBDA k : Fields(b, 96*(k-1), "", VcRes))
    [] n = "rebar" -> Groups(Len(b) \div 8, LAMBDA k : Fields(b, 64*(k-1), "", RebarEntry))
    [] n = "bar" -> BarElems(b, v)

IterPairs(els) ==
  Kv("#", Str(Len(els)))
  \o CatN(Len(els), LAMBDA k : [i \in 1..Len(els[k]) |->
        << Str(k-1) \o (IF els[k][i][1] = "" THEN "" ELSE "." \o els[k][i][1]), els[k][i][2] >>])

Rest(els, i) == IF i >= Len(els) THEN << >> ELSE SubSeq(els, i+1, Len(els))

(* What an iterator shows besides its elements. *)
Shown(n, b, v) == IF n = "le" THEN Kv("state", LinkState(Len(b), v)) ELSE << >>

(* Two iterators that will yield different elements, or show different     *)
(* states, are not equal; an iterator is equal to its like.  (Reserved bits, or bytes already        *)
(* consumed, may set apart two that yield the same.)                       *)
MayEqual(e, rs) ==
  IF e.b = e.b2 /\ e.v = e.v2 /\ e.i = e.j THEN {"true"}
  ELSE IF Shown(e.n, e.b, e.v) # Shown(e.n, e.b2, e.v2) THEN {"false"}
  ELSE IF Rest(IterElems(e.n, e.b, e.v, rs), e.i) # Rest(IterElems(e.n, e.b2, e.v2, rs), e.j) THEN {"false"}
  ELSE {"true", "false"}

(* As a transition system: a handle is its elements, the number of those   *)
(* behind it, and the calls made since a moment (h, see Walker); handles   *)
(* share nothing.                                                          *)
IterFresh(n, b, v, rs) == [els |-> IterElems(n, b, v, rs), n |-> 0, h |-> << 0, 0 >>]
IterStep(s) == IF s.n < Len(s.els) THEN [t |-> "item", f |-> s.els[s.n + 1]] ELSE [t |-> "end", f |-> << >>]
IterNext(s) == [s EXCEPT !.n = @ + 1, !.h[2] = @ + 1]
IterSkip(s, k, moment) == [s EXCEPT !.n = @ + k, !.h = << moment, 0 >>]
IterLeft(s) == IF s.n < Len(s.els) THEN Len(s.els) - s.n ELSE 0
ItersEqual(s, u) == IF s.h = u.h THEN {"true"}
                    ELSE IF Rest(s.els, s.n) # Rest(u.els, u.n) THEN {"false"} ELSE {"true", "false"}

(* Two decoded structures (kind w, the same context) likewise.  Reserved   *)
(* bits of base address registers are not part of a region.                *)
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Meaning(r) == [r EXCEPT !.f = SelectSeq(r.f, LAMBDA p : ~Starts(p[1], "orig."))]
Meant(e, b, rs) == CASE e.w = "cap" -> CapBody(e.id, b, e.h, rs)
                     [] e.w = "ecap" -> EcapBody(e.id, b)
                     [] e.w = "hdr" -> DecodeHeader(b)
SameMeaning(e, rs) == Meaning(Meant(e, e.b, rs)) = Meaning(Meant(e, e.b2, rs))
=============================================================================
