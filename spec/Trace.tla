-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validates operations recorded from the real code against the            *)
(* specification.  Each line of the log is one call with its observed      *)
(* result; it is accepted iff it is the transition the specification takes *)
(* from the current state.                                                 *)
(*   k = "dev"    the device the following lines are about                 *)
(*   k = "hdr"    the header region was decoded                            *)
(*   k = "opt"    a CardBus header was given its optional registers        *)
(*   k = "open"   a walk (w = "cap" / "ecap") was started as handle 1      *)
(*   k = "clone"  handle 1 was duplicated as handle 2                      *)
(*   k = "cap"/"ecap"  handle i was asked for the next structure           *)
(*   k = "iopen"  an iterator over bytes was made as handle 1, w = "nx"    *)
(*   k = "nx"     handle i of that iterator was asked for the next element *)
(*   k = "pass"   the next call on handle i skips n reports                *)
(*   k = "count"  what is left in handle i was counted, and asked for in    *)
(*                other ways: the last, the n-th, every third              *)
(*   k = "same"   handles 1 and 2 were compared                            *)
(*   others: functions of their arguments alone, see Conv                  *)
(* A line that is not accepted is printed, counted in bad, and the rest of *)
(* that device is skipped so that what follows is still checked.           *)
(*                                                                         *)
(* SCOPE selects which aspect of the observations is judged, so that a log *)
(* can be checked against one property: what another property is about     *)
(* (say, where the walk goes when a structure's contents are judged) makes *)
(* the rest of the device "lost" instead of "bad".                         *)
(***************************************************************************)
EXTENDS Conv, Json, IOUtils, FiniteSets

Log == ndJsonDeserialize(IOEnv.TRACE)
RealSize == IOEnv.EA_REAL = "1"
Scope == IOEnv.SCOPE

VARIABLES l, dv, hnd, skip, bad, lost, judged
vars == << l, dv, hnd, skip, bad, lost, judged >>

NoHandles == [cap |-> << >>, ecap |-> << >>, nx |-> << >>]
Dev == Log[dv]

(*------------------------------ aspects of values -------------------------*)
Pfx(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Sfx(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
RawPaths == {"fn_type_byte", "fn_type_value", "fn_pin_byte", "fn_bist_byte", "fn_rom", "fn_rom64", "fn_io_0", "fn_io_1", "fn_raw", "fn_type",
  "fn_snoop_raw", "fn_no_snoop_raw", "fn_raw_cap", "fn_raw_ctl1", "fn_raw_ctl2", "back", "raw"}
Aspect(path) ==
  CASE path \in RawPaths \/ Pfx(path, "enc.") \/ Sfx(path, ".raw") -> "raw"
    [] OTHER ->
       CASE Pfx(path, "bars.") \/ Pfx(path, "orig.") -> "bars"
         [] path \in {"subsystem_vendor_id", "subsystem_device_id", "legacy_mode_base_address", "reserved", "again", "rest"} \/ Pfx(path, "reserved.") -> "windows"
         [] Pfx(path, "header_type.io_a") \/ Pfx(path, "header_type.prefetchable") \/ Pfx(path, "header_type.memory_") -> "windows"
         [] \/ Pfx(path, "fn_") /\ ~\E q \in {"fn_evc", "fn_le.", "fn_entries", "fn_lanes", "fn_array", "fn_vat", "fn_ecv"} : Pfx(path, q)
            \/ Sfx(path, "sizes") -> "derived"
         [] OTHER -> "field"
Whole == Scope \in {"all", "data"}
Judged(path) ==
  CASE Whole -> TRUE
    [] Scope \in {"walk", "errors", "total", "iter"} -> FALSE
    [] Scope = "header" -> Aspect(path) \in {"field", "derived"}
    [] OTHER -> Aspect(path) = Scope

(* the expected pairs that were not observed *)
Wrong(pairs, f) ==
  LET D == DOMAIN f
  IN { i \in 1..Len(pairs) : /\ ~(pairs[i][1] \in D /\ f[pairs[i][1]] = pairs[i][2])
                            /\ (Judged(pairs[i][1]) \/ (Scope = "errors" /\ Pfx(pairs[i][2], "error "))) }
(* a nested iterator, if there is one, is well behaved *)
IterOk(f) == (Whole \/ Scope = "iter") /\ "iter" \in DOMAIN f => f["iter"] = "ok"
Detail(pairs, f, w) ==
  IF w = {} THEN [path |-> "iter", expected |-> "ok", observed |-> f["iter"], wrong |-> 1]
  ELSE LET i == CHOOSE i \in w : \A j \in w : i <= j
       IN [path |-> pairs[i][1], expected |-> pairs[i][2],
           observed |-> IF pairs[i][1] \in DOMAIN f THEN f[pairs[i][1]] ELSE "(absent)",
           wrong |-> Cardinality(w)]

Crash(e) == e.t \in {"panic", "endless"}
V(verdict, why) == [v |-> verdict, why |-> why]
OkV == V("ok", [path |-> ""])
General(e, exp) == [path |-> "", expected |-> exp, observed |-> e.t \o " " \o e.e, wrong |-> 1]

(* Observation e against an expected outcome r = Ok(pairs) / Err(text).    *)
Verdict(e, r) ==
  IF Scope = "total" THEN IF Crash(e) THEN V("bad", General(e, "a result")) ELSE OkV
  ELSE IF r.ok /\ e.t = "item"
       THEN LET w == Wrong(r.f, e.f)
            IN IF w = {} /\ IterOk(e.f) THEN OkV ELSE V("bad", Detail(r.f, e.f, w))
  ELSE IF ~r.ok /\ e.t = "err" /\ (Scope \in {"all", "errors"} => e.e = r.e) THEN OkV
  ELSE IF Scope \in {"raw", "derived", "iter"} /\ ~Crash(e) THEN V("lost", General(e, ""))
  ELSE V("bad", General(e, IF r.ok THEN "item" ELSE "err " \o r.e))

(* Observation e of a walk against the step s the specification takes.     *)
Place(w, at) == "[" \o (IF w = "cap" THEN Hex2(at) ELSE Hex3(at)) \o "] "
StepText(s) == CASE s.t = "end" -> "end" [] s.t = "err" -> "err " \o s.e
                 [] OTHER -> "item " \o s.kind \o " at " \o ToString(s.at)
SeenText(e) == e.t \o " " \o e.kind \o " at " \o ToString(e.at) \o " " \o e.e
WhyStep(e, s) == [path |-> "", observed |-> SeenText(e), expected |-> StepText(s), wrong |-> 1]
(* the structure of s was reported, whatever is said of its contents *)
SamePlace(e, s) ==
  /\ e.t = s.t \/ (Scope = "walk" /\ s.at # 0 /\ e.t \in {"item", "err"})
  /\ e.t = "item" => /\ e.at = s.at
                     /\ s.t = "item" => /\ e.kind = s.kind
                                        /\ e.k = "ecap" => e.id = s.id /\ e.version = s.version
  /\ e.t = "err" => IF s.at = 0 \/ Scope \in {"errors", "all", "data"} THEN e.e = s.e ELSE Pfx(e.e, Place(e.k, s.at))
(* e is about the structure that s is about *)
About(e, s) == /\ s.at # 0
               /\ \/ Crash(e)
                  \/ e.t = "item" /\ e.at = s.at
                  \/ e.t = "err" /\ Pfx(e.e, Place(e.k, s.at))
StepVerdict(e, s) ==
  IF SamePlace(e, s)
  THEN IF e.t # "item" \/ s.t # "item" THEN OkV
       ELSE LET w == Wrong(s.f, e.f)
            IN IF w = {} /\ IterOk(e.f) THEN OkV
               ELSE V("bad", [Detail(s.f, e.f, w) EXCEPT !.observed = @ \o " (" \o s.kind \o " at " \o ToString(s.at) \o ")"])
  ELSE CASE Scope \in {"all", "walk", "errors"} -> V("bad", WhyStep(e, s))
         [] Scope = "data" -> V(IF About(e, s) THEN "bad" ELSE "lost", WhyStep(e, s))
         [] OTHER -> V(IF Crash(e) /\ About(e, s) THEN "bad" ELSE "lost", WhyStep(e, s))

(*------------------------------- transitions ------------------------------*)
Report(why) == PrintT("MISMATCH " \o ToJson([line |-> l, dev |-> dv, k |-> Log[l].k, why |-> why]))

Init == l = 1 /\ dv = 0 /\ hnd = NoHandles /\ skip = FALSE /\ bad = 0 /\ lost = 0 /\ judged = 0

Move == l' = l + 1
Quiet == UNCHANGED << skip, bad, lost, judged >>
Take(v) ==     \* the verdict's effect on the counters
  /\ Move
  /\ judged' = judged + 1
  /\ CASE v.v = "ok" -> UNCHANGED << skip, bad, lost >>
       [] v.v = "bad" -> Report(v.why) /\ skip' = TRUE /\ bad' = bad + 1 /\ lost' = lost
       [] OTHER -> skip' = TRUE /\ bad' = bad /\ lost' = lost + 1

DevLine(e) == Move /\ dv' = l /\ hnd' = NoHandles /\ skip' = FALSE /\ UNCHANGED << bad, lost, judged >>
SkipLine(e) == Move /\ Quiet /\ UNCHANGED << dv, hnd >>
(* (\E over a singleton: TLC evaluates the outcome once.)                 *)
PureLine(e, outcome) == \E v \in {Verdict(e, outcome)} : Take(v) /\ UNCHANGED << dv, hnd >>
OpenLine(e) == Move /\ Quiet /\ dv' = dv /\ hnd' = [hnd EXCEPT ![e.w] = << FreshAt(e.w, Dev, e.p) >>]
CloneLine(e) == Move /\ Quiet /\ dv' = dv /\ hnd' = [hnd EXCEPT ![e.w] = << @[1], @[1] >>]
WalkLine(e) ==
  \E s \in {hnd[e.k][e.i]} : \E r \in {Step(e.k, Dev, RealSize, s)} : \E v \in {StepVerdict(e, r)} :
     Take(v) /\ dv' = dv /\ hnd' = [hnd EXCEPT ![e.k][e.i] = Advance(s, r)]
TotalLine(e) ==
  \E v \in {IF Crash(e) THEN V("bad", General(e, "a result")) ELSE OkV} : Take(v) /\ UNCHANGED << dv, hnd >>

(* calls on an iterator over bytes                                         *)
IopenLine(e) == /\ Move /\ dv' = l /\ skip' = FALSE /\ UNCHANGED << bad, lost, judged >>
                /\ \E s \in {IterFresh(e.n, e.b, e.v, RealSize)} : hnd' = [NoHandles EXCEPT !.nx = << s >>]
Named(f) == [k \in 1..Len(f) |-> IF f[k][1] = "" THEN << "$", f[k][2] >> ELSE f[k]]
IterVerdict(e, r0) ==
  LET r == [r0 EXCEPT !.f = Named(@)] IN
  IF e.t = r.t THEN IF \A k \in 1..Len(r.f) : r.f[k][1] \in DOMAIN e.f /\ e.f[r.f[k][1]] = r.f[k][2] THEN OkV
                    ELSE V("bad", Detail(r.f, e.f, {k \in 1..Len(r.f) : ~(r.f[k][1] \in DOMAIN e.f /\ e.f[r.f[k][1]] = r.f[k][2])}))
  ELSE V("bad", General(e, r.t))
ItLine(e) ==
  \E s \in {hnd.nx[e.i]} :
     /\ \E v \in {IF Scope = "total" THEN IF Crash(e) THEN V("bad", General(e, "a result")) ELSE OkV
                   ELSE IF Scope = "eq" THEN OkV ELSE IterVerdict(e, IterStep(s))} : Take(v)
     /\ dv' = dv /\ hnd' = [hnd EXCEPT !.nx[e.i] = IterNext(s)]
PassLine(e) ==
  /\ Move /\ Quiet /\ dv' = dv
  /\ hnd' = [hnd EXCEPT ![e.w][e.i] = IF e.w = "nx" THEN IterSkip(@, e.n, l) ELSE Skip(e.w, Dev, RealSize, @, e.n, l)]
(* what two handles and the rest of one are like                           *)
Aside(e, judge, expected) ==
  \E v \in {IF Crash(e) THEN V("bad", General(e, "a result")) ELSE IF ~judge THEN OkV
            ELSE LET x == expected
                     w == {k \in 1..Len(x) : ~(x[k][1] \in DOMAIN e.f /\ e.f[x[k][1]] = x[k][2])}
                 IN IF w = {} THEN OkV ELSE V("bad", Detail(x, e.f, w))} :
     Take(v) /\ UNCHANGED << dv, hnd >>
CountLine(e) ==
  Aside(e, Scope \in {"all", "walk", "iter"},
        Kv("count", Str(IF e.w = "nx" THEN IterLeft(hnd.nx[e.i]) ELSE Len(Reports(e.w, Dev, RealSize, hnd[e.w][e.i])))) \o Kv("hint", "true") \o Kv("ways", "same"))
SameLine(e) ==
  Aside(e, Scope \in {"all", "eq"},
        OnlyEq(IF e.w = "nx" THEN ItersEqual(hnd.nx[1], hnd.nx[2]) ELSE WalksEqual(e.w, Dev, hnd[e.w][1], Dev, hnd[e.w][2], RealSize)).f
        \o Kv("symmetric", "true"))

Line(e) ==
  CASE e.k = "dev" -> DevLine(e)
    [] e.k # "dev" /\ skip /\ e.k \in {"hdr", "opt", "open", "clone", "cap", "ecap", "nx", "pass", "count", "same"} -> SkipLine(e)
    [] e.k = "iopen" -> IopenLine(e)
    [] e.k = "nx" /\ ~skip -> ItLine(e)
    [] e.k = "pass" /\ ~skip -> PassLine(e)
    [] e.k = "count" /\ ~skip -> CountLine(e)
    [] e.k = "same" /\ ~skip -> SameLine(e)
    [] e.k = "hdr" /\ ~skip -> PureLine(e, DecodeHeader(Dev.h))
    [] e.k = "opt" /\ ~skip -> PureLine(e, CardbusOptional(Dev.d))
    [] e.k = "open" /\ ~skip -> OpenLine(e)
    [] e.k = "clone" /\ ~skip -> CloneLine(e)
    [] e.k \in {"cap", "ecap"} /\ ~skip -> IF Scope = "total" THEN TotalLine(e) ELSE WalkLine(e)
    [] OTHER -> PureLine(e, Pure(e, RealSize))
Next ==
  /\ l <= Len(Log)
  /\ \E e \in {Log[l]} : Line(e)
  /\ TLCSet(1, bad') /\ TLCSet(2, lost') /\ TLCSet(3, judged')

Spec == Init /\ [][Next]_vars

(* Consumed to the end, and nothing unexplained.                           *)
Done == PrintT("DONE " \o ToJson([lines |-> Len(Log), diameter |-> TLCGet("stats").diameter,
                                  bad |-> TLCGet(1), lost |-> TLCGet(2), judged |-> TLCGet(3)]))
Conforms == Done /\ TLCGet("stats").diameter - 1 = Len(Log) /\ TLCGet(1) = 0
=============================================================================
