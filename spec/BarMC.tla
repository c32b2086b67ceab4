-------------------------------- MODULE BarMC --------------------------------
(***************************************************************************)
(* Model of reading the base address registers one region at a time: every *)
(* combination of kinds of registers in every position (n registers, as in *)
(* a device, a bridge or a CardBus header).  regs[i] is a register's four  *)
(* bytes; r the index of the next register to look at; out the regions     *)
(* reported so far.                                                        *)
(* Every combination is printed for replay into the real code.             *)
(***************************************************************************)
EXTENDS Header, FiniteSets, Json, IOUtils

Deep == IOEnv.DEEP = "1"
Emit == IOEnv.EMIT = "1"
Layout == atoi(IOEnv.LAYOUT)
N0 == << 6, 2, 1 >>[Layout + 1]

Zero == << 0, 0, 0, 0 >>
Kinds == { Zero,
           << 225, 239, 0, 0 >>,              \* I/O
           << 8, 0, 0, 128 >>,                \* 32-bit, prefetchable
           << 4, 0, 16, 255 >>,               \* 64-bit
           << 6, 18, 52, 86 >> }              \* reserved type
   \cup (IF Deep THEN { << 2, 240, 15, 0 >>,  \* below 1M
                        << 12, 0, 0, 0 >>,    \* 64-bit, prefetchable, no address bits
                        << 255, 255, 255, 255 >> } ELSE {})

VARIABLES regs, r, out
vars == << regs, r, out >>
H == TLCEval([i \in 1..64 |-> IF i = 15 THEN Layout
                  ELSE IF i \in 17..(16 + 4*N0) THEN regs[((i - 17) \div 4) + 1][((i - 17) % 4) + 1] ELSE 0])

Init == regs \in [1..N0 -> Kinds] /\ r = 0 /\ out = << >>
Skip == r < N0 /\ BarZero(H, 16, r) /\ r' = r + 1 /\ UNCHANGED << regs, out >>
Yield == /\ r < N0 /\ ~BarZero(H, 16, r)
         /\ \E s \in {BarStep(H, 16, N0, r)} :
              r' = s.r /\ out' = Append(out, [region |-> r, next |-> s.r, tag |-> s.tag]) /\ UNCHANGED regs
Next == Skip \/ Yield
Spec == Init /\ [][Next]_vars

Done == r >= N0
Used == UNION { out[k].region..(out[k].next - 1) : k \in 1..Len(out) }
Ascending == \A k \in 1..(Len(out) - 1) : out[k].next <= out[k + 1].region
NeverPast == r <= N0
(* every register is either empty or part of exactly one region            *)
Covered == Done => \A i \in 0..(N0 - 1) : regs[i + 1] # Zero => i \in Used
(* a region starts at a register that holds something                      *)
Occupied == \A k \in 1..Len(out) : regs[out[k].region + 1] # Zero
(* two registers only for a 64-bit region                                  *)
Width == \A k \in 1..Len(out) : (out[k].next - out[k].region = 2) = (out[k].tag = "MemorySpace64")
(* the sequence BarList stands for is the sequence of these steps          *)
Agrees == Done => LET b == TLCEval(BarList(H, 16, N0, 0, 0)) IN b[Len(b)] = << "bars.#", Str(Len(out)) >>
(* collected back, the registers come out as they were, but for what the   *)
(* decoded form does not keep: the reserved bit of an I/O register and the *)
(* address of a 64-bit region without a second register                    *)
Back == Done => LET hh == H
                    bk == TLCEval(BarBack(hh, 16, N0, 0))
   IN /\ Len(bk) = N0
      /\ \A k \in 1..N0 : bk[k] = << "enc." \o Str(k - 1), U(hh, 8*(16 + 4*(k-1)), 32) >>
           \/ \E j \in 1..Len(out) : out[j].region = k - 1 /\ (out[j].tag = "MemorySpace64Broken" \/
                                       (out[j].tag = "IoSpace" /\ IsSet(regs[k], 1)))
Emitted == Done /\ Emit => PrintT("REPLAY " \o ToJson([w |-> "hdr", h |-> H, d |-> << >>, x |-> << >>, ops |-> << 1 >>]))
=============================================================================
