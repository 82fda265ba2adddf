-------------------------------- MODULE Time --------------------------------
(***************************************************************************)
(* Proleptic-Gregorian times with 32-bit integers.                         *)
(*   duration  <<days, secs>>  with 0 <= secs < 86400 (days may be < 0)    *)
(*   wall time <<day,  secs>>  day 1 = 0001-01-01                          *)
(*   date-time [w |-> wall time, f |-> fold, z |-> zone]                   *)
(* A zone is a string: "" is floating, everything else names an entry of   *)
(* Zones, a record  [id |-> <<o0, <<u1, o1>>, <<u2, o2>>, ...>>]           *)
(* giving the initial offset and then pairs (instant, offset) in order.    *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT Zones

DAY == 86400
HalfDay == 172800    \* replaces DAY where a unit is half a second
Zero == <<0, 0>>
OneDay == <<1, 0>>

Norm(d, s) == <<d + (s \div DAY), s % DAY>>
TAdd(a, b) == Norm(a[1] + b[1], a[2] + b[2])
TSub(a, b) == Norm(a[1] - b[1], a[2] - b[2])
TNeg(a) == TSub(Zero, a)
Secs(n) == Norm(0, n)

TLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
TLe(a, b) == a = b \/ TLt(a, b)
TMax(a, b) == IF TLt(a, b) THEN b ELSE a

(***************************************************************************)
(* Offsets.  Seg(z, k) is the k-th period of constant offset of a zone.    *)
(***************************************************************************)
NSeg(z) == Len(Zones[z])
SegOff(z, k) == IF k = 1 THEN Zones[z][1] ELSE Zones[z][k][2]
SegStarts(z, k, u) == k = 1 \/ TLe(Zones[z][k][1], u)
SegOf(z, u) ==          \* period containing the instant u
    CHOOSE k \in 1..NSeg(z) :
        /\ SegStarts(z, k, u)
        /\ k = NSeg(z) \/ ~SegStarts(z, k + 1, u)

OffAt(z, u) == SegOff(z, SegOf(z, u))

(* periods in which the wall time w occurs, in order: none (skipped), one, *)
(* or two (repeated)                                                       *)
SegsOfWall(z, w) ==
    LET is == {k \in 1..NSeg(z) : SegOf(z, TSub(w, Secs(SegOff(z, k)))) = k}
    IN  is

Skipped(z, w) == SegsOfWall(z, w) = {}
Repeated(z, w) ==
    \E i, j \in SegsOfWall(z, w) : i # j

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

WallSeg(z, w, f) ==
    LET is == SegsOfWall(z, w)
    IN  IF f = 0 THEN MinOf(is) ELSE MaxOf(is)

OffWall(z, w, f) ==
    IF NSeg(z) = 1 THEN SegOff(z, 1) ELSE SegOff(z, WallSeg(z, w, f))

(* the instant (as UTC wall time) of a zoned date-time; a floating one is  *)
(* interpreted in the zone `local`                                         *)
InstantIn(dt, local) ==
    LET z == IF dt.z = "" THEN local ELSE dt.z
    IN  TSub(dt.w, Secs(OffWall(z, dt.w, dt.f)))
Instant(dt) == InstantIn(dt, "UTC")

(* express an instant in a zone *)
FoldAt(z, u) ==
    IF NSeg(z) = 1 THEN 0
    ELSE LET w == TAdd(u, Secs(OffAt(z, u)))
             is == SegsOfWall(z, w)
         IN IF SegOf(z, u) = MinOf(is) THEN 0 ELSE 1
InZone(u, z) == [w |-> TAdd(u, Secs(OffAt(z, u))), f |-> FoldAt(z, u), z |-> z]

DT(d, s, z) == [w |-> <<d, s>>, f |-> 0, z |-> z]

(***************************************************************************)
(* Date-time arithmetic as users of datetime know it: adding a duration is *)
(* wall-clock arithmetic; two values of the same zone (or both floating)   *)
(* are compared and subtracted by wall clock, others by instant.           *)
(***************************************************************************)
DTPlus(dt, du) == [w |-> TAdd(dt.w, du), f |-> 0, z |-> dt.z]
DTMinus(a, b) == IF a.z = b.z THEN TSub(a.w, b.w)
                 ELSE TSub(Instant(a), Instant(b))
DTLt(a, b) == IF a.z = b.z THEN TLt(a.w, b.w) ELSE TLt(Instant(a), Instant(b))
DTLe(a, b) == ~DTLt(b, a)
DTSame(a, b) == ~DTLt(a, b) /\ ~DTLt(b, a)

Midnight(dt) == dt.w[2] = 0
Floor(dt) == [w |-> <<dt.w[1], 0>>, f |-> 0, z |-> dt.z]
Ceil(dt) == IF Midnight(dt) THEN [dt EXCEPT !.f = 0]
            ELSE [w |-> <<dt.w[1] + 1, 0>>, f |-> 0, z |-> dt.z]
Float(dt) == [dt EXCEPT !.z = ""]
=============================================================================
