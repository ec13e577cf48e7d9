------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Where the objects of one coroutine lie in the stack it was given.       *)
(*                                                                         *)
(* The stack is the interval [base, top) of addresses (relative to an      *)
(* address that is a multiple of every alignment).  Nothing is known about *)
(* base and top.  objs is the set of things that were placed: [n, lo, hi,  *)
(* al] - name, interval [lo, hi), alignment of the type; sp is the highest *)
(* address that the frames of the coroutine-function may use.              *)
(*                                                                         *)
(* Requirements (Fits): everything lies inside the stack, is aligned, and  *)
(* nothing overlaps; the part of the stack that the function cannot use is *)
(* bounded by the sizes and alignments of what was placed, whatever the    *)
(* stack's size.                                                           *)
(*                                                                         *)
(* Design: the procedure of create_control_block.ipp (control block) and   *)
(* of Boost.Context (record with function object and allocator) as steps;  *)
(* TLC checks that it meets the requirements for all geometries within the *)
(* bounds.  LayoutTrace.tla checks placements observed in the real library *)
(* against the same requirements.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Inside(o, base, top) == base <= o.lo /\ o.lo < o.hi /\ o.hi <= top
Aligned(o) == o.lo % o.al = 0
Disjoint(S) == \A a, b \in S : a.n # b.n => a.hi <= b.lo \/ b.hi <= a.lo

RECURSIVE Need(_)
Need(S) == IF S = {} THEN 0
           ELSE LET o == CHOOSE o \in S : TRUE IN (o.hi - o.lo) + o.al + Need(S \ {o})
\* what the function cannot use: a constant, plus the objects and twice their alignment
Overhead(S) == 2048 + 4 * Need(S)

Fits(S, base, top, sp) ==
    /\ \A o \in S : Inside(o, base, top) /\ Aligned(o)
    /\ Disjoint(S)
    /\ base <= sp /\ sp <= top
    /\ top - sp <= Overhead(S)

-----------------------------------------------------------------------------
CONSTANTS
    Bases,      \* base addresses
    Sizes,      \* stack sizes
    CbSizes, CbAligns, RecSizes, RecAligns

VARIABLES base, top, cs, ca, rs, ra, objs, sp, pc
vars == <<base, top, cs, ca, rs, ra, objs, sp, pc>>

RoundUp(x, a) == ((x + a - 1) \div a) * a
RoundDown(x, a) == (x \div a) * a
Max(a, b) == IF a > b THEN a ELSE b

Init ==
    /\ base \in Bases
    /\ top \in { base + s : s \in Sizes }
    /\ ca \in CbAligns /\ cs \in { s \in CbSizes : s % ca = 0 }
    /\ ra \in RecAligns /\ rs \in { s \in RecSizes : s % ra = 0 }
    /\ objs = {} /\ sp = top /\ pc = "cb"

\* control block: reserved below the upper end, then moved up to the alignment
PlaceCb ==
    /\ pc = "cb"
    /\ LET al == Max(ca, 64)
           p  == RoundUp(top - cs - al, al)
       IN /\ objs' = {[n |-> "cb", lo |-> p, hi |-> p + cs, al |-> ca]}
          /\ sp' = p
    /\ pc' = "rec"
    /\ UNCHANGED <<base, top, cs, ca, rs, ra>>

\* record of the execution context: function object and stack allocator
PlaceRec ==
    /\ pc = "rec"
    /\ LET p == RoundDown(sp - rs, 256)
       IN /\ objs' = objs \cup {[n |-> "rec", lo |-> p, hi |-> p + rs, al |-> ra]}
          /\ sp' = RoundDown(p - 64, 16)
    /\ pc' = "done"
    /\ UNCHANGED <<base, top, cs, ca, rs, ra>>

Next == PlaceCb \/ PlaceRec
Spec == Init /\ [][Next]_vars

Placed == pc = "done" => Fits(objs, base, top, sp)
PartlyPlaced == \A o \in objs : Inside(o, base, top) /\ Aligned(o)
=============================================================================
