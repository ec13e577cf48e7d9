---------------------------- MODULE ControlBlock -----------------------------
(* The algorithm of the control blocks (detail/p{ull,ush}_control_block_cc),  *)
(* run in lock step with the behaviour that Coroutine2 specifies.             *)
(*                                                                            *)
(* A coroutine k has two control blocks: the one its handle points to (im[k], *)
(* on k's stack below the frames) and the synthesized one of the handle that  *)
(* the coroutine-function gets (sy[k]). Each holds one fiber, which is empty  *)
(* (-1) or refers to a suspended context. Resuming a fiber empties it,        *)
(* suspends the running context and continues the one it referred to; what    *)
(* that one finds is a fiber that refers to the context just suspended.       *)
(*                                                                            *)
(* Everything here is computed from the control blocks alone. The invariants  *)
(* say that it agrees with the specification: the same context runs, the same *)
(* calls throw, handles are valid at the same time, stacks are released at    *)
(* the same time, and no suspended context is ever referred to twice or lost. *)
EXTENDS Coroutine2

CONSTANT Variant    \* 0: as implemented; others are wrong (to see that the invariants notice)

VARIABLE I
ivars == <<vars, I>>
iview == <<view, I>>

NoIm == [made |-> FALSE, c |-> -1, other |-> FALSE, complete |-> FALSE, exc |-> 0, bv |-> FALSE, val |-> 0]
NoSy == [made |-> FALSE, c |-> -1, bv |-> FALSE, val |-> 0]
NoRt == <<"no", 0>>

\* rt[c]: in which resumption context c is suspended, i.e. where the fiber it finds is stored:
\*   entry: not yet in the lambda;  gate: the lambda of a push-coroutine, before the function is called;
\*   im: handle's control block;  sy: synthesized one;  end: behind the function;  unw: in the destructor of a fiber
\* back[k]: where to go when k has been unwound
IInit == I = [run |-> 0, im |-> [k \in Co |-> NoIm], sy |-> [k \in Co |-> NoSy],
              rt |-> [c \in Ctx |-> NoRt], back |-> [k \in Co |-> -1],
              th |-> [c \in Ctx |-> 0], stack |-> [k \in Co |-> FALSE]]

Kill(J, k) == [J EXCEPT !.im[k] = NoIm, !.sy[k] = NoSy, !.rt[k] = NoRt, !.back[k] = -1, !.stack[k] = FALSE]

\* context f is suspended, control arrives in t
Arrive(J, f, t) ==
    LET r == J.rt[t][1]  j == J.rt[t][2]
        K == [J EXCEPT !.run = t, !.rt[t] = NoRt] IN
    CASE r = "entry" -> [K EXCEPT !.sy[t] = [NoSy EXCEPT !.made = TRUE, !.c = f], !.im[t].other = TRUE]
      [] r = "gate"  -> [K EXCEPT !.sy[t].c = f]
      [] r = "sy"    -> [K EXCEPT !.sy[t].c = f]
      [] r = "im"    -> [K EXCEPT !.im[j].c = f, !.th[t] = IF Variant = 1 THEN 0 ELSE J.im[j].exc]
      [] OTHER       -> [K EXCEPT !.run = -2]         \* nobody waits there

\* c resumes the fiber of k's control block / k resumes the fiber of its synthesized one
JumpIm(J, c, k) == LET t == J.im[k].c IN
    IF t = -1 THEN [J EXCEPT !.run = -2]
    ELSE Arrive([J EXCEPT !.im[k].c = -1, !.rt[c] = <<"im", k>>], c, t)
JumpSy(J, k, how) == LET t == J.sy[k].c IN
    IF t = -1 THEN [J EXCEPT !.run = -2]
    ELSE Arrive([J EXCEPT !.sy[k].c = -1, !.rt[k] = <<how, k>>], k, t)

\* the fiber of k's control block is destroyed by c: k is unwound
Unwind(J, c, k) ==
    IF J.rt[k][1] \in {"end", "gate"} /\ J.im[k].c = k THEN Kill(J, k)    \* nothing of the user's is on the stack
    ELSE IF J.im[k].c # k THEN [J EXCEPT !.run = -2]
    ELSE [J EXCEPT !.run = k, !.im[k].c = -1, !.rt[k] = NoRt, !.rt[c] = <<"unw", k>>, !.back[k] = c]

Valid(J, k, p) ==
    /\ J.im[k].made /\ ~ J.im[k].complete
    /\ p = PULL => J.im[k].other /\ J.im[k].bv

\* ~pull_coroutine(), ~push_coroutine()
Drop(J, c, s) == IF hnd[s].co = 0 THEN J ELSE Unwind(J, c, hnd[s].co)

Construct(J, c, k, p) ==
    LET A == [J EXCEPT !.im[k] = [NoIm EXCEPT !.made = TRUE, !.c = k], !.rt[k] = <<"entry", 0>>, !.stack[k] = TRUE]
        B == JumpIm(A, c, k)
    IN IF p = PULL THEN B ELSE JumpSy(B, k, IF Variant = 2 THEN "sy" ELSE "gate")

\* the function of k has been left (x: the exception, or 0)
Complete(J, k, x) ==
    LET A == [J EXCEPT !.im[k].complete = (Variant # 3), !.im[k].exc = x]
        w == J.sy[k].c
        B == JumpSy(A, k, "end")
    IN IF w # -1 /\ J.rt[w] = <<"im", k>> /\ pend[w].op = "new"
       THEN \* in the constructor of the handle: the exception destroys the fiber, or valid() is false
            LET C == [B EXCEPT !.th[w] = B.th[w]]
            IN IF B.th[w] # 0 \/ ~ Valid(B, k, PULL) THEN Unwind(C, w, k) ELSE C
       ELSE B

Step ==
    LET e == ev'[1]  c == ev'[2]  a == ev'[3]  b == ev'[4]  x == ev'[6]
        J == [I EXCEPT !.th = [i \in Ctx |-> 0]]
        K(s) == hnd[s].co
    IN
    CASE e = "new" -> IF x % 10 # 0 THEN J ELSE Construct(J, c, nco + 1, b)
      [] e \in {"res", "inc"} -> JumpIm(J, c, K(a))
      [] e \in {"push", "oasg"} -> JumpIm([J EXCEPT !.sy[K(a)].bv = TRUE, !.sy[K(a)].val = x], c, K(a))
      [] e = "apush" -> JumpIm(J, c, K(a))        \* set() leaves what is there
      [] e = "ayield" -> JumpSy(J, c, "sy")
      [] e = "pusht" -> [J EXCEPT !.sy[K(a)].bv = FALSE]
      [] e \in {"yield", "wasg"} -> JumpSy([J EXCEPT !.im[c].bv = TRUE, !.im[c].val = x], c, "sy")
      [] e = "yieldt" -> [J EXCEPT !.im[c].bv = FALSE]
      [] e \in {"next", "winc"} -> JumpSy(J, c, "sy")
      [] e = "goon" -> IF pend[c].op = "each" THEN JumpIm(J, c, K(pend[c].s)) ELSE JumpSy(J, c, "sy")
      [] e \in {"destroy", "hdbeg", "fdel"} -> Drop(J, c, a)
      [] e = "masg" -> IF (a = b /\ Variant # 4) \/ Variant = 5 THEN J ELSE Drop(J, c, b)
      [] e = "gd" -> IF a # 1 \/ c = 0 THEN J
                     ELSE IF act[c] = "unw" THEN [Kill(J, c) EXCEPT !.run = J.back[c], !.rt[J.back[c]] = NoRt]
                     ELSE Complete(J, c, IF act[c] = "exc" THEN pend[c].x ELSE 0)
      [] OTHER -> J

ISpec == Init /\ IInit /\ [][Next /\ I' = Step]_ivars

-----------------------------------------------------------------------------
SameContext == I.run = run

\* the boolean value of every handle
SameValidity == \A s \in Slot : hnd[s].ex /\ hnd[s].co # 0 /\ ~ Busy(s) /\ ~ Active(hnd[s].co)
                    => (Valid(I, hnd[s].co, hnd[s].p) <=> IsValid(s))

\* the calls that throw (exceptions of a failing constructor or transfer do not come from a control block)
SameExceptions == act[run] # "off" \/ run = 0 =>
    /\ sig = "ok"  => I.th[run] = 0
    /\ sig = "exc" => I.th[run] = pend[run].x \/ pend[run].x \in {ExcAlloc, ExcFn, ExcCopy}

SameStacks == \A k \in Co : I.stack[k] <=> st[k] \in {"fresh", "live", "done"}

\* what is transferred
SameValues == \A k \in Co : st[k] = "live" /\ cell[k] \in 1..NVal /\ act[k] # "unw" =>
    IF kind[k] = PULL THEN I.im[k].bv /\ I.im[k].val = cell[k] ELSE I.sy[k].bv /\ I.sy[k].val = cell[k]

\* every suspended context is referred to by exactly one fiber, unless it waits for an unwinding to end
Refs(c) == Cardinality({ k \in Co : I.im[k].c = c }) + Cardinality({ k \in Co : I.sy[k].c = c })
Linear == \A c \in Ctx :
    IF c = run THEN Refs(c) = 0
    ELSE IF I.rt[c][1] = "unw" THEN Refs(c) = 0
    ELSE IF c = 0 \/ I.stack[c] THEN Refs(c) = 1
    ELSE Refs(c) = 0

\* a suspended coroutine is resumed through its own control block, the active ones know who resumed them
Chain == \A k \in Co : I.stack[k] =>
    /\ ~ Active(k) /\ ~ (\E c \in Ctx : pend[c].op = "new" /\ pend[c].t = k /\ run = k) => I.im[k].c = k
    /\ Active(k) /\ I.back[k] = -1 => I.sy[k].c = wk[k]
    /\ Active(k) /\ I.back[k] # -1 => I.back[k] = wk[k]

-----------------------------------------------------------------------------
(* The same fibers, seen by the module Chain, which is proved for any number *)
(* of coroutines: the context that runs and the fibers are those computed    *)
(* here, the chain is the one of the specification.                          *)
RECURSIVE StkOf(_)
StkOf(c) == IF c = 0 THEN <<0>> ELSE Append(StkOf(wk[c]), c)

LifeOf(k) == IF ~ I.stack[k] THEN IF k > nco THEN "none" ELSE "gone"
             ELSE IF I.back[k] # -1 THEN "unwinding"
             ELSE IF I.im[k].c = -1 THEN "active"
             ELSE "susp"

CH == INSTANCE Chain WITH
    Main <- 0, None <- -1, Co <- Co, run <- I.run,
    life <- [k \in Co |-> LifeOf(k)], done <- [k \in Co |-> I.im[k].complete],
    im <- [k \in Co |-> I.im[k].c], sy <- [k \in Co |-> I.sy[k].c], back <- I.back,
    n <- Len(StkOf(run)), stk <- StkOf(run)
IChain == CH!Spec
=============================================================================
