------------------------------- MODULE Chain --------------------------------
(* The chain of active coroutines, for ANY set of coroutines and any depth.  *)
(*                                                                           *)
(* What is implemented are the fibers: every context that does not run is    *)
(* referred to by a fiber, which is kept in the control block of a handle    *)
(* (im), in the synthesized one (sy), or, while a coroutine is unwound, on   *)
(* the stack of the destructor (back). Where control goes is read from the   *)
(* fibers alone. stk, the chain as users think of it, is a history variable: *)
(* the theorem is that both always agree, and that no context is referred to *)
(* twice or lost. ChainProofs.tla proves it with TLAPS (no bounds), TLC      *)
(* checks it for four coroutines, and ControlBlock.tla refines this module   *)
(* (property IChain, checked by TLC).                                        *)
EXTENDS Integers

CONSTANTS Co,       \* the coroutines
          Main,     \* the context of the program
          None      \* the empty fiber
ASSUME Diff == Main \notin Co /\ None \notin Co /\ Main # None
Ctx == Co \cup {Main}

VARIABLES run,      \* running context
          life,     \* life[k]: none, susp (has a stack, not active), active, unwinding, gone
          done,     \* the function has been left
          im, sy, back,     \* the fibers
          n, stk    \* the chain: stk[1] = Main .. stk[n] = run
vars == <<run, life, done, im, sy, back, n, stk>>

Enter(k) == n' = n + 1 /\ stk' = [i \in 1..(n + 1) |-> IF i = n + 1 THEN k ELSE stk[i]]
Exit     == n' = n - 1 /\ stk' = [i \in 1..(n - 1) |-> stk[i]]

Init == /\ run = Main /\ n = 1 /\ stk = [i \in 1..1 |-> Main]
        /\ life = [k \in Co |-> "none"] /\ done = [k \in Co |-> FALSE]
        /\ im = [k \in Co |-> None] /\ sy = [k \in Co |-> None] /\ back = [k \in Co |-> None]

\* a push-coroutine is created: it waits at the beginning
Create(k) ==
    /\ life[k] = "none"
    /\ life' = [life EXCEPT ![k] = "susp"] /\ im' = [im EXCEPT ![k] = k]
    /\ UNCHANGED <<run, done, sy, back, n, stk>>

\* a pull-coroutine is created: it runs at once
CreateRun(k) ==
    /\ life[k] = "none"
    /\ life' = [life EXCEPT ![k] = "active"] /\ sy' = [sy EXCEPT ![k] = run]
    /\ run' = k /\ Enter(k)
    /\ UNCHANGED <<done, im, back>>

\* through the control block of the handle
Resume(k) ==
    /\ life[k] = "susp" /\ ~ done[k]
    /\ life' = [life EXCEPT ![k] = "active"]
    /\ run' = im[k] /\ im' = [im EXCEPT ![k] = None] /\ sy' = [sy EXCEPT ![k] = run]
    /\ Enter(k)
    /\ UNCHANGED <<done, back>>

\* through the synthesized control block; d: the function has been left
Suspend(d) ==
    /\ run \in Co /\ life[run] = "active"
    /\ life' = [life EXCEPT ![run] = "susp"] /\ done' = [done EXCEPT ![run] = d]
    /\ run' = sy[run] /\ sy' = [sy EXCEPT ![run] = None] /\ im' = [im EXCEPT ![run] = run]
    /\ Exit
    /\ UNCHANGED back

\* the handle of a coroutine that has nothing of the user's on its stack goes
Free(k) ==
    /\ life[k] = "susp"
    /\ life' = [life EXCEPT ![k] = "gone"] /\ im' = [im EXCEPT ![k] = None] /\ done' = [done EXCEPT ![k] = FALSE]
    /\ UNCHANGED <<run, sy, back, n, stk>>

\* a constructor that fails before there is a coroutine
Refuse(k) ==
    /\ life[k] = "none"
    /\ life' = [life EXCEPT ![k] = "gone"]
    /\ UNCHANGED <<run, done, im, sy, back, n, stk>>

\* the handle of a suspended coroutine goes: it is unwound ...
Unwind(k) ==
    /\ life[k] = "susp" /\ ~ done[k]
    /\ life' = [life EXCEPT ![k] = "unwinding"]
    /\ run' = im[k] /\ im' = [im EXCEPT ![k] = None] /\ back' = [back EXCEPT ![k] = run]
    /\ Enter(k)
    /\ UNCHANGED <<done, sy>>

\* ... and control comes back
Unwound ==
    /\ run \in Co /\ life[run] = "unwinding"
    /\ life' = [life EXCEPT ![run] = "gone"]
    /\ run' = back[run] /\ back' = [back EXCEPT ![run] = None]
    /\ Exit
    /\ UNCHANGED <<done, im, sy>>

\* a function that finishes or throws inside the constructor of its handle: the handle is empty
Fail ==
    /\ run \in Co /\ life[run] = "active"
    /\ life' = [life EXCEPT ![run] = "gone"]
    /\ run' = sy[run] /\ sy' = [sy EXCEPT ![run] = None]
    /\ Exit
    /\ UNCHANGED <<done, im, back>>

Next == \/ \E k \in Co : Create(k) \/ CreateRun(k) \/ Resume(k) \/ Free(k) \/ Refuse(k) \/ Unwind(k)
        \/ \E d \in BOOLEAN : Suspend(d)
        \/ Unwound \/ Fail

Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
TypeOK ==
    /\ run \in Ctx /\ n \in Nat /\ n >= 1 /\ stk \in [1..n -> Ctx]
    /\ life \in [Co -> {"none", "susp", "active", "unwinding", "gone"}] /\ done \in [Co -> BOOLEAN]
    /\ im \in [Co -> Ctx \cup {None}] /\ sy \in [Co -> Ctx \cup {None}] /\ back \in [Co -> Ctx \cup {None}]

\* the running context is the end of the chain, nobody is in it twice
Top    == stk[1] = Main /\ run = stk[n] /\ \A i \in 2..n : stk[i] \in Co
Simple == \A i, j \in 1..n : stk[i] = stk[j] => i = j

\* the active coroutines are the chain, and each refers to the one that resumed it most recently
Up2(l, b, s, k) == IF l[k] = "unwinding" THEN b[k] ELSE s[k]
Up(k)  == Up2(life, back, sy, k)
Link   == \A i \in 2..n : life[stk[i]] \in {"active", "unwinding"} /\ Up(stk[i]) = stk[i - 1]
Others == \A k \in Co : life[k] \in {"active", "unwinding"} => \E i \in 2..n : stk[i] = k
Fibers == \A k \in Co : /\ im[k] = IF life[k] = "susp" THEN k ELSE None
                        /\ life[k] # "active" => sy[k] = None
                        /\ life[k] # "unwinding" => back[k] = None

Inv == TypeOK /\ Top /\ Simple /\ Link /\ Others /\ Fibers

\* consequences: no context is referred to by two fibers, the running one by none
Unique == \A k, l \in Co :
    /\ sy[k] # None /\ sy[k] = sy[l] => k = l
    /\ back[k] # None /\ back[k] = back[l] => k = l
    /\ sy[k] # None => sy[k] # back[l] /\ sy[k] # im[l]
    /\ im[k] # None => im[k] # back[l]
    /\ im[k] # run /\ sy[k] # run /\ back[k] # run
\* and none is lost
Held == \A c \in Ctx : c # run /\ (c = Main \/ life[c] \notin {"none", "gone"}) =>
            \E k \in Co : im[k] = c \/ sy[k] = c \/ back[k] = c
=============================================================================
