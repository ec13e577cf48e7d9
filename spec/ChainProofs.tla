---------------------------- MODULE ChainProofs -----------------------------
(* The proof that Chain has its invariant, for any set of coroutines. *)
EXTENDS Chain, TLAPS

UpN(k) == Up2(life', back', sy', k)

LEMMA EnterOK ==
    ASSUME Inv, NEW k \in Co, life[k] \notin {"active", "unwinding"}, Enter(k), run' = k,
           NEW l \in {"active", "unwinding"}, life' = [life EXCEPT ![k] = l],
           UpN(k) = run, \A c \in Co : c # k => UpN(c) = Up(c)
    PROVE  /\ n' \in Nat /\ n' >= 1 /\ stk' \in [1..n' -> Ctx] /\ run' \in Ctx
           /\ Top' /\ Simple' /\ Link' /\ Others'
<1> USE Diff DEF Ctx
<1>1. n \in Nat /\ n >= 1 /\ stk \in [1..n -> Ctx] /\ n' = n + 1
  BY DEF Inv, TypeOK, Enter
<1>2. stk' = [i \in 1..n' |-> IF i = n' THEN k ELSE stk[i]]
  BY <1>1 DEF Enter
<1>3. stk' \in [1..n' -> Ctx] /\ n' \in Nat /\ n' >= 1
  BY <1>1, <1>2
<1>4. \A i \in 1..n : stk[i] # k
  BY <1>1 DEF Inv, Link, Top
<1>5. \A i \in 1..n : stk'[i] = stk[i]
  BY <1>1, <1>2
<1>6. stk'[n'] = k
  BY <1>1, <1>2
<1>7. \A i \in 1..n' : i = n' \/ i \in 1..n
  BY <1>1
<1>8. Top'
  <2>1. stk'[1] = Main
    BY <1>1, <1>5 DEF Inv, Top
  <2>2. \A i \in 2..n' : stk'[i] \in Co
    BY <1>1, <1>5, <1>6, <1>7 DEF Inv, Top
  <2> QED BY <2>1, <2>2, <1>6 DEF Top
<1>9. Simple'
  BY <1>1, <1>4, <1>5, <1>6, <1>7 DEF Inv, Simple
<1>10. Link'
  <2> SUFFICES ASSUME NEW i \in 2..n' PROVE life'[stk'[i]] \in {"active", "unwinding"} /\ UpN(stk'[i]) = stk'[i - 1]
    BY DEF Link, Up, UpN
  <2>1. CASE i = n'
    <3>1. stk'[i - 1] = run
      BY <2>1, <1>1, <1>5 DEF Inv, Top
    <3>2. life'[k] = l
      BY DEF Inv, TypeOK
    <3> QED BY <2>1, <3>1, <3>2, <1>6
  <2>2. CASE i # n'
    <3>1. i \in 2..n /\ i - 1 \in 1..n /\ i \in 1..n
      BY <2>2, <1>1
    <3>2. stk[i] \in Co /\ stk[i] # k
      BY <3>1, <1>4 DEF Inv, Top
    <3>3. life'[stk[i]] = life[stk[i]]
      BY <3>2 DEF Inv, TypeOK
    <3>4. UpN(stk[i]) = Up(stk[i])
      BY <3>2
    <3>5. stk'[i] = stk[i] /\ stk'[i - 1] = stk[i - 1]
      BY <3>1, <1>5
    <3>6. life[stk[i]] \in {"active", "unwinding"} /\ Up(stk[i]) = stk[i - 1]
      BY <3>1 DEF Inv, Link
    <3> QED BY <3>3, <3>4, <3>5, <3>6 DEF Up, UpN
  <2> QED BY <2>1, <2>2
<1>11. Others'
  <2> SUFFICES ASSUME NEW c \in Co, life'[c] \in {"active", "unwinding"} PROVE \E i \in 2..n' : stk'[i] = c
    BY DEF Others
  <2>1. CASE c = k
    BY <2>1, <1>1, <1>6
  <2>2. CASE c # k
    <3>1. life[c] \in {"active", "unwinding"}
      BY <2>2 DEF Inv, TypeOK
    <3>2. PICK i \in 2..n : stk[i] = c
      BY <3>1 DEF Inv, Others
    <3> QED BY <3>2, <1>1, <1>5
  <2> QED BY <2>1, <2>2
<1> QED BY <1>3, <1>8, <1>9, <1>10, <1>11

LEMMA ExitOK ==
    ASSUME Inv, run \in Co, Exit, run' = Up(run),
           NEW l \in {"susp", "gone"}, life' = [life EXCEPT ![run] = l],
           \A c \in Co : c # run => UpN(c) = Up(c)
    PROVE  /\ n' \in Nat /\ n' >= 1 /\ stk' \in [1..n' -> Ctx] /\ run' \in Ctx
           /\ Top' /\ Simple' /\ Link' /\ Others'
<1> USE Diff DEF Ctx
<1>1. n \in Nat /\ n >= 1 /\ stk \in [1..n -> Ctx] /\ stk[1] = Main /\ run = stk[n]
  BY DEF Inv, TypeOK, Top
<1>2. n >= 2
  BY <1>1
<1>3. n' = n - 1 /\ n' \in Nat /\ n' >= 1 /\ stk' = [i \in 1..n' |-> stk[i]]
  BY <1>1, <1>2 DEF Exit
<1>4. stk' \in [1..n' -> Ctx] /\ \A i \in 1..n' : stk'[i] = stk[i]
  BY <1>1, <1>3
<1>5. n \in 2..n /\ n - 1 = n' /\ Up(run) = stk[n - 1]
  BY <1>1, <1>2, <1>3 DEF Inv, Link
<1>6. run' = stk'[n'] /\ run' \in Ctx
  BY <1>1, <1>3, <1>4, <1>5
<1>7. \A i \in 1..n' : i \in 1..n /\ stk[i] # run
  BY <1>1, <1>3 DEF Inv, Simple
<1>8. Top'
  BY <1>1, <1>3, <1>4, <1>6 DEF Inv, Top
<1>9. Simple'
  BY <1>3, <1>4, <1>7 DEF Inv, Simple
<1>10. Link'
  <2> SUFFICES ASSUME NEW i \in 2..n' PROVE life'[stk'[i]] \in {"active", "unwinding"} /\ UpN(stk'[i]) = stk'[i - 1]
    BY DEF Link, Up, UpN
  <2>1. i \in 1..n' /\ i - 1 \in 1..n' /\ i \in 2..n
    BY <1>1, <1>3
  <2>2. stk[i] \in Co /\ stk[i] # run
    BY <2>1, <1>7 DEF Inv, Top
  <2>3. stk'[i] = stk[i] /\ stk'[i - 1] = stk[i - 1]
    BY <2>1, <1>4
  <2>4. life'[stk[i]] = life[stk[i]]
    BY <2>2 DEF Inv, TypeOK
  <2>5. UpN(stk[i]) = Up(stk[i])
    BY <2>2
  <2>6. life[stk[i]] \in {"active", "unwinding"} /\ Up(stk[i]) = stk[i - 1]
    BY <2>1 DEF Inv, Link
  <2> QED BY <2>3, <2>4, <2>5, <2>6 DEF Up, UpN
<1>11. Others'
  <2> SUFFICES ASSUME NEW c \in Co, life'[c] \in {"active", "unwinding"} PROVE \E i \in 2..n' : stk'[i] = c
    BY DEF Others
  <2>1. c # run
    BY DEF Inv, TypeOK
  <2>2. life[c] \in {"active", "unwinding"}
    BY <2>1 DEF Inv, TypeOK
  <2>3. PICK i \in 2..n : stk[i] = c
    BY <2>2 DEF Inv, Others
  <2>4. i # n
    BY <2>1, <2>3, <1>1
  <2>5. i \in 2..n'
    BY <2>4, <1>1, <1>3
  <2> QED BY <2>3, <2>5, <1>3, <1>4
<1> QED BY <1>3, <1>4, <1>6, <1>8, <1>9, <1>10, <1>11

THEOREM Invariance == Spec => []Inv
<1> USE Diff
<1>1. Init => Inv
  BY DEF Init, Inv, TypeOK, Top, Simple, Link, Others, Fibers, Ctx
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>t. TypeOK /\ Fibers /\ Top
    BY DEF Inv
  <2>1. ASSUME NEW k \in Co, Create(k) PROVE Inv'
    <3>1. TypeOK' /\ Fibers'
      BY <2>1, <2>t DEF Create, TypeOK, Fibers, Ctx
    <3>2. \A c \in Co : UpN(c) = Up(c) /\ (c # k => life'[c] = life[c]) /\ life'[k] = "susp" /\ life[k] = "none"
      BY <2>1, <2>t DEF Create, TypeOK, Up, UpN, Up2
    <3>3. n' = n /\ stk' = stk /\ run' = run
      BY <2>1 DEF Create
    <3>4. Top' /\ Simple'
      BY <3>3 DEF Inv, Top, Simple
    <3>5. Link'
      <4> SUFFICES ASSUME NEW i \in 2..n PROVE life'[stk[i]] \in {"active", "unwinding"} /\ UpN(stk[i]) = stk[i - 1]
        BY <3>3 DEF Link, Up, UpN
      <4> QED BY <3>2 DEF Inv, Link, Top
    <3>6. Others'
      BY <3>2, <3>3 DEF Inv, Others
    <3> QED BY <3>1, <3>4, <3>5, <3>6 DEF Inv
  <2>2. ASSUME NEW k \in Co, CreateRun(k) PROVE Inv'
    <3>1. life[k] \notin {"active", "unwinding"} /\ Enter(k) /\ run' = k /\ life' = [life EXCEPT ![k] = "active"]
      BY <2>2 DEF CreateRun
    <3>2. UpN(k) = run /\ \A c \in Co : c # k => UpN(c) = Up(c)
      BY <2>2, <2>t DEF CreateRun, Up, UpN, Up2, TypeOK
    <3>3. /\ n' \in Nat /\ n' >= 1 /\ stk' \in [1..n' -> Ctx] /\ run' \in Ctx
          /\ Top' /\ Simple' /\ Link' /\ Others'
      BY <3>1, <3>2, EnterOK
    <3>4. TypeOK'
      BY <3>3, <2>2, <2>t DEF CreateRun, TypeOK
    <3>5. Fibers'
      BY <2>2, <2>t DEF CreateRun, Fibers, TypeOK
    <3> QED BY <3>3, <3>4, <3>5 DEF Inv
  <2>3. ASSUME NEW k \in Co, Resume(k) PROVE Inv'
    <3>0. im[k] = k
      BY <2>3, <2>t DEF Resume, Fibers
    <3>1. life[k] \notin {"active", "unwinding"} /\ Enter(k) /\ run' = k /\ life' = [life EXCEPT ![k] = "active"]
      BY <3>0, <2>3 DEF Resume
    <3>2. UpN(k) = run /\ \A c \in Co : c # k => UpN(c) = Up(c)
      BY <2>3, <2>t DEF Resume, Up, UpN, Up2, TypeOK
    <3>3. /\ n' \in Nat /\ n' >= 1 /\ stk' \in [1..n' -> Ctx] /\ run' \in Ctx
          /\ Top' /\ Simple' /\ Link' /\ Others'
      BY <3>1, <3>2, EnterOK
    <3>4. TypeOK'
      BY <3>3, <2>3, <2>t DEF Resume, TypeOK
    <3>5. Fibers'
      BY <2>3, <2>t DEF Resume, Fibers, TypeOK
    <3> QED BY <3>3, <3>4, <3>5 DEF Inv
  <2>4. ASSUME NEW k \in Co, Free(k) PROVE Inv'
    <3>1. TypeOK' /\ Fibers'
      BY <2>4, <2>t DEF Free, TypeOK, Fibers, Ctx
    <3>2. \A c \in Co : UpN(c) = Up(c) /\ (c # k => life'[c] = life[c]) /\ life'[k] = "gone" /\ life[k] = "susp"
      BY <2>4, <2>t DEF Free, TypeOK, Up, UpN, Up2
    <3>3. n' = n /\ stk' = stk /\ run' = run
      BY <2>4 DEF Free
    <3>4. Top' /\ Simple'
      BY <3>3 DEF Inv, Top, Simple
    <3>5. Link'
      <4> SUFFICES ASSUME NEW i \in 2..n PROVE life'[stk[i]] \in {"active", "unwinding"} /\ UpN(stk[i]) = stk[i - 1]
        BY <3>3 DEF Link, Up, UpN
      <4> QED BY <3>2 DEF Inv, Link, Top
    <3>6. Others'
      BY <3>2, <3>3 DEF Inv, Others
    <3> QED BY <3>1, <3>4, <3>5, <3>6 DEF Inv
  <2>5. ASSUME NEW k \in Co, Unwind(k) PROVE Inv'
    <3>0. im[k] = k
      BY <2>5, <2>t DEF Unwind, Fibers
    <3>1. life[k] \notin {"active", "unwinding"} /\ Enter(k) /\ run' = k /\ life' = [life EXCEPT ![k] = "unwinding"]
      BY <3>0, <2>5 DEF Unwind
    <3>2. UpN(k) = run /\ \A c \in Co : c # k => UpN(c) = Up(c)
      BY <2>5, <2>t DEF Unwind, Up, UpN, Up2, TypeOK
    <3>3. /\ n' \in Nat /\ n' >= 1 /\ stk' \in [1..n' -> Ctx] /\ run' \in Ctx
          /\ Top' /\ Simple' /\ Link' /\ Others'
      BY <3>1, <3>2, EnterOK
    <3>4. TypeOK'
      BY <3>3, <2>5, <2>t DEF Unwind, TypeOK
    <3>5. Fibers'
      BY <2>5, <2>t DEF Unwind, Fibers, TypeOK
    <3> QED BY <3>3, <3>4, <3>5 DEF Inv
  <2>6. ASSUME NEW d \in BOOLEAN, Suspend(d) PROVE Inv'
    <3>1. run \in Co /\ Exit /\ life' = [life EXCEPT ![run] = "susp"]
      BY <2>6 DEF Suspend
    <3>2. run' = Up(run) /\ \A c \in Co : c # run => UpN(c) = Up(c)
      BY <2>6, <2>t DEF Suspend, Up, UpN, Up2, TypeOK
    <3>3. /\ n' \in Nat /\ n' >= 1 /\ stk' \in [1..n' -> Ctx] /\ run' \in Ctx
          /\ Top' /\ Simple' /\ Link' /\ Others'
      BY <3>1, <3>2, ExitOK
    <3>4. TypeOK'
      BY <3>3, <2>6, <2>t DEF Suspend, TypeOK
    <3>5. Fibers'
      BY <2>6, <2>t DEF Suspend, Fibers, TypeOK
    <3> QED BY <3>3, <3>4, <3>5 DEF Inv
  <2>7. ASSUME Unwound PROVE Inv'
    <3>1. run \in Co /\ Exit /\ life' = [life EXCEPT ![run] = "gone"]
      BY <2>7 DEF Unwound
    <3>2. run' = Up(run) /\ \A c \in Co : c # run => UpN(c) = Up(c)
      BY <2>7, <2>t DEF Unwound, Up, UpN, Up2, TypeOK
    <3>3. /\ n' \in Nat /\ n' >= 1 /\ stk' \in [1..n' -> Ctx] /\ run' \in Ctx
          /\ Top' /\ Simple' /\ Link' /\ Others'
      BY <3>1, <3>2, ExitOK
    <3>4. TypeOK'
      BY <3>3, <2>7, <2>t DEF Unwound, TypeOK
    <3>5. Fibers'
      BY <2>7, <2>t DEF Unwound, Fibers, TypeOK
    <3> QED BY <3>3, <3>4, <3>5 DEF Inv
  <2>8. ASSUME Fail PROVE Inv'
    <3>1. run \in Co /\ Exit /\ life' = [life EXCEPT ![run] = "gone"]
      BY <2>8 DEF Fail
    <3>2. run' = Up(run) /\ \A c \in Co : c # run => UpN(c) = Up(c)
      BY <2>8, <2>t DEF Fail, Up, UpN, Up2, TypeOK
    <3>3. /\ n' \in Nat /\ n' >= 1 /\ stk' \in [1..n' -> Ctx] /\ run' \in Ctx
          /\ Top' /\ Simple' /\ Link' /\ Others'
      BY <3>1, <3>2, ExitOK
    <3>4. TypeOK'
      BY <3>3, <2>8, <2>t DEF Fail, TypeOK
    <3>5. Fibers'
      BY <2>8, <2>t DEF Fail, Fibers, TypeOK
    <3> QED BY <3>3, <3>4, <3>5 DEF Inv
  <2>10. ASSUME NEW k \in Co, Refuse(k) PROVE Inv'
    <3>1. TypeOK' /\ Fibers'
      BY <2>10, <2>t DEF Refuse, TypeOK, Fibers, Ctx
    <3>2. \A c \in Co : UpN(c) = Up(c) /\ (c # k => life'[c] = life[c]) /\ life'[k] = "gone" /\ life[k] = "none"
      BY <2>10, <2>t DEF Refuse, TypeOK, Up, UpN, Up2
    <3>3. n' = n /\ stk' = stk /\ run' = run
      BY <2>10 DEF Refuse
    <3>4. Top' /\ Simple'
      BY <3>3 DEF Inv, Top, Simple
    <3>5. Link'
      <4> SUFFICES ASSUME NEW i \in 2..n PROVE life'[stk[i]] \in {"active", "unwinding"} /\ UpN(stk[i]) = stk[i - 1]
        BY <3>3 DEF Link, Up, UpN
      <4> QED BY <3>2 DEF Inv, Link, Top
    <3>6. Others'
      BY <3>2, <3>3 DEF Inv, Others
    <3> QED BY <3>1, <3>4, <3>5, <3>6 DEF Inv
  <2>9. ASSUME UNCHANGED vars PROVE Inv'
    BY <2>9 DEF vars, Inv, TypeOK, Top, Simple, Link, Others, Fibers, Up, Up2
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7, <2>8, <2>9, <2>10 DEF Next
<1> QED BY <1>1, <1>2, PTL DEF Spec


THEOREM Consequences == Inv => Unique /\ Held
<1> SUFFICES ASSUME Inv PROVE Unique /\ Held
  OBVIOUS
<1> USE Diff DEF Ctx
<1>t. TypeOK /\ Fibers /\ Top /\ Simple /\ Link /\ Others
  BY DEF Inv
\* who refers to whom
<1>1. \A k \in Co : im[k] # None => life[k] = "susp" /\ im[k] = k
  BY <1>t DEF Fibers
<1>2. \A k \in Co : sy[k] # None => life[k] = "active" /\ \E i \in 2..n : stk[i] = k /\ sy[k] = stk[i - 1]
  <2> SUFFICES ASSUME NEW k \in Co, sy[k] # None PROVE life[k] = "active" /\ \E i \in 2..n : stk[i] = k /\ sy[k] = stk[i - 1]
    OBVIOUS
  <2>1. life[k] = "active"
    BY <1>t DEF Fibers
  <2>2. PICK i \in 2..n : stk[i] = k
    BY <2>1, <1>t DEF Others
  <2> QED BY <2>1, <2>2, <1>t DEF Link, Up, Up2
<1>3. \A k \in Co : back[k] # None => life[k] = "unwinding" /\ \E i \in 2..n : stk[i] = k /\ back[k] = stk[i - 1]
  <2> SUFFICES ASSUME NEW k \in Co, back[k] # None PROVE life[k] = "unwinding" /\ \E i \in 2..n : stk[i] = k /\ back[k] = stk[i - 1]
    OBVIOUS
  <2>1. life[k] = "unwinding"
    BY <1>t DEF Fibers
  <2>2. PICK i \in 2..n : stk[i] = k
    BY <2>1, <1>t DEF Others
  <2> QED BY <2>1, <2>2, <1>t DEF Link, Up, Up2
<1>4. \A i, j \in 2..n : stk[i - 1] = stk[j - 1] => stk[i] = stk[j]
  BY <1>t DEF TypeOK, Simple
<1>5. \A i \in 2..n : stk[i - 1] # run
  BY <1>t DEF TypeOK, Simple, Top
<1>6. \A k \in Co, i \in 2..n : life[k] = "susp" => stk[i - 1] # k
  <2> SUFFICES ASSUME NEW k \in Co, NEW i \in 2..n, life[k] = "susp", stk[i - 1] = k PROVE FALSE
    OBVIOUS
  <2>1. i - 1 # 1
    BY <1>t DEF Top
  <2>2. i - 1 \in 2..n
    BY <2>1, <1>t DEF TypeOK
  <2> QED BY <2>2, <1>t DEF Link
<1>7. run = Main \/ life[run] \in {"active", "unwinding"}
  <2>1. CASE n = 1
    BY <2>1, <1>t DEF Top
  <2>2. CASE n # 1
    <3>1. n \in 2..n
      BY <2>2, <1>t DEF TypeOK
    <3> QED BY <3>1, <1>t DEF Top, Link
  <2> QED BY <2>1, <2>2
<1>8. Unique
  <2> SUFFICES ASSUME NEW k \in Co, NEW l \in Co
        PROVE /\ sy[k] # None /\ sy[k] = sy[l] => k = l
              /\ back[k] # None /\ back[k] = back[l] => k = l
              /\ sy[k] # None => sy[k] # back[l] /\ sy[k] # im[l]
              /\ im[k] # None => im[k] # back[l]
              /\ im[k] # run /\ sy[k] # run /\ back[k] # run
    BY DEF Unique
  <2>1. sy[k] # None /\ sy[k] = sy[l] => k = l
    BY <1>2, <1>4
  <2>2. back[k] # None /\ back[k] = back[l] => k = l
    BY <1>3, <1>4
  <2>3. sy[k] # None => sy[k] # back[l]
    BY <1>2, <1>3, <1>4
  <2>4. sy[k] # None => sy[k] # im[l]
    BY <1>1, <1>2, <1>6
  <2>5. im[k] # None => im[k] # back[l]
    BY <1>1, <1>3, <1>6
  <2>r. run # None
    BY <1>t DEF TypeOK
  <2>6. im[k] # run
    BY <1>1, <1>7, <2>r
  <2>7. sy[k] # run /\ back[k] # run
    BY <1>2, <1>3, <1>5, <2>r
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7
<1>9. Held
  <2> SUFFICES ASSUME NEW c \in Ctx, c # run, c = Main \/ life[c] \notin {"none", "gone"}
        PROVE \E k \in Co : im[k] = c \/ sy[k] = c \/ back[k] = c
    BY DEF Held
  <2>1. CASE c # Main /\ life[c] = "susp"
    BY <2>1, <1>t DEF Fibers
  <2>2. CASE c = Main \/ life[c] \in {"active", "unwinding"}
    <3>1. PICK i \in 1..n : stk[i] = c
      <4>1. CASE c = Main
        BY <4>1, <1>t DEF Top, TypeOK
      <4>2. CASE c # Main
        BY <4>2, <2>2, <1>t DEF Others, TypeOK
      <4> QED BY <4>1, <4>2
    <3>2. i # n
      BY <3>1, <1>t DEF Top
    <3>3. i + 1 \in 2..n /\ i = (i + 1) - 1
      BY <3>1, <3>2, <1>t DEF TypeOK
    <3>4. Up(stk[i + 1]) = c /\ stk[i + 1] \in Co
      BY <3>1, <3>3, <1>t DEF Link, Top
    <3> QED BY <3>4 DEF Up, Up2
  <2> QED BY <2>1, <2>2, <1>t DEF TypeOK
<1> QED BY <1>8, <1>9

THEOREM Spec => [](Inv /\ Unique /\ Held)
BY Invariance, Consequences, PTL
=============================================================================
