------------------------------ MODULE MokaBulk ------------------------------
(***************************************************************************)
(* Caches with many entries. The keys come in groups, and an operation is   *)
(* carried out on all members of a group, by one thread or several; several *)
(* groups may be worked on at the same time. The contract describes a group *)
(* as a whole: which of its members are present, with which generation of   *)
(* values, until when they are visible. Behaviours are drawn by TLC and     *)
(* replayed on the real caches: growth of the hash table, colliding hashes, *)
(* sweeps which need many batches, automatic maintenance, reclamation.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Profile, Depth

VARIABLES cfg, prof, st, hist
vars == <<cfg, prof, st, hist>>

NONE == -1
KEEP == -2
INF  == 1000000000
Draw(S) == RandomElement(S)
OneOf(s) == s[RandomElement(1 .. Len(s))]
Rep(op, m) == [j \in 1 .. m |-> op]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN 0
                ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumSet(S \ {x}, f)
RECURSIVE SumSeq(_, _)
SumSeq(s, j) == IF j = 0 THEN 0 ELSE SumSeq(s, j - 1) + s[j].h - s[j].l + 1

Groups == DOMAIN cfg.sz

-----------------------------------------------------------------------------
(* s: now   the time (every operation takes place at a multiple of 16, and   *)
(*          expirations are due 8 after one)                                *)
(*    g     per group: n the generation (0: absent), c colour, w weight,      *)
(*          x class of its Expiry, lm, la, dl, dead                          *)
(*    q     bounded caches: the ranges of members by recency                 *)
(*    gone  generation -> how many have left; causes -> for which reasons     *)
(*    nn    the next generation                                              *)

Bounded == cfg.cap # NONE
Limit(e) == Min2(e.dl, Min2(IF cfg.ttl # NONE THEN e.lm + cfg.ttl ELSE INF,
                            IF cfg.tti # NONE THEN e.la + cfg.tti ELSE INF))
Expired(s, g) == Limit(s.g[g]) <= s.now
Visible(s, g) == s.g[g].n # 0 /\ ~s.g[g].dead /\ ~Expired(s, g)

Leave(s, n, many, causes) ==
    IF many = 0 THEN s ELSE [s EXCEPT !.gone[n] = @ + many, !.causes[n] = @ \cup causes]

HiddenCauses(s, g) == (IF s.g[g].dead THEN {"Explicit"} ELSE {}) \cup (IF Expired(s, g) THEN {"Expired"} ELSE {})

Store(s, g, n, c, w, x) ==
    [s EXCEPT !.g[g] = [n |-> n, c |-> c, w |-> w, x |-> x, lm |-> s.now, la |-> s.now, dead |-> FALSE,
                        dl |-> IF ~cfg.exp \/ cfg.table[x].c = NONE THEN INF ELSE s.now + cfg.table[x].c]]

\* ---- without limit
PutU(s, op) ==
    LET g == op.g
        e == s.g[g]
        s1 == IF e.n = 0 THEN s
              ELSE Leave(s, e.n, cfg.sz[g], IF Visible(s, g) THEN {"Replaced"} ELSE HiddenCauses(s, g) \cup {"Replaced"})
    IN Store(s1, g, op.n, op.c, op.w, op.x)
GetU(s, op) ==
    LET g == op.g
        d == cfg.table[s.g[g].x].r
    IN IF Visible(s, g)
       THEN [s EXCEPT !.g[g].la = s.now,
                      !.g[g].dl = IF ~cfg.exp \/ d = KEEP THEN @ ELSE IF d = NONE THEN INF ELSE s.now + d]
       ELSE s
RemU(s, op) ==
    LET g == op.g
        e == s.g[g]
    IN IF e.n = 0 THEN s
       ELSE [Leave(s, e.n, cfg.sz[g], {"Explicit"} \cup HiddenCauses(s, g)) EXCEPT !.g[g].n = 0]

Holds(p, s, g) == CASE p = 1 -> g % 2 = 1 [] p = 2 -> s.g[g].c = 1 [] p = 3 -> TRUE
Hide(s, G) == [s EXCEPT !.now = @ + 16,
                        !.g = [g \in Groups |-> IF g \in G THEN [s.g[g] EXCEPT !.dead = TRUE] ELSE s.g[g]]]

RECURSIVE SweepU(_, _)
SweepU(s, G) ==
    IF G = {} THEN s
    ELSE LET g == CHOOSE g \in G : TRUE
             e == s.g[g]
         IN SweepU(IF e.n # 0 /\ ~Visible(s, g)
                   THEN [Leave(s, e.n, cfg.sz[g], HiddenCauses(s, g)) EXCEPT !.g[g].n = 0] ELSE s, G \ {g})

\* ---- with a limit (LRU): q is a sequence of [g, n, l, h], least recent first
Of(q, g) == SelectSeq(q, LAMBDA r : r.g = g)
Others(q, g) == SelectSeq(q, LAMBDA r : r.g # g)
RECURSIVE Parts(_, _, _)
\* The members of a group, in order, with what is known of them before.
Parts(q, j, s) == IF j = 0 THEN s ELSE Parts(q, j - 1, Leave(s, q[j].n, q[j].h - q[j].l + 1, {"Replaced", "Size"}))
PutB(s, op) ==
    LET g == op.g
        old == Of(s.q, g)
    IN [Parts(old, Len(old), s) EXCEPT !.q = Append(Others(s.q, g), [g |-> g, n |-> op.n, l |-> 1, h |-> cfg.sz[g]]),
                                       !.room = FALSE]
\* Reads go through the members in order; ranges of a group never overlap.
RECURSIVE InOrder(_)
InOrder(q) == IF q = <<>> THEN <<>>
              ELSE LET m == CHOOSE j \in DOMAIN q : \A i \in DOMAIN q : q[j].l <= q[i].l
                   IN <<q[m]>> \o InOrder(SubSeq(q, 1, m - 1) \o SubSeq(q, m + 1, Len(q)))
GetB(s, op) == [s EXCEPT !.q = Others(s.q, op.g) \o InOrder(Of(s.q, op.g))]
RECURSIVE RemParts(_, _, _)
RemParts(q, j, s) == IF j = 0 THEN s ELSE RemParts(q, j - 1, Leave(s, q[j].n, q[j].h - q[j].l + 1, {"Explicit"}))
RemB(s, op) == [RemParts(Of(s.q, op.g), Len(Of(s.q, op.g)), s) EXCEPT !.q = Others(s.q, op.g)]
RECURSIVE SweepB(_)
SweepB(s) ==
    LET over == SumSeq(s.q, Len(s.q)) - cfg.cap
        r == Head(s.q)
        size == r.h - r.l + 1
    IN IF over <= 0 THEN s
       ELSE IF size <= over THEN SweepB([Leave(s, r.n, size, {"Size"}) EXCEPT !.q = Tail(@)])
       ELSE [Leave(s, r.n, over, {"Size"}) EXCEPT !.q = <<[r EXCEPT !.l = @ + over]>> \o Tail(s.q)]

-----------------------------------------------------------------------------
Settle(s) == IF Bounded THEN SweepB(s) ELSE SweepU(s, Groups)

Single(s, op) ==
    CASE op.op = "ins" -> IF Bounded THEN Settle(PutB(Settle(s), op)) ELSE PutU(s, op)
      [] op.op = "get" -> IF Bounded THEN GetB(Settle(s), op)
                          ELSE GetU(IF cfg.tti # NONE THEN Settle(s) ELSE s, op)
      [] op.op \in {"rem", "inv"} -> IF Bounded THEN RemB(Settle(s), op) ELSE RemU(s, op)
      [] op.op = "con" -> s
      [] op.op = "it" -> s
      [] op.op = "ia" -> Hide(s, Groups)
      [] op.op = "iif" -> Hide(s, {g \in Groups : Holds(op.o, s, g)})
      [] op.op = "adv" -> [s EXCEPT !.now = @ + op.o]
      [] op.op = "settle" -> Settle(s)
      \* (A single maintenance may stop in the middle of a sweep.)
      [] op.op = "sync" -> IF Bounded THEN Settle(s) ELSE s

RECURSIVE Each(_, _)
Each(s, ops) == IF ops = <<>> THEN s ELSE Each(Single(s, Head(ops)), Tail(ops))

\* What is to be seen: the ranges present (and visible), by group.
Have(s) == [g \in Groups |->
    IF Bounded THEN [j \in 1 .. Len(Of(s.q, g)) |-> <<Of(s.q, g)[j].n, Of(s.q, g)[j].l, Of(s.q, g)[j].h>>]
    ELSE IF Visible(s, g) THEN <<<<s.g[g].n, 1, cfg.sz[g]>>>> ELSE <<>>]
\* Of each group, what is there but no longer visible.
Unswept(s) == [g \in Groups |-> IF ~Bounded /\ ~Visible(s, g) THEN s.g[g].n ELSE 0]
Count(s) == IF Bounded THEN SumSeq(s.q, Len(s.q))
            ELSE SumSet({g \in Groups : s.g[g].n # 0}, [g \in Groups |-> cfg.sz[g]])
Weight(s) == IF Bounded \/ ~cfg.wgh THEN Count(s)
             ELSE SumSet({g \in Groups : s.g[g].n # 0}, [g \in Groups |-> cfg.sz[g] * s.g[g].w])

Step(ops, threads) ==
    LET s1 == Each(st, ops)
    IN /\ st' = [s1 EXCEPT !.nn = @ + Len(ops)]
       /\ hist' = Append(hist, [ops |-> ops, th |-> threads, hid |-> Unswept(st), t |-> s1.now, have |-> Have(s1), ec |-> Count(s1), ws |-> Weight(s1),
                                settled |-> ops[Len(ops)].op = "settle" \/ (Bounded /\ ops[Len(ops)].op # "sync"),
                                ev |-> [n \in 1 .. st.nn + Len(ops) - 1 |-> <<s1.gone[n], s1.causes[n]>>]])
       /\ UNCHANGED <<cfg, prof>>

-----------------------------------------------------------------------------
(* Profiles.                                                                *)

Base == [cap |-> {NONE}, ttl |-> {NONE}, tti |-> {NONE}, exp |-> {FALSE}, inval |-> {FALSE}, wgh |-> {TRUE, FALSE},
         nseg |-> {1, 1, 4}, lis |-> {TRUE}, hash |-> {0, 0, 1, 2, 3, 4}, icap |-> {NONE, NONE, 0, 1, 100, 2000},
         ng |-> {2, 3, 4}, sz |-> {1, 3, 20, 64, 100, 383, 384, 385, 500, 900},
         adv |-> <<16, 32, 160>>, ops |-> Rep("ins", 4) \o <<"get", "rem", "rem", "settle", "settle">>, par |-> 1 .. 1, th |-> {1}]

ProfileOf(name) ==
    CASE name = "grow" -> [Base EXCEPT !.ops = Rep("ins", 4) \o <<"rem", "rem", "rem", "inv", "get", "settle", "it">>,
                              !.th = {1, 4}, !.lis = {TRUE, FALSE}]
      [] name = "par" -> [Base EXCEPT !.ops = Rep("ins", 3) \o <<"rem", "rem", "it", "it", "get", "settle">>, !.ng = {4, 5},
                              !.th = {1, 2}, !.par = 2 .. 4, !.lis = {TRUE, FALSE}, !.hash = {0, 0, 2, 3, 4}]
      [] name = "ttl" -> [Base EXCEPT !.ttl = {24, 40, 168, 1000}, !.tti = {NONE, NONE, 40},
                              !.ops = Rep("ins", 4) \o <<"get", "get", "rem">> \o Rep("settle", 3) \o Rep("adv", 4)]
      [] name = "tti" -> [Base EXCEPT !.tti = {24, 40, 168}, !.ttl = {NONE, NONE, 104},
                              !.ops = Rep("ins", 4) \o <<"get", "get", "get", "rem">> \o Rep("settle", 3) \o Rep("adv", 4)]
      [] name = "exp" -> [Base EXCEPT !.exp = {TRUE}, !.adv = <<16, 32, 160, 1024, 2048, 70000 * 16>>,
                              !.ops = Rep("ins", 5) \o <<"get", "get", "rem">> \o Rep("settle", 3) \o Rep("adv", 4)]
      [] name = "ia" -> [Base EXCEPT !.ttl = {NONE, NONE, 40}, !.tti = {NONE, NONE, 40}, !.exp = {FALSE, TRUE}, !.inval = {TRUE, FALSE},
                              !.ops = Rep("ins", 4) \o <<"get", "rem", "ia", "ia", "adv">> \o Rep("settle", 3)]
      [] name = "iif" -> [Base EXCEPT !.inval = {TRUE}, !.ttl = {NONE, NONE, 40},
                              !.ops = Rep("ins", 4) \o <<"get", "rem", "iif", "iif", "iif", "sync", "adv">> \o Rep("settle", 3)]
      [] name = "lru" -> [Base EXCEPT !.cap = {1, 10, 64, 100, 384, 500, 1000}, !.sz = {1, 3, 20, 64, 100, 384, 500, 900}, !.nseg = {1},
                              !.hash = {0, 2, 3, 4}, !.ops = Rep("ins", 4) \o <<"get", "get", "rem", "settle">>, !.wgh = {FALSE}]

Odd(S) == {x \in S : x % 16 = 8}
Pick(P) ==
    LET hash == Draw(P.hash)
        ng == Draw(P.ng)
        dur == {NONE, 8, 24, 40, 168, 1000, 1016, 1032, 5000, 70008, 2000008}
    IN [cap |-> Draw(P.cap), ttl |-> Draw(P.ttl), tti |-> Draw(P.tti), exp |-> Draw(P.exp), inval |-> Draw(P.inval),
        wgh |-> Draw(P.wgh), nseg |-> Draw(P.nseg), lis |-> Draw(P.lis), hash |-> hash, icap |-> Draw(P.icap), pol |-> "lru",
        sz |-> [g \in 1 .. ng |-> LET z == Draw(P.sz) IN IF hash = 1 THEN Min2(z, 60) ELSE z],
        \* (Storing under a key not yet swept may count as an update: the answer is the same.)
        table |-> [x \in 1 .. 4 |-> LET d == IF x = 1 THEN NONE ELSE Draw(dur)
                                    IN [c |-> d, u |-> d, r |-> IF x = 1 THEN KEEP ELSE Draw({KEEP, KEEP, NONE, 8, 40, 1000})]]]

Init == \E i \in 1 .. 60 :
        \E P \in {ProfileOf(Profile)} :
        \E C \in {Pick(P)} :
           /\ cfg = C /\ prof = P /\ hist = <<>>
           /\ st = [now |-> 0, q |-> <<>>, nn |-> 1, room |-> TRUE,
                    gone |-> [n \in 1 .. 4 * Depth + 4 |-> 0], causes |-> [n \in 1 .. 4 * Depth + 4 |-> {}],
                    g |-> [g \in DOMAIN C.sz |-> [n |-> 0, c |-> 0, w |-> 1, x |-> 1, lm |-> 0, la |-> 0, dl |-> INF, dead |-> FALSE]]]

MakeOp(z, g, n) ==
    [op |-> z, g |-> g, n |-> n, c |-> Draw({0, 1}), w |-> IF cfg.wgh THEN Draw({0, 1, 2, 7}) ELSE 1,
     x |-> IF cfg.exp THEN Draw(1 .. 4) ELSE 1,
     o |-> CASE z = "adv" -> OneOf(prof.adv) [] z = "iif" -> Draw({1, 2, 2, 3}) [] OTHER -> 0]

Alone == {"settle", "adv", "ia", "iif", "sync"}
Next ==
    /\ Len(hist) < Depth
    /\ \E m \in {Draw(prof.par)} :
       \E zs \in {[j \in 1 .. m |-> OneOf(prof.ops)]} :
       \E gs \in {[j \in 1 .. m |-> Draw(Groups)]} :
       \E th \in {Draw(prof.th)} :
       LET last == Len(hist) = Depth - 1
           alone == last \/ \E j \in 1 .. m : zs[j] \in Alone
           z1 == IF last THEN "settle" ELSE LET j == CHOOSE j \in 1 .. m : zs[j] \in Alone IN zs[j]
           free == \A i, j \in 1 .. m : i # j /\ zs[i] # "it" /\ zs[j] # "it" => gs[i] # gs[j]
       IN IF alone THEN Step(<<MakeOp(z1, 1, st.nn)>>, 1)
          ELSE IF free THEN Step([j \in 1 .. m |-> MakeOp(zs[j], gs[j], st.nn + j - 1)], IF Bounded \/ cfg.tti # NONE THEN 1 ELSE th)
          ELSE Step(<<MakeOp(zs[1], gs[1], st.nn)>>, IF Bounded \/ cfg.tti # NONE THEN 1 ELSE th)

SimSpec == Init /\ [][Next]_vars
Emitted == Len(hist) < Depth \/ PrintT("@@" \o ToJson([cfg |-> cfg, steps |-> hist]))

\* Of each generation, what is present and what has left makes up all that was stored.
Inv == LET stored(n) == \E j \in DOMAIN hist : \E i \in DOMAIN hist[j].ops :
                            hist[j].ops[i].n = n /\ hist[j].ops[i].op = "ins"
       IN \A n \in 1 .. st.nn - 1 :
            LET here == IF Bounded THEN LET r == SelectSeq(st.q, LAMBDA r : r.n = n) IN SumSeq(r, Len(r))
                        ELSE SumSet({g \in Groups : st.g[g].n = n}, [g \in Groups |-> cfg.sz[g]])
            IN \/ st.gone[n] + here = 0
               \/ stored(n) /\ \E g \in Groups : st.gone[n] + here = cfg.sz[g]
=============================================================================
