------------------------------ MODULE MokaLin ------------------------------
(***************************************************************************)
(* What histories of concurrent calls a moka cache may produce. A history   *)
(* recorded from the real code is a sequence of events: calls and returns,  *)
(* the beginning and end of listener and closure invocations, futures being *)
(* dropped, and the state found at rest. It is accepted if the operations   *)
(* can be given points between their calls and returns at which they take   *)
(* effect on the contract (one value per key), such that every event        *)
(* agrees. Maintenance may take an entry out between any two steps if it is *)
(* expired or invalidated or if the capacity has been exceeded.             *)
(*                                                                         *)
(* Events: c call, r return, d future dropped, n/m listener begins/ends,    *)
(* i/j user closure begins/ends, f final state.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Diag      \* print how far each history gets
CONSTANT Lenient   \* also accept what the recorded findings explain (and say so)

Progs == ndJsonDeserialize(IOEnv.PROGS)
Hists == ndJsonDeserialize(IOEnv.HISTS)

VARIABLES h, pos, s
vars == <<h, pos, s>>

NONE == -1
KEEP == -2
INF  == 1000000000
NoVal == [n |-> 0, w |-> 0, x |-> 0, c |-> 0]
Min2(a, b) == IF a < b THEN a ELSE b

H == Hists[h]
P == Progs[H.p + 1]
cfg == P.cfg
Keys == 1 .. P.nk
Threads == 0 .. Len(P.th)
OpsOf(t) == IF t = 0 THEN P.pre \o P.post ELSE P.th[t]
Lis == cfg.lis
\* Fillers are other keys; what becomes of them is checked by the harness. Here they only take room.
HasFill == \E t \in Threads : \E i \in DOMAIN OpsOf(t) : OpsOf(t)[i].op = "fill"
HasHiding == \E t \in Threads : \E i \in DOMAIN OpsOf(t) : OpsOf(t)[i].op \in {"ia", "iif"}

RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN 0
                ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumSet(S \ {x}, f)

-----------------------------------------------------------------------------
(* The contract. q: the state record                                        *)
(*  e     key -> the value present, when it was stored and read, its own     *)
(*        expiration, and whether it has been invalidated                   *)
(*  left  key -> values which left and are not yet notified                 *)
(*  lis   key -> a listener call is going on                                *)
(*  th    the calls going on                                                *)
(*  over  whether the capacity has ever been exceeded                       *)

Weight(v) == IF cfg.wgh THEN v.w ELSE 1

Limit(e) == Min2(e.dl, Min2(IF cfg.ttl # NONE THEN e.lm + cfg.ttl ELSE INF,
                            IF cfg.tti # NONE THEN e.la + cfg.tti ELSE INF))
Gone(q, k) == Limit(q.e[k]) <= q.now
Visible(q, k) == q.e[k].n # 0 /\ ~q.e[k].dead /\ ~Gone(q, k)
VisiblePairs(q) == {<<k, q.e[k].n>> : k \in {k \in Keys : Visible(q, k)}}
Remaining(e, t) == IF Limit(e) >= INF \/ Limit(e) <= t THEN NONE ELSE Limit(e) - t
Deadline(d, given, dl, t) ==
    IF d = NONE \/ (d = KEEP /\ given = NONE) THEN INF
    ELSE IF d = KEEP \/ d = given THEN dl
    ELSE t + d

PredHolds(p, k, v) == CASE p = 1 -> k % 2 = 1 [] p = 2 -> v.c = 1 [] p = 3 -> TRUE

Phys(q) == {k \in Keys : q.e[k].n # 0}
PhysWeight(q) == SumSet(Phys(q), [k \in Keys |-> Weight(q.e[k].v)])
Over(q) == \/ q.over
           \/ cfg.cap # NONE /\ (cfg.nseg # 1 \/ HasFill)
           \/ cfg.cap # NONE /\ PhysWeight(q) + SumSet(Threads, [t \in Threads |-> q.th[t].pw]) + q.lost > cfg.cap

GetWith == {"gw", "gwif", "ogw", "tgw"}
Compute == {"cmp", "tcmp", "ups"}
StoringOps == GetWith \cup Compute \cup {"ins", "oi"}
ReadingOps == GetWith \cup Compute \cup {"get", "oi"}

Storing(q, t, k) ==
    \E u \in Threads \ {t} :
        /\ q.th[u].op.k = k
        /\ \/ q.th[u].ph = "called" /\ q.th[u].op.op = "ins"
           \/ q.th[u].ph = "toinsert"
           \/ q.th[u].ph = "toapply" /\ q.th[u].op.o = "put"
Hidden(q, k) == q.e[k].n # 0 /\ ~Visible(q, k)

\* Iterations going on: what they must still yield, and what they may.
Track(q) ==
    LET vp == VisiblePairs(q)
    IN [q EXCEPT !.over = Over(q),
                 !.th = [t \in Threads |->
                    IF q.th[t].ph = "called" /\ q.th[t].op.op = "it"
                    THEN [q.th[t] EXCEPT !.must = @ \cap vp, !.may = @ \cup vp,
                            !.old = IF Lenient THEN @ \cup {<<k, q.e[k].n>> : k \in {k \in Keys : Hidden(q, k) /\ Storing(q, t, k)}}
                                    ELSE @]
                    ELSE q.th[t]]]

Leave(q, k, causes, t) ==
    IF Lis THEN [q EXCEPT !.left[k] = Append(@, [n |-> q.e[k].n, c |-> causes, by |-> t])] ELSE q

CausesOfUpdate(q, k) ==
    (IF Visible(q, k) THEN {"Replaced"} ELSE {})
    \cup (IF q.e[k].dead THEN {"Explicit"} ELSE {})
    \cup (IF Gone(q, k) THEN {"Expired", "Replaced"} ELSE {})
    \cup (IF HasHiding THEN {"Explicit", "Replaced"} ELSE {})
CausesOfRemoval(q, k) == {"Explicit"} \cup (IF Gone(q, k) THEN {"Expired"} ELSE {})

NewDeadline(q, k, v) ==
    LET e == q.e[k]
        dC == cfg.table[v.x].c
    IN IF ~cfg.exp THEN INF
       ELSE IF e.n # 0 THEN Deadline(cfg.table[v.x].u, Remaining([e EXCEPT !.lm = q.now, !.la = q.now], q.now), e.dl, q.now)
       ELSE IF dC = NONE THEN INF ELSE q.now + dC

\* Somebody has taken the time of an invalidation and not yet made it known.
Marked(q) == \E u \in Threads : q.th[u].ph = "marked"

\* The time of a value is that of the beginning of the call: an invalidation during the call may come
\* to hide it (snk). A predicate may moreover be dropped before the call has ended, and what it hid
\* come into sight (dim).
Put(q, t, k, v) ==
    LET e == q.e[k]
        was == e.n # 0
        q1 == IF was THEN [Leave(q, k, CausesOfUpdate(q, k), t) EXCEPT !.th[t].pw = @ + Weight(e.v)] ELSE q
        hid == q.th[t].hid
    IN IF cfg.cap = 0 THEN q      \* (Such a cache stores nothing, and tells nobody.)
       ELSE [q1 EXCEPT !.e[k] = [n |-> v.n, v |-> v, lm |-> q.now, la |-> q.now, dead |-> FALSE,
                                 dl |-> NewDeadline(q, k, v),
                                 snk |-> 0 \in hid,
                                 dim |-> \E p \in hid \ {0} : PredHolds(p, k, v),
                                 pin |-> IF hid # {} \/ Marked(q) THEN 1 ELSE 0],
                       !.th[t].dl = NewDeadline(q, k, v)]

Touch(q, k) ==
    LET e == q.e[k]
    IN [q EXCEPT !.e[k].la = q.now,
                 !.e[k].pin = IF @ = 0 /\ Marked(q) THEN 2 ELSE @,
                 !.e[k].dl = IF cfg.exp THEN Deadline(cfg.table[e.v.x].r, Remaining(e, q.now), e.dl, q.now) ELSE @]

Take(q, t, k) ==
    [Leave(q, k, CausesOfRemoval(q, k), t) EXCEPT !.e[k].n = 0, !.th[t].pw = @ + Weight(q.e[k].v)]

\* An invalidation (p: the predicate, 0 for all) concerns what was there at some time of the call (Mark)
\* and takes effect at another. What is stored or read meanwhile may stay in memory (pin).
\* A segmented cache does so for one segment after the other.
SegAfter(g) == LET later == {cfg.seg[k] : k \in Keys} \cap {j \in 1 .. cfg.nseg : j > g}
               IN IF later = {} THEN 0 ELSE CHOOSE j \in later : \A i \in later : j <= i
Mark(q, t, S, p) ==
    [q EXCEPT !.th = [u \in Threads |->
        IF u = t THEN [q.th[u] EXCEPT !.ph = "marked", !.g = SegAfter(@),
                                      !.old = {<<k, q.e[k].n>> : k \in {k \in S : cfg.seg[k] = SegAfter(q.th[u].g)}}]
        ELSE IF q.th[u].ph # "idle" THEN [q.th[u] EXCEPT !.hid = @ \cup {p}]
        ELSE q.th[u]]]
Hide(q, t, p) ==
    LET going(k, ops) == \E u \in Threads \ {t} : q.th[u].ph # "idle" /\ q.th[u].op.k = k /\ q.th[u].op.op \in ops
    IN [q EXCEPT !.e = [k \in Keys |->
                           IF <<k, q.e[k].n>> \in q.th[t].old
                           THEN [q.e[k] EXCEPT !.dead = TRUE,
                                    !.dim = @ \/ (p # 0 /\ going(k, StoringOps)),
                                    !.pin = IF @ = 1 \/ going(k, StoringOps) THEN 1
                                            ELSE IF @ = 2 \/ going(k, ReadingOps) THEN 2 ELSE 0]
                           ELSE q.e[k]]]

EvictCauses(q, k) ==
    (IF q.over THEN {"Size"} ELSE {})
    \cup (IF q.e[k].dead THEN {"Explicit"} ELSE {})
    \cup (IF Gone(q, k) THEN {"Expired"} ELSE {})
Evict(q, k) == [Leave(q, k, EvictCauses(q, k), NONE) EXCEPT !.e[k].n = 0]

-----------------------------------------------------------------------------
(* Calls.                                                                   *)

Idle == [ph |-> "idle", i |-> 0, op |-> [op |-> "", k |-> 1, v |-> NoVal, o |-> ""], r |-> "", n |-> 0, f |-> NONE,
         g |-> 0, led |-> FALSE, off |-> {}, must |-> {}, may |-> {}, old |-> {}, pw |-> 0, dl |-> NONE, hid |-> {}]

Kind(o) == CASE o \in {"gw", "gwif"} -> "w" [] o \in Compute -> "c" [] OTHER -> o

Same(q, t, u) == u # t /\ q.th[u].op.k = q.th[t].op.k /\ Kind(q.th[u].op.op) = Kind(q.th[t].op.op)

Done(q, t, r, n, f) == [q EXCEPT !.th[t].ph = "done", !.th[t].r = r, !.th[t].n = n, !.th[t].f = f]

\* The result of an evaluation becomes known to those waiting for it.
Waiting == {"called", "missed", "again"}
Shared(m) == <<m.r, IF m.r = "err" THEN m.op.v.n ELSE m.n>>
Publish(q, t) ==
    [q EXCEPT !.th = [u \in Threads |->
        IF u = t THEN [q.th[u] EXCEPT !.led = TRUE]
        ELSE IF Same(q, t, u) /\ q.th[u].ph \in Waiting
        THEN [q.th[u] EXCEPT !.off = @ \cup {Shared(q.th[t])}]
        ELSE q.th[u]]]

\* A caller which finds itself in charge after an evaluation looks again.
LookAgain(q, t) ==
    [q EXCEPT !.th = [u \in Threads |->
        IF Same(q, t, u) /\ q.th[u].ph = "missed" THEN [q.th[u] EXCEPT !.ph = "again"] ELSE q.th[u]]]

Hit(q, t) == LET k == q.th[t].op.k
             IN Visible(q, k) /\ ~(q.th[t].op.op = "gwif" /\ q.e[k].v.c = 1)

LinAt(q, t) ==
    LET m == q.th[t]
        o == m.op.op
        k == m.op.k
        v == m.op.v
        n == q.e[k].n
        vis == Visible(q, k)
    IN CASE m.ph = "called" ->
         (CASE o = "ins" -> {Done(Put(q, t, k, v), t, "unit", 0, NONE)}
            [] o = "get" -> {IF vis THEN Done(Touch(q, k), t, "val", n, NONE) ELSE Done(q, t, "none", 0, NONE)}
            [] o = "con" -> {Done(q, t, IF vis THEN "val" ELSE "none", 0, NONE)}
            [] o = "rem" -> IF n = 0 THEN {Done(q, t, "none", 0, NONE)}
                            ELSE {Done(Take(q, t, k), t, "val", n, NONE)}
                                 \cup (IF vis THEN {} ELSE {Done(Take(q, t, k), t, "none", 0, NONE)})
            [] o = "inv" -> {Done(IF n = 0 THEN q ELSE Take(q, t, k), t, "unit", 0, NONE)}
            [] o = "ia"  -> {Mark(q, t, Phys(q), 0)}
            [] o = "iif" -> {IF cfg.inval THEN Mark(q, t, {j \in Phys(q) : PredHolds(m.op.o, j, q.e[j].v)}, m.op.o)
                             ELSE Done(q, t, "err", 0, NONE)}
            [] o \in {"sync", "adv", "fill"} -> {Done(IF o = "adv" THEN [q EXCEPT !.now = @ + m.op.o] ELSE q, t, "unit", 0, NONE)}
            [] o = "oi"  -> {IF vis THEN Done(Touch(q, k), t, "val", n, 0) ELSE [q EXCEPT !.th[t].ph = "toinsert"]}
            [] o \in GetWith ->
                 {IF Hit(q, t) THEN Done(Touch(q, k), t, "val", n, 0) ELSE [q EXCEPT !.th[t].ph = "missed"]}
            [] o \in Compute ->
                 IF \E u \in Threads : Same(q, t, u) /\ q.th[u].ph \in {"read", "clos", "toapply"} THEN {}
                 ELSE {IF vis THEN [Touch(q, k) EXCEPT !.th[t].ph = "read", !.th[t].g = n]
                       ELSE [q EXCEPT !.th[t].ph = "read", !.th[t].g = 0]}
            [] OTHER -> {})
       [] m.ph = "marked" -> LET q1 == Hide(q, t, IF o = "ia" THEN 0 ELSE m.op.o)
                             IN {IF SegAfter(m.g) = 0 THEN Done(q1, t, "unit", 0, NONE) ELSE [q1 EXCEPT !.th[t].ph = "called"]}
       [] m.ph = "missed" ->
            \* The second look, by the one in charge.
            IF Hit(q, t) THEN {Publish(Done(q, t, "val", n, 0), t)} ELSE {}
       [] m.ph = "again" ->
            IF Hit(q, t) THEN {Publish(Done(q, t, "val", n, 0), t)} ELSE {[q EXCEPT !.th[t].ph = "missed"]}
       [] m.ph = "toinsert" ->
            LET q1 == Done(Put(q, t, k, v), t, "val", v.n, 1)
            IN IF o = "oi" THEN {q1} ELSE {LookAgain(Publish(q1, t), t)}
       [] m.ph = "toapply" ->
            IF m.op.o = "put" THEN {Done(Put(q, t, k, v), t, IF m.g # 0 THEN "ReplacedWith" ELSE "Inserted", v.n, 1)}
            ELSE IF n = 0 THEN {Done(q, t, "StillNone", 0, NONE)}
            ELSE {Done(Take(q, t, k), t, "Removed", n, 0)}
                 \cup (IF vis THEN {} ELSE {Done(Take(q, t, k), t, "StillNone", 0, NONE)})
       [] OTHER -> {}

\* The recorded findings.
\* 1. A reader which has found the old value, hidden as it is, may return it while another thread is
\*    storing a new one (the times of the entry are shared between its values, and are set first).
Revived(e, now) == [e EXCEPT !.dead = FALSE, !.lm = now, !.la = now, !.dl = INF]
Reading(m) == \/ m.ph = "called" /\ m.op.op \in {"get", "con", "oi"} \cup GetWith \cup Compute
              \/ m.ph \in {"missed", "again"}
Stale(q, t) ==
    LET k == q.th[t].op.k
    IN IF Reading(q.th[t]) /\ Hidden(q, k) /\ Storing(q, t, k)
       THEN {[r EXCEPT !.e[k] = q.e[k], !.odd = @ \cup {"stale"}] :
                r \in LinAt([q EXCEPT !.e[k] = Revived(@, q.now)], t)}
       ELSE {}
\* 2. The answer of the Expiry for a value may be recorded after a newer value has been stored.
Late(q, t) ==
    LET m == q.th[t]
        k == m.op.k
    IN IF m.dl # NONE /\ m.ph = "done" /\ q.e[k].n \notin {0, m.n, m.op.v.n} /\ q.e[k].dl # m.dl
       THEN {[q EXCEPT !.e[k].dl = m.dl, !.odd = @ \cup {"late"}]} ELSE {}

Lin(q, t) == LinAt(q, t) \cup (IF Lenient THEN Stale(q, t) \cup Late(q, t) ELSE {})

-----------------------------------------------------------------------------
(* Events: the set of states after the event, empty if it does not agree.    *)

Call(q, ev) ==
    LET t == ev.t
        o == OpsOf(t)[q.th[t].i + 1]
        vp == VisiblePairs(q)
        leaders == {u \in Threads : u # t /\ q.th[u].ph = "done" /\ q.th[u].led /\ q.th[u].op.k = o.k
                                     /\ Kind(q.th[u].op.op) = Kind(o.op)}
    IN IF q.th[t].ph # "idle" \/ o.op # ev.s THEN {}
       ELSE {[q EXCEPT !.th[t] = [Idle EXCEPT !.ph = "called", !.i = q.th[t].i + 1, !.op = o,
                  !.off = {Shared(q.th[u]) : u \in leaders}, !.must = vp, !.may = vp]]}

NothingOwed(q, t) == \A k \in Keys : \A j \in DOMAIN q.left[k] : q.left[k][j].by # t

Return(q, ev) ==
    LET t == ev.t
        m == q.th[t]
        o == m.op.op
        fresh(f) == ev.f = NONE \/ f = NONE \/ ev.f = f
        back == [q EXCEPT !.th[t] = [Idle EXCEPT !.i = m.i]]
    IN IF o = "it"
       THEN LET l == {<<ev.l[j][1], ev.l[j][2]>> : j \in DOMAIN ev.l}
                odd == l \ m.may
            IN IF m.ph = "called" /\ m.must \subseteq l /\ odd \subseteq m.old
                  /\ Cardinality({p[1] : p \in l}) = Len(ev.l)
               THEN {IF odd = {} THEN back ELSE [back EXCEPT !.odd = @ \cup {"stale"}]} ELSE {}
       ELSE IF ev.k # m.op.k \/ ~NothingOwed(q, t) THEN {}
       ELSE IF m.ph = "done" /\ ev.s = m.r /\ ev.n = m.n /\ fresh(m.f) THEN {back}
       ELSE IF o \in GetWith /\ m.ph \in Waiting /\ <<ev.s, ev.n>> \in m.off /\ fresh(0) THEN {back}
       ELSE {}

Notify(q, ev) ==
    LET k == ev.k
        given(x) == IF x.left[k] # <<>> /\ Head(x.left[k]).n = ev.n /\ ev.s \in Head(x.left[k]).c /\ x.lis[k] = 0
                    THEN {[x EXCEPT !.left[k] = Tail(@), !.lis[k] = ev.n]} ELSE {}
    IN given(q) \cup
       (IF q.left[k] = <<>> /\ q.e[k].n = ev.n /\ ev.s \in EvictCauses(q, k)
        THEN {Track(x) : x \in given(Evict(q, k))} ELSE {})

Begin(q, ev) ==
    LET t == ev.t
        m == q.th[t]
    IN IF m.op.op \in GetWith
       THEN IF m.ph = "missed" /\ ~\E u \in Threads : Same(q, t, u) /\ q.th[u].ph \in {"init", "toinsert"}
            THEN {[q EXCEPT !.th[t].ph = "init"]} ELSE {}
       ELSE IF m.op.op \in Compute /\ m.ph = "read" /\ m.g = ev.n THEN {[q EXCEPT !.th[t].ph = "clos"]}
       ELSE IF m.op.op = "oi" /\ m.ph = "toinsert" THEN {q}
       ELSE {}

End(q, ev) ==
    LET t == ev.t
        m == q.th[t]
        o == m.op.o
    IN IF m.op.op = "oi" THEN {q}
       ELSE IF m.op.op \in GetWith /\ m.ph = "init"
       THEN {IF o = "ok" THEN [q EXCEPT !.th[t].ph = "toinsert"]
             ELSE IF o = "panic" THEN Done(q, t, "panic", 0, NONE)
             ELSE Publish(Done(q, t, o, 0, NONE), t)}
       ELSE IF m.op.op \in Compute /\ m.ph = "clos"
       THEN {IF o \in {"put", "rem"} THEN [q EXCEPT !.th[t].ph = "toapply"]
             ELSE IF o = "nop"
             THEN Done(q, t, IF m.g # 0 THEN "Unchanged" ELSE "StillNone", m.g, 0)
             ELSE Done(q, t, o, 0, NONE)}
       ELSE {}

\* What must be so at rest after maintenance. (Each in its own conjunct for the diagnosis.)
RestEv(q) == \A k \in Keys : q.left[k] = <<>>
RestLive(q, ev) == {<<ev.l[j][1], ev.l[j][2]>> : j \in DOMAIN ev.l} = VisiblePairs(q)
                   /\ Len(ev.l) = Cardinality(VisiblePairs(q))
                   /\ {ev.x[j] : j \in DOMAIN ev.x} = {p[1] : p \in VisiblePairs(q)}
RestEc(q, ev) == ev.k = Cardinality(Phys(q)) + ev.y
RestWs(q, ev) == ev.n = PhysWeight(q) + ev.z
RestCap(q, ev) == cfg.cap = NONE \/ cfg.nseg # 1 \/ PhysWeight(q) + ev.z <= cfg.cap
\* (An invalidated entry can stay behind one with a newer time, or have been given a newer time.)
Pinned(q, k) == \/ q.e[k].pin = 1
                \/ q.e[k].pin = 2 /\ Lenient /\ cfg.ttl = NONE /\ ~cfg.inval
RestGone(q) == \A k \in Phys(q) : (q.e[k].dead => Pinned(q, k)) /\ ~(cfg.ttl # NONE /\ q.e[k].lm + cfg.ttl <= q.now)

Final(q, ev) ==
    IF RestEv(q) /\ RestLive(q, ev) /\ RestEc(q, ev) /\ RestWs(q, ev) /\ RestCap(q, ev) /\ RestGone(q)
    THEN {IF \E k \in Phys(q) : q.e[k].dead /\ q.e[k].pin = 2 THEN [q EXCEPT !.odd = @ \cup {"pinned"}] ELSE q} ELSE {}

Drop(q, ev) == {[q EXCEPT !.th[ev.t] = [Idle EXCEPT !.i = q.th[ev.t].i], !.lost = @ + q.th[ev.t].pw]}

After(q, ev) ==
    CASE ev.e = "c" -> Call(q, ev)
      [] ev.e = "r" -> Return(q, ev)
      [] ev.e = "n" -> Notify(q, ev)
      [] ev.e = "m" -> IF q.lis[ev.k] = ev.n THEN {[q EXCEPT !.lis[ev.k] = 0]} ELSE {}
      [] ev.e = "i" -> Begin(q, ev)
      [] ev.e = "j" -> End(q, ev)
      [] ev.e = "d" -> Drop(q, ev)
      [] ev.e = "f" -> Final(q, ev)

\* An entry is taken out ahead of its notification only where somebody may notice.
Announced(k, n) == \E j \in pos .. Len(H.ev) :
    H.ev[j].e = "n" /\ H.ev[j].k = k /\ H.ev[j].n = n /\ H.ev[j].s # "Replaced"
Watched(q, k) == \/ \E t \in Threads : q.th[t].ph \notin {"idle", "done"} /\ (q.th[t].op.k = k \/ q.th[t].op.op = "it")
                 \/ H.ev[pos].e = "f"
Evictions(q) == {k \in Phys(q) : EvictCauses(q, k) # {} /\ q.left[k] = <<>> /\ Watched(q, k)
                                 /\ (Lis => Announced(k, q.e[k].n))}

Init == /\ h \in DOMAIN Hists
        /\ pos = 1
        /\ s = [e |-> [k \in Keys |-> [n |-> 0, v |-> NoVal, lm |-> 0, la |-> 0, dl |-> INF, dead |-> FALSE,
                                       snk |-> FALSE, dim |-> FALSE, pin |-> 0]],
                left |-> [k \in Keys |-> <<>>], lis |-> [k \in Keys |-> 0],
                th |-> [t \in Threads |-> Idle], now |-> 0, over |-> FALSE, lost |-> 0, odd |-> {}]

Consume == \E q \in After(s, H.ev[pos]) : s' = q /\ pos' = pos + 1
Internal == /\ H.ev[pos].e \notin {"c", "m"}
            /\ pos' = pos
            /\ \/ \E t \in Threads : \E q \in Lin(s, t) : s' = Track(q)
               \/ \E k \in Evictions(s) : s' = Track(Evict(s, k))
               \/ \E k \in Keys : s.e[k].n # 0 /\ s.e[k].dim /\ s' = Track([s EXCEPT !.e[k].dead = ~@])
               \/ \E k \in Keys : s.e[k].n # 0 /\ s.e[k].snk /\ s' = Track([s EXCEPT !.e[k].dead = TRUE, !.e[k].snk = FALSE])

Next == pos <= Len(H.ev) /\ h' = h /\ (Consume \/ Internal)
Spec == Init /\ [][Next]_vars

Why == IF pos <= Len(H.ev) /\ H.ev[pos].e = "f"
       THEN LET ev == H.ev[pos]
            IN <<RestEv(s), RestLive(s, ev), RestEc(s, ev), RestWs(s, ev), RestCap(s, ev), RestGone(s)>>
       ELSE <<>>
Accepted == /\ pos <= Len(H.ev) \/ PrintT("@@" \o ToString(h) \o (IF "stale" \in s.odd THEN " stale" ELSE "")
                                                           \o (IF "late" \in s.odd THEN " late" ELSE "")
                                                           \o (IF "pinned" \in s.odd THEN " pinned" ELSE ""))
            /\ Diag => PrintT("@@" \o ToString(h) \o " " \o ToString(pos) \o " " \o ToString(Why))
=============================================================================
