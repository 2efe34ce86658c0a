------------------------------ MODULE MokaCore ------------------------------
(***************************************************************************)
(* The state of one moka cache segment and every step the implementation   *)
(* takes on it, written as pure operators on a state record, so that the   *)
(* sequential specification (MokaSeq), the interleaved one (MokaConc) and   *)
(* the asynchronous one (MokaAsync) are all built from the same steps.      *)
(*                                                                         *)
(* g : the configuration of the cache (see MokaSeq!ConfigOf)                *)
(* c : the state record                                                    *)
(*      map   key -> id of the entry record in the hash table, 0 if absent *)
(*      val   key -> the value stored in the hash table                    *)
(*      inf   the entry records, by id                                     *)
(*      ao,wo access-order and write-order queues (of entry ids)           *)
(*      rq,wq recorded but unapplied reads and writes                      *)
(*      frq.. popularity estimator                                         *)
(*      ec,ws entry_count and weighted_size as of the last maintenance     *)
(*      va    time of the last invalidate_all                              *)
(*      pr    predicates of invalidate_entries_if, not yet scanned         *)
(*      tw..  hierarchical timer wheel of per-entry expirations            *)
(*      ra    time after which an operation runs the maintenance itself    *)
(*      ev    values removed and their causes, in the order of notification *)
(*      cb    calls made to the user's Expiry, in order                    *)
(*                                                                         *)
(* One unit of time is 2^26 ns, so that one slot of the finest level of the *)
(* timer wheel (2^30 ns) is 16 units and the 300 ms housekeeping interval   *)
(* is between 4 and 5 units.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Keys

LOCAL SX == INSTANCE SequencesExt
Fold(f(_, _), start, s) == SX!FoldLeft(f, start, s)

NONE == -1              \* no duration / no limit / no timestamp
KEEP == -2              \* Expiry callback: answer the duration it was given
INF  == 1000000000      \* no expiration time
NoVal == [n |-> 0, w |-> 0, x |-> 0, c |-> 0]

SYNC_INTERVAL == 5      \* 300 ms, rounded up to whole units
FLUSH_POINT == 64
BATCH == 384
SKETCH_SAMPLE == 1280   \* 10 * 128

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
SatSub(a, b) == IF a > b THEN a - b ELSE 0

RECURSIVE Pow2(_)
Pow2(e) == IF e = 0 THEN 1 ELSE 2 * Pow2(e - 1)

RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN 0
                ELSE LET s == CHOOSE s \in S : TRUE IN f[s] + SumSet(S \ {s}, f)

Has(s, i) == \E j \in DOMAIN s : s[j] = i
Drop(s, i) == SelectSeq(s, LAMBDA y : y # i)
MoveBack(s, i) == IF Has(s, i) THEN Append(Drop(s, i), i) ELSE s
Rotate(s) == IF s = <<>> THEN s ELSE Append(Tail(s), Head(s))
NextOf(s, i) == LET j == CHOOSE j \in DOMAIN s : s[j] = i
                IN IF j = Len(s) THEN 0 ELSE s[j + 1]

Empty(g, now) ==
    [ map |-> [k \in Keys |-> 0], val |-> [k \in Keys |-> NoVal], inf |-> <<>>,
      ao |-> <<>>, wo |-> <<>>, rq |-> <<>>, wq |-> <<>>,
      frq |-> [k \in Keys |-> 0], frqF |-> [j \in 1 .. g.nf |-> 0], frqSize |-> 0, frqOn |-> FALSE,
      ec |-> 0, ws |-> 0, va |-> NONE, pr |-> {},
      tw |-> <<>>, twOn |-> FALSE, twCur |-> now, ra |-> now + SYNC_INTERVAL,
      ev |-> <<>>, cb |-> <<>> ]

-----------------------------------------------------------------------------
(* Which entries a lookup may see.                                         *)

Dirty(c, i) == c.inf[i].eg # c.inf[i].pg

ExpiredEntry(i, now) == i.exp # INF /\ i.exp <= now
ExpiredTtl(g, lm, now) == g.ttl # NONE /\ lm + g.ttl <= now
ExpiredTti(g, la, now) == g.tti # NONE /\ la + g.tti <= now
Invalid(c, ts) == c.va # NONE /\ ts < c.va

PredHolds(p, k, v) == CASE p = 1 -> k % 2 = 1
                        [] p = 2 -> v.c = 1
                        [] p = 3 -> TRUE
PredHit(c, k, v, lm) == \E p \in c.pr : lm <= p.at /\ PredHolds(p.p, k, v)

WoGone(g, c, i, now) == Invalid(c, i.lm) \/ ExpiredTtl(g, i.lm, now)
AoGone(g, c, i, now) == Invalid(c, i.la) \/ ExpiredTti(g, i.la, now)

Live(g, c, k, now) ==
    /\ c.map[k] # 0
    /\ LET i == c.inf[c.map[k]]
       IN /\ ~ExpiredEntry(i, now)
          /\ ~WoGone(g, c, i, now)
          /\ ~AoGone(g, c, i, now)
          /\ ~PredHit(c, k, c.val[k], i.lm)

-----------------------------------------------------------------------------
(* Removal notifications and calls to the Expiry.                          *)

Emit(g, c, k, v, cause) == [c EXCEPT !.ev = Append(@, [k |-> k, n |-> v.n, c |-> cause])]

CauseOfUpsert(g, c, la, lm, now) ==
    IF ExpiredTtl(g, lm, now) THEN "Expired"
    ELSE IF Invalid(c, lm) THEN "Explicit"
    ELSE IF ExpiredTti(g, la, now) THEN "Expired"
    ELSE "Replaced"

CauseOfInvalidate(g, i, now) ==
    IF ExpiredTtl(g, i.lm, now) \/ ExpiredTti(g, i.la, now) THEN "Expired" ELSE "Explicit"

Answer(d, given) == IF d = KEEP THEN given ELSE d

(* The remaining duration given to the user's callback: the nearest of the  *)
(* three expiration times, NONE if there is none or if it has come.         *)
Remaining(g, i, now) ==
    LET a == i.exp
        b == IF g.ttl # NONE THEN i.lm + g.ttl ELSE INF
        d == IF g.tti # NONE THEN i.la + g.tti ELSE INF
        m == Min2(a, Min2(b, d))
    IN IF m >= INF \/ m <= now THEN NONE ELSE m - now

-----------------------------------------------------------------------------
(* Timer wheel.                                                            *)

Span(l)  == CASE l = 0 -> 16 [] l = 1 -> 1024 [] l = 2 -> 65536 [] l = 3 -> 2097152
              [] OTHER -> 8388608
Slots(l) == CASE l = 0 -> 64 [] l = 1 -> 64 [] l = 2 -> 32 [] l = 3 -> 4 [] OTHER -> 1

Bucket(c, exp) ==
    LET dur == SatSub(exp, c.twCur)
        at(l) == <<l, (exp \div Span(l)) % Slots(l)>>
    IN IF dur < Span(1) THEN at(0)
       ELSE IF dur < Span(2) THEN at(1)
       ELSE IF dur < Span(3) THEN at(2)
       ELSE IF dur < Span(4) THEN at(3)
       ELSE <<4, 0>>

InWheel(c, i) == \E j \in DOMAIN c.tw : c.tw[j].i = i
Unschedule(c, i) == [c EXCEPT !.tw = SelectSeq(@, LAMBDA t : t.i # i)]
Schedule(c, i) ==
    LET b == Bucket(c, c.inf[i].exp)
    IN [c EXCEPT !.twOn = TRUE, !.tw = Append(@, [i |-> i, l |-> b[1], x |-> b[2]])]

UpdateTimer(c, i) ==
    IF c.inf[i].exp # INF
    THEN Schedule(IF InWheel(c, i) THEN Unschedule(c, i) ELSE c, i)
    ELSE IF InWheel(c, i) THEN Unschedule(c, i) ELSE c

-----------------------------------------------------------------------------
(* Popularity estimator (exact: the harness gives keys hashes which do not  *)
(* collide in the sketch).                                                 *)

Counted(c, f, ff) ==
    LET s == c.frqSize + 1
    IN IF s < SKETCH_SAMPLE
       THEN [c EXCEPT !.frq = f, !.frqF = ff, !.frqSize = s]
       ELSE [c EXCEPT !.frq = [q \in Keys |-> f[q] \div 2],
                      !.frqF = [j \in DOMAIN ff |-> ff[j] \div 2],
                      !.frqSize = (s \div 2) - Cardinality({q \in Keys : f[q] % 2 = 1})
                                             - Cardinality({j \in DOMAIN ff : ff[j] % 2 = 1})]

Incr(c, k) ==
    IF ~c.frqOn \/ c.frq[k] = 15 THEN c
    ELSE Counted(c, [c.frq EXCEPT ![k] = @ + 1], c.frqF)

\* Other keys, never stored, which are looked up one after the other.
ScanOne(c, j) == IF ~c.frqOn \/ c.frqF[j] = 15 THEN c ELSE Counted(c, c.frq, [c.frqF EXCEPT ![j] = @ + 1])
Scan(c, passes) ==
    LET nf == Len(c.frqF)
    IN IF ~c.frqOn \/ nf = 0 THEN c ELSE Fold(ScanOne, c, [i \in 1 .. passes * nf |-> ((i - 1) % nf) + 1])

-----------------------------------------------------------------------------
(* Taking an entry out of the policies, and out of the cache.              *)

Unadmit(c, i) ==
    IF c.inf[i].adm
    THEN [c EXCEPT !.inf[i].adm = FALSE,
                   !.ec = @ - 1, !.ws = SatSub(@, c.inf[i].aw),
                   !.ao = Drop(@, i), !.wo = Drop(@, i)]
    ELSE c

HandleRemove(c, i) == Unadmit(Unschedule(c, i), i)

TakeOut(c, k) == [c EXCEPT !.map[k] = 0, !.val[k] = NoVal]

Evict(g, c, k, cause) ==
    LET i == c.map[k]
    IN HandleRemove(Emit(g, TakeOut(c, k), k, c.val[k], cause), i)

Admit(g, c, i, w) ==
    LET c1 == [c EXCEPT !.ec = @ + 1, !.ws = @ + w]
        c2 == UpdateTimer(c1, i)
    IN [c2 EXCEPT !.ao = Append(@, i),
                  !.wo = IF g.ttl # NONE \/ g.inval THEN Append(@, i) ELSE @,
                  !.inf[i].adm = TRUE, !.inf[i].aw = w]

-----------------------------------------------------------------------------
(* Applying recorded reads and writes.                                     *)

ApplyRead(c, o) ==
    CASE o.t = "M" -> Incr(c, o.k)
      [] o.t = "H" -> LET c1 == Incr(c, c.inf[o.i].k)
                          c2 == IF o.m THEN UpdateTimer(c1, o.i) ELSE c1
                      IN [c2 EXCEPT !.ao = MoveBack(@, o.i)]

RECURSIVE ApplyReads(_)
ApplyReads(c) == IF c.rq = <<>> THEN c
                 ELSE ApplyReads(ApplyRead([c EXCEPT !.rq = Tail(@)], Head(c.rq)))

SetPg(c, i, gen) == IF gen > c.inf[i].pg THEN [c EXCEPT !.inf[i].pg = gen] ELSE c

(* Aggregate potential victims from the least recently used end.           *)
RECURSIVE Victims(_, _, _, _, _, _, _, _)
Victims(c, nxt, vw, vf, vk, rt, cw, cf) ==
    IF nxt = 0 \/ ~(vw < cw /\ vf <= cf /\ rt <= 5)
    THEN [c |-> c, w |-> vw, f |-> vf, ks |-> vk]
    ELSE LET i == nxt
             n2 == NextOf(c.ao, i)
             k == c.inf[i].k
             moved == [c EXCEPT !.ao = MoveBack(@, i)]
         IN IF Dirty(c, i) \/ c.map[k] = 0
            THEN Victims(moved, n2, vw, vf, vk, rt + 1, cw, cf)
            ELSE Victims(c, n2, vw + c.inf[c.map[k]].aw, vf + c.frq[k],
                         Append(vk, [k |-> k, la |-> c.inf[i].la]), 0, cw, cf)

RECURSIVE EvictVictims(_, _, _)
EvictVictims(g, c, vk) ==
    IF vk = <<>> THEN c
    ELSE LET v == Head(vk)
         IN IF c.map[v.k] # 0 /\ c.inf[c.map[v.k]].la = v.la
            THEN EvictVictims(g, Evict(g, c, v.k, "Size"), Tail(vk))
            ELSE EvictVictims(g, IF c.ao # <<>> /\ c.inf[Head(c.ao)].k = v.k
                                 THEN [c EXCEPT !.ao = Rotate(@)] ELSE c, Tail(vk))

RejectIfCurrent(g, c, o) ==
    LET k == c.inf[o.i].k
    IN IF c.map[k] = o.i /\ c.inf[o.i].eg = o.g
       THEN SetPg(Emit(g, TakeOut(c, k), k, c.val[k], "Size"), o.i, o.g)
       ELSE c

ApplyUpsert(g, c, o) ==
    LET i == o.i
        k == c.inf[i].k
        r == Victims(c, IF c.ao = <<>> THEN 0 ELSE Head(c.ao), 0, 0, <<>>, 0, o.nw, c.frq[k])
    IN IF c.inf[i].pg > o.g THEN c          \* a later operation has been applied already
       ELSE IF c.inf[i].adm
       THEN LET c1 == [c EXCEPT !.ws = SatSub(@, c.inf[i].aw) + o.nw, !.inf[i].aw = o.nw]
                c2 == UpdateTimer(c1, i)
            IN SetPg([c2 EXCEPT !.ao = MoveBack(@, i), !.wo = MoveBack(@, i)], i, o.g)
       ELSE IF g.cap = NONE \/ c.ws + o.nw <= g.cap
       THEN SetPg(Admit(g, c, i, o.nw), i, o.g)
       ELSE IF o.nw > g.cap
       THEN SetPg(RejectIfCurrent(g, c, o), i, o.g)
       ELSE IF g.pol = "lru"
       THEN SetPg(Admit(g, c, i, o.nw), i, o.g)
       ELSE IF r.w >= o.nw /\ c.frq[k] > r.f
       THEN SetPg(Admit(g, EvictVictims(g, r.c, r.ks), i, o.nw), i, o.g)
       ELSE RejectIfCurrent(g, r.c, o)

ApplyRemove(c, o) == SetPg(HandleRemove(c, o.i), o.i, o.g)

ApplyWrite(g, c, o) == IF o.t = "U" THEN ApplyUpsert(g, c, o) ELSE ApplyRemove(c, o)

RECURSIVE ApplyWrites(_, _)
ApplyWrites(g, c) == IF c.wq = <<>> THEN c
                     ELSE ApplyWrites(g, ApplyWrite(g, [c EXCEPT !.wq = Tail(@)], Head(c.wq)))

EnableSketch(g, c) ==
    IF g.pol = "lfu" /\ g.cap # NONE /\ ~c.frqOn /\ c.ws >= g.cap \div 2
    THEN [c EXCEPT !.frqOn = TRUE] ELSE c

-----------------------------------------------------------------------------
(* The four sweeps of the maintenance.                                     *)

TimerNodes(g, c, now, nodes) ==
    LET RECURSIVE Go(_, _)
        Go(d, ns) ==
          IF ns = <<>> THEN d
          ELSE LET i == Head(ns).i
                   k == d.inf[i].k
                   d1 == Unschedule(d, i)
               IN IF d.inf[i].exp = INF THEN Go(d1, Tail(ns))
                  ELSE IF d.inf[i].exp > now THEN Go(Schedule(d1, i), Tail(ns))
                  ELSE IF Dirty(d, i) \/ d.map[k] = 0
                          \/ ~ExpiredEntry(d.inf[d.map[k]], now) THEN Go(d1, Tail(ns))
                  ELSE LET j == d.map[k]
                       IN Go(Unadmit(Emit(g, TakeOut(d1, k), k, d1.val[k], "Expired"), j), Tail(ns))
    IN Go(c, nodes)

SweepTimers(g, c, now) ==
    LET prev == c.twCur
        RECURSIVE Buckets(_, _, _, _)
        Buckets(d, l, x, n) ==
          IF n = 0 THEN d
          ELSE Buckets(TimerNodes(g, d, now,
                           SelectSeq(d.tw, LAMBDA t : t.l = l /\ t.x = x % Slots(l))),
                       l, x + 1, n - 1)
        RECURSIVE Levels(_, _)
        Levels(d, l) ==
          LET pt == prev \div Span(l)
              ct == now \div Span(l)
          IN IF l > 4 \/ ct <= pt THEN d
             ELSE Levels(Buckets(d, l, pt % Slots(l), Min2(ct - pt + 1, Slots(l))), l + 1)
    IN IF ~c.twOn THEN c   \* the wheel does not turn before its first use
       ELSE IF c.tw = <<>> THEN [c EXCEPT !.twCur = now]
       ELSE Levels([c EXCEPT !.twCur = now], 0)

SkipWo(c, i) ==
    LET k == c.inf[i].k
        j == c.map[k]
    IN IF j # 0 THEN [c EXCEPT !.ao = MoveBack(@, j), !.wo = MoveBack(@, j)]
       ELSE [c EXCEPT !.wo = Rotate(@)]

SkipAo(c, i) ==
    LET k == c.inf[i].k
        j == c.map[k]
    IN IF j # 0 THEN [c EXCEPT !.ao = MoveBack(@, j),
                               !.wo = IF Dirty(c, j) THEN MoveBack(@, j) ELSE @]
       ELSE [c EXCEPT !.ao = Rotate(@)]

RECURSIVE SweepWo(_, _, _, _)
SweepWo(g, c, now, fuel) ==
    IF fuel = 0 \/ c.wo = <<>> THEN c
    ELSE LET i == Head(c.wo)
             e == c.inf[i]
             j == c.map[e.k]
         IN IF Dirty(c, i) THEN SweepWo(g, SkipWo(c, i), now, fuel - 1)
            ELSE IF ~WoGone(g, c, e, now) THEN c
            ELSE IF j # 0 /\ WoGone(g, c, c.inf[j], now)
            THEN SweepWo(g, Evict(g, c, e.k, IF ExpiredTtl(g, e.lm, now) THEN "Expired" ELSE "Explicit"),
                         now, fuel - 1)
            ELSE SweepWo(g, SkipWo(c, i), now, fuel - 1)

RECURSIVE SweepAo(_, _, _, _)
SweepAo(g, c, now, fuel) ==
    IF fuel = 0 \/ c.ao = <<>> THEN c
    ELSE LET i == Head(c.ao)
             e == c.inf[i]
             j == c.map[e.k]
         IN IF Dirty(c, i) THEN SweepAo(g, SkipAo(c, i), now, fuel - 1)
            ELSE IF ~AoGone(g, c, e, now) THEN c
            ELSE IF j # 0 /\ AoGone(g, c, c.inf[j], now)
            THEN SweepAo(g, Evict(g, c, e.k, IF ExpiredTti(g, e.la, now) THEN "Expired" ELSE "Explicit"),
                         now, fuel - 1)
            ELSE SweepAo(g, SkipAo(c, i), now, fuel - 1)

SweepExpired(g, c, now) ==
    LET c1 == IF g.ttl # NONE \/ g.inval THEN SweepWo(g, c, now, BATCH) ELSE c
    IN IF g.tti # NONE \/ c.va # NONE THEN SweepAo(g, c1, now, BATCH) ELSE c1

SweepPredicates(g, c, now) ==
    LET cand == SelectSeq(c.wo, LAMBDA i : ~Dirty(c, i))
        RECURSIVE Go(_, _)
        Go(d, s) ==
          IF s = <<>> THEN d
          ELSE LET e == d.inf[Head(s)]
                   j == d.map[e.k]
               IN IF j # 0 /\ d.inf[j].lm = e.lm /\ PredHit(d, e.k, d.val[e.k], e.lm)
                  THEN Go(Evict(g, d, e.k, "Explicit"), Tail(s))
                  ELSE Go(d, Tail(s))
    IN IF c.pr = {} THEN c
       ELSE IF c.wo = <<>> THEN [c EXCEPT !.pr = {}]
       ELSE IF cand = <<>> THEN c
       ELSE [Go(c, cand) EXCEPT !.pr = {}]

RECURSIVE SweepLru(_, _, _, _)
SweepLru(g, c, todo, fuel) ==
    IF fuel = 0 \/ todo <= 0 \/ c.ao = <<>> THEN c
    ELSE LET i == Head(c.ao)
             e == c.inf[i]
             j == c.map[e.k]
         IN IF Dirty(c, i) THEN SweepLru(g, SkipAo(c, i), todo, fuel - 1)
            ELSE IF j # 0 /\ c.inf[j].la = e.la
            THEN SweepLru(g, Evict(g, c, e.k, "Size"), todo - c.inf[j].aw, fuel - 1)
            ELSE SweepLru(g, SkipAo(c, i), todo, fuel - 1)

(* One run of the maintenance (housekeeping).                              *)
Maintain(g, c, now) ==
    LET c0 == [c EXCEPT !.ra = now + SYNC_INTERVAL]
        c1 == EnableSketch(g, ApplyWrites(g, ApplyReads(c0)))
        c2 == IF g.exp THEN SweepTimers(g, c1, now) ELSE c1
        c3 == IF g.ttl # NONE \/ g.tti # NONE \/ c.va # NONE THEN SweepExpired(g, c2, now) ELSE c2
        c4 == IF g.inval THEN SweepPredicates(g, c3, now) ELSE c3
    IN IF g.cap = 0 THEN c0
       ELSE IF g.cap = NONE THEN c4
       ELSE SweepLru(g, c4, SatSub(c4.ws, g.cap), BATCH)

AutoMaintain(g, c, n, now) ==
    IF n >= FLUSH_POINT \/ now >= c.ra THEN Maintain(g, c, now) ELSE c

-----------------------------------------------------------------------------
(* The user-facing steps. Each returns [c |-> new state, ...].             *)

SendRead(g, c, o, now) ==
    LET c1 == AutoMaintain(g, c, Len(c.rq), now)
    IN [c1 EXCEPT !.rq = Append(@, o)]

SendWrite(g, c, o, now) ==
    LET c1 == AutoMaintain(g, c, Len(c.wq), now)
    IN [c1 EXCEPT !.wq = Append(@, o)]

(* The hash-table part of an insert or an update: the point at which other  *)
(* threads see the value. Returns the write operation to record.           *)
MapInsert(g, c, k, v, now) ==
    LET i == c.map[k]
        old == c.inf[i]
        fresh == Len(c.inf) + 1
        dCreate == g.table[v.x].c
        info == [k |-> k, adm |-> FALSE, eg |-> 1, pg |-> 0, la |-> now, lm |-> now, aw |-> 0,
                 exp |-> IF g.exp /\ dCreate # NONE THEN now + dCreate ELSE INF]
        logC(d) == IF g.exp
                   THEN [d EXCEPT !.cb = Append(@, [f |-> "create", k |-> k, n |-> v.n,
                                                    t |-> now, d |-> NONE])]
                   ELSE d
        \* An update. The entry may have expired without having been removed: then no time
        \* remains, and an Expiry which leaves that as it is lifts the expiration.
        touched == [old EXCEPT !.la = now, !.lm = now, !.eg = @ + 1]
        given == Remaining(g, touched, now)
        dUpdate == Answer(g.table[v.x].u, given)
        exp1 == IF ~g.exp THEN INF
                ELSE IF dUpdate # given THEN (IF dUpdate = NONE THEN INF ELSE now + dUpdate)
                ELSE IF dUpdate = NONE THEN INF ELSE old.exp
        logU(d) == IF ~g.exp THEN d
                   ELSE [d EXCEPT !.cb = Append(@, [f |-> "update", k |-> k, n |-> v.n,
                                                    t |-> now, d |-> given])]
        stored(d) == [d EXCEPT !.val[k] = v]
    IN IF i = 0
       THEN [c |-> logC(stored([c EXCEPT !.map[k] = fresh, !.inf = Append(@, info)])),
             o |-> [t |-> "U", i |-> fresh, g |-> 1, nw |-> IF g.wgh THEN v.w ELSE 1]]
       ELSE LET c1 == logU(stored([c EXCEPT !.inf[i] = [touched EXCEPT !.exp = exp1]]))
            IN [c |-> Emit(g, c1, k, c.val[k], CauseOfUpsert(g, c, old.la, old.lm, now)),
                o |-> [t |-> "U", i |-> i, g |-> touched.eg, nw |-> IF g.wgh THEN v.w ELSE 1]]

Insert(g, c, k, v, now) ==
    IF g.cap = 0 THEN c
    ELSE LET r == MapInsert(g, c, k, v, now) IN SendWrite(g, r.c, r.o, now)

(* The hash-table part of a removal.                                       *)
MapRemove(g, c, k, now) ==
    LET i == c.map[k]
        c1 == [c EXCEPT !.inf[i].eg = @ + 1]
    IN [c |-> Emit(g, TakeOut(c1, k), k, c.val[k], CauseOfInvalidate(g, c.inf[i], now)),
        o |-> [t |-> "R", i |-> i, g |-> c.inf[i].eg + 1],
        v |-> c.val[k]]

Remove(g, c, k, now) ==
    IF c.map[k] = 0 THEN [c |-> c, v |-> NoVal]
    ELSE LET r == MapRemove(g, c, k, now) IN [c |-> SendWrite(g, r.c, r.o, now), v |-> r.v]

(* A lookup. ign: the caller's replace_if predicate (a colour, or NONE);    *)
(* rec: whether the read is recorded.                                      *)
Lookup(g, c, k, ign, rec, now) ==
    LET hit == Live(g, c, k, now) /\ c.val[k].c # ign
        i == c.map[k]
        e == c.inf[i]
        v == c.val[k]
        given == Remaining(g, e, now)
        d == Answer(g.table[v.x].r, given)
        exp1 == IF d # given THEN (IF d = NONE THEN INF ELSE now + d)
                ELSE IF d = NONE THEN INF ELSE e.exp
        changed == g.exp /\ (d # given \/ (d = NONE /\ e.exp # INF))
        c1 == IF g.exp
              THEN [c EXCEPT !.inf[i].exp = exp1,
                             !.cb = Append(@, [f |-> "read", k |-> k, n |-> v.n, t |-> now,
                                               d |-> given, lm |-> e.lm])]
              ELSE c
        c2 == [c1 EXCEPT !.inf[i].la = now]
    IN IF g.cap = 0 THEN [c |-> c, v |-> NoVal]
       ELSE IF hit
       THEN [c |-> IF rec THEN SendRead(g, c2, [t |-> "H", i |-> i, m |-> changed], now) ELSE c2, v |-> v]
       ELSE [c |-> IF rec THEN SendRead(g, c, [t |-> "M", k |-> k], now) ELSE c, v |-> NoVal]

=============================================================================
