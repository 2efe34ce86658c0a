------------------------------ MODULE MokaSeq ------------------------------
(***************************************************************************)
(* The sequential behaviour of a moka cache: one caller, any operations,    *)
(* any times. Two descriptions run side by side:                            *)
(*   cs   the segments as the implementation keeps them (MokaCore)          *)
(*   ab   the contract: per key, the value the user stored last and the     *)
(*        moment it stops being visible, nothing about queues or sweeps     *)
(* The invariants relate the two. The behaviours are also what the harness  *)
(* replays against sync::Cache, SegmentedCache and future::Cache.          *)
(***************************************************************************)
EXTENDS MokaCore, TLC

(* A configuration:
     cap, pol, ttl, tti     as in the builder; NONE for not set
     exp, table             whether an Expiry is set and its answers by class
     wgh                    whether a weigher is set
     lis                    whether a listener is set
     inval                  support_invalidation_closures
     nseg, seg              number of segments, key -> segment            *)
VARIABLES cfg, cs, now, nv, ab, bad, last

vars == <<cfg, cs, now, nv, ab, bad, last>>

CeilDiv(a, b) == (a + b - 1) \div b
G == [cfg EXCEPT !.cap = IF cfg.cap = NONE THEN NONE ELSE CeilDiv(cfg.cap, cfg.nseg)]
Segs == 1 .. cfg.nseg
SegK(k) == cfg.seg[k]

AbsInit == [e |-> [k \in Keys |-> [p |-> FALSE, v |-> NoVal, lm |-> 0, la |-> 0, dl |-> INF]],
            stored |-> {}, noted |-> {}, over |-> FALSE]

\* The result of an operation: its kind, the value, is_fresh, is_old_value_replaced, whether
\* `none` is as good, and the value a compute closure was given.
Res(kind, v, fresh, repl, alt) ==
    [r |-> kind, n |-> v.n, fr |-> fresh, rp |-> repl, alt |-> alt, g |-> 0]

InitWith(C) ==
    /\ cfg \in C
    /\ now = 0
    /\ cs = [s \in 1 .. cfg.nseg |-> Empty(cfg, 0)]
    /\ nv = 1
    /\ ab = AbsInit
    /\ bad = {}
    /\ last = [op |-> [op |-> "init", k |-> 1, v |-> NoVal, o |-> 0], res |-> Res("unit", NoVal, FALSE, FALSE, FALSE),
               ev |-> <<>>, cb |-> <<>>, t |-> 0, lk |-> {}, ec |-> 0, ws |-> 0]

-----------------------------------------------------------------------------
(* The contract.                                                           *)

NearestLimit(e) ==
    Min2(e.dl, Min2(IF cfg.ttl # NONE THEN e.lm + cfg.ttl ELSE INF,
                    IF cfg.tti # NONE THEN e.la + cfg.tti ELSE INF))
AbsSeen(a, k, t) == a.e[k].p /\ NearestLimit(a.e[k]) > t
AbsRemaining(e, t) == IF NearestLimit(e) >= INF \/ NearestLimit(e) <= t THEN NONE ELSE NearestLimit(e) - t

AbsDeadline(d, given, dl, t) ==
    IF d = NONE \/ (d = KEEP /\ given = NONE) THEN INF
    ELSE IF d = KEEP \/ d = given THEN dl
    ELSE t + d

\* phys: whether the key is still present in the table, be it with an expired value.
AbsInsert(a, k, v, t, phys) ==
    LET e == a.e[k]
        isUpd == phys
        moved == [e EXCEPT !.lm = t, !.la = t]
        dC == cfg.table[v.x].c
        dU == cfg.table[v.x].u
    IN IF cfg.cap = 0 THEN a
       ELSE [a EXCEPT !.e[k] = [p |-> TRUE, v |-> v, lm |-> t, la |-> t,
                dl |-> IF ~cfg.exp THEN INF
                       ELSE IF isUpd THEN AbsDeadline(dU, AbsRemaining(moved, t), e.dl, t)
                       ELSE IF dC = NONE THEN INF ELSE t + dC],
             !.stored = @ \cup {v.n}]

AbsGet(a, k, ign, t) ==
    LET e == a.e[k]
        hit == AbsSeen(a, k, t) /\ e.v.c # ign
        d == cfg.table[e.v.x].r
    IN IF ~hit THEN [a |-> a, v |-> NoVal]
       ELSE [a |-> [a EXCEPT !.e[k].la = t,
                      !.e[k].dl = IF cfg.exp THEN AbsDeadline(d, AbsRemaining(e, t), e.dl, t) ELSE @],
             v |-> e.v]

AbsForget(a, k) == [a EXCEPT !.e[k].p = FALSE]
AbsForgetAll(a, K) == [a EXCEPT !.e = [k \in Keys |-> IF k \in K THEN [a.e[k] EXCEPT !.p = FALSE] ELSE a.e[k]]]

-----------------------------------------------------------------------------
(* Steps on the joint state st = [cs, now, a, bad].                        *)

Seg(st, k) == st.cs[SegK(k)]

\* The contract borrows this much from the implementation: Expiry::expire_after_update is
\* called (and expire_after_create is not) while the key is present, and an expired or
\* invalidated entry stays present until some maintenance removes it.
IsUpdate(st, k) == Seg(st, k).map[k] # 0

\* The contract learns of evictions as they happen.
RECURSIVE Concat(_, _)
Concat(f, n) == IF n = 0 THEN <<>> ELSE Concat(f, n - 1) \o f[n]
Evs(st) == Concat([s \in Segs |-> st.cs[s].ev], cfg.nseg)
Cbs(st) == Concat([s \in Segs |-> st.cs[s].cb], cfg.nseg)
Sized(st) == LET ev == Evs(st)
             IN {ev[j].k : j \in {j \in DOMAIN ev : ev[j].c = "Size" /\ ev[j].n = st.a.e[ev[j].k].v.n}}
Learn(st) == IF \E s \in Segs : st.cs[s].ev # <<>> THEN [st EXCEPT !.a = AbsForgetAll(@, Sized(st))] ELSE st

SInsert(st, k, v) ==
    Learn([st EXCEPT !.cs[SegK(k)] = Insert(G, @, k, v, st.now),
                     !.a = AbsInsert(st.a, k, v, st.now, IsUpdate(st, k))])

SLookup(st, k, ign, rec) ==
    LET r == Lookup(G, Seg(st, k), k, ign, rec, st.now)
        q == AbsGet(st.a, k, ign, st.now)
    IN [st |-> Learn([st EXCEPT !.cs[SegK(k)] = r.c, !.a = q.a,
                                !.bad = IF r.v = q.v THEN @ ELSE @ \cup {"lookup"}]),
        v |-> r.v]

\* A maintenance may run inside a removal as well.
SRemove(st, k) ==
    LET r == Remove(G, Seg(st, k), k, st.now)
        seen == AbsSeen(st.a, k, st.now)
    IN [st |-> Learn([st EXCEPT !.cs[SegK(k)] = r.c, !.a = AbsForget(@, k),
                          !.bad = IF seen /\ r.v # st.a.e[k].v THEN @ \cup {"remove"} ELSE @]),
        v |-> r.v, live |-> seen]

ResVal(v) == Res(IF v.n = 0 THEN "none" ELSE "val", v, FALSE, FALSE, FALSE)

(* get_with, try_get_with, optionally_get_with, get_with_if and their entry *)
(* forms. o: what init does.                                                *)
SGetWith(st, k, v, ign, o) ==
    LET r1 == SLookup(st, k, ign, TRUE)
        r2 == SLookup(r1.st, k, ign, FALSE)
        wasSeen == AbsSeen(r2.st.a, k, st.now)
    IN IF r1.v.n # 0 THEN [st |-> r1.st, res |-> Res("val", r1.v, FALSE, FALSE, FALSE)]
       ELSE IF r2.v.n # 0 THEN [st |-> r2.st, res |-> Res("val", r2.v, FALSE, FALSE, FALSE)]
       ELSE IF o = "ok"
       THEN [st |-> SInsert(r2.st, k, v), res |-> Res("val", v, TRUE, wasSeen, FALSE)]
       ELSE [st |-> r2.st, res |-> Res(o, NoVal, FALSE, FALSE, FALSE)]

(* or_insert and or_default: not coalesced.                                *)
SOrInsert(st, k, v) ==
    LET r1 == SLookup(st, k, NONE, TRUE)
    IN IF r1.v.n # 0 THEN [st |-> r1.st, res |-> Res("val", r1.v, FALSE, FALSE, FALSE)]
       ELSE [st |-> SInsert(r1.st, k, v), res |-> Res("val", v, TRUE, FALSE, FALSE)]

SCompute(st, k, v, act) ==
    LET r1 == SLookup(st, k, NONE, TRUE)
        had == r1.v.n # 0
        rm == SRemove(r1.st, k)
        given == [n |-> r1.v.n]
        out(s, res) == [st |-> s, res |-> [res EXCEPT !.g = r1.v.n]]
    IN CASE act = "nop" -> out(r1.st, IF had THEN Res("Unchanged", r1.v, FALSE, FALSE, FALSE)
                                     ELSE Res("StillNone", NoVal, FALSE, FALSE, FALSE))
         [] act = "put" -> out(SInsert(r1.st, k, v),
                               IF had THEN Res("ReplacedWith", v, TRUE, TRUE, FALSE)
                               ELSE Res("Inserted", v, TRUE, FALSE, FALSE))
         [] act = "rem" -> out(rm.st, IF rm.v.n # 0 THEN Res("Removed", rm.v, FALSE, FALSE, ~rm.live)
                                     ELSE Res("StillNone", NoVal, FALSE, FALSE, FALSE))
         [] OTHER -> out(r1.st, Res(act, NoVal, FALSE, FALSE, FALSE))

InvAll(st) ==
    LET t == st.now + 1
    IN [st EXCEPT !.now = t + 1,
                  !.cs = [s \in Segs |-> [@[s] EXCEPT !.va = t]],
                  !.a = AbsForgetAll(@, Keys)]

InvIf(st, p) ==
    LET t == st.now + 1
    IN IF ~cfg.inval THEN st
       ELSE [st EXCEPT !.now = t + 1,
                  !.cs = [s \in Segs |-> [@[s] EXCEPT !.pr = @ \cup {[p |-> p, at |-> t]}]],
                  !.a = AbsForgetAll(@, {k \in Keys : PredHolds(p, k, @.e[k].v)})]

Sync(st) == Learn([st EXCEPT !.cs = [s \in Segs |-> Maintain(G, @[s], st.now)]])

-----------------------------------------------------------------------------
(* The same operation many times over, with a maintenance after each one.   *)
(* After some times nothing changes any more; what happened the last time   *)
(* then happened all the other times as well.                               *)

ENOUGH == 40
Many(s, m) == [j \in DOMAIN s |-> [m |-> m] @@ s[j]]
Quieted(st) == [st EXCEPT !.cs = [s \in Segs |-> [@[s] EXCEPT !.ev = <<>>, !.cb = <<>>]]]
\* What could still change.
Settled(st) == [s \in Segs |-> LET c == st.cs[s] IN
    [v |-> c.val, f |-> c.frq, e |-> c.ec, w |-> c.ws, ao |-> [j \in DOMAIN c.ao |-> c.inf[c.ao[j]].k],
     x |-> [k \in Keys |-> IF c.map[k] = 0 THEN 0 ELSE c.inf[c.map[k]].exp]]]
\* z: the state, and what has been gathered.
Again(f(_), m, z, i) ==
    LET r == f(Quieted(z.st))
        n == Sync(r.st)
        many == IF i = ENOUGH THEN m - ENOUGH + 1 ELSE 1
        restless == i = ENOUGH /\ m > ENOUGH /\ Settled(n) # Settled(z.st)
    IN [st |-> IF restless THEN [n EXCEPT !.bad = @ \cup {"restless"}] ELSE n,
        ev |-> z.ev \o Many(Evs(n), many), cb |-> z.cb \o Many(Cbs(n), many), vs |-> z.vs \cup {r.v.n}]
Over(st, z) == [st EXCEPT !.cs = [s \in Segs |-> [@[s] EXCEPT !.ev = IF s = 1 THEN z.ev ELSE <<>>,
                                                              !.cb = IF s = 1 THEN z.cb ELSE <<>>]]]
SMany(st, f(_), m) ==
    LET z0 == Sync(st)
        z == Fold(LAMBDA q, i : Again(f, m, q, i), [st |-> z0, ev |-> Evs(z0), cb |-> Cbs(z0), vs |-> {}],
                      [i \in 1 .. Min2(m, ENOUGH) |-> i])
    IN [st |-> Over(z.st, z), vs |-> z.vs]

-----------------------------------------------------------------------------
(* op: [op, k, v, o]                                                       *)

Start == [cs |-> [s \in Segs |-> [cs[s] EXCEPT !.ev = <<>>, !.cb = <<>>]],
          now |-> now, a |-> ab, bad |-> bad]

Do(op) ==
    LET st == Start
        k == op.k
        v == op.v
        plain(s) == [st |-> s, res |-> Res("unit", NoVal, FALSE, FALSE, FALSE)]
        lk == SLookup(st, k, NONE, TRUE)
        rm == SRemove(st, k)
    IN CASE op.op = "ins" -> plain(SInsert(st, k, v))
         [] op.op = "get" -> [st |-> lk.st, res |-> ResVal(lk.v)]
         [] op.op = "rem" -> [st |-> rm.st, res |-> [ResVal(rm.v) EXCEPT !.alt = ~rm.live]]
         [] op.op = "inv" -> plain(rm.st)
         [] op.op = "ia"  -> plain(InvAll(st))
         [] op.op = "iif" -> [plain(InvIf(st, op.o)) EXCEPT !.res.r = IF cfg.inval THEN "unit" ELSE "err"]
         [] op.op = "sync" -> plain(Sync(st))
         [] op.op = "adv" -> plain([st EXCEPT !.now = @ + op.o])
         [] op.op \in {"gw", "ogw", "tgw"} -> SGetWith(st, k, v, NONE, op.o)
         [] op.op = "gwif" -> SGetWith(st, k, v, 1, op.o)
         [] op.op = "oi" -> SOrInsert(st, k, v)
         [] op.op \in {"cmp", "tcmp"} -> SCompute(st, k, v, op.o)
         [] op.op = "ups" -> SCompute(st, k, v, "put")
         [] op.op = "rpi" -> plain(SMany(st, LAMBDA q : [st |-> SInsert(q, k, v), v |-> NoVal], op.o).st)
         [] op.op = "rpg" -> LET z == SMany(st, LAMBDA q : SLookup(q, k, NONE, TRUE), op.o)
                             IN [st |-> z.st, res |-> ResVal([NoVal EXCEPT !.n = IF Cardinality(z.vs) = 1 THEN CHOOSE n \in z.vs : TRUE ELSE 999999])]
         \* (Other keys stored and removed again leave nothing behind.)
         [] op.op = "churn" -> plain(Sync(st))
         [] op.op = "scan" -> LET z == Sync(st) IN plain([z EXCEPT !.cs = [s \in Segs |-> Scan(@[s], op.o)]])

Physical(css) == {k \in Keys : css[SegK(k)].map[k] # 0}
WeightOf(v) == IF cfg.wgh THEN v.w ELSE 1
PhysWeight(css) == SumSet(Physical(css), [k \in Keys |-> WeightOf(css[SegK(k)].val[k])])
LiveKeys(css, t) == {k \in Keys : Live(G, css[SegK(k)], k, t)}
LiveVals(css, t) == {<<k, css[SegK(k)].val[k].n>> : k \in LiveKeys(css, t)}

Total(css, f(_)) == SumSet(Segs, [s \in Segs |-> f(css[s])])
EC(css) == Total(css, LAMBDA c : c.ec)
WS(css) == Total(css, LAMBDA c : c.ws)

Room(css) == \A s \in DOMAIN css : Len(css[s].rq) < FLUSH_POINT /\ Len(css[s].wq) < FLUSH_POINT

Outcome(op) ==
    LET d == Do(op)
        st == d.st
        ev == Evs(st)
        sized == \E j \in DOMAIN ev : ev[j].c = "Size"
        many == op.op = "rpi"
        seen == {ev[j].n : j \in DOMAIN ev} \ (IF many /\ st.cs[SegK(op.k)].val[op.k].n = op.v.n THEN {op.v.n} ELSE {})
        twice == \/ ~many /\ Cardinality(seen) # Len(ev)
                 \/ seen \cap st.a.noted # {}
        a1 == [st.a EXCEPT !.noted = @ \cup seen,
                 !.over = @ \/ (cfg.cap # NONE /\ \E s \in Segs :
                            SumSet({k \in Physical(st.cs) : SegK(k) = s},
                                   [k \in Keys |-> WeightOf(st.cs[SegK(k)].val[k])]) > G.cap)
                            \/ (cfg.cap # NONE /\ cfg.wgh /\ op.v.w > G.cap)
                            \/ (cfg.cap # NONE /\ many)]
    IN [cs |-> st.cs, now |-> st.now, a |-> a1,
        bad |-> st.bad \cup (IF twice THEN {"twice"} ELSE {})
                       \cup (IF sized /\ ~ab.over /\ ~a1.over THEN {"needless"} ELSE {}),
        last |-> [op |-> op, res |-> d.res, ev |-> ev, cb |-> Cbs(st), t |-> st.now,
                   lk |-> LiveVals(st.cs, st.now), ec |-> EC(st.cs), ws |-> WS(st.cs)]]

\* (The singleton makes TLC evaluate the outcome once.)
Exec(op) ==
    \E z \in {Outcome(op)} :
       /\ cs' = z.cs /\ now' = z.now /\ ab' = z.a /\ bad' = z.bad /\ last' = z.last
       /\ nv' = IF op.v.n # 0 THEN nv + 1 ELSE nv
       /\ cfg' = cfg

-----------------------------------------------------------------------------
(* The properties.                                                         *)

NothingBad == bad = {}                                                  \* C01, C11

\* C01, C02, C05, C06, C07, C09, C10: what can be seen is what the contract says.
VisibleAsPromised ==
    \A k \in Keys : /\ (k \in LiveKeys(cs, now)) <=> AbsSeen(ab, k, now)
                    /\ k \in LiveKeys(cs, now) => cs[SegK(k)].val[k] = ab.e[k].v

\* C11: everything stored is either still in the table or has been notified, and not both.
Accounted ==
    LET inMap == {cs[SegK(k)].val[k].n : k \in Physical(cs)}
    IN inMap \cap ab.noted = {} /\ inMap \cup ab.noted = ab.stored

Quiet == \A s \in Segs : cs[s].rq = <<>> /\ cs[s].wq = <<>>
AfterSync == last.op.op \in {"sync", "rpi", "rpg", "churn", "scan"}

\* C04
CountersExact == AfterSync => EC(cs) = Cardinality(Physical(cs)) /\ WS(cs) = PhysWeight(cs)
\* C03
CapacityRespected == AfterSync /\ cfg.cap # NONE =>
    \A s \in Segs : SumSet({k \in Physical(cs) : SegK(k) = s},
                           [k \in Keys |-> WeightOf(cs[SegK(k)].val[k])]) <= G.cap
\* C08, C09, C10: what maintenance must have reclaimed.
Reclaimed == AfterSync =>
    \A k \in Physical(cs) :
        LET c == cs[SegK(k)]
            i == c.inf[c.map[k]]
        IN /\ ~ExpiredTtl(G, i.lm, now)
           \* (Reads are applied before the writes that preceded them, so that an idle entry
           \* may have a younger one ahead of it, which holds it back.)
           /\ ExpiredTti(G, i.la, now) =>
                 \/ \E j \in DOMAIN last.ev : last.ev[j].c = "Size"
                 \/ \E a, b \in DOMAIN c.ao : a < b /\ c.ao[b] = c.map[k] /\ ~ExpiredTti(G, c.inf[c.ao[a]].la, now)
           /\ ~Invalid(c, i.lm)
           /\ ~PredHit(c, k, c.val[k], i.lm)
           /\ i.exp # INF => (i.exp \div 16) >= (now \div 16)
PredicatesGone == AfterSync /\ cfg.cap # 0 => \A s \in Segs : cs[s].pr = {}
\* C12
CausesTrue == \A j \in DOMAIN last.ev :
    last.ev[j].c = "Size" => cfg.cap # NONE
\* Structure: an admitted record is in exactly one place of each queue, and every record in
\* the table is admitted once its write has been applied.
Structure == \A s \in Segs :
    LET c == cs[s]
        inAo(i) == Cardinality({j \in DOMAIN c.ao : c.ao[j] = i})
    IN /\ \A i \in DOMAIN c.inf : inAo(i) = (IF c.inf[i].adm THEN 1 ELSE 0)
       /\ c.wq = <<>> => \A k \in Keys : c.map[k] # 0 => c.inf[c.map[k]].adm /\ ~Dirty(c, c.map[k])
       /\ c.wq = <<>> => \A i \in DOMAIN c.inf : c.inf[i].adm => c.map[c.inf[i].k] = i
       /\ \A j1, j2 \in DOMAIN c.tw : c.tw[j1].i = c.tw[j2].i => j1 = j2
       /\ c.wq = <<>> /\ c.rq = <<>> => \A k \in Keys :
            c.map[k] # 0 /\ c.inf[c.map[k]].exp # INF => InWheel(c, c.map[k])

Inv == /\ NothingBad /\ VisibleAsPromised /\ Accounted /\ CountersExact /\ CapacityRespected
       /\ Reclaimed /\ PredicatesGone /\ CausesTrue /\ Structure
=============================================================================
