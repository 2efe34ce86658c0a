------------------------------ MODULE MokaSim ------------------------------
(***************************************************************************)
(* Long random behaviours of MokaSeq. TLC's simulator draws a configuration *)
(* from the profile and then one operation per step; a finished behaviour   *)
(* is printed as JSON, to be replayed by the harness on the real caches.    *)
(* The invariants of MokaSeq are checked on the way.                        *)
(***************************************************************************)
EXTENDS MokaSeq, Json

CONSTANTS Profile, Depth

VARIABLES hist, prof
simvars == <<vars, hist, prof>>

Draw(S) == RandomElement(S)
OneOf(s) == s[RandomElement(1 .. Len(s))]

Short == {NONE, KEEP, 0, 1, 2, 3, 5, 8, 15, 16, 17, 20, 33}
Long  == {NONE, KEEP, 1, 15, 16, 17, 64, 100, 1000, 1008, 1024, 1025, 1040, 5000, 65535, 65536,
          70000, 131072, 2000000, 2097152, 2200000, 6000000, 8388608, 9000000, 30000000}

\* What a profile leaves unsaid.
Base == [cap |-> {NONE}, pol |-> {"lfu"}, ttl |-> {NONE}, tti |-> {NONE}, exp |-> {FALSE}, dur |-> Short,
         wgh |-> {FALSE}, lis |-> {TRUE}, inval |-> {FALSE}, nf |-> 0, rep |-> {3}, nseg |-> {1},
         w |-> {1}, x |-> {1}, c |-> {0}, nk |-> 4,
         adv |-> <<1, 1, 2, 3>>, ops |-> <<"ins", "get">>]

Rep(op, m) == [j \in 1 .. m |-> op]
Mutate == Rep("ins", 6) \o Rep("get", 6) \o Rep("rem", 2) \o Rep("inv", 1)
Rich == Mutate \o <<"gw", "ogw", "tgw", "gwif", "oi", "cmp", "cmp", "tcmp", "ups">>
Entry == Rep("ins", 3) \o Rep("get", 1) \o Rep("rem", 2)
         \o Rep("gw", 3) \o Rep("ogw", 3) \o Rep("tgw", 3) \o Rep("gwif", 3) \o Rep("oi", 3)
         \o Rep("cmp", 5) \o Rep("tcmp", 4) \o Rep("ups", 2)
Maint == Rep("sync", 3)
Time == Rep("adv", 4)

ProfileOf(name) ==
    CASE name = "basic" -> [Base EXCEPT !.ops = Rich \o Maint \o <<"adv">>, !.wgh = {TRUE, FALSE},
                               !.w = {0, 1, 2, 5}, !.nk = 6]
      [] name = "lru" -> [Base EXCEPT !.cap = {1, 2, 3, 4}, !.pol = {"lru"}, !.nk = 6,
                               !.ops = Mutate \o Maint \o <<"adv">>]
      [] name = "lruw" -> [Base EXCEPT !.cap = {2, 3, 5, 8}, !.pol = {"lru"}, !.nk = 6, !.wgh = {TRUE},
                               !.w = {0, 1, 2, 3, 4, 9}, !.ops = Mutate \o Maint \o <<"adv">>]
      [] name = "lfu" -> [Base EXCEPT !.cap = {1, 2, 3, 4}, !.nk = 6,
                               !.ops = Mutate \o Rep("get", 8) \o Maint \o Maint \o <<"adv">>]
      [] name = "lfuw" -> [Base EXCEPT !.cap = {2, 3, 5, 8}, !.nk = 6, !.wgh = {TRUE},
                               !.w = {0, 1, 2, 3, 4, 9},
                               !.ops = Mutate \o Rep("get", 8) \o Maint \o Maint \o <<"adv">>]
      [] name = "cap" -> [Base EXCEPT !.cap = {0, 1, 2, 3, 6}, !.pol = {"lru", "lfu"}, !.wgh = {TRUE, TRUE, FALSE},
                               !.w = {0, 1, 2, 3, 7}, !.nk = 6, !.ttl = {NONE, NONE, 6}, !.tti = {NONE, 5},
                               !.inval = {TRUE, FALSE}, !.exp = {TRUE, FALSE}, !.x = {1, 2, 3},
                               !.ops = Rich \o Maint \o Time \o <<"ia", "iif">>, !.c = {0, 1}]
      [] name = "ttl" -> [Base EXCEPT !.ttl = {0, 1, 2, 3, 5, 8, 20}, !.cap = {NONE, NONE, 3}, !.pol = {"lru", "lfu"},
                               !.ops = Rich \o Maint \o Time \o Time \o Time]
      [] name = "tti" -> [Base EXCEPT !.tti = {0, 1, 2, 3, 5, 8, 20}, !.cap = {NONE, NONE, 3}, !.pol = {"lru", "lfu"},
                               !.ops = Rich \o Maint \o Time \o Time \o Time]
      [] name = "ttltti" -> [Base EXCEPT !.ttl = {2, 3, 5, 8, 20}, !.tti = {1, 2, 3, 4, 6}, !.cap = {NONE, 3}, !.pol = {"lru", "lfu"},
                               !.ops = Rich \o Maint \o Time \o Time \o Time]
      [] name = "exp" -> [Base EXCEPT !.exp = {TRUE}, !.x = 1 .. 5, !.adv = <<1, 1, 2, 3, 5, 16>>, !.c = {0, 1},
                               !.ops = Rich \o Maint \o Time \o Time]
      [] name = "expmix" -> [Base EXCEPT !.exp = {TRUE}, !.x = 1 .. 5, !.ttl = {NONE, 3, 8, 20}, !.tti = {NONE, 2, 4, 10},
                               !.cap = {NONE, 3}, !.pol = {"lru", "lfu"}, !.inval = {TRUE, FALSE}, !.c = {0, 1},
                               !.adv = <<1, 1, 2, 3, 5, 16>>,
                               !.ops = Rich \o Maint \o Time \o Time \o <<"ia", "iif">>]
      [] name = "timer" -> [Base EXCEPT !.exp = {TRUE}, !.x = 1 .. 5, !.dur = Long, !.nk = 6,
                               !.adv = <<1, 5, 15, 16, 17, 50, 300, 1000, 1008, 1024, 1030, 4000, 65536, 66000, 500000,
                                         2097152, 8388608, 12000000>>,
                               !.ops = Rep("ins", 4) \o Rep("get", 2) \o <<"rem">> \o Maint \o Maint \o Time \o Time]
      [] name = "timers" -> [Base EXCEPT !.exp = {TRUE}, !.x = 1 .. 5, !.nk = 6,
                               !.dur = {NONE, 3, 9, 15, 16, 17, 31, 32, 40, 100, 500, 1000, 1010, 1024, 1100},
                               !.adv = <<1, 3, 7, 15, 16, 17, 100, 500, 1000, 1100>>,
                               !.ops = Rep("ins", 4) \o Rep("get", 2) \o <<"rem">> \o Maint \o Maint \o Time \o Time]
      [] name = "invall" -> [Base EXCEPT !.ttl = {NONE, NONE, 6}, !.tti = {NONE, NONE, 6}, !.cap = {NONE, 3}, !.pol = {"lru", "lfu"},
                               !.exp = {TRUE, FALSE}, !.x = {1, 2}, !.inval = {TRUE, FALSE},
                               !.ops = Rich \o Maint \o <<"ia", "ia", "ia", "adv">>]
      [] name = "invif" -> [Base EXCEPT !.inval = {TRUE, TRUE, TRUE, FALSE}, !.c = {0, 1}, !.nk = 6, !.ttl = {NONE, NONE, 8},
                               !.cap = {NONE, NONE, 4},
                               !.ops = Rich \o Maint \o <<"iif", "iif", "iif", "iif", "adv">>]
      [] name = "events" -> [Base EXCEPT !.cap = {NONE, 2, 3}, !.pol = {"lru", "lfu"}, !.ttl = {NONE, 3, 6}, !.tti = {NONE, 4},
                               !.exp = {TRUE, FALSE}, !.x = 1 .. 4, !.wgh = {TRUE, FALSE}, !.w = {1, 1, 2, 4},
                               !.inval = {TRUE, FALSE}, !.c = {0, 1},
                               !.ops = Rich \o Maint \o Time \o <<"ia", "iif">>]
      [] name = "entry" -> [Base EXCEPT !.ops = Entry \o Maint \o <<"adv", "adv">>, !.ttl = {NONE, NONE, 3}, !.c = {0, 1}, !.nk = 3,
                               !.cap = {NONE, NONE, 2}, !.exp = {FALSE, FALSE, TRUE}, !.x = {1, 2, 3}]
      [] name = "probe" -> [Base EXCEPT !.tti = {NONE, 3, 5}, !.ttl = {NONE, 9}, !.cap = {NONE, 2, 3}, !.pol = {"lru", "lfu"},
                               !.exp = {TRUE, FALSE}, !.x = 1 .. 3, !.nk = 5,
                               !.ops = Mutate \o Maint \o Time]
      [] name = "seg" -> [Base EXCEPT !.nseg = {1, 2, 4}, !.cap = {NONE, 4, 7, 8}, !.pol = {"lru", "lfu"}, !.nk = 8,
                               !.wgh = {TRUE, FALSE}, !.w = {0, 1, 2, 3}, !.ttl = {NONE, NONE, 6}, !.tti = {NONE, 5},
                               !.inval = {TRUE, FALSE}, !.c = {0, 1}, !.exp = {TRUE, FALSE}, !.x = 1 .. 3,
                               !.ops = Rich \o Maint \o Time \o <<"ia", "iif">>]
      [] name = "auto" -> [Base EXCEPT !.cap = {1, 3}, !.pol = {"lru", "lfu"}, !.ttl = {NONE, 8}, !.nk = 6,
                               !.ops = Mutate \o Mutate \o Mutate \o Mutate \o <<"adv">>]
      [] name = "autoburst" -> [Base EXCEPT !.cap = {2, 4}, !.pol = {"lru", "lfu"}, !.nk = 8, !.adv = <<1>>,
                               !.ops = Rep("ins", 8) \o Rep("get", 6)]
      \* Long histories: one operation thousands of times, and popularity that ages.
      [] name = "wear" -> [Base EXCEPT !.pol = {"lru"}, !.cap = {NONE}, !.ttl = {NONE, NONE, 8}, !.tti = {NONE, NONE, 8},
                               !.exp = {TRUE, FALSE}, !.x = 1 .. 5, !.inval = {TRUE, FALSE}, !.c = {0, 1}, !.lis = {TRUE, FALSE}, !.nk = 3,
                               !.rep = {70, 400, 4094, 4095, 4096, 4097, 16384, 65534, 65535, 65536, 65537, 70000},
                               !.ops = Rep("ins", 4) \o Rep("get", 3) \o <<"rem", "rpi", "rpi", "rpg", "churn", "sync", "sync", "ia", "iif", "cmp">> \o Time]
      [] name = "wearcap" -> [Base EXCEPT !.pol = {"lru"}, !.cap = {1, 2, 4}, !.ttl = {NONE, NONE, 8}, !.tti = {NONE, NONE, 8},
                               !.exp = {TRUE, FALSE, FALSE}, !.x = 1 .. 5, !.wgh = {TRUE, FALSE}, !.w = {0, 1, 2, 5}, !.lis = {TRUE, FALSE}, !.nk = 4,
                               !.rep = {70, 400, 4094, 4095, 4096, 4097, 16384, 65534, 65535, 65536, 65537, 70000},
                               !.ops = Rep("ins", 4) \o Rep("get", 3) \o <<"rem", "rpi", "rpi", "rpg", "sync", "sync">> \o Time]
      [] name = "hot" -> [Base EXCEPT !.cap = {1, 2, 3}, !.nk = 6, !.nf = 120, !.wgh = {TRUE, FALSE, FALSE}, !.w = {0, 1, 2, 4}, !.rep = {2, 3, 5, 9, 14, 30, 2000},
                               !.ops = Rep("ins", 5) \o Rep("get", 2) \o <<"rem", "rpi", "rpg", "rpg", "rpg", "sync", "sync", "sync">> \o Rep("scan", 4)]

Pick(P, s) ==
    [cap |-> Draw(P.cap), pol |-> Draw(P.pol), ttl |-> Draw(P.ttl), tti |-> Draw(P.tti), exp |-> Draw(P.exp),
     table |-> [x \in 1 .. 5 |->
                  IF x = 1 THEN [c |-> NONE, u |-> KEEP, r |-> KEEP]
                  ELSE [c |-> Draw(P.dur \ {KEEP}),
                        u |-> IF Draw({0, 1}) = 0 THEN KEEP ELSE Draw(P.dur),
                        r |-> IF Draw({0, 1}) = 0 THEN KEEP ELSE Draw(P.dur)]],
     wgh |-> Draw(P.wgh), lis |-> Draw(P.lis), inval |-> Draw(P.inval), nf |-> P.nf, nseg |-> s,
     seg |-> [k \in Keys |-> Draw(1 .. s)]]

\* The simulator computes the initial states once: enough of them, for as many configurations.
SimInit ==
    \E i \in 1 .. 120 :
    \E P \in {ProfileOf(Profile)} :
    \E s \in {Draw(P.nseg)} :
    \E C \in {Pick(P, s)} :
       /\ InitWith({C})
       /\ hist = <<>>
       /\ prof = P

NewVal(P, x) == [n |-> nv, w |-> Draw(P.w), x |-> IF cfg.exp THEN x ELSE 1, c |-> Draw(P.c)]

NeedsValue == {"ins", "gw", "ogw", "tgw", "gwif", "oi", "cmp", "tcmp", "ups", "rpi", "churn"}

MakeOp(P, z, k) ==
    [op |-> z, k |-> k,
     v |-> IF z \in NeedsValue THEN NewVal(P, Draw(P.x)) ELSE NoVal,
     o |-> CASE z = "iif" -> Draw({1, 2, 2, 3})
             [] z = "adv" -> OneOf(P.adv)
             [] z \in {"gw", "gwif"} -> OneOf(<<"ok", "ok", "ok", "panic">>)
             [] z = "ogw" -> OneOf(<<"ok", "ok", "none", "panic">>)
             [] z = "tgw" -> OneOf(<<"ok", "ok", "err", "panic">>)
             [] z = "cmp" -> OneOf(<<"put", "put", "nop", "rem", "rem", "panic">>)
             [] z = "tcmp" -> OneOf(<<"put", "put", "nop", "rem", "err", "panic">>)
             [] z = "ups" -> "put"
             [] z \in {"rpi", "rpg", "churn"} -> Draw(P.rep)
             [] z = "scan" -> Draw(1 .. 5)
             [] OTHER -> 0]

SimNext ==
    /\ Len(hist) < Depth
    /\ \E z \in {OneOf(prof.ops)} : \E k \in {Draw(1 .. prof.nk)} :
       \E op \in {MakeOp(prof, z, k)} :
          /\ Exec(op)
          /\ hist' = Append(hist, last')
          /\ prof' = prof

SimSpec == SimInit /\ [][SimNext]_simvars

Emitted == Len(hist) < Depth \/ PrintT("@@" \o ToJson([cfg |-> cfg, nk |-> prof.nk, steps |-> hist]))
=============================================================================
