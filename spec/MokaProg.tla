------------------------------ MODULE MokaProg ------------------------------
(***************************************************************************)
(* Small concurrent programs on one cache, drawn at random from a profile:  *)
(* a configuration, what one thread does first, what up to four threads do  *)
(* at the same time, and what one thread does afterwards. They are run on   *)
(* the real caches under many schedules; MokaLin judges the histories.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Profile, Count

VARIABLE prog

NONE == -1
KEEP == -2
NoVal == [n |-> 0, w |-> 0, x |-> 0, c |-> 0]

Draw(S) == RandomElement(S)
OneOf(s) == s[RandomElement(1 .. Len(s))]
Rep(op, m) == [j \in 1 .. m |-> op]

Base == [cap |-> {NONE}, pol |-> {"lfu"}, ttl |-> {NONE}, tti |-> {NONE}, exp |-> {FALSE}, dur |-> {NONE, 2, 4},
         keep |-> TRUE, wgh |-> {FALSE}, lis |-> {TRUE, TRUE, FALSE}, inval |-> {FALSE}, nseg |-> {1},
         fh |-> {0}, m |-> {0}, w |-> {1}, x |-> {1}, c |-> {0}, nk |-> {1, 2}, cancel |-> {0},
         pre |-> <<0, 1, 2>>, nth |-> <<2, 2, 3>>, len |-> <<1, 2, 2, 3>>, post |-> <<0, 1, 2>>,
         preops |-> <<"ins">>, ops |-> <<"ins", "get">>, postops |-> <<"get">>]

Plain == Rep("ins", 5) \o Rep("get", 5) \o Rep("rem", 3) \o Rep("inv", 2) \o <<"con">>
Gets == <<"gw", "gw", "ogw", "tgw", "gwif", "oi">>
Comps == <<"cmp", "cmp", "tcmp", "ups">>

ProfileOf(name) ==
    CASE name = "basic" -> [Base EXCEPT !.ops = Plain \o <<"cmp", "gw", "oi", "sync">>, !.postops = Plain,
                              !.preops = <<"ins", "ins", "rem">>]
      [] name = "many" -> [Base EXCEPT !.ops = Plain \o <<"sync">>, !.nth = <<3, 4>>, !.len = <<1, 2>>, !.postops = Plain]
      [] name = "cap" -> [Base EXCEPT !.cap = {0, 1, 1, 2, 3}, !.pol = {"lru", "lfu"}, !.nk = {2, 3}, !.wgh = {TRUE, FALSE},
                              !.w = {0, 1, 2, 3}, !.ops = Plain \o <<"cmp", "gw", "oi">> \o Rep("sync", 4),
                              !.preops = <<"ins", "ins", "ins", "sync">>, !.pre = <<1, 2, 3>>]
      [] name = "ttl" -> [Base EXCEPT !.ttl = {2, 2, NONE}, !.tti = {2, NONE}, !.preops = <<"ins", "ins", "adv", "sync">>,
                              !.ops = Plain \o <<"cmp", "gw", "oi">> \o Rep("sync", 3), !.pre = <<2, 3, 4>>,
                              !.postops = <<"get", "adv", "con">>]
      [] name = "exp" -> [Base EXCEPT !.exp = {TRUE}, !.x = 1 .. 3, !.preops = <<"ins", "ins", "adv", "sync">>,
                              !.ops = Plain \o <<"cmp", "gw", "oi">> \o Rep("sync", 3), !.pre = <<2, 3, 4>>,
                              !.postops = <<"get", "adv", "con">>]
      [] name = "inval" -> [Base EXCEPT !.inval = {TRUE, TRUE, FALSE}, !.c = {0, 1}, !.pre = <<1, 2, 2>>,
                              !.ops = Rep("ins", 5) \o Rep("get", 4) \o <<"rem", "cmp", "gw", "con">> \o Rep("sync", 3)
                                      \o Rep("ia", 4),
                              !.postops = <<"get", "ins", "sync">>]
      [] name = "invif" -> [Base EXCEPT !.inval = {TRUE}, !.c = {0, 1}, !.pre = <<1, 2, 3>>, !.nk = {2, 3},
                              !.ops = Rep("ins", 4) \o Rep("get", 4) \o <<"rem", "cmp", "con">> \o Rep("sync", 4)
                                      \o Rep("iif", 4),
                              !.postops = <<"get", "ins", "sync", "iif">>]
      [] name = "getw" -> [Base EXCEPT !.ops = Gets \o Gets \o <<"ins", "rem", "get">>, !.nth = <<2, 3, 3, 4>>, !.c = {0, 1},
                              !.nk = {1, 1, 2}, !.pre = <<0, 0, 1>>, !.len = <<1, 1, 2>>, !.postops = Gets \o <<"get">>]
      [] name = "comp" -> [Base EXCEPT !.ops = Comps \o Comps \o <<"ins", "rem", "get", "inv">>, !.nth = <<2, 3, 3, 4>>,
                              !.nk = {1, 1, 2}, !.pre = <<0, 1, 2>>, !.len = <<1, 1, 2>>, !.postops = Comps \o <<"get">>]
      [] name = "iter" -> [Base EXCEPT !.ops = <<"it", "it", "it", "ins", "ins", "rem", "inv", "cmp", "sync">>, !.nk = {3, 4},
                              !.pre = <<2, 3, 4, 5>>, !.len = <<1, 2, 3>>, !.inval = {TRUE, FALSE}]
      [] name = "cancel" -> [Base EXCEPT !.cancel = {30, 50}, !.ops = Plain \o Gets \o Comps \o <<"sync", "sync", "ia">>,
                              !.cap = {NONE, NONE, 1, 2}, !.pol = {"lru", "lfu"}, !.nk = {1, 2}, !.len = <<1, 2, 3>>,
                              !.preops = <<"ins", "ins", "rem">>, !.postops = Plain \o Gets \o Comps]
      [] name = "seg" -> [Base EXCEPT !.nseg = {2, 4}, !.nk = {2, 3}, !.inval = {TRUE, FALSE}, !.c = {0, 1},
                              !.ops = Plain \o <<"cmp", "gw", "oi", "sync", "ia", "iif", "it">>, !.cap = {NONE, NONE, 4},
                              !.postops = Plain]
      \* Fillers: other keys, so many that the table grows and the queues of pending writes are full.
      [] name = "fill" -> [Base EXCEPT !.ops = Rep("fill", 3) \o <<"ins", "get", "rem", "cmp", "gw", "sync", "it">>, !.fh = {0, 2, 3},
                              !.m = {20, 70, 130, 400, 450}, !.c = {0, 1, 2}, !.len = <<1, 1, 2>>, !.nk = {2}, !.nth = <<2, 2, 3>>,
                              !.preops = <<"ins", "fill">>, !.pre = <<0, 1, 2>>, !.postops = Plain]
      \* The queue of pending writes gets full while somebody is working on it.
      [] name = "full" -> [Base EXCEPT !.ops = <<"fill", "fill", "sync", "ins", "rem", "sync">>, !.m = {400, 450, 800}, !.c = {0, 1, 2}, !.len = <<1, 1, 2>>,
                              !.nk = {2}, !.nth = <<2, 2, 3>>, !.preops = <<"ins", "fill">>, !.pre = <<0, 1>>, !.postops = Plain]
      [] name = "fillcap" -> [Base EXCEPT !.ops = Rep("fill", 4) \o <<"ins", "get", "rem", "cmp", "sync", "it">>, !.fh = {0, 2, 3},
                              !.cap = {1, 10, 100, 400}, !.pol = {"lru", "lfu"}, !.wgh = {TRUE, FALSE}, !.w = {0, 1, 2, 50},
                              !.m = {20, 70, 130, 400, 450}, !.c = {0, 1, 2}, !.len = <<1, 1, 2>>, !.nk = {2}, !.nth = <<2, 2, 3>>,
                              !.preops = <<"ins", "fill">>, !.pre = <<0, 1, 2>>, !.postops = Plain]
      [] name = "fillcancel" -> [Base EXCEPT !.cancel = {20, 40}, !.ops = Rep("fill", 4) \o <<"ins", "get", "rem", "cmp", "gw", "sync", "sync">>,
                              !.cap = {NONE, NONE, 1, 10, 100}, !.pol = {"lru", "lfu"},
                              !.m = {70, 130, 400, 450}, !.c = {0, 1, 2}, !.len = <<1, 1, 2>>, !.nk = {2}, !.nth = <<2, 2, 3>>,
                              !.preops = <<"ins", "fill">>, !.pre = <<0, 1, 2>>, !.postops = Plain]
      [] name = "mix" -> [Base EXCEPT !.ops = Plain \o Gets \o Comps \o <<"sync", "sync", "ia", "iif", "it">>, !.nk = {1, 2, 3},
                              !.inval = {TRUE, FALSE}, !.c = {0, 1}, !.cap = {NONE, NONE, 1, 2}, !.pol = {"lru", "lfu"},
                              !.ttl = {NONE, NONE, 2}, !.preops = <<"ins", "ins", "ins", "adv", "sync">>,
                              !.pre = <<0, 1, 2, 3>>, !.len = <<1, 2, 3>>, !.postops = Plain \o <<"adv">>]

Pick(P, s) ==
    [cap |-> Draw(P.cap), pol |-> Draw(P.pol), ttl |-> Draw(P.ttl), tti |-> Draw(P.tti), exp |-> Draw(P.exp),
     table |-> [x \in 1 .. 5 |->
                  IF x = 1 THEN [c |-> NONE, u |-> KEEP, r |-> KEEP]
                  ELSE [c |-> Draw(P.dur), u |-> Draw(P.dur \cup {KEEP}), r |-> KEEP]],
     wgh |-> Draw(P.wgh), lis |-> Draw(P.lis), inval |-> Draw(P.inval), nseg |-> s, fh |-> Draw(P.fh),
     seg |-> [k \in 1 .. 8 |-> Draw(1 .. s)]]

NeedsValue == {"ins", "gw", "ogw", "tgw", "gwif", "oi", "cmp", "tcmp", "ups", "fill"}

MakeOp(P, C, z, k, n) ==
    [op |-> z, k |-> k,
     v |-> IF z \in NeedsValue
           THEN [n |-> n, w |-> Draw(P.w), x |-> IF C.exp THEN Draw(P.x) ELSE 1, c |-> Draw(P.c)] ELSE NoVal,
     o |-> CASE z = "iif" -> Draw({1, 2, 2, 3})
             [] z = "fill" -> Draw(P.m)
             [] z = "adv" -> Draw({1, 1, 2})
             [] z \in {"gw", "gwif"} -> OneOf(<<"ok", "ok", "ok", "panic">>)
             [] z = "ogw" -> OneOf(<<"ok", "none", "none", "panic">>)
             [] z = "tgw" -> OneOf(<<"ok", "err", "err", "panic">>)
             [] z = "cmp" -> OneOf(<<"put", "put", "nop", "rem", "rem", "panic">>)
             [] z = "tcmp" -> OneOf(<<"put", "put", "nop", "rem", "err", "panic">>)
             [] z = "ups" -> "put"
             [] OTHER -> 0]

\* n0: where the numbering of its values begins
Ops(P, C, zs, len, nk, n0) == [j \in 1 .. len |-> MakeOp(P, C, OneOf(zs), Draw(1 .. nk), n0 + j)]

Init == \E i \in 1 .. Count :
        \E P \in {ProfileOf(Profile)} :
        \E nk \in {Draw(P.nk)} :
        \E C \in {Pick(P, Draw(P.nseg))} :
        \E nth \in {OneOf(P.nth)} :
           prog = [cfg |-> C, nk |-> nk, cancel |-> Draw(P.cancel),
                   pre |-> Ops(P, C, P.preops, OneOf(P.pre), nk, 0),
                   th |-> [t \in 1 .. nth |-> Ops(P, C, P.ops, OneOf(P.len), nk, 10 * t)],
                   post |-> Ops(P, C, P.postops, OneOf(P.post), nk, 50)]
Spec == Init /\ [][UNCHANGED prog]_prog

Emitted == PrintT("@@" \o ToJson(prog))
=============================================================================
