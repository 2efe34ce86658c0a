------------------------------- MODULE MC_Seq -------------------------------
(* Exhaustive exploration of MokaSeq over small histories.                  *)
EXTENDS MokaSeq

CONSTANTS MaxOps, OpKinds, MCfgs, Weights, Classes, Colours, Steps

VARIABLE n
mcvars == <<vars, n>>

Table == << [c |-> NONE, u |-> KEEP, r |-> KEEP],      \* the defaults of the trait
            [c |-> 20, u |-> KEEP, r |-> KEEP],
            [c |-> 3, u |-> 40, r |-> 2],
            [c |-> 40, u |-> NONE, r |-> KEEP],
            [c |-> 2, u |-> 2, r |-> NONE] >>

Plain == [cap |-> NONE, pol |-> "lru", ttl |-> NONE, tti |-> NONE, exp |-> FALSE, table |-> Table,
          wgh |-> FALSE, lis |-> TRUE, inval |-> FALSE, nf |-> 0, nseg |-> 1, seg |-> [k \in Keys |-> 1]]

Named(name) ==
    CASE name = "lru1"  -> [Plain EXCEPT !.cap = 1]
      [] name = "lru2w" -> [Plain EXCEPT !.cap = 3, !.wgh = TRUE]
      [] name = "lfu2w" -> [Plain EXCEPT !.cap = 3, !.wgh = TRUE, !.pol = "lfu"]
      [] name = "zero"  -> [Plain EXCEPT !.cap = 0]
      [] name = "ttl"   -> [Plain EXCEPT !.ttl = 3]
      [] name = "ttltti" -> [Plain EXCEPT !.ttl = 4, !.tti = 2, !.cap = 1]
      [] name = "exp"   -> [Plain EXCEPT !.exp = TRUE]
      [] name = "expttl" -> [Plain EXCEPT !.exp = TRUE, !.ttl = 4, !.tti = 3]
      [] name = "inval" -> [Plain EXCEPT !.inval = TRUE]
      [] name = "invalttl" -> [Plain EXCEPT !.inval = TRUE, !.ttl = 3, !.cap = 2]
      [] name = "seg2"  -> [Plain EXCEPT !.cap = 2, !.nseg = 2, !.seg = [k \in Keys |-> (k % 2) + 1]]

O(op, k, o) == [op |-> op, k |-> k, v |-> NoVal, o |-> o]
V(op, k, v, o) == [op |-> op, k |-> k, v |-> v, o |-> o]

Values == {[n |-> nv, w |-> w, x |-> x, c |-> c] : w \in Weights, x \in Classes, c \in Colours}

Ops == UNION {
    CASE z = "ins"  -> {V("ins", k, v, 0) : k \in Keys, v \in Values}
      [] z = "get"  -> {O("get", k, 0) : k \in Keys}
      [] z = "rem"  -> {O("rem", k, 0) : k \in Keys}
      [] z = "ia"   -> {O("ia", 1, 0)}
      [] z = "iif"  -> {O("iif", 1, p) : p \in {1, 2}}
      [] z = "sync" -> {O("sync", 1, 0)}
      [] z = "adv"  -> {O("adv", 1, d) : d \in Steps}
      [] z = "gw"   -> {V("gw", k, v, "ok") : k \in Keys, v \in Values}
      [] z = "gwif" -> {V("gwif", k, v, "ok") : k \in Keys, v \in Values}
      [] z = "tgw"  -> {V("tgw", k, v, "err") : k \in Keys, v \in Values}
      [] z = "cmp"  -> {V("cmp", k, v, a) : k \in Keys, v \in Values, a \in {"nop", "put", "rem"}}
    : z \in OpKinds }

MCInit == InitWith({Named(c) : c \in MCfgs}) /\ n = 0
MCNext == n < MaxOps /\ n' = n + 1 /\ \E op \in Ops : Exec(op)
MCSpec == MCInit /\ [][MCNext]_mcvars

(* Clock readings and identifiers are compared by what they mean only.      *)
View == <<cfg, cs, now, nv, ab, bad, last.op.op, n>>
=============================================================================
