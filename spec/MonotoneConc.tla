---------------------------- MODULE MonotoneConc ----------------------------
(***************************************************************************)
(* Concurrent histories: client threads call the database while background *)
(* workers maintain it.  The abstract database is a map from positions     *)
(* <<id, key>> to values, held as a set of triples; writes and partition   *)
(* drops take effect at one instant between their call and their return,   *)
(* everything else does not change it.                                     *)
(*                                                                         *)
(* Cs is the set of specification states that explain the history so far.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Json, IOUtils, TLC

CONSTANT Deviations
Input  == JsonDeserialize(IOEnv.TRACES)
InputDeviations == ToSet(Input.deviations)
Traces == Input.traces
N      == Len(Traces)
Has(r, f) == f \in DOMAIN r

VARIABLES tr, i, Cs, pend, used, low
(* tr    the history                                                        *)
(* i     its next event                                                     *)
(* Cs    compatible states: [m: the map, lin: threads whose pending         *)
(*       operation has taken effect, seen: how much of the result of every  *)
(*       pending scan is explained]                                         *)
(* pend  pending operation of a thread                                      *)
(* used  serial ids given out by the writes that returned                   *)
(* low   serial ids given out before a pending write was called             *)
vars == <<tr, i, Cs, pend, used, low>>

EmptyFn == [x \in {} |-> 0]
T == Traces[tr]
Block(id) == id \div T.init.interval
PosLT(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
PosLE(a, b) == a = b \/ PosLT(a, b)
Pos(e) == <<e[1], e[2]>>
Ascending(q) == \A j \in 1 .. Len(q) - 1 : PosLT(Pos(q[j]), Pos(q[j + 1]))

(* Operations *)
Put(m, e) == {x \in m : x[1] # e.id \/ x[2] # e.k} \cup (IF e.v = -1 THEN {} ELSE {<<e.id, e.k, e.v>>})
Apply(m, op) ==
    CASE op.t = "write" -> FoldLeft(Put, m, op.evs)
      [] op.t = "drop"  -> {x \in m : Block(x[1]) # Block(op.id)}
      [] OTHER          -> m
Changes(op) == op.t \in {"write", "drop"}

(* A scan sees every partition as it was at one instant, one partition     *)
(* after another, all after its call and before its return. Its result is  *)
(* known from the history: seen counts the intervals that have been        *)
(* explained so far, each by the earliest contents that do.                *)
From(m, pos) == IF pos = <<>> THEN m ELSE {x \in m : PosLE(pos, Pos(x))}
InBlock(m, b) == {x \in m : Block(x[1]) = b}
RECURSIVE See(_, _, _)
See(m, op, seen) ==
    IF ~Has(op, "ret") \/ seen = Len(T.init.blocks) THEN seen
    ELSE LET b == T.init.blocks[seen + 1]
         IN  IF InBlock(From(m, op.pos), b) = InBlock(ToSet(op.ret), b) THEN See(m, op, seen + 1) ELSE seen
ScanOk(op, seen) ==
    /\ Ascending(op.ret)
    /\ \A j \in 1 .. Len(op.ret) : Block(op.ret[j][1]) \in ToSet(T.init.blocks)
    /\ seen = Len(T.init.blocks)

(* A pending operation takes effect. *)
Lin(c, t) ==
    LET n == Apply(c.m, pend[t])
    IN  [m |-> n, lin |-> c.lin \cup {t},
         seen |-> IF n = c.m THEN c.seen ELSE [s \in DOMAIN c.seen |-> See(n, pend[s], c.seen[s])]]
RECURSIVE Closure(_, _)
Closure(cs, new) ==
    LET nx == UNION {{Lin(c, t) : t \in {u \in DOMAIN pend : Changes(pend[u]) /\ u \notin c.lin}} : c \in new} \ cs
    IN  IF nx = {} THEN cs ELSE Closure(cs \cup nx, nx)
All == Closure(Cs, Cs)

Forget(f, t) == [s \in DOMAIN f \ {t} |-> f[s]]
SerialIds(op) == {op.evs[j].id : j \in {k \in 1 .. Len(op.evs) : op.evs[k].serial}}
SerialOk(op, t) ==
    \* each id is new, larger than all ids given out before the call, and larger than those before it in the batch
    LET q == SelectSeq(op.evs, LAMBDA e : e.serial) IN
    /\ \A j \in 1 .. Len(q) - 1 : q[j].id < q[j + 1].id
    /\ q # <<>> => q[1].id > low[t]
    /\ SerialIds(op) \cap used = {}

(* One event: the states that explain the history with it. *)
After(ev) ==
    CASE ev.e = "inv" ->
           IF ev.op.t = "scan" THEN {[c EXCEPT !.seen = (ev.t :> See(c.m, ev.op, 0)) @@ c.seen] : c \in Cs} ELSE Cs
      [] ev.e = "ret" ->
           LET op == pend[ev.t] IN
           CASE Changes(op) ->
                  IF ev.ok
                  THEN IF op.t = "write" /\ ~SerialOk(op, ev.t) THEN {}
                       ELSE {[c EXCEPT !.lin = c.lin \ {ev.t}] : c \in {d \in All : ev.t \in d.lin}}
                  ELSE IF op.must THEN {} ELSE {c \in Cs : ev.t \notin c.lin}
             [] op.t = "scan" ->
                  {[c EXCEPT !.seen = Forget(c.seen, ev.t)] :
                      c \in {d \in All : ev.ok /\ ScanOk(op, d.seen[ev.t])}}
             [] OTHER -> IF op.must /\ ~ev.ok THEN {} ELSE Cs
      [] ev.e = "obs" ->          \* nothing is pending
           {c \in Cs : (Has(ev, "kv") => Ascending(ev.kv) /\ ToSet(ev.kv) = c.m)
                       \* serial ids follow each other
                       /\ (Has(ev, "contiguous") => used = {} \/ used = Min(used) .. Max(used))}
      [] ev.e = "img" ->          \* recovered from the files as they were at this moment
           IF \A r \in ToSet(ev.recs) : r.ok /\ Ascending(r.kv) /\ ToSet(r.kv) \in {d.m : d \in All}
                                        /\ (Has(r, "kv2") => r.kv2 = r.kv)
                                        /\ (Has(r, "kv3") => r.kv3 = r.kv)
           THEN Cs ELSE {}
      \* all requested background work is done when the workers are idle
      [] ev.e = "idle" -> IF ev.before = ev.after /\ \A p \in ToSet(ev.after) : p[3] = FALSE THEN Cs ELSE {}
      \* the partitions' ranges do not overlap
      [] ev.e = "parts" -> IF \A a, b \in 1 .. Len(ev.ps) : a # b => ev.ps[a][2] < ev.ps[b][1] \/ ev.ps[b][2] < ev.ps[a][1] THEN Cs ELSE {}
      \* everybody waits for ever; memory was used after its release; the process died
      [] ev.e \in {"dead", "freed", "died"} -> {}
      [] OTHER -> {}

Init == /\ tr \in 1 .. N
        /\ i = 1
        /\ Cs = {[m |-> {}, lin |-> {}, seen |-> EmptyFn]}
        /\ pend = EmptyFn /\ used = {} /\ low = EmptyFn

Next == /\ i <= Len(T.ops)
        /\ Cs # {}
        /\ LET ev == T.ops[i]
               n  == After(ev)
           IN  /\ Cs' = n
               /\ CASE ev.e = "inv" ->
                         /\ pend' = (ev.t :> ev.op) @@ pend
                         /\ low' = (ev.t :> (IF used = {} THEN -1 ELSE Max(used))) @@ low
                         /\ UNCHANGED used
                    [] ev.e = "ret" ->
                         /\ used' = used \cup (IF pend[ev.t].t = "write" THEN SerialIds(pend[ev.t]) ELSE {})
                         /\ pend' = Forget(pend, ev.t)
                         /\ UNCHANGED low
                    [] OTHER -> UNCHANGED <<pend, used, low>>
               /\ (n = {}) => /\ PrintT(<<"REJECT", tr, i, T.name>>)
                              /\ PrintT(<<"INFO", tr, ev, "pending", pend, "maps", {c.m : c \in Cs}>>)
        /\ i' = i + 1
        /\ UNCHANGED tr

Accepted == (i = Len(T.ops) + 1 /\ Cs # {}) => PrintT(<<"ACCEPT", tr>>)
Spec == Init /\ [][Next]_vars
=============================================================================
