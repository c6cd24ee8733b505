------------------------------ MODULE MonotoneMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the system specification in a small world:    *)
(* every sequence of up to Depth statements out of a small alphabet, up to  *)
(* Faults of them cut short after any of their steps (a failure), and a    *)
(* restart after every one of them (a crash: a restart  *)
(* reads nothing but what the files say).                                  *)
(*                                                                         *)
(* Two uses. The invariants below show that the steps of the specification *)
(* do add up to the properties. And every transition found is printed as   *)
(* the statements leading to it (EMIT set in the environment): the checks  *)
(* run these histories in the real code and hand the record to             *)
(* MonotoneTrace.tla.                                                      *)
(*                                                                         *)
(* v     what reads have to return: contract of the statements, not        *)
(*       computed from partitions                                          *)
(* u     events of v under a drop which failed half way: may disappear     *)
(* past  former values of v (log disabled only)                            *)
(* h     statements so far                                                 *)
(* legal the last statement kept its contract                              *)
(* nf    failures so far                                                   *)
(***************************************************************************)
EXTENDS Catalog, Json, IOUtils

CONSTANTS Worlds, Depth, Faults

VARIABLES s, v, u, past, h, legal, nf
vars == <<s, v, u, past, h, legal, nf>>
Seen == <<s, v, u, past, legal, nf>>
CanFail == nf < Faults
Did(name)    == h' = Append(h, name) /\ nf' = nf
Failed(name) == h' = Append(h, "!" \o name) /\ nf' = nf + 1

World == h[1]
IsCloud == World \in {"C0", "C1", "C2", "C3"}
IsPipe  == World \in {"T1", "T2", "T3", "T4"} \/ (World = "D" /\ s.pipe # <<>>)
IsSerial == World = "S"
NoSizes == EmptyFn

MainCfg(cloud, drop) == [x \in {"cloud", "cloud_drop_local"} |-> IF x = "cloud" THEN cloud ELSE drop]
Tier(st, pn, ev, du) == [st |-> st, pn |-> pn, sz |-> -1, ev |-> ev, du |-> du]
InitOf(w) ==
    LET c1 == IF w \in {"C0", "C1", "C2"} THEN "c" ELSE ""
        c2 == IF w \in {"C2", "C3", "T4"} THEN "c" ELSE ""
        dl == IF w \in {"C1", "T4", "C3"} THEN "true" ELSE "false"
        wal == w # "N"
    IN [parts |-> EmptyFn,
        stor |-> <<[name |-> "main", cfg |-> MainCfg(c1, dl)], [name |-> "s2", cfg |-> MainCfg(c2, dl)]>>,
        clouds |-> IF c1 = "c" \/ c2 = "c" THEN <<[name |-> "c", cfg |-> EmptyFn]>> ELSE <<>>,
        pipe |-> CASE w = "T1" -> <<Tier("main", 1, -1, -1), Tier("s2", -1, -1, -1)>>
                   [] w = "T2" -> <<Tier("main", 1, -1, -1), Tier("s2", 1, -1, -1)>>
                   [] w = "T3" -> <<Tier("s2", -1, -1, 1), Tier("main", -1, 1, -1)>>
                   [] w = "T4" -> <<Tier("main", 1, -1, -1), Tier("s2", 1, -1, -1)>>
                   [] OTHER -> <<>>,
        q |-> <<>>, wal |-> IF wal THEN <<[id |-> 1, recs |-> <<>>]>> ELSE <<>>,
        lsn |-> 0, ssn |-> 0, ord |-> 1, now |-> 0, cur |-> EmptyFn, saved |-> <<>>,
        cfg |-> [wal |-> wal, interval |-> CASE w = "S" -> 1 [] w = "I" -> 3 [] OTHER -> 2, serial |-> w = "S",
                 rot |-> IF w = "R" THEN 0 ELSE -1, top |-> INF, opts |-> EmptyFn]]

Init == \E w \in Worlds :
    /\ s = IF w = "I" THEN Fill(Fill(InitOf(w), 0, 1), 2, 4) ELSE InitOf(w)
    /\ v = {} /\ u = {} /\ past = IF w = "N" THEN {{}} ELSE {}
    /\ h = <<w>> /\ legal = TRUE /\ nf = 0

---------------------------------------------------------------------------
Upd(x, evs) == FoldLeft(LAMBDA acc, e : {y \in acc : Pos(y) # <<e.id, e.k>>}
                            \cup (IF e.v = DEL THEN {} ELSE {<<e.id, e.k, e.v>>}), x, evs)
Put(id) == [id |-> id, k |-> 1, v |-> s.lsn + 1]
Rem(id) == [id |-> id, k |-> 1, v |-> DEL]
\* the world's writes: <<name, events>>
DataBatches ==
         {<<"w0", <<Put(0)>>>>, <<"w2", <<Put(2)>>>>, <<"x0", <<Rem(0)>>>>, <<"b", <<Put(1), Rem(2), Put(1), Put(3)>>>>}
         \cup (IF IsPipe THEN {<<"w4", <<Put(4)>>>>} ELSE {})
Batches ==
    CASE IsSerial -> {<<"ws", <<Put(-1)>>>>, <<"wss", <<Put(-1), Put(-1)>>>>}
      [] World = "D" -> {<<"w0", <<Put(0)>>>>, <<"w2", <<Put(2)>>>>}
      [] OTHER -> DataBatches
BadBatches == IF IsSerial \/ World = "D" THEN {} ELSE {<<"B", <<Put(0), Put(4)>>, 1>>}

Been(x) == IF World = "N" THEN past \cup {x} ELSE past

WriteStep ==
    \/ \E b \in Batches :
         LET ids == PutAll(s, b[2], 1, <<>>).ids
             evs == [i \in DOMAIN b[2] |-> [b[2][i] EXCEPT !.id = ids[i]]]
             n   == Upd(v, evs)
         IN  /\ s' = WriteOk(s, b[2], {})
             /\ v' = n /\ u' = u \cap n /\ past' = Been(n)
             /\ Did(b[1]) /\ legal' = TRUE
    \/ \E b \in BadBatches :
         /\ s' = WriteFail(s, b[2], b[3])
         /\ Did(b[1]) /\ UNCHANGED <<v, u, past, legal>>
    \/ /\ CanFail
       /\ \E b \in Batches :
            /\ Failed(b[1]) /\ UNCHANGED <<v, u, past, legal>>
            /\ s' \in {WriteFail(s, b[2], n) : n \in 0 .. Len(b[2])} \cup {WriteFailLog(s, b[2])}

\* ids under drop records newer than the state
Dropping(x) == UNION {{e[1] : e \in {y \in v : r.drop[1] <= y[1] /\ y[1] <= Last(r.drop)}} :
                      r \in {z \in ToSet(AllRecs(x.wal)) : z.drop # <<>> /\ z.lsn > s.lsn}}
\* a statement of several steps: finished, or failed after any of them
Steps(name, seq, drops) ==
    LET gone(x) == {e \in v : PartOf(s, e[1]) \notin Mins(x)}
        reach(x) == /\ s' = x /\ v' = View(x) /\ past' = Been(View(x))
                    /\ u' = (u \cup {e \in v : e[1] \in Dropping(x)}) \cap View(x)
                    /\ legal' = IF ~drops THEN v' = v
                               ELSE /\ v' \subseteq v \ gone(x)
                                    /\ \A e \in v \ v' : e \in gone(x) \/ e[1] \in Dropping(x)
    IN  \/ reach(Last(seq)) /\ Did(name)
        \/ /\ CanFail /\ Len(seq) > 1
           /\ \E x \in ToSet(seq) : reach(x) /\ Failed(name)

PartName(t, m) == t \o ToString(m)
HasCloud(m) == CloudOf(s, s.parts[m].st) # ""
Exclusive == DOMAIN s.cur = {}
PartStep == World # "D" /\ Exclusive /\ \E m \in Mins(s) :
    LET c == CompleteSeq(s, m) z == Last(c) IN
    \/ Steps(PartName("r", m), RefreshSteps(s, m, "", NoSizes), FALSE)
    \/ /\ ~IsPipe
       /\ LET to == IF s.parts[m].st = "main" THEN "s2" ELSE "main"
          IN  Steps(PartName("m", m), RefreshSteps(s, m, to, NoSizes), FALSE)
    \/ Steps(PartName("d", m), DropSeq(s, m), TRUE)
    \/ /\ HasCloud(m)
       /\ \/ Steps(PartName("g", m), c \o DownloadSeq(z, m), FALSE)
          \/ /\ s.parts[m].loc # {}
             /\ Steps(PartName("u", m), c \o <<DoUpload(z, m)>>, FALSE)
          \/ \E w \in {"L", "C"} :       \* one of two copies
             /\ {"L", "C"} \subseteq z.parts[m].loc
             /\ Steps(PartName("D" \o w, m), c \o <<NoStray(z, m), DropCopies(z, m, m, {w})>>, FALSE)

ServiceStep ==
    /\ Exclusive /\ s.q # <<>>
    /\ LET seq == ServiceSeq(s, NoSizes)
           id  == Head(s.q).id
       IN  \* a request which failed is over
           Steps("s", [k \in DOMAIN seq |-> IF k = Len(seq) THEN seq[k] ELSE Unpend(seq[k], id)], TRUE)
OtherStep ==
    \/ /\ Exclusive
       /\ \E m \in Mins(s) : PartMem(s.parts[m]) # EmptyFn /\ ~s.parts[m].pend
       /\ Steps("k", <<Checkpoint(s, {m \in Mins(s) : PartMem(s.parts[m]) # EmptyFn})>>, FALSE)
    \/ /\ Exclusive /\ IsPipe /\ Victims(s) # {}
       /\ Steps("e", RebalanceSeq(s, NoSizes, RebalanceFuel(s)), TRUE)
    \/ /\ Exclusive /\ World \in {"P", "R"} /\ Rotate(s, TRUE) # s
       /\ Steps("c", <<Rotate(s, TRUE)>>, FALSE)
    \/ /\ World \in {"P", "R"} /\ Gc(s) # s
       /\ Steps("G", GcSeq(s), FALSE)
    \/ /\ World = "T3" /\ s.now < 2
       /\ Steps("t", <<[s EXCEPT !.now = @ + 1]>>, FALSE)
    \/ /\ World = "I"
       /\ LET i == IF s.cfg.interval = 5 THEN 3 ELSE 5
          IN  Steps("i" \o ToString(i), <<[s EXCEPT !.cfg.interval = i]>>, FALSE)

CursorStep ==
    /\ World = "Q"
    /\ \/ /\ Exclusive /\ Steps("o", <<CurOpen(s, "a", <<>>)>>, FALSE)
       \/ /\ Exclusive /\ Steps("O", <<CurOpen(s, "a", <<1, 1>>)>>, FALSE)
       \/ /\ ~Exclusive
          /\ \E e \in s.cur["a"].may \cup {<<>>} :
               CurAt(s, "a", e) /\ Steps("n", <<CurMove(s, "a", e)>>, FALSE)
       \/ /\ ~Exclusive /\ Steps("q", <<[s EXCEPT !.cur = EmptyFn]>>, FALSE)

(* Definitions (world D): every statement, accepted or not *)
Names == {"main", "s2", "s3"}
\* definitions do not touch the data
Plain(x) == [m \in DOMAIN x.parts |-> [x.parts[m] EXCEPT !.st = "", !.org = <<>>]]
Def(name, r) ==
    /\ s' = r[2] /\ Did(name) /\ legal' = (Plain(r[2]) = Plain(s)) /\ UNCHANGED <<v, u, past>>
Pipes == {<<"P0", <<>>>>,
          <<"P1", <<Tier("main", 1, -1, -1), Tier("s2", -1, -1, -1)>>>>,
          <<"P2", <<Tier("s2", 1, -1, -1), Tier("main", -1, -1, -1)>>>>,
          <<"P3", <<Tier("s3", 1, -1, -1), Tier("s2", 1, -1, -1), Tier("main", -1, -1, -1)>>>>,
          <<"P4", <<Tier("s2", -1, 0, -1), Tier("s2", -1, -1, -1)>>>>,
          <<"P5", <<Tier("main", -1, -1, -1), Tier("s2", -1, -1, -1)>>>>}
DefStep ==
    /\ World = "D"
    /\ \/ \E n \in {"s2", "s3"} :
            \/ \E c \in {"", "c"} :
                 Def("S+" \o n \o c, CreateStorage(s, n, [x \in {"cloud"} |-> c], FALSE, MainCfg("", "true")))
            \/ Def("S-" \o n, DropStorage(s, n, FALSE))
            \/ \E t \in Names \ {n} : Def("Sr" \o n \o t, RenameStorage(s, n, t, FALSE))
       \/ \E n \in Names, c \in {"", "c", "d"} : Def("Sa" \o n \o c, AlterStorage(s, n, [x \in {"cloud"} |-> c], FALSE))
       \/ \E c \in {"c", "d"} :
            \/ Def("C+" \o c, CreateCloud(s, c, [x \in {"type"} |-> "mock"], FALSE, EmptyFn))
            \/ Def("C-" \o c, DropCloud(s, c, FALSE))
            \/ Def("Cr" \o c, RenameCloud(s, c, IF c = "c" THEN "d" ELSE "c", FALSE))
       \/ \E p \in Pipes : Def(p[1], AlterPipeline(s, p[2]))
       \/ \E m \in Mins(s) :
            \/ Steps(PartName("r", m), RefreshSteps(s, m, "", NoSizes), FALSE)
            \/ \E t \in Names : HasSt(s, t) /\ Steps(PartName("M" \o t, m), RefreshSteps(s, m, t, NoSizes), FALSE)
            \/ Steps(PartName("d", m), DropSeq(s, m), TRUE)

Restart ==
    LET r == Recover(s) IN
    /\ s' = r /\ v' = View(r) /\ u' = {} /\ past' = Been(View(r))
    /\ legal' = IF s.cfg.wal THEN v' \subseteq v /\ v \ u \subseteq v'
                ELSE \A m \in Mins(r) : \E x \in past :
                        LET in(y) == {e \in y : m <= e[1] /\ e[1] <= r.parts[m].max} IN in(v') = in(x)
    /\ Did("R")

Next == Len(h) <= Depth /\ (WriteStep \/ PartStep \/ ServiceStep \/ OtherStep \/ CursorStep \/ DefStep \/ Restart)
Spec == Init /\ [][Next]_vars
Emit  == "EMIT" \in DOMAIN IOEnv
Paths == Emit => PrintT("PATH " \o ToJson(h'))              \* exhaustive: every transition
Walk  == Len(h) = Depth + 1 => PrintT("PATH " \o ToJson(h))  \* simulation

---------------------------------------------------------------------------
(* What the steps have to add up to *)
Legal     == legal
Reads     == View(s) = v                                       \* C01, C04, C06, C10, C12
R         == Recover(s)
Durable   == s.cfg.wal => LET w == View(R) IN w \subseteq v /\ v \ u \subseteq w   \* C05, C06, C09
SpecOK    == SpecInv(s)                                        \* C08, C15
RecOK     == SpecInv(R)
\* recovering twice is recovering once (a crash during recovery)
Idempotent == s.cfg.wal => LET r == R IN View(Recover(r)) = View(r) /\ Recover(r).lsn = r.lsn /\ Recover(r).ssn = r.ssn
\* log positions are not used twice                              C07
Positions == s.cfg.wal => R.lsn = s.lsn
LogOrder  == \A a \in 1 .. Len(s.wal) - 1 : s.wal[a].id < s.wal[a + 1].id
             /\ \A k \in DOMAIN s.wal[a].recs : s.wal[a].id <= s.wal[a].recs[k].lsn /\ s.wal[a].recs[k].lsn < s.wal[a + 1].id
\* what is only in memory is in the log                          C07
Logged == s.cfg.wal => \A m \in Mins(s) : LET p == s.parts[m] IN
    \A x \in DOMAIN PartMem(p) : \E r \in ToSet(AllRecs(s.wal)) :
        \E e \in ToSet(r.ents) : e[1] = x[1] /\ e[2] = x[2] /\ e[3] = PartMem(p)[x]
\* numbers given out stay above all stored                       C14
Serial == s.cfg.serial => s.ssn > MaxStored(s) /\ R.ssn > MaxStored(R)
\* a requested refresh is in the queue                           C20
Queued == \A m \in Mins(s) : s.parts[m].pend =>
    \E i \in DOMAIN s.q : PartOf(s, s.q[i].id) = m /\ "refresh" \in ToSet(s.q[i].acts)
\* everything requested, done: nothing is left in memory, limits hold,
\* only the current log file is kept, and the content is what it was   C11, C20, C22
RECURSIVE Drain(_, _)
Drain(x, n) == IF x.q = <<>> \/ n = 0 THEN x ELSE Drain(Service1(x, NoSizes), n - 1)
HasMem(x) == {m \in Mins(x) : PartMem(x.parts[m]) # EmptyFn}
Settled == Exclusive =>
    LET a == Drain(s, 40)
        b == Drain(Checkpoint(a, HasMem(a)), 40)
    IN  /\ b.q = <<>> /\ HasMem(b) = {}
        \* (a partition whose refresh is requested is passed over: the next
        \*  rebalance takes it)
        /\ Victims(Rebalance(b, NoSizes)) = {}
        /\ \A m \in Mins(b) : ~b.parts[m].pend
        /\ IsPipe \/ View(b) = v
        \* log files are kept for unfinished refreshes and failed log writes only
        /\ \/ Len(Gc(b).wal) <= 1
           \/ \E m \in Mins(b) : PartLsnMin(b.parts[m]) # INF
        /\ \/ ~s.cfg.wal /\ nf > 0
           \/ View(b) \ u \subseteq View(Recover(b)) /\ View(Recover(b)) \subseteq View(b)
        \* what was refreshed is in the cloud
        /\ nf = 0 => \A m \in HasMem(a) \cap Mins(b) : CloudOf(b, b.parts[m].st) # "" => "C" \in b.parts[m].loc
\* an open cursor returns what is there throughout               C03
Cursors == \A c \in DOMAIN s.cur :
    /\ s.cur[c].must \subseteq {Pos(e) : e \in v}
    /\ {e \in v : s.cur[c].from = <<>> \/ PosLE(s.cur[c].from, Pos(e))} \subseteq s.cur[c].may \cup {e \in v : ~(\E p \in s.cur[c].must : p = Pos(e))}
\* definitions, and where partitions are, are there after a restart          C15
Defined == Definitions(R) = Definitions(s) /\ \A m \in Mins(R) : 
    m \in Mins(s) => \/ R.parts[m].st = s.parts[m].st \/ R.parts[m].file = EmptyFn
                     \/ s.parts[m].org # <<>>      \* an unfinished move
\* a partition file exists somewhere as long as it has contents  C10, C12
Copies == \A m \in Mins(s) : DOMAIN s.parts[m].file # {} => s.parts[m].loc # {}
===============================================================================
