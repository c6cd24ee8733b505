------------------------------ MODULE Monotone ------------------------------
(***************************************************************************)
(* The system specification of monotone: state and transitions.            *)
(*                                                                         *)
(* The state is one record `s`; every public operation (and every internal *)
(* background action) is an operator from a state to its successor(s).     *)
(* MonotoneMC.tla puts these transitions under TLC's exhaustive search,    *)
(* MonotoneTrace.tla replays recorded executions of the real code through  *)
(* the same operators.                                                     *)
(*                                                                         *)
(* s.parts   partitions by lower bound: [max, st, loc, file, flsn, refr,   *)
(*           mem, mlo, mhi, old, olo, ohi, org, pend, ord, sz]             *)
(*     loc   subset of {"L","C","X"}: local file, cloud copy, file left by *)
(*           a failed download, which recovery takes for the local file    *)
(*     file  contents of the partition file, <<id,key>> -> value           *)
(*     flsn  last log position contained in the file                       *)
(*     mem   contents of the memory part, <<id,key>> -> value or DEL       *)
(*     mlo   lowest log position with data in mem (INF: none)              *)
(*     old   contents of the memory generation left by a failed refresh:   *)
(*           newer than file, older than mem; olo, ohi as mlo, mhi         *)
(*     org   <<>>, or <<the file this partition file replaces>> while the  *)
(*           replaced file is not removed: [st, loc, file, flsn, refr, sz, *)
(*           hold: log position to keep, gone: it is removed already]      *)
(*     pend  a refresh of this partition is already requested              *)
(*     ord   creation order; ct creation time; sz size of the file's data  *)
(* s.stor    storages in catalogue order: [name, cfg]                      *)
(* s.clouds  clouds in catalogue order: [name, cfg]                        *)
(* s.pipe    pipeline tiers: [st, pn, sz, ev, du] (-1: no limit)           *)
(* s.q       requested background work, FIFO: [id, acts]                   *)
(* s.wal     log files in order: [id, recs]; recs: [lsn, drop, ents];      *)
(*           drop is <<>>, <<id>> (a whole interval) or <<min, max>>       *)
(* s.lsn, s.ssn, s.ord  counters;  s.now  wall clock                       *)
(* s.cur     open cursors                                                  *)
(* s.cfg     [wal, interval, serial, rot, opts]                            *)
(* s.saved   <<>>, or <<the definitions in the config file>> while they    *)
(*           are not those in memory (only under deviation "ddl_io")       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

\* Named deviations of the implementation from this specification: known
\* findings.  Empty unless a rejected trace is looked at a second time.
CONSTANT Deviations
Dev(x) == x \in Deviations

DEL  == -1
INF  == 1000000000
NONE == -5
EmptyFn == [x \in {} |-> 0]

Restrict0(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]
Without(f, S) == [x \in (DOMAIN f) \ S |-> f[x]]

---------------------------------------------------------------------------
(* Reading *)

\* contents of a partition: memory over file, tombstones removed
Merged(file, mem) ==
    [x \in {y \in DOMAIN file \cup DOMAIN mem :
              y \in DOMAIN mem => mem[y] # DEL}
        |-> IF x \in DOMAIN mem THEN mem[x] ELSE file[x]]

PartMem(p)  == p.mem @@ p.old
PartView(p) == LET m == Merged(p.file, PartMem(p))
               IN  {<<x[1], x[2], m[x]>> : x \in DOMAIN m}
View(s) == UNION {PartView(s.parts[m]) : m \in DOMAIN s.parts}

\* position order: id first, then key
PosLT(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
PosLE(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Pos(e) == <<e[1], e[2]>>

---------------------------------------------------------------------------
(* Catalogue look-up *)

StIdx(s, n)  == {i \in DOMAIN s.stor : s.stor[i].name = n}
HasSt(s, n)  == StIdx(s, n) # {}
StOf(s, n)   == s.stor[CHOOSE i \in StIdx(s, n) : TRUE]
ClIdx(s, n)  == {i \in DOMAIN s.clouds : s.clouds[i].name = n}
HasCl(s, n)  == ClIdx(s, n) # {}
CloudOf(s, st) == StOf(s, st).cfg["cloud"]
DropLocal(s, st) == StOf(s, st).cfg["cloud_drop_local"] = "true"
Primary(s)   == IF s.pipe # <<>> THEN s.pipe[1].st ELSE s.stor[1].name
TierIdx(s, n) == {i \in DOMAIN s.pipe : s.pipe[i].st = n}

Mins(s) == DOMAIN s.parts
PartOf(s, id) ==   \* the partition covering id
    LET c == {m \in Mins(s) : m <= id /\ id <= s.parts[m].max}
    IN  IF c = {} THEN NONE ELSE CHOOSE m \in c : TRUE
Head0(s) == IF Mins(s) = {} THEN NONE ELSE Max(Mins(s))
SortedMins(s) == SetToSortSeq(Mins(s), <)

---------------------------------------------------------------------------
(* Background requests *)

ReqRefresh(s, m) ==
    IF CloudOf(s, s.parts[m].st) = ""
    THEN [id |-> m, acts |-> <<"rebalance", "refresh", "gc">>]
    ELSE [id |-> m, acts |-> <<"rebalance", "download", "dropcloud",
                               "refresh", "upload", "droplocal", "gc">>]
ReqRebalance == [id |-> NONE, acts |-> <<"rebalance", "gc">>]
ReqRotate    == [id |-> NONE, acts |-> <<"rotate", "gc">>]
ReqUpload(m) == [id |-> m, acts |-> <<"upload", "droplocal", "gc">>]
Enq(s, r)    == [s EXCEPT !.q = Append(@, r)]

---------------------------------------------------------------------------
(* Partitions: creation *)

NewPart(s, max) ==
    [max |-> max, st |-> Primary(s), loc |-> {}, file |-> EmptyFn, flsn |-> 0,
     refr |-> 0, mem |-> EmptyFn, mlo |-> INF, mhi |-> 0,
     old |-> EmptyFn, olo |-> INF, ohi |-> 0, org |-> <<>>, pend |-> FALSE,
     ord |-> s.ord, ct |-> s.now, sz |-> 0, lay |-> <<>>]

CreatePart(s, min, max) ==
    LET s1 == [s EXCEPT !.parts = @ @@ (min :> NewPart(s, max)), !.ord = @ + 1]
    IN  IF s.pipe # <<>> THEN Enq(s1, ReqRebalance) ELSE s1

\* create partitions in all gaps of [min, max], ascending
RECURSIVE Fill(_, _, _)
Fill(s, min, max) ==
    IF min > max THEN s
    ELSE LET c == PartOf(s, min)
         IN  IF c # NONE THEN Fill(s, s.parts[c].max + 1, max)
             ELSE LET above == {m \in Mins(s) : m > min /\ m <= max}
                      gmax  == IF above = {} THEN max ELSE Min(above) - 1
                  IN  Fill(CreatePart(s, min, gmax), gmax + 1, max)

IntervalMin(s, id) == id - (id % s.cfg.interval)
\* the last interval ends with the id space
IntervalMax(s, id) == LET x == IntervalMin(s, id) + s.cfg.interval - 1
                      IN  IF x > s.cfg.top THEN s.cfg.top ELSE x

\* find or create the partition for a write
Ensure(s, id) ==
    IF PartOf(s, id) # NONE THEN s
    ELSE LET h    == Head0(s)
             min  == IntervalMin(s, id)
             s1   == Fill(s, min, IntervalMax(s, id))
         IN  IF h # NONE /\ h < min THEN Enq(s1, ReqRefresh(s1, h)) ELSE s1

---------------------------------------------------------------------------
(* Log *)

CurWal(s) == s.wal[Len(s.wal)]
AppendRec(s, rec) ==
    [s EXCEPT !.wal[Len(s.wal)].recs = Append(@, rec), !.lsn = rec.lsn]
RotateReady(s) == s.cfg.rot = 0 /\ CurWal(s).recs # <<>>
\* DEBUG "wal_create" and the rotate action
Rotate(s, force) ==
    IF s.wal = <<>> THEN s
    ELSE IF CurWal(s).recs # <<>> /\ (force \/ s.cfg.rot = 0)
    THEN [s EXCEPT !.wal = Append(@, [id |-> s.lsn + 1, recs |-> <<>>])]
    ELSE s

PartLsnMin(p) == Min({p.mlo, p.olo} \cup (IF p.org = <<>> THEN {} ELSE {p.org[1].hold}))
LsnMin(s) == IF Mins(s) = {} THEN INF ELSE Min({PartLsnMin(s.parts[m]) : m \in Mins(s)})
RECURSIVE DropOldWal(_, _)
DropOldWal(w, lo) ==
    IF Len(w) > 1 /\ lo >= w[2].id THEN DropOldWal(Tail(w), lo) ELSE w
Gc(s) == IF ~s.cfg.wal \/ s.wal = <<>> THEN s
         ELSE [s EXCEPT !.wal = DropOldWal(@, LsnMin(s))]
\* files are removed oldest first: states on the way
GcSeq(s) == LET n == Len(s.wal) - Len(Gc(s).wal)
            IN  [k \in 1 .. n + 1 |-> [s EXCEPT !.wal = SubSeq(@, k, Len(@))]]

---------------------------------------------------------------------------
(* Writes *)

Follow(p, lsn) ==
    [p EXCEPT !.mlo = IF lsn < @ THEN lsn ELSE @,
              !.mhi = IF lsn > @ THEN lsn ELSE @]

\* result of inserting the events: [s, ids], ids in batch order
RECURSIVE PutAll(_, _, _, _)
PutAll(s, evs, i, ids) ==
    IF i > Len(evs) THEN [s |-> s, ids |-> ids]
    ELSE LET e  == evs[i]
             sr == e.id = DEL /\ s.cfg.serial
             id == IF sr THEN s.ssn ELSE e.id
             s0 == IF sr THEN [s EXCEPT !.ssn = @ + 1] ELSE s
             s1 == Ensure(s0, id)
             m  == PartOf(s1, id)
             s2 == [s1 EXCEPT !.parts[m].mem = (<<id, e.k>> :> e.v) @@ @]
         IN  PutAll(s2, evs, i + 1, Append(ids, id))

\* commit: positions become known, refreshes get requested
RECURSIVE Commit(_, _, _, _, _)
Commit(s, ids, i, lsn, hot) ==
    IF i > Len(ids) THEN s
    ELSE LET m  == PartOf(s, ids[i])
             s1 == [s EXCEPT !.parts[m] = Follow(@, lsn)]
             s2 == IF m \in hot /\ ~s1.parts[m].pend
                   THEN [Enq(s1, ReqRefresh(s1, m)) EXCEPT !.parts[m].pend = TRUE]
                   ELSE s1
         IN  Commit(s2, ids, i + 1, lsn, hot)

\* cursor bookkeeping on a change of contents
Touch(s, t) ==   \* t: state after, s: state before
    IF DOMAIN s.cur = {} THEN t
    ELSE LET v0 == View(s)
             v1 == View(t)
             gone == {Pos(e) : e \in v0} \ {Pos(e) : e \in v1}
             new  == v1 \ v0
         IN  [t EXCEPT !.cur =
               [c \in DOMAIN t.cur |->
                 [t.cur[c] EXCEPT !.must = @ \ gone, !.may = @ \cup new]]]

WriteOk(s, evs, hot) ==
    LET r  == PutAll(s, evs, 1, <<>>)
        s1 == r.s
        lsn == s.lsn + 1
        ents == [i \in DOMAIN evs |-> <<r.ids[i], evs[i].k, evs[i].v>>]
        s2 == IF s.cfg.wal
              THEN LET a == AppendRec(s1, [lsn |-> lsn, drop |-> <<>>, ents |-> ents])
                   IN  IF RotateReady(a) THEN Enq(a, ReqRotate) ELSE a
              ELSE [s1 EXCEPT !.lsn = lsn]
    IN  Touch(s, Commit(s2, r.ids, 1, lsn, hot))

\* a rejected write leaves no data; partitions and ids it had already
\* claimed stay claimed. n: number of events considered before the failure
WriteFail(s, evs, n) ==
    LET r == PutAll(s, SubSeq(evs, 1, n), 1, <<>>)
    IN  [r.s EXCEPT !.parts =
           [m \in DOMAIN r.s.parts |->
             IF m \in Mins(s) THEN [r.s.parts[m] EXCEPT !.mem = s.parts[m].mem]
             ELSE [r.s.parts[m] EXCEPT !.mem = EmptyFn]]]
\* the failure came from the log: its records are kept from here on
WriteFailLog(s, evs) ==
    LET r == PutAll(s, evs, 1, <<>>)
        t == WriteFail(s, evs, Len(evs))
        ms == {PartOf(t, id) : id \in ToSet(r.ids)}
    IN  [t EXCEPT !.parts =
           [m \in DOMAIN @ |-> IF m \in ms /\ s.lsn + 1 < @[m].mlo
                               THEN [@[m] EXCEPT !.mlo = s.lsn + 1] ELSE @[m]]]

---------------------------------------------------------------------------
(* Partition operations; each is a sequence of steps so that a failure can *)
(* leave the effect of a prefix of them                                     *)

DoDownload(s, m) ==
    LET p == s.parts[m]
    IN  IF CloudOf(s, p.st) # "" /\ "L" \notin p.loc /\ "C" \in p.loc
        THEN [s EXCEPT !.parts[m].loc = (@ \ {"X"}) \cup {"L"}] ELSE s
\* a failure can leave the file
DownloadSeq(s, m) ==
    LET t == DoDownload(s, m)
    IN  IF t = s THEN <<s>> ELSE <<s, [s EXCEPT !.parts[m].loc = @ \cup {"X"}], t>>

\* before copies are dropped
NoStray(s, m) == [s EXCEPT !.parts[m].loc = @ \ {"X"}]
\* drop copies; when the last copy goes the file contents go with it
DoDropFile(s, m, which) ==
    LET loc1 == s.parts[m].loc \ (which \cup {"X"})
    IN  IF loc1 # {} THEN [s EXCEPT !.parts[m].loc = loc1]
        ELSE Touch(s, [s EXCEPT !.parts[m].loc = {}, !.parts[m].file = EmptyFn,
                            !.parts[m].flsn = 0, !.parts[m].refr = 0,
                            !.parts[m].sz = 0, !.parts[m].lay = <<>>])

DoDropLocalAuto(s, m) ==
    LET p == s.parts[m]
    IN  IF DropLocal(s, p.st) /\ "C" \in p.loc
        THEN [s EXCEPT !.parts[m].loc = {"C"}] ELSE s

\* finish a refresh whose replaced file is still there
CompleteSeq(s, m) ==
    IF s.parts[m].org = <<>> THEN <<s>>
    ELSE <<s, [s EXCEPT !.parts[m].org[1].gone = TRUE], [s EXCEPT !.parts[m].org = <<>>]>>

\* the memory part becomes the old generation; a generation left by a
\* failed refresh has to be merged first
RotateMem(p) ==
    IF p.old # EmptyFn THEN p
    ELSE [p EXCEPT !.old = p.mem, !.olo = p.mlo, !.ohi = p.mhi,
                   !.mem = EmptyFn, !.mlo = p.olo, !.mhi = p.ohi]

\* how a file is written: by the options its storage has at that moment
Layout(s, st) == LET c == StOf(s, st).cfg IN [o \in {"region_size", "compression", "encryption"} \cap DOMAIN c |-> c[o]]

\* one merge of file and old generation into a new file.
\* sizes: observed sizes of partition files, by lower bound
MergeSeq(s, m, target, sizes) ==
    LET p == s.parts[m]
        t == IF target = "" THEN p.st ELSE target
        r == RotateMem(p)
        n == [r EXCEPT !.file = Merged(r.file, r.old),
                       !.flsn = IF r.loc # {} /\ r.flsn > r.ohi THEN r.flsn ELSE r.ohi,
                       !.refr = IF r.loc = {} THEN 1 ELSE @ + 1,
                       !.old = EmptyFn, !.olo = INF, !.ohi = 0,
                       !.loc = {"L"}, !.pend = FALSE, !.st = t, !.lay = Layout(s, t),
                       !.sz = IF m \in DOMAIN sizes THEN sizes[m] ELSE @,
                       !.org = <<[st |-> p.st, loc |-> p.loc, file |-> p.file, flsn |-> p.flsn,
                                  refr |-> p.refr, sz |-> p.sz, lay |-> p.lay, hold |-> r.olo, gone |-> FALSE]>>]
        merged == [s EXCEPT !.parts[m] = n]
    IN  <<s, [s EXCEPT !.parts[m] = r]>> \o CompleteSeq(merged, m)

\* a move to the storage the partition is in does nothing
MergeSeqs(s, m, target, sizes) ==
    IF target # "" /\ target = s.parts[m].st THEN <<s>>
    ELSE LET a == MergeSeq(s, m, target, sizes)
         IN  IF s.parts[m].old = EmptyFn THEN a
             ELSE a \o MergeSeq(Last(a), m, "", sizes)

CanUpload(s, m) == LET p == s.parts[m]
                   IN CloudOf(s, p.st) # "" /\ "C" \notin p.loc /\ "L" \in p.loc
DoUpload(s, m) == IF CanUpload(s, m) THEN [s EXCEPT !.parts[m].loc = @ \cup {"C"}] ELSE s

\* manual refresh and move: states after each step
RefreshSteps(s, m, target, sizes) ==
    LET a == CompleteSeq(s, m)
        z == DownloadSeq(Last(a), m)
        b == Last(z)
        c == IF "C" \in b.parts[m].loc THEN DoDropFile(b, m, {"C"}) ELSE b
        d == MergeSeqs(c, m, target, sizes)
        e == DoUpload(Last(d), m)
        f == DoDropLocalAuto(e, m)
    IN  a \o z \o <<c>> \o d \o <<e, f>>
DoRefresh(s, m, target, sizes) == Last(RefreshSteps(s, m, target, sizes))

\* full drop: the log record first, then the data; states on the way
\* the record names the range; the implementation writes a short record for
\* a whole interval, which is read with the interval in force at recovery
DropRec(s, m) ==
    IF Dev("drop_interval") /\ m = IntervalMin(s, m) /\ s.parts[m].max = IntervalMax(s, m) THEN <<m>>
    ELSE <<m, s.parts[m].max>>
LogDrop(s, m) ==
    IF s.cfg.wal
    THEN LET a == AppendRec(s, [lsn |-> s.lsn + 1, drop |-> DropRec(s, m), ents |-> <<>>])
         IN  IF RotateReady(a) THEN Enq(a, ReqRotate) ELSE a
    ELSE s
DropSeq(s, m) ==
    LET a == CompleteSeq(s, m)
        b == NoStray(LogDrop(Last(a), m), m)
        c == IF "C" \in b.parts[m].loc THEN DoDropFile(b, m, {"C"}) ELSE b
        d == Touch(b, [b EXCEPT !.parts = Without(@, {m})])
    IN  a \o <<LogDrop(Last(a), m), b, c, d>>
DoDrop(s, m) == Last(DropSeq(s, m))

DropCopies(s, m, id, which) ==
    IF which = {"L", "C"} THEN DoDrop(s, m)
    ELSE IF s.parts[m].loc \cap which = {} /\ s.parts[m].loc # {} THEN NoStray(s, m)
    ELSE DoDropFile(s, m, which)

---------------------------------------------------------------------------
(* Rebalance *)

InStorage(s, n) == {m \in Mins(s) : s.parts[m].st = n}
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
StEvents(s, n) == LET f(m) == Cardinality(DOMAIN s.parts[m].file) IN SumOver(InStorage(s, n), f)
StSize(s, n)   == LET f(m) == s.parts[m].sz IN SumOver(InStorage(s, n), f)
Oldest(s, n)   == CHOOSE m \in InStorage(s, n) :
                     \A x \in InStorage(s, n) : s.parts[m].ord <= s.parts[x].ord
TierExceeded(s, i) ==
    LET t == s.pipe[i]
    IN  /\ InStorage(s, t.st) # {}
        /\ \/ t.pn >= 0 /\ Cardinality(InStorage(s, t.st)) > t.pn
           \/ t.sz >= 0 /\ StSize(s, t.st) > t.sz
           \/ t.ev >= 0 /\ StEvents(s, t.st) > t.ev
           \/ t.du >= 0 /\ s.now - s.parts[Oldest(s, t.st)].ct >= t.du
Victims(s) == {i \in DOMAIN s.pipe :
                 TierExceeded(s, i) /\ ~s.parts[Oldest(s, s.pipe[i].st)].pend}

\* the sequence of states a rebalance goes through; <<s>> when balanced
RECURSIVE RebalanceSeq(_, _, _)
RebalanceSeq(s, sizes, fuel) ==
    IF Victims(s) = {} \/ fuel = 0 THEN <<s>>
    ELSE LET i == Min(Victims(s))
             m == Oldest(s, s.pipe[i].st)
             n == IF i = Len(s.pipe) THEN DropSeq(s, m)
                  ELSE RefreshSteps(s, m, s.pipe[i + 1].st, sizes)
         IN  n \o RebalanceSeq(Last(n), sizes, fuel - 1)
RebalanceFuel(s) == 2 + Cardinality(Mins(s)) * (Len(s.pipe) + 1)
Rebalance(s, sizes) == Last(RebalanceSeq(s, sizes, RebalanceFuel(s)))

---------------------------------------------------------------------------
(* Background service: one request *)

\* an action of a request: <<succeeded, states on the way>>
Act(s, a, id, sizes) ==
    LET m == IF id = NONE THEN NONE ELSE PartOf(s, id)
        done(f(_)) == LET c == CompleteSeq(s, m) IN c \o f(Last(c))
    IN  CASE a = "rotate"    -> <<TRUE, <<s, Rotate(s, FALSE)>>>>
          [] a = "gc"        -> <<TRUE, <<s>> \o GcSeq(s)>>
          [] a = "rebalance" -> <<TRUE, RebalanceSeq(s, sizes, RebalanceFuel(s))>>
          [] m = NONE        -> <<TRUE, <<s>>>>
          [] a = "download"  -> <<TRUE, done(LAMBDA x : DownloadSeq(x, m))>>
          [] a = "dropcloud" -> <<TRUE, done(LAMBDA x : <<x, IF "C" \in x.parts[m].loc
                                        THEN DoDropFile(x, m, {"C"}) ELSE x>>)>>
          [] a = "refresh"   -> IF "C" \in s.parts[m].loc THEN <<FALSE, CompleteSeq(s, m)>>
                                ELSE <<TRUE, done(LAMBDA x : MergeSeqs(x, m, "", sizes))>>
          [] a = "upload"    -> IF CloudOf(s, s.parts[m].st) # "" /\ s.parts[m].loc = {}
                                THEN <<FALSE, CompleteSeq(s, m)>>
                                ELSE <<TRUE, done(LAMBDA x : <<x, DoUpload(x, m)>>)>>
          [] a = "droplocal" -> <<TRUE, done(LAMBDA x : <<x, DoDropLocalAuto(x, m)>>)>>

\* a request which fails can be requested again
Unpend(s, id) == LET m == IF id = NONE THEN NONE ELSE PartOf(s, id)
                 IN  IF m = NONE THEN s ELSE [s EXCEPT !.parts[m].pend = FALSE]

RECURSIVE ActSeq(_, _, _, _)
ActSeq(s, acts, id, sizes) ==
    IF acts = <<>> THEN <<s>>
    ELSE LET r == Act(s, Head(acts), id, sizes)
         IN  IF r[1] THEN r[2] \o ActSeq(Last(r[2]), Tail(acts), id, sizes)
             ELSE r[2] \o <<Unpend(Last(r[2]), id)>>

ServiceSeq(s, sizes) ==
    IF s.q = <<>> THEN <<s>>
    ELSE ActSeq([s EXCEPT !.q = Tail(@)], Head(s.q).acts, Head(s.q).id, sizes)
Service1(s, sizes) == Last(ServiceSeq(s, sizes))
\* up to n requests: all states on the way
RECURSIVE ServiceSeqN(_, _, _)
ServiceSeqN(s, n, sizes) ==
    IF n = 0 \/ s.q = <<>> THEN <<s>>
    ELSE LET a == ServiceSeq(s, sizes) IN a \o ServiceSeqN(Last(a), n - 1, sizes)
RECURSIVE ServiceN(_, _, _)
ServiceN(s, n, sizes) ==
    IF n = 0 \/ s.q = <<>> THEN s ELSE ServiceN(Service1(s, sizes), n - 1, sizes)

RECURSIVE CheckpointOver(_, _, _)
CheckpointOver(s, ms, heap) ==
    IF ms = <<>> THEN s
    ELSE LET m == Head(ms)
             s1 == IF m \in heap /\ ~s.parts[m].pend
                   THEN [Enq(s, ReqRefresh(s, m)) EXCEPT !.parts[m].pend = TRUE]
                   ELSE s
         IN  CheckpointOver(s1, Tail(ms), heap)
Checkpoint(s, heap) == CheckpointOver(s, SortedMins(s), heap)

---------------------------------------------------------------------------
(* Range statements visit, ascending, the partitions inside [lo, hi] and   *)
(* stop at the first partition reaching beyond it                          *)
NextIn(s, lo, hi) ==
    LET c == {m \in Mins(s) : s.parts[m].max >= lo}
    IN  IF c = {} THEN NONE
        ELSE LET m == Min(c)
             IN  IF m >= lo /\ s.parts[m].max <= hi THEN m ELSE NONE

---------------------------------------------------------------------------
(* Restart and recovery *)

\* a partition as its files say: the replaced file wins while it exists
OnDisk(p) ==
    LET q == IF p.org # <<>> /\ ~p.org[1].gone
             THEN LET o == p.org[1]
                  IN  [p EXCEPT !.st = o.st, !.loc = o.loc, !.file = o.file,
                                !.flsn = o.flsn, !.refr = o.refr, !.sz = o.sz, !.lay = o.lay]
             ELSE [p EXCEPT !.loc = (@ \ {"X"}) \cup (IF "X" \in @ THEN {"L"} ELSE {})]
    IN  [q EXCEPT !.mem = EmptyFn, !.mlo = INF, !.mhi = 0, !.pend = FALSE,
                  !.old = EmptyFn, !.olo = INF, !.ohi = 0, !.org = <<>>]
Survivors(s) ==
    LET d == [m \in Mins(s) |-> OnDisk(s.parts[m])]
    IN  Restrict0(d, {m \in Mins(s) : d[m].loc # {}})

RECURSIVE ReplayEnts(_, _, _, _)
ReplayEnts(s, ents, i, lsn) ==
    IF i > Len(ents) THEN s
    ELSE LET e  == ents[i]
             s1 == Ensure(s, e[1])
             m  == PartOf(s1, e[1])
             p  == s1.parts[m]
             s2 == IF p.loc # {} /\ p.flsn >= lsn THEN s1
                   ELSE [s1 EXCEPT !.parts[m] =
                           Follow([p EXCEPT !.mem = (<<e[1], e[2]>> :> e[3]) @@ @], lsn)]
         IN  ReplayEnts(s2, ents, i + 1, lsn)

\* what a drop record does to the partitions it meets at recovery: stored
\* data older than the record goes, of memory only the range itself
ReplayDrop(s, r) ==
    LET lo == IF Len(r.drop) = 1 THEN IntervalMin(s, r.drop[1]) ELSE r.drop[1]
        hi == IF Len(r.drop) = 1 THEN IntervalMax(s, r.drop[1]) ELSE r.drop[2]
        hit(m) == m <= hi /\ s.parts[m].max >= lo
        rest(m) == [x \in {y \in DOMAIN s.parts[m].mem : y[1] < lo \/ y[1] > hi} |-> s.parts[m].mem[x]]
        keep == {m \in Mins(s) : \/ ~hit(m)
                                 \/ (s.parts[m].loc # {} /\ s.parts[m].flsn >= r.lsn)
                                 \/ (s.parts[m].loc = {} /\ rest(m) # EmptyFn)}
    IN  [s EXCEPT !.parts = [m \in keep |->
            IF hit(m) /\ s.parts[m].loc = {}
            THEN Follow([s.parts[m] EXCEPT !.mem = rest(m)], r.lsn)   \* its file is newer than the drop
            ELSE s.parts[m]]]

ReplayRec(s, r) ==
    LET s1 == IF r.drop = <<>> THEN ReplayEnts(s, r.ents, 1, r.lsn) ELSE ReplayDrop(s, r)
    IN  [s1 EXCEPT !.lsn = IF r.lsn > @ THEN r.lsn ELSE @]

AllRecs(w) == FlattenSeq([i \in DOMAIN w |-> w[i].recs])
ReplayAll(s) == FoldLeft(ReplayRec, s, AllRecs(s.wal))

MaxStored(s) ==   \* highest id any partition still holds (tombstones included)
    LET ids == UNION {{x[1] : x \in DOMAIN s.parts[m].file \cup DOMAIN PartMem(s.parts[m])} : m \in Mins(s)}
    IN  IF ids = {} THEN -1 ELSE Max(ids)

RECURSIVE ResumeOver(_, _)
ResumeOver(s, ms) ==
    IF ms = <<>> THEN s
    ELSE LET m == Head(ms)
             p == s.parts[m]
         IN  ResumeOver(IF CloudOf(s, p.st) # "" /\ "C" \notin p.loc
                        THEN Enq(s, ReqUpload(m)) ELSE s, Tail(ms))

\* what the config file says (deviation "ddl_io" only)
Definitions(s) == [stor |-> s.stor, clouds |-> s.clouds, pipe |-> s.pipe, cfg |-> s.cfg, back |-> EmptyFn]
Restored(s) ==
    IF s.saved = <<>> THEN s
    ELSE LET d == s.saved[1]
             ren(n) == IF n \in DOMAIN d.back THEN d.back[n] ELSE n
             t == [s EXCEPT !.stor = d.stor, !.clouds = d.clouds, !.pipe = d.pipe, !.cfg = d.cfg, !.saved = <<>>,
                            !.parts = [m \in DOMAIN @ |-> [@[m] EXCEPT !.st = ren(@),
                                !.org = IF @ = <<>> THEN @ ELSE <<[@[1] EXCEPT !.st = ren(@)]>>]]]
         IN  [t EXCEPT !.parts = Restrict0(@, {m \in DOMAIN @ : HasSt(t, @[m].st)})]

Recover(s_) ==
    LET s     == Restored(s_)
        parts == Survivors(s)
        flsn  == IF DOMAIN parts = {} THEN 0 ELSE Max({parts[m].flsn : m \in DOMAIN parts})
        wlsn  == IF s.cfg.wal /\ s.wal # <<>> THEN CurWal(s).id - 1 ELSE 0
        s0 == [s EXCEPT !.parts = parts, !.q = <<>>, !.cur = EmptyFn,
                        !.lsn = IF flsn > wlsn THEN flsn ELSE wlsn, !.ssn = 0]
        s1 == IF s.cfg.wal
              THEN IF s.wal = <<>>
                   THEN [s0 EXCEPT !.wal = <<[id |-> s0.lsn + 1, recs |-> <<>>]>>]
                   ELSE ReplayAll(s0)
              ELSE s0
        s2 == IF s.cfg.serial THEN [s1 EXCEPT !.ssn = MaxStored(s1) + 1] ELSE s1
    IN  ResumeOver(s2, SortedMins(s2))

---------------------------------------------------------------------------
(* Cursors: last position returned, events that must be returned, events   *)
(* (position and value) that may be returned                               *)
CurOpen(s, c, pos) ==
    LET v == {e \in View(s) : pos = <<>> \/ PosLE(pos, Pos(e))}
    IN  [s EXCEPT !.cur = (c :> [from |-> pos, last |-> <<>>,
                                 must |-> {Pos(e) : e \in v}, may |-> v]) @@ @]
Past(k, p) == \/ k.last # <<>> /\ PosLE(p, k.last)
\* the cursor stands on event e (e = <<>>: at the end)
CurAt(s, c, e) ==
    LET k == s.cur[c]
    IN  IF e = <<>> THEN {p \in k.must : ~Past(k, p)} = {}
        ELSE /\ e \in k.may
             /\ ~Past(k, Pos(e))
             /\ \A p \in k.must : Past(k, p) \/ PosLE(Pos(e), p)
CurMove(s, c, e) == [s EXCEPT !.cur[c].last = IF e = <<>> THEN @ ELSE Pos(e)]

---------------------------------------------------------------------------
(* State invariants of the specification itself *)
Disjoint(s) == \A a, b \in Mins(s) : a < b => s.parts[a].max < b
Covers(s)   == \A m \in Mins(s) : LET p == s.parts[m] IN
                 /\ m <= p.max
                 /\ \A x \in DOMAIN p.file \cup DOMAIN PartMem(p) : m <= x[1] /\ x[1] <= p.max
Placed(s)   == \A m \in Mins(s) : LET p == s.parts[m] IN
                 /\ HasSt(s, p.st)
                 /\ p.loc = {} => DOMAIN p.file = {}
                 /\ "X" \in p.loc => p.loc = {"C", "X"}
                 /\ p.org # <<>> => "L" \in p.loc /\ HasSt(s, p.org[1].st)
                 /\ "C" \in p.loc => CloudOf(s, p.st) # ""
Catalogue(s) == /\ \A i \in DOMAIN s.stor : LET c == s.stor[i].cfg["cloud"]
                                            IN c = "" \/ HasCl(s, c)
                /\ \A i \in DOMAIN s.pipe : HasSt(s, s.pipe[i].st)
                /\ \A i, j \in DOMAIN s.pipe : i # j => s.pipe[i].st # s.pipe[j].st
SpecInv(s) == Disjoint(s) /\ Covers(s) /\ Placed(s) /\ Catalogue(s)
=============================================================================
