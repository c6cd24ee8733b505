---------------------------- MODULE MonotoneTrace ----------------------------
(***************************************************************************)
(* Trace validation: every recorded line of a run of the real code must be *)
(* a transition of the specification, and every recorded observation must  *)
(* equal what the specification's state says.                              *)
(*                                                                         *)
(* `C` is the set of specification states compatible with the trace so     *)
(* far.  A line that leaves no compatible state is a violation.            *)
(***************************************************************************)
EXTENDS Catalog, Json, IOUtils

Input  == JsonDeserialize(IOEnv.TRACES)
InputDeviations == ToSet(Input.deviations)
Traces == Input.traces
N      == Len(Traces)

VARIABLES tr, i, C
vars == <<tr, i, C>>

BAD == -7   \* an id the harness could not map, or the end of a failed scan

Has(r, f) == f \in DOMAIN r
Flag(r, f) == IF Has(r, f) THEN r[f] ELSE FALSE
Get(r, f, d) == IF Has(r, f) THEN r[f] ELSE d
ToFn(pairs) == [x \in {p[1] : p \in ToSet(pairs)} |->
                  (CHOOSE p \in ToSet(pairs) : p[1] = x)[2]]

---------------------------------------------------------------------------
InitState(c) ==
    [parts |-> EmptyFn,
     stor |-> <<[name |-> "main", cfg |-> c.main]>>,
     clouds |-> <<>>, pipe |-> <<>>, q |-> <<>>,
     wal |-> IF c.wal THEN <<[id |-> 1, recs |-> <<>>]>> ELSE <<>>,
     lsn |-> 0, ssn |-> 0, ord |-> 1, now |-> 0, cur |-> EmptyFn,
     saved |-> <<>>,
     cfg |-> [wal |-> c.wal, interval |-> c.interval, serial |-> c.serial,
              rot |-> c.rot, top |-> Get(c, "top", INF), opts |-> EmptyFn]]

---------------------------------------------------------------------------
(* Observations *)
Ascending(q) == \A j \in 1 .. Len(q) - 1 : PosLT(Pos(q[j]), Pos(q[j + 1]))
ObsKv(s, q)  == /\ Ascending(q)
                /\ LET v == View(s) IN Len(q) = Cardinality(v) /\ ToSet(q) = v
\* the events from a position on, or a right beginning and then an error
FromOrError(s, pos, q) ==
    LET v == {e \in View(s) : pos = <<>> \/ PosLE(pos, Pos(e))}
        upto(f) == /\ Ascending(f)
                   /\ ToSet(f) = {e \in v : f # <<>> /\ PosLE(Pos(e), Pos(Last(f)))}
    IN  \/ Ascending(q) /\ ToSet(q) = v
        \/ q # <<>> /\ Last(q)[1] = BAD /\ upto(Front(q))
KvOrError(s, q) == FromOrError(s, <<>>, q)

HeapEvents(p) == Cardinality(DOMAIN p.mem) + Cardinality(DOMAIN p.old)
PartRow(s, m) == LET p == s.parts[m] IN
    <<m, p.max, p.st, "L" \in p.loc, "C" \in p.loc, p.refr,
      Cardinality(DOMAIN p.file) + HeapEvents(p), HeapEvents(p)>>
ObsParts(s, q) == /\ Len(q) = Cardinality(Mins(s))
                  /\ ToSet(q) = {PartRow(s, m) : m \in Mins(s)}
\* placement only: range, storage, copies
ObsPlace(s, q) == ToSet(q) = {SubSeq(PartRow(s, m), 1, 5) : m \in Mins(s)}
Named(q, e) == /\ Len(q) = Len(e)
               /\ \A j \in DOMAIN q : /\ q[j].name = e[j].name
                                      /\ \A x \in DOMAIN q[j].cfg :
                                           x \in DOMAIN e[j].cfg => q[j].cfg[x] = e[j].cfg[x]
ObsStor(s, q) == Named(q, s.stor)
ObsOpts(s, o) == \A x \in DOMAIN s.cfg.opts : x \in DOMAIN o => o[x] = s.cfg.opts[x]
\* totals per storage: partitions, events (file + memory)
StorRow(s, n) ==
    LET I == InStorage(s, n)
        f(m) == Cardinality(DOMAIN s.parts[m].file) + HeapEvents(s.parts[m])
        h(m) == HeapEvents(s.parts[m])
    IN  <<n, Cardinality(I), SumOver(I, f), SumOver(I, h)>>
ObsTotals(s, q) == ToSet(q) = {StorRow(s, s.stor[j].name) : j \in DOMAIN s.stor}

\* the reported totals of a storage are the sums over its partitions
ObsSums(s, o) ==
    \A j \in DOMAIN o.srows :
        LET r  == o.srows[j]
            ps == SelectSeq(o.prows, LAMBDA p : p[1] = r[1])
            sum(c) == FoldLeft(LAMBDA acc, p : acc + p[c], 0, ps)
            cnt(c) == Len(SelectSeq(ps, LAMBDA p : p[c]))
        IN  /\ r[2] = Len(ps) /\ r[3] = cnt(2) /\ r[4] = cnt(3)
            /\ \A c \in 4 .. 9 : r[c + 1] = sum(c)
ObsBounds(s, q) ==
    \A j \in DOMAIN q : InStorage(s, q[j][1]) # {} =>
        /\ q[j][2] = Min(InStorage(s, q[j][1]))
        /\ q[j][3] = Max({s.parts[m].max : m \in InStorage(s, q[j][1])})
\* what a partition's file consists of, given the events stored in it and the options it was written by:
\* a block takes events until it has reached the block size; all events of one id share a block
EventBytes == 14
BlockHead  == 24
BlockRef   == 52
IndexBytes == 130
Blocks(p, t) ==
    LET q   == SetToSortSeq(DOMAIN p.file, PosLT)
        rs  == ToFn(t.nums)[p.lay["region_size"]]
        ks  == ToFn(t.ks)
        vs  == ToFn(t.vs)
        len(x) == EventBytes + 4 + ks[x[2]] + (IF p.file[x] \in DOMAIN vs THEN vs[p.file[x]] ELSE 0)
        step(a, x) == IF a.n = 0 \/ (a.cur >= rs /\ a.id # x[1])
                      THEN [n |-> a.n + 1, sum |-> a.sum + BlockHead + len(x), cur |-> BlockHead + len(x), id |-> x[1]]
                      ELSE [a EXCEPT !.sum = @ + len(x), !.cur = @ + len(x), !.id = x[1]]
    IN  FoldLeft(step, [n |-> 0, sum |-> 0, cur |-> 0, id |-> -1], q)
Codec(o) == CASE o = "zstd" -> 1 [] o = "lz4" -> 2 [] o = "aes" -> 1 [] OTHER -> 0
LayoutRow(s, m, t) ==
    LET p == s.parts[m]
        b == Blocks(p, t)
    IN  <<m, b.n, b.sum + BlockRef * b.n + IndexBytes, b.sum, Cardinality(DOMAIN p.file),
          Codec(p.lay["compression"]), Codec(p.lay["encryption"]), p.flsn>>
ObsLayout(s, q, t) == ToSet(q) = {LayoutRow(s, m, t) : m \in {x \in Mins(s) : s.parts[x].loc # {}}}
\* the files are those of the copies there are, in the storage of the partition
Copies(s, objs) == UNION {(IF "L" \in s.parts[m].loc THEN {<<s.parts[m].st, m, "L">>} ELSE {})
                     \cup (IF "C" \in s.parts[m].loc THEN {<<s.parts[m].st, m, x>> : x \in {"c"} \cup (IF objs THEN {"O"} ELSE {})} ELSE {})
                     : m \in Mins(s)}
ObsCopies(s, q, objs) == /\ {x \in q : objs \/ x[3] # "O"} = Copies(s, objs)
                         /\ Copies(s, TRUE) \subseteq q
\* with nothing in memory no memory is accounted for
MemoryEmpty(s) == \A m \in Mins(s) : PartMem(s.parts[m]) = EmptyFn

LogRecords(rr) == [ri \in DOMAIN rr |-> <<rr[ri].lsn, IF rr[ri].drop = <<>> THEN 0 ELSE 1, Len(rr[ri].ents)>>]
Obs(s, o) ==
    /\ Has(o, "srows") => ObsSums(s, o)
    /\ Has(o, "sbounds") => ObsBounds(s, o.sbounds)
    /\ Has(o, "lay") => ObsLayout(s, o.lay, Traces[tr].tables)
    /\ Has(o, "fsizes") => \A j \in DOMAIN o.fsizes : o.fsizes[j][1] = o.fsizes[j][2]
    /\ Has(o, "copies") => IF o.left THEN {x \in Copies(s, TRUE) : x[3] = "O"} \subseteq ToSet(o.copies) ELSE ObsCopies(s, ToSet(o.copies), o.objs)
    /\ Has(o, "pages") => (MemoryEmpty(s) => o.pages = 0)
    /\ Has(o, "lsn") => o.lsn = s.lsn
    /\ Has(o, "kv") => IF Has(o, "damaged") THEN KvOrError(s, o.kv) ELSE ObsKv(s, o.kv)
    \* every byte of a partition file, and of the index kept for a cloud copy,
    \* is covered by a checksum: reading all of it reports the change
    /\ Has(o, "mustfail") => Last(o.kv)[1] = BAD
    /\ Has(o, "parts") => ObsParts(s, o.parts)
    /\ Has(o, "place") => ObsPlace(s, o.place)
    /\ Has(o, "stor") => ObsStor(s, o.stor)
    /\ Has(o, "clouds") => Named(o.clouds, s.clouds)
    /\ Has(o, "pipe") => o.pipe = s.pipe
    /\ Has(o, "opts") => ObsOpts(s, o.opts)
    /\ Has(o, "totals") => ObsTotals(s, o.totals)
    /\ Has(o, "walfiles") => o.walfiles = Len(s.wal)
    \* the records of the log: position, kind, number of events
    /\ Has(o, "recs") => o.recs = LogRecords(AllRecs(s.wal))
    /\ Has(o, "ssn") => o.ssn = s.ssn

---------------------------------------------------------------------------
(* Statements *)
Sizes(op) == IF Has(op, "sizes") THEN ToFn(op.sizes) ELSE EmptyFn
\* a partition rewritten and then dropped within one request: its size was
\* never seen; it may have exceeded any limit or none
Unseen(s, op) == IF \E j \in DOMAIN s.pipe : s.pipe[j].sz >= 0 THEN Mins(s) \ DOMAIN Sizes(op) ELSE {}
SizeGuesses(s, op) ==
    LET u == Unseen(s, op)
        some(b) == [m \in b |-> 10000000] @@ Sizes(op)
    IN  IF Cardinality(u) > 4 THEN {some({}), some(u)}
        ELSE {some(b) : b \in SUBSET u}
Hot(op)   == ToSet(Get(op, "hot", <<>>))
Leftover(s) == {m \in Mins(s) : s.parts[m].old # EmptyFn}
Heap(op)  == ToSet(Get(op, "heap", <<>>))

\* one partition statement: sequence of states it passes through, the last
\* is its success state; <<>> when it must be rejected
PartSteps(s, op, id) ==
    LET m == PartOf(s, id)
        c == CompleteSeq(s, m)
        z == Last(c)
        nocloud == CloudOf(s, s.parts[m].st) = ""
    IN  IF op.t = "move" /\ ~HasSt(s, op.to) THEN <<>>
        ELSE IF m = NONE THEN IF op.ife THEN <<s>> ELSE <<>>
        \* nothing to move, nothing to upload back
        ELSE IF op.t = "move" /\ s.parts[m].st = op.to /\ s.parts[m].loc = {} /\ ~nocloud THEN <<>>
        ELSE CASE op.t = "drop" ->
                    IF op.which = <<"L", "C">> THEN DropSeq(s, m)
                    ELSE c \o <<NoStray(z, m), DropCopies(z, m, id, ToSet(op.which))>>
               [] op.t = "move"     -> RefreshSteps(s, m, op.to, Sizes(op))
               [] op.t = "refresh"  -> RefreshSteps(s, m, "", Sizes(op))
               [] op.t = "download" ->
                    IF nocloud THEN IF op.ifc THEN c ELSE <<>>
                    ELSE c \o DownloadSeq(z, m)
               [] op.t = "upload" ->
                    IF nocloud THEN IF op.ifc THEN c ELSE <<>>
                    ELSE IF s.parts[m].loc = {} THEN <<>>
                    ELSE c \o <<DoUpload(z, m)>>

RECURSIVE RangeSteps(_, _, _, _)
RangeSteps(s, op, lo, hi) ==
    LET m == NextIn(s, lo, hi)
    IN  IF m = NONE THEN <<s>>
        ELSE LET p == PartSteps(s, op, m)
             IN  IF p = <<>> THEN <<s, [rejected |-> TRUE]>>
                 ELSE p \o RangeSteps(Last(p), op, s.parts[m].max + 1, hi)

IsRej(x) == DOMAIN x = {"rejected"}

\* a statement made of steps: success = last, rejection = unchanged for
\* single partitions, prefix of the range otherwise; with an injected fault
\* any step may have been the last one
StepOutcome(op, s, seq) ==
    LET rej  == seq = <<>> \/ (seq # <<>> /\ IsRej(Last(seq)))
        good == {x \in ToSet(seq) : ~IsRej(x)}
    IN  IF op.ok THEN IF rej THEN {} ELSE {Last(seq)}
        ELSE IF Flag(op, "fault") THEN {s} \cup good
        ELSE IF ~rej THEN {}
        ELSE IF seq = <<>> THEN {s} ELSE {seq[Len(seq) - 1]}

\* deviation "ddl_io": the statement failed, its effect stays until restart
Unsaved(op, s, t) ==
    LET d == IF s.saved = <<>> THEN Definitions(s) ELSE s.saved[1]
        was(n) == IF n \in DOMAIN d.back THEN d.back[n] ELSE n
        b == IF op.t = "rename_storage" THEN (op.to :> was(op.name)) @@ d.back ELSE d.back
    IN  [t EXCEPT !.saved = <<[d EXCEPT !.back = b]>>]
Ddl(op, s, r) == \* r: <<accepted, state>>
    IF op.ok THEN IF r[1] THEN {[r[2] EXCEPT !.saved = <<>>]} ELSE {}
    ELSE IF ~r[1] THEN {s}
    ELSE IF ~Flag(op, "fault") THEN {}
    ELSE IF Dev("ddl_io") THEN {s, r[2], Unsaved(op, s, r[2])} ELSE {s}

DdlResult(op, s) ==
    CASE op.t = "create_storage" -> CreateStorage(s, op.name, op.opts, op.ifne, op.default)
      [] op.t = "drop_storage"   -> DropStorage(s, op.name, op.ife)
      [] op.t = "alter_storage"  -> AlterStorage(s, op.name, op.opts, op.ife)
      [] op.t = "rename_storage" -> RenameStorage(s, op.name, op.to, op.ife)
      [] op.t = "create_cloud"   -> CreateCloud(s, op.name, op.opts, op.ifne, op.default)
      [] op.t = "drop_cloud"     -> DropCloud(s, op.name, op.ife)
      [] op.t = "alter_cloud"    -> AlterCloud(s, op.name, op.opts, op.ife)
      [] op.t = "rename_cloud"   -> RenameCloud(s, op.name, op.to, op.ife)
      [] op.t = "pipeline"       -> AlterPipeline(s, op.tiers)
      [] op.t = "set_interval"   -> SetInterval(s, op.v)
      [] op.t = "set_opt"        -> SetOpt(s, op.name, op.v)
      [] op.t = "set_ssn"        -> SetSsn(s, op.v)
      [] op.t = "bad"            -> Reject(s)
      [] op.t = "nop"            -> Accept(s)
DdlOps == {"create_storage", "drop_storage", "alter_storage", "rename_storage",
           "create_cloud", "drop_cloud", "alter_cloud", "rename_cloud",
           "pipeline", "set_interval", "set_opt", "set_ssn", "bad", "nop"}

\* all states the operation passes through (for crash points and faults)
Through(op, s) ==
    CASE op.t \in {"drop", "move", "refresh", "download", "upload"} /\ Has(op, "id") ->
             {x \in ToSet(PartSteps(s, op, op.id)) : ~IsRej(x)}
      [] op.t \in {"drop", "move", "refresh", "download", "upload"} ->
             {x \in ToSet(RangeSteps(s, op, op.lo, op.hi)) : ~IsRej(x)}
      [] op.t = "rebalance" -> ToSet(RebalanceSeq(s, Sizes(op), RebalanceFuel(s)))
      [] op.t = "service"   -> ToSet(ServiceSeqN(s, op.n, Sizes(op)))
      [] op.t = "wal_gc"    -> ToSet(GcSeq(s))
      [] OTHER -> {s}

\* one part of a SHOW statement: whether there is such a thing, and what it has to say
ShowOk(s, w) == CASE w.k = "part" -> PartOf(s, w.a) # NONE
                  [] w.k \in {"partsin", "stor"} -> HasSt(s, w.a)
                  [] w.k = "cloud" -> HasCl(s, w.a)
                  [] OTHER -> TRUE
ShowIs(s, w) ==
    CASE w.k = "part" -> w.r = PartRow(s, PartOf(s, w.a))
      [] w.k = "partsin" -> ToSet(w.r) = {PartRow(s, m) : m \in InStorage(s, w.a)} /\ Len(w.r) = Cardinality(InStorage(s, w.a))
      [] w.k = "parts" -> ObsParts(s, w.r)
      [] w.k = "stor" -> Named(<<w.r>>, <<StOf(s, w.a)>>)
      [] w.k = "cloud" -> Named(<<w.r>>, <<s.clouds[CHOOSE x \in ClIdx(s, w.a) : TRUE]>>)
      [] w.k = "pipe" -> w.r = s.pipe
      [] w.k = "serial" -> w.r = IF s.cfg.serial THEN "true" ELSE "false"

Succ0(s, op) ==
    CASE op.t = "show" ->
           IF op.ok # (\A j \in DOMAIN op.items : ShowOk(s, op.items[j])) THEN {}
           ELSE IF op.ok => (op.n = Len(op.items) /\ \A j \in DOMAIN op.items : ShowIs(s, op.items[j])) THEN {s} ELSE {}
      [] op.t = "write" ->
           IF op.ok
           THEN IF op.bad > 0 THEN {}
                ELSE LET \* the size reported includes a generation left by a failed
                         \* refresh; the watermark is about the memory being written
                         w == {WriteOk(s, op.evs, h) : h \in {Hot(op), Hot(op) \ Leftover(s)}}
                         r == PutAll(s, op.evs, 1, <<>>).ids
                     IN  IF Has(op, "ids") /\ op.ids # r THEN {} ELSE w
           ELSE IF Flag(op, "fault")
           THEN {WriteFail(s, op.evs, n) : n \in 0 .. Len(op.evs)} \cup {WriteFailLog(s, op.evs)}
           ELSE IF op.bad > 0 THEN {WriteFail(s, op.evs, op.bad - 1)} ELSE {}
      [] op.t = "createp" ->
           IF op.min > op.max THEN IF op.ok THEN {} ELSE {s}
           ELSE IF op.ok THEN {Fill(s, op.min, op.max)} ELSE {}
      [] op.t \in {"drop", "move", "refresh", "download", "upload"} ->
           IF Has(op, "id") THEN StepOutcome(op, s, PartSteps(s, op, op.id))
           ELSE StepOutcome(op, s, RangeSteps(s, op, op.lo, op.hi))
      [] op.t = "rebalance" ->
           IF op.ok THEN {Rebalance(s, z) : z \in SizeGuesses(s, op)}
           ELSE IF Flag(op, "fault") THEN Through(op, s) ELSE {}
      [] op.t = "service" ->
           IF ~op.ok THEN {}
           ELSE IF Flag(op, "fault")
           THEN IF s.q = <<>> THEN {s}
                ELSE {Unpend(x, Head(s.q).id) : x \in Through(op, s)}
                     \cup {Service1(s, Sizes(op))}
           ELSE {ServiceN(s, op.n, z) : z \in SizeGuesses(s, op)}
      [] op.t = "checkpoint" -> IF op.ok THEN {Checkpoint(s, Heap(op))} ELSE {}
      [] op.t = "wal_create" -> IF op.ok THEN {Rotate(s, TRUE)}
                                ELSE IF Flag(op, "fault") THEN {s, Rotate(s, TRUE)} ELSE {}
      [] op.t = "wal_gc"     -> IF op.ok THEN {Gc(s)} ELSE IF Flag(op, "fault") THEN ToSet(GcSeq(s)) ELSE {}
      [] op.t = "restart"    -> IF op.ok THEN {Recover(s)} ELSE {}
      [] op.t = "observe"    -> {s}
      [] op.t = "scan" ->
           LET v == {e \in View(s) : op.pos = <<>> \/ PosLE(op.pos, Pos(e))}
           IN  IF op.ok /\ Ascending(op.ret) /\ Len(op.ret) = Cardinality(v)
                  /\ ToSet(op.ret) = v THEN {s}
               \* reading failed
               ELSE IF Flag(op, "fault") /\ FromOrError(s, op.pos, op.ret) THEN {s} ELSE {}
      [] op.t = "dscan" -> IF FromOrError(s, op.pos, op.ret) THEN {s} ELSE {}
      [] op.t = "curopen"  -> IF op.ok THEN {CurOpen(s, op.c, op.pos)} ELSE {}
      [] op.t = "curat"    -> IF op.ok /\ CurAt(s, op.c, op.ret)
                              THEN {CurMove(s, op.c, op.ret)} ELSE {}
      [] op.t = "clock"    -> {[s EXCEPT !.now = @ + op.n]}
      [] op.t = "grep"     -> IF op.hits = 0 THEN {s} ELSE {}
      [] op.t = "curclose" -> {[s EXCEPT !.cur = Without(@, {op.c})]}
      [] op.t \in DdlOps -> Ddl(op, s, DdlResult(op, s))

\* a damaged file: the damage is reported, or what is read is right: all of
\* it, a right beginning followed by an error, or (newest log) the effect of
\* the records before the damage. keep: records wholly before it
CutLog(s, f, k) == [s EXCEPT !.wal[f].recs = SubSeq(@, 1, k)]
Damaged(s, op) ==
    IF ~op.ok THEN IF op.kind = "j" THEN {} ELSE {s}
    ELSE CASE op.kind \in {"p", "c", "m", "j"} -> {Recover(s)}
           [] op.kind = "w" -> LET n == Len(s.wal) IN
                {Recover(CutLog(s, n, k)) : k \in op.keep .. Len(s.wal[n].recs)}
           [] op.kind = "W" -> {Recover(s)} \cup
                (IF op.edge THEN {Recover(CutLog(s, f, op.keep)) :
                    f \in {x \in 1 .. Len(s.wal) - 1 : op.keep <= Len(s.wal[x].recs)}} ELSE {})
\* a power loss while records are not synced one by one: the end of the newest
\* log may be missing, and of the one before while it is being replaced
Losses(X) ==
    UNION {{CutLog(x, Len(x.wal), k) : k \in 0 .. Len(x.wal[Len(x.wal)].recs)} \cup
           (IF Len(x.wal) > 1 /\ x.wal[Len(x.wal)].recs = <<>>
            THEN {CutLog(x, Len(x.wal) - 1, k) : k \in 0 .. Len(x.wal[Len(x.wal) - 1].recs)}
            ELSE {}) : x \in X}
\* the process was killed inside the operation, the database was opened again
Succ(s, op) ==
    IF op.t = "killed"
    THEN IF ~op.ok THEN {}
         ELSE LET X == {s} \cup Succ0(s, op.of) \cup Through(op.of, s)
              IN  {Recover(x) : x \in IF Flag(op, "lossy") THEN Losses(X) ELSE X}
    ELSE IF op.t = "damaged" THEN Damaged(s, op)
    ELSE Succ0(s, op)

---------------------------------------------------------------------------
(* Crash images: recovered content is that of a state the interrupted      *)
(* operation passes through; what is written after recovery stays.         *)
PutSet(v, e) == {x \in v : Pos(x) # Pos(e)} \cup {e}
CrashOk(s, after, op, r) ==
    /\ r.ok
    /\ LET all == {s} \cup after \cup Through(op, s)
           bases == IF Flag(r, "lossy") THEN Losses(all) ELSE all
       IN  \E b \in bases :
             LET rb == Recover(b) IN
               /\ ObsKv(rb, r.kv)
               /\ Has(r, "place") => ObsPlace(rb, r.place)
               /\ Has(r, "stor") => ObsStor(rb, r.stor)
               /\ Has(r, "clouds") => Named(r.clouds, rb.clouds)
               /\ Has(r, "pipe") => r.pipe = rb.pipe
               /\ Has(r, "opts") => ObsOpts(rb, r.opts)
               \* nothing is left of what was interrupted (but in the cloud)
               /\ Has(r, "copies") => ObsCopies(rb, ToSet(r.copies), FALSE)
    /\ Has(r, "kv2") =>
         LET v == IF Has(r, "probe") /\ s.cfg.wal THEN PutSet(ToSet(r.kv), r.probe)
                  ELSE ToSet(r.kv)
         IN  /\ Ascending(r.kv2) /\ ToSet(r.kv2) = v
             /\ Has(r, "kv3") => r.kv3 = r.kv2

Advance(cs, op) ==
    LET next(s) == {t \in Succ(s, op) : Obs(t, Get(op, "obs", EmptyFn)) /\ SpecInv(t)}
        good(s) == LET n == next(s) IN
                   IF Has(op, "crash") /\ \E k \in DOMAIN op.crash : ~CrashOk(s, n, op, op.crash[k])
                   THEN {} ELSE n
    IN  UNION {good(s) : s \in cs}

---------------------------------------------------------------------------
Init == /\ tr \in 1 .. N
        /\ i = 1
        /\ C = {InitState(Traces[tr].init)}

Report(cs, op) ==
    \* what the specification allows, for the report
    LET s == CHOOSE x \in cs : TRUE
        t == Succ(s, op)
    IN  /\ PrintT(<<"REJECT", tr, i, Traces[tr].name>>)
        /\ IF t = {} THEN PrintT(<<"NO-SUCCESSOR", tr>>)
           ELSE LET u == CHOOSE x \in t : TRUE
                    o == Get(op, "obs", EmptyFn)
                IN  /\ (Has(o, "kv") /\ ~ObsKv(u, o.kv)) =>
                          PrintT(<<"KV", tr, "missing", View(u) \ ToSet(o.kv),
                                   "unexpected", ToSet(o.kv) \ View(u)>>)
                    /\ (Has(o, "parts") /\ ~ObsParts(u, o.parts)) =>
                          PrintT(<<"PARTS", tr, "spec", {PartRow(u, m) : m \in Mins(u)} \ ToSet(o.parts),
                                   "code", ToSet(o.parts) \ {PartRow(u, m) : m \in Mins(u)}>>)
                    /\ ~Obs(u, o) => PrintT(<<"OBS", tr>>)
                    /\ op.t = "service" => PrintT(<<"QUEUE", tr, s.q, [m \in Mins(s) |-> s.parts[m].pend]>>)
                    /\ Has(op, "crash") =>
                          \A k \in DOMAIN op.crash :
                             ~CrashOk(s, t, op, op.crash[k]) => PrintT(<<"CRASH", tr, k>>)

Next == /\ i <= Len(Traces[tr].ops)
        /\ C # {}
        /\ LET op == Traces[tr].ops[i]
               n  == Advance(C, op)
           IN  /\ C' = n
               /\ (n = {}) => Report(C, op)
        /\ i' = i + 1
        /\ UNCHANGED tr

\* some behaviour of the specification explains the trace so far
Explained == C # {}
Accepted  == (i = Len(Traces[tr].ops) + 1 /\ C # {}) => PrintT(<<"ACCEPT", tr>>)
Spec == Init /\ [][Next]_vars
=============================================================================
