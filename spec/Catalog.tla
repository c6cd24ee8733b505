------------------------------- MODULE Catalog -------------------------------
(***************************************************************************)
(* Definitions: storages, clouds, pipeline and settings statements.        *)
(* Every operator returns <<accepted, state>>; a rejected statement        *)
(* leaves the state as it was.                                             *)
(***************************************************************************)
EXTENDS Monotone

Reject(s) == <<FALSE, s>>
Accept(s) == <<TRUE, s>>
Over(base, f) == [x \in DOMAIN base \cup DOMAIN f |->
                    IF x \in DOMAIN f THEN f[x] ELSE base[x]]
Opt(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d

CreateStorage(s, n, opts, ifne, default) ==
    IF HasSt(s, n) THEN IF ifne THEN Accept(s) ELSE Reject(s)
    ELSE IF Opt(opts, "cloud", "") # "" /\ ~HasCl(s, Opt(opts, "cloud", ""))
    THEN Reject(s)
    ELSE Accept([s EXCEPT !.stor = Append(@, [name |-> n, cfg |-> Over(default, opts)])])

\* partitions live there, or files a refresh has not removed yet
InUse(s, n) == \E m \in Mins(s) : \/ s.parts[m].st = n
                                   \/ (s.parts[m].org # <<>> /\ s.parts[m].org[1].st = n)

DropStorage(s, n, ife) ==
    IF n = "main" THEN Reject(s)
    ELSE IF ~HasSt(s, n) THEN IF ife THEN Accept(s) ELSE Reject(s)
    ELSE IF TierIdx(s, n) # {} \/ InUse(s, n) THEN Reject(s)
    ELSE Accept([s EXCEPT !.stor = SelectSeq(@, LAMBDA x : x.name # n)])

NeedsEmpty == {"crc", "path", "encryption", "encryption_key"}
AlterStorage(s, n, opts, ife) ==
    IF ~HasSt(s, n) THEN IF ife THEN Accept(s) ELSE Reject(s)
    ELSE IF DOMAIN opts \cap NeedsEmpty # {} /\ InUse(s, n) THEN Reject(s)
    ELSE IF /\ "cloud" \in DOMAIN opts
            /\ \/ \E m \in InStorage(s, n) : "C" \in s.parts[m].loc
               \/ opts["cloud"] # "" /\ ~HasCl(s, opts["cloud"])
    THEN Reject(s)
    ELSE LET i == CHOOSE i \in StIdx(s, n) : TRUE
         IN  Accept([s EXCEPT !.stor[i].cfg = Over(@, opts)])

RenameStorage(s, n, to, ife) ==
    IF n = "main" THEN Reject(s)
    ELSE IF ~HasSt(s, n) THEN IF ife THEN Accept(s) ELSE Reject(s)
    ELSE IF HasSt(s, to) THEN Reject(s)
    ELSE LET ren(x) == IF x = n THEN to ELSE x
         IN  Accept([s EXCEPT
               !.stor  = [i \in DOMAIN @ |-> [@[i] EXCEPT !.name = ren(@)]],
               !.pipe  = [i \in DOMAIN @ |-> [@[i] EXCEPT !.st = ren(@)]],
               !.parts = [m \in DOMAIN @ |-> [@[m] EXCEPT
                             !.st = ren(@),
                             !.org = IF @ = <<>> THEN @ ELSE <<[@[1] EXCEPT !.st = ren(@)]>>]]])

CreateCloud(s, n, opts, ifne, default) ==
    IF HasCl(s, n) THEN IF ifne THEN Accept(s) ELSE Reject(s)
    ELSE IF Opt(opts, "type", "") \notin {"mock", "s3"} THEN Reject(s)
    \* an object store is reached with a key, a secret and an address
    ELSE IF Opt(opts, "type", "") = "s3" /\ \E x \in {"login", "password", "url"} : Opt(opts, x, "") = "" THEN Reject(s)
    \* (the secret is never shown)
    ELSE Accept([s EXCEPT !.clouds = Append(@, [name |-> n, cfg |-> Over(default, [x \in DOMAIN opts \ {"password"} |-> opts[x]])])])

CloudUsed(s, n) == \E i \in DOMAIN s.stor : s.stor[i].cfg["cloud"] = n
DropCloud(s, n, ife) ==
    IF ~HasCl(s, n) THEN IF ife THEN Accept(s) ELSE Reject(s)
    ELSE IF CloudUsed(s, n) THEN Reject(s)
    ELSE Accept([s EXCEPT !.clouds = SelectSeq(@, LAMBDA x : x.name # n)])

AlterCloud(s, n, opts, ife) ==
    IF ~HasCl(s, n) THEN IF ife THEN Accept(s) ELSE Reject(s)
    ELSE LET i == CHOOSE i \in ClIdx(s, n) : TRUE
         IN  IF Opt(s.clouds[i].cfg, "type", "") = "s3" /\ \E x \in DOMAIN opts \cap {"login", "password", "url"} : opts[x] = "" THEN Reject(s)
             ELSE Accept([s EXCEPT !.clouds[i].cfg = Over(@, [x \in DOMAIN opts \ {"password"} |-> opts[x]])])

RenameCloud(s, n, to, ife) ==
    IF ~HasCl(s, n) THEN IF ife THEN Accept(s) ELSE Reject(s)
    ELSE IF HasCl(s, to) THEN Reject(s)
    ELSE LET ren(x) == IF x = n THEN to ELSE x
         IN  Accept([s EXCEPT
               !.clouds = [i \in DOMAIN @ |-> [@[i] EXCEPT !.name = ren(@)]],
               !.stor   = [i \in DOMAIN @ |-> [@[i] EXCEPT !.cfg =
                             [@ EXCEPT !["cloud"] = ren(@)]]]])

Terminal(t) == t.pn = -1 /\ t.sz = -1 /\ t.ev = -1 /\ t.du = -1
AlterPipeline(s, tiers) ==
    IF \/ \E i \in DOMAIN tiers : ~HasSt(s, tiers[i].st)
       \/ \E i, j \in DOMAIN tiers : i # j /\ tiers[i].st = tiers[j].st
       \/ \E i \in DOMAIN tiers : i < Len(tiers) /\ Terminal(tiers[i])
    THEN Reject(s)
    ELSE Accept([s EXCEPT !.pipe = tiers])

SetInterval(s, v) == Accept([s EXCEPT !.cfg.interval = v])
SetOpt(s, n, v)   == Accept([s EXCEPT !.cfg.opts = Over(@, [x \in {n} |-> v])])
SetSsn(s, v)      == Accept([s EXCEPT !.ssn = v])
=============================================================================
