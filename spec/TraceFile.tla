------------------------------ MODULE TraceFile -------------------------------
(***************************************************************************)
(* Executions of the implementation as behaviours of the file machine.     *)
(*                                                                         *)
(* The trace is a sequence of events, each a call and what was observed of *)
(* it.  The state is the file (disk) and what is needed to judge the calls *)
(* that follow.  Every event is consumed; the state follows what was       *)
(* observed; and the clauses of the property Focus that the step violates  *)
(* are printed (REJECT), so that one deviation doesn't hide the others.    *)
(***************************************************************************)
EXTENDS Mp4Write, TLC, Json, IOUtils

CONSTANT Focus

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,        \* next event
          disk,     \* the file
          orig,     \* the file before the writes of this scenario
          clean,    \* all writes since then succeeded, without a fault
          wrote,    \* <<items>> of the last successful write, if disk is its result
          memo,     \* results of earlier calls without faults that later ones are compared with
          lists     \* item list bytes stored by writes: [items, bytes]

vars == <<l, disk, orig, clean, wrote, memo, lists>>

NoMemo == [w |-> <<>>, r |-> <<>>, d |-> <<>>]

Init ==
  /\ TLCSet(1, <<>>)
  /\ l = 1 /\ disk = <<>> /\ orig = <<>> /\ clean = TRUE /\ wrote = <<>>
  /\ memo = NoMemo /\ lists = <<>>

On(p) == Focus = "all" \/ Focus = p
NoFault(e) == e.fault.class = "none"

(* A clause: name, whether it applies to this event (vacuity is counted),  *)
(* and whether it holds.                                                   *)
Cl(name, applies, holds) == IF ~applies THEN {} ELSE {<<name, holds>>}

(* 64 bytes of memory per byte of input and a constant for buffers. *)
MemOk(peak, k) == peak <= 64 * k + 1048576

(* The audio information the library reports, given that of the model. *)
TenTo9 == <<59, 154, 202, 0>>
DurationOk(d, m) ==                      \* floor(dur * 10^9 / scale) nanoseconds
  LET n == NatAdd(NatMul(NatNorm(d.s), TenTo9), NatNorm(d.n))
      x == NatMul(NatNorm(m.dur), TenTo9)
      sc == NatNorm(m.scale)
  IN  /\ NatLess(d.n, TenTo9)
      /\ NatLeq(NatMul(n, sc), x)
      /\ NatLess(x, NatMul(NatAdd(n, <<1>>), sc))

InfoOk(info, acc) ==
  /\ IF acc.mvhd = <<>> THEN info.dur = <<>>
     ELSE Len(info.dur) = 1 /\ DurationOk(info.dur[1], acc.mvhd[1])
  /\ info.ch = acc.stream.ch /\ info.sr = acc.stream.sr
  /\ info.maxb = acc.stream.maxb /\ info.avgb = acc.stream.avgb
  /\ info.same

(* The original error is given, also as the cause. *)
IoErr(e, errno) == e.err.k = "Io" /\ e.err.a = <<errno>> /\ e.err.c = <<errno>>

Documented == {"NoTag", "AtomNotFound", "UnknownVersion", "UnknownDataType",
               "Utf8StringDecoding", "Utf16StringDecoding", "DescriptorNotFound", "Io"}

(* What is shown of an error names its kind, with what it is about.        *)
Has(s, w) == \E i \in 0..(Len(s) - Len(w)) : SubSeq(s, i + 1, i + Len(w)) = w
Shown(err) ==
  /\ err.k # "other" => Has(err.d, err.k)
  /\ err.k \in {"UnknownVersion", "UnknownDataType", "DescriptorNotFound", "UnknownChannelConfig", "UnknownMediaType"} =>
        Has(err.d, ToString(err.a[1]))
  /\ err.k = "AtomNotFound" =>
        CASE err.a = <<109,111,111,118>> -> Has(err.d, "moov")
          [] err.a = <<100,97,116,97>> -> Has(err.d, "data")
          [] err.a = <<101,115,100,115>> -> Has(err.d, "esds")
          [] OTHER -> TRUE

(* What can't be opened, or not for what is to be done, is reported, and    *)
(* nothing is created.                                                     *)
OpenClauses(e) ==
  Cl("C15.open", e.fault.mode \in {"missing", "folder"}, e.st = "err" /\ IoErr(e, e.fault.errno) /\ ~e.left)
  \cup Cl("C15.handle", e.fault.mode = "writeonly", e.st = "err" /\ IoErr(e, e.fault.errno))

FaultClauses(e, same) ==
  IF e.fault.class = "open" THEN OpenClauses(e) ELSE
  LET f == e.fault
      hit == e.fired > 0
  IN  Cl("C15.error", hit /\ f.mode = "err" /\ f.class # "seek", e.st = "err" /\ IoErr(e, f.errno))
      \cup Cl("C15.seek", hit /\ f.mode = "err" /\ f.class = "seek",
              \/ e.st = "err" /\ IoErr(e, f.errno)
              \/ e.st = "ok" /\ same)
      \cup Cl("C15.zero", hit /\ f.mode = "zero" /\ f.class = "write", e.st = "err" /\ e.err.k = "Io")
      \cup Cl("C15.partial", f.mode # "none" /\ ~hit, same)

-----------------------------------------------------------------------------
(* Writing to the file *)

RECURSIVE Replay(_, _, _, _, _)
(* every state the file goes through: prefix of k bytes as in f0 *)
Replay(f0, f, ops, i, k) ==
  IF Len(f) < k \/ SubSeq(f, 1, k) # SubSeq(f0, 1, k) THEN [ok |-> FALSE, f |-> f]
  ELSE IF i > Len(ops) THEN [ok |-> TRUE, f |-> f]
  ELSE LET o == ops[i]
       IN  Replay(f0, IF o.w < 0 THEN SetLen(f, o.n) ELSE Overwrite(f, o.w, o.b), ops, i + 1, k)

FreeFree(items) == Stored(items) = items

WriteClauses(e) ==
  LET pre == disk
      post == e.post
      ok == e.st = "ok"
      sp == Structure(pre)
      sq == Structure(post)
      rp == ReadTag(pre)
      rq == ReadTag(post)
      wf == WellStructured(pre, sp) /\ rp.ok
      good == wf /\ ~CutOff(pre, sp.ns) /\ OffsetsSmall(pre, sp.ns)
      done == ok /\ wf
      back == rq.ok /\ rq.acc.items = Stored(e.items)
      hasmemo == memo.w # <<>> /\ memo.w[1].pre = pre /\ memo.w[1].items = e.items
      same == hasmemo => memo.w[1].st = e.st /\ memo.w[1].err = e.err /\ memo.w[1].post = post
      hist == ok /\ clean /\ NoFault(e) /\ memo.w # <<>> /\ memo.w[1].pre = orig
              /\ memo.w[1].items = e.items /\ memo.w[1].st = "ok"
              /\ LET so == Structure(orig)
                 IN  WellStructured(orig, so) /\ ReadTag(orig).ok /\ OffsetsOutside(orig, so.ns)
      moov == FirstMoov(pre, 0)
  IN  (IF ~On("C01") THEN {} ELSE
         Cl("C01.accepted", NoFault(e) /\ good, ok)
         \cup Cl("C01.stored", NoFault(e) /\ done, back))
      \cup
      (IF ~On("C02") THEN {} ELSE
         Cl("C02.structure", done, WellStructured(post, sq))
         \cup Cl("C02.media", done /\ WellStructured(post, sq), SameMedia(pre, sp.ns, post, sq.ns))
         \cup Cl("C02.offsets", done /\ WellStructured(post, sq),
                 Len(Mdats(sp.ns)) = Len(Mdats(sq.ns)) /\ OffsetsFollow(pre, sp.ns, post, sq.ns)))
      \cup
      (IF ~On("C03") THEN {} ELSE
         Cl("C03.nested", done, StillNested(pre, sp.ns, post, sq))
         \cup Cl("C03.others", done /\ WellStructured(post, sq), OnlyListChanged(pre, sp.ns, post, sq.ns))
         \cup Cl("C03.created", done /\ WellStructured(post, sq) /\ Count(sp.ns, "hdlr") = 0,
                 CreatedWell(sp.ns, post, sq.ns)))
      \cup
      (IF ~On("C04") THEN {} ELSE
         Cl("C04.untouched", e.st = "err" /\ e.fault.class \in {"none", "read", "open"}, post = pre)
         \cup Cl("C04.first", e.st = "err" /\ e.fault.class = "read" /\ clean, post = orig)
         \* not an MPEG-4 file, or one without a movie box
         \cup Cl("C04.refused", NoFault(e) /\ ~rp.ok
                               /\ (rp.err[1] = "NoTag" \/ (rp.err[1] = "AtomNotFound" /\ rp.err[2] = CMoov)),
                 e.st = "err"))
      \cup
      (IF ~On("C05") THEN {} ELSE
         Cl("C05.history", hist, post = memo.w[1].post)
         \cup Cl("C05.twice", done /\ NoFault(e) /\ wrote = <<e.items>>, post = pre)
         \cup Cl("C05.writeback", done /\ NoFault(e) /\ e.self, rq.ok /\ rq.acc.items = rp.acc.items))
      \cup
      (IF ~On("C07") THEN {} ELSE
         Cl("C07.kept", done /\ NoFault(e), rq.ok /\ rq.acc.mvhd = rp.acc.mvhd /\ rq.acc.stream = rp.acc.stream))
      \cup
      (IF ~On("C09") THEN {} ELSE
         Cl("C09.outcome", TRUE, e.st \in {"ok", "err"})
         \cup Cl("C09.memory", e.st \in {"ok", "err"}, MemOk(e.peak, Len(pre) + Len(post)))
         \cup Cl("C09.refused", NoFault(e) /\ BadlyNested(pre), e.st = "err")
         \cup Cl("C09.readable", NoFault(e) /\ ok /\ sp.ok /\ rp.ok, back))
      \cup
      (IF ~On("C15") THEN {} ELSE
         FaultClauses(e, same)
         \* a handle that can't be written to: nothing is written, and that is reported
         \cup Cl("C15.readonly", e.fault.mode = "readonly" /\ wf,
                 /\ post = pre
                 /\ IF e.st = "err" THEN e.err.k = "Io" ELSE rp.acc.items = Stored(e.items)))
      \cup
      (IF ~On("C16") \/ moov = <<>> \/ e.log = FALSE THEN {} ELSE
         LET k == moov[1].p
             r == Replay(pre, pre, e.ops, 1, k)
         IN  Cl("C16.during", e.ops # <<>> /\ moov[1].p <= Len(pre), r.ok)
             \cup Cl("C16.end", moov[1].p <= Len(pre), Len(post) >= k /\ SubSeq(post, 1, k) = SubSeq(pre, 1, k)))

(* Writing through a handle that isn't at the beginning of the file: what   *)
(* lies in front is none of the call's business, and a file that begins     *)
(* there is written like any other.  (Which media bytes its chunk offsets   *)
(* mean is up to who put it there.)                                         *)
AtClauses(e) ==
  LET pre == disk
      post == e.post
      ok == e.st = "ok"
      k == e.at
      f == SubSeq(pre, k + 1, Len(pre))
      g == SubSeq(post, k + 1, Len(post))
      sf == Structure(f)
      sg == Structure(g)
      rf == ReadTag(f)
      rg == ReadTag(g)
      done == ok /\ rf.ok /\ WellStructured(f, sf)
      front == Len(post) >= k /\ SubSeq(post, 1, k) = SubSeq(pre, 1, k)
      moov == FirstMoov(f, 0)
  IN  (IF ~On("C01") THEN {} ELSE
         Cl("C01.at", NoFault(e) /\ done, rg.ok /\ rg.acc.items = Stored(e.items)))
      \cup
      (IF ~On("C03") THEN {} ELSE
         Cl("C03.at", done, /\ front /\ StillNested(f, sf.ns, g, sg)
                            /\ WellStructured(g, sg) => OnlyListChanged(f, sf.ns, g, sg.ns)))
      \cup
      (IF ~On("C04") THEN {} ELSE
         Cl("C04.at", e.st = "err" /\ e.fault.class \in {"none", "read", "open"}, post = pre))
      \cup
      (IF ~On("C09") THEN {} ELSE
         Cl("C09.at", TRUE,
            /\ e.st \in {"ok", "err"}
            /\ MemOk(e.peak, Len(pre) + Len(post))
            /\ BadlyNested(f) /\ ~ReadTag(pre).ok => e.st = "err"
            /\ ok /\ sf.ok /\ rf.ok => rg.ok /\ rg.acc.items = Stored(e.items)))
      \cup
      (IF ~On("C16") \/ e.log = FALSE \/ moov = <<>> THEN {} ELSE
         Cl("C16.at", moov[1].p <= Len(f), Replay(pre, pre, e.ops, 1, k + moov[1].p).ok))

(* Does the step follow the design (Mp4Write)?  Reported, not judged: only *)
(* the relations above are promised.                                       *)
Drift(e) == NoFault(e) /\ e.st = "ok" /\ e.at = 0 /\ e.post # Written(disk, e.items)

WriteNext(e) ==
  /\ disk' = e.post
  /\ clean' = (clean /\ e.st = "ok" /\ NoFault(e) /\ e.at = 0)
  /\ wrote' = IF e.st = "ok" /\ NoFault(e) /\ e.at = 0 THEN <<e.items>> ELSE <<>>
  /\ memo' = IF NoFault(e) /\ memo.w = <<>> /\ e.at = 0
             THEN [memo EXCEPT !.w = <<[pre |-> disk, items |-> e.items, st |-> e.st,
                                        err |-> e.err, post |-> e.post]>>]
             ELSE memo
  /\ lists' = IF On("C10") /\ NoFault(e) /\ e.at = 0 /\ e.st = "ok" /\ WellStructured(e.post, Structure(e.post))
              THEN Append(lists, [items |-> e.items, bytes |-> ListBytes(e.post, Structure(e.post))])
              ELSE lists
  /\ orig' = orig

-----------------------------------------------------------------------------
(* Reading *)

ReadClauses(e) ==
  LET whole == IF e.own THEN e.bytes ELSE disk
      f == IF e.at = 0 THEN whole ELSE SubSeq(whole, e.at + 1, Len(whole))
      r == ReadTag(f)
      wf == r.ok /\ WellStructured(f, Structure(f))
      ok == e.st = "ok"
      tag == e.tag[1]
      key == <<whole, e.at>>
      same == (memo.r # <<>> /\ memo.r[1].key = key) =>
                memo.r[1].st = e.st /\ memo.r[1].err = e.err /\ memo.r[1].tag = e.tag
      partial == e.fault.mode \in {"none", "short", "eintr"}
  IN  (IF ~On("C01") THEN {} ELSE
         Cl("C01.readback", NoFault(e) /\ ~e.own /\ wrote # <<>> /\ wf,
            ok /\ tag.items = Stored(wrote[1])))
      \cup
      (IF ~On("C05") THEN {} ELSE
         Cl("C05.reread", NoFault(e) /\ ~e.own /\ wrote # <<>> /\ clean /\ wf, ok /\ tag.items = Stored(wrote[1])))
      \cup
      (IF ~On("C06") THEN {} ELSE
         Cl("C06.read", NoFault(e) /\ wf, ok)
         \cup Cl("C06.items", NoFault(e) /\ wf /\ ok, tag.items = r.acc.items)
         \cup Cl("C06.ftyp", NoFault(e) /\ wf /\ ok, tag.ftyp = r.acc.ftyp))
      \cup
      (IF ~On("C07") THEN {} ELSE
         Cl("C07.info", NoFault(e) /\ wf, ok /\ InfoOk(tag.info, r.acc)))
      \cup
      (IF ~On("C08") THEN {} ELSE
         Cl("C08.outcome", TRUE, e.st \in {"ok", "err"})
         \cup Cl("C08.untouched", ~e.own, e.post = disk)
         \cup Cl("C08.memory", e.st \in {"ok", "err"}, MemOk(e.peak, Len(whole))))
      \cup
      (IF ~On("C09") THEN {} ELSE
         Cl("C09.reread", NoFault(e) /\ ~e.own /\ wrote # <<>> /\ r.ok, ok /\ tag.items = r.acc.items))
      \cup
      (IF ~On("C15") THEN {} ELSE FaultClauses(e, same))
      \cup
      (IF ~On("C17") THEN {} ELSE
         Cl("C17.error", NoFault(e) /\ e.one /\ ~r.ok, e.st = "err")
         \cup Cl("C17.kind", NoFault(e) /\ e.one /\ ~r.ok /\ e.st = "err" /\ r.err[1] \in Documented,
                 e.err.k = r.err[1])
         \cup Cl("C17.detail", NoFault(e) /\ e.one /\ ~r.ok /\ e.st = "err" /\ e.err.k = r.err[1]
                               /\ r.err[1] \in {"AtomNotFound", "UnknownVersion", "UnknownDataType", "DescriptorNotFound",
                                                 "Utf8StringDecoding"},
                 e.err.a = r.err[2])
         \cup Cl("C17.shown", e.st = "err", Shown(e.err)))

ReadNext(e) ==
  /\ disk' = IF e.own /\ e.how \in {"path", "file", "handle"} THEN e.bytes ELSE disk
  /\ wrote' = IF e.own /\ e.how \in {"path", "file", "handle"} THEN <<>> ELSE wrote
  /\ memo' = IF NoFault(e) /\ memo.r = <<>>
             THEN [memo EXCEPT !.r = <<[key |-> <<IF e.own THEN e.bytes ELSE disk, e.at>>, st |-> e.st,
                                        err |-> e.err, tag |-> e.tag]>>]
             ELSE memo
  /\ UNCHANGED <<orig, clean, lists>>

-----------------------------------------------------------------------------
(* Dumping *)

DumpClauses(e) ==
  LET f == e.bytes
      st == Structure(f)
      r == ReadTag(f)
      ok == e.st = "ok"
      has == memo.d # <<>> /\ memo.d[1].items = e.items
      same == has => memo.d[1].st = e.st /\ memo.d[1].err = e.err /\ memo.d[1].bytes = e.bytes
      shape == DumpShape(f, st)
      ls == SelectSeq(lists, LAMBDA x : x.items = e.items)
      fair == e.fault.mode \in {"none", "short", "eintr"}   \* a writer may take less at a time
  IN  (IF ~On("C10") THEN {} ELSE
         Cl("C10.accepted", fair, ok)
         \cup Cl("C10.shape", fair /\ ok, shape)
         \cup Cl("C10.handler", fair /\ ok /\ shape, HandlerOk(f, st))
         \cup Cl("C10.items", fair /\ ok, r.ok /\ r.acc.items = Stored(e.items))
         \cup Cl("C10.same", fair /\ has, same)
         \cup Cl("C10.list", fair /\ ok /\ shape /\ ls # <<>>, ListBytes(f, st) = ls[1].bytes))
      \cup (IF ~On("C15") THEN {} ELSE FaultClauses(e, same))

DumpNext(e) ==
  /\ memo' = IF NoFault(e) /\ memo.d = <<>>
             THEN [memo EXCEPT !.d = <<[items |-> e.items, st |-> e.st, err |-> e.err, bytes |-> e.bytes]>>]
             ELSE memo
  /\ UNCHANGED <<disk, orig, clean, wrote, lists>>

-----------------------------------------------------------------------------

(* How often each clause applied is counted in register 1. *)
Counted(c) == LET m == TLCGet(1)
              IN  TLCSet(1, (c :> (IF c \in DOMAIN m THEN m[c] + 1 ELSE 1)) @@ m)

(* (Compared with TRUE, so that it is evaluated, once, and not explored as  *)
(* alternatives of an action.)                                             *)
Report(e, cs) ==
  (\A c \in cs : (IF c[2] THEN TRUE ELSE PrintT(<<"REJECT", l, c[1]>>)) /\ Counted(c[1])) = TRUE

Next ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET e == Log[l]
     IN  CASE e.op = "begin" ->
                /\ disk' = <<>> /\ orig' = <<>> /\ clean' = TRUE /\ wrote' = <<>>
                /\ memo' = NoMemo /\ lists' = <<>>
           [] e.op = "disk" ->
                /\ disk' = e.bytes /\ orig' = e.bytes /\ clean' = TRUE /\ wrote' = <<>>
                /\ UNCHANGED <<memo, lists>>
           [] e.op = "write" ->
                /\ Report(e, IF e.at = 0 THEN WriteClauses(e) ELSE AtClauses(e))
                /\ (IF Focus \in {"C05", "all"} /\ Drift(e) THEN PrintT(<<"DRIFT", l>>) ELSE TRUE)
                /\ WriteNext(e)
           [] e.op = "read" -> Report(e, ReadClauses(e)) /\ ReadNext(e)
           [] e.op = "dump" -> Report(e, DumpClauses(e)) /\ DumpNext(e)

Spec == Init /\ [][Next]_vars

Consumed ==
  /\ PrintT(<<"CLAUSES", ToJson(TLCGet(1))>>)
  /\ PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Log)>>)
=============================================================================
