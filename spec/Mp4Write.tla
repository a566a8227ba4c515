------------------------------- MODULE Mp4Write -------------------------------
(***************************************************************************)
(* How a tag is written into a file, as the implementation does it: first  *)
(* everything is read and calculated, or the write is refused; then the    *)
(* file is modified by a sequence of steps, each of which the operating    *)
(* system may perform partially or fail, and after any of which the        *)
(* process may stop.                                                       *)
(***************************************************************************)
EXTENDS Mp4Struct

-----------------------------------------------------------------------------
(* Encoding *)

Box(c, body) == Be32(8 + Len(body)) \o c \o body
FullBox(c, body) == Box(c, Zeros(4) \o body)
ExtBox(c, body) == Be32(1) \o c \o Be64(16 + Len(body)) \o body

RawOf(d) == CASE d.t = 1 -> Utf8Encode(d.v) [] d.t = 2 -> Utf16Encode(d.v) [] OTHER -> d.v
DataBox(d) == Box(CData, Be32(d.t) \o Zeros(4) \o RawOf(d))
ItemBox(it) ==
  LET ds == Flat([i \in 1..Len(it.data) |-> DataBox(it.data[i])])
  IN  IF it.id.k = "x"
      THEN Box(CDash, FullBox(CMean, Utf8Encode(it.id.mean)) \o
                      FullBox(CName, Utf8Encode(it.id.name)) \o ds)
      ELSE Box(it.id.b, ds)
ListBox(items) == Box(CIlst, Flat([i \in 1..Len(items) |-> ItemBox(items[i])]))
HdlrBox == FullBox(CHdlr, Zeros(4) \o <<109,100,105,114,97,112,112,108>> \o Zeros(9))
MetaBox(items) == FullBox(CMeta, HdlrBox \o ListBox(items))
UdtaBox(items) == Box(CUdta, MetaBox(items))
DumpOf(items) == Box(CFtyp, <<77,52,65,32,0,0,2,0,105,115,111,109,105,115,111,50>>) \o
                 Box(CMoov, UdtaBox(items))

-----------------------------------------------------------------------------
(* The plan of a write: the steps that modify the file. A step overwrites  *)
(* bytes (k = "w", position p, bytes b) or resizes the file (k = "t", n).  *)

W(p, b) == [k |-> "w", p |-> p, b |-> b, n |-> 0]
T(n) == [k |-> "t", p |-> 0, b |-> <<>>, n |-> n]

Do(f, s) == IF s.k = "w" THEN Overwrite(f, s.p, s.b) ELSE SetLen(f, s.n)

RECURSIVE DoAll(_, _, _)
DoAll(f, steps, i) == IF i > Len(steps) THEN f ELSE DoAll(Do(f, steps[i]), steps, i + 1)

LastOf(ns, k) == LET s == OfKind(ns, k) IN IF s = <<>> THEN <<>> ELSE <<s[Len(s)]>>

NewLength(n, delta) ==
  IF n.hl = 16 THEN W(n.p + 8, Be64(n.len + delta)) ELSE W(n.p, Be32(n.len + delta))

(* st: the structure of f (moov: its first movie box, in: what is below).  *)
PlanFor(f, st, items) ==
  LET ns == st.ns
      mi == CHOOSE i \in 1..Len(ns) : ns[i].k = "moov" /\ \A j \in 1..(i - 1) : ns[j].k # "moov"
      moov == ns[mi]
      in == Below(ns, mi)
      udta == LastOf(in, "udta")
      meta == LastOf(in, "meta")
      hdlr == LastOf(in, "hdlr")
      ilst == LastOf(in, "ilst")
      new == IF udta = <<>> THEN UdtaBox(items)
             ELSE IF meta = <<>> THEN MetaBox(items)
             ELSE IF hdlr = <<>> THEN HdlrBox \o ListBox(items)
             ELSE ListBox(items)
      at == IF ilst # <<>> THEN ilst[1].p
            ELSE IF meta # <<>> THEN NodeEnd(meta[1])
            ELSE IF udta # <<>> THEN NodeEnd(udta[1])
            ELSE NodeEnd(moov)
      old == IF ilst # <<>> THEN ilst[1].len ELSE 0
      moved == at + old
      delta == Len(new) - old
      after == \E i \in 1..Len(ns) : ns[i].k = "mdat" /\ ns[i].p > moov.p
      tables == IF after THEN Tables(f, in) ELSE <<>>
      entry(o) == IF NatToInt(o) < moved THEN o ELSE NatShift(o, delta)
      fits(t) == \A j \in 1..t.n : NatFits(entry(Entry(f, t, j)), t.w)
      patch(t) == W(t.p, Flat([j \in 1..t.n |-> NatBytes(entry(Entry(f, t, j)), t.w)]))
      stays == SelectSeq(tables, LAMBDA t : t.p < moved)
      \* tables behind the item list are part of the moved data
      tail == DoAll(f, [i \in 1..Len(tables) |-> patch(tables[i])], 1)
  IN  IF \E i \in 1..Len(tables) : ~fits(tables[i]) THEN [ok |-> FALSE, steps |-> <<>>]
      ELSE [ok |-> TRUE,
            steps |-> [i \in 1..Len(stays) |-> patch(stays[i])] \o
                      <<NewLength(moov, delta)>> \o
                      (IF udta = <<>> THEN <<>> ELSE <<NewLength(udta[1], delta)>>) \o
                      (IF meta = <<>> THEN <<>> ELSE <<NewLength(meta[1], delta)>>) \o
                      <<T(Len(f) + delta), W(at, new),
                        W(moved + delta, SubSeq(tail, moved + 1, Len(f)))>>]

(* A write is refused unless the file can be understood. *)
Plan(f, items) ==
  LET st == Structure(f)
  IN  IF ~st.ok \/ ~ReadFtyp(f, 0).ok \/ FirstMoov(f, 0) = <<>>
         \/ \E i \in 1..Len(st.ns) : st.ns[i].k \in {"stco", "co64"} /\ ~TableOk(f, st.ns[i])
      THEN [ok |-> FALSE, steps |-> <<>>]
      ELSE PlanFor(f, st, items)

(* The file that results from writing items to f. *)
Written(f, items) == LET p == Plan(f, items) IN IF p.ok THEN DoAll(f, p.steps, 1) ELSE f
=============================================================================
