------------------------------ MODULE Mp4Struct -------------------------------
(***************************************************************************)
(* The box structure of a file, strictly: every box lies within its        *)
(* parent and the children of a container exactly fill it.  On top of it   *)
(* the declarative relations between a file before and after a write       *)
(* (C02, C03), between a file and a tag (C01), and the notion of a well-   *)
(* formed file.  Nothing here says how a write is performed.               *)
(***************************************************************************)
EXTENDS Mp4Read

(* A node is a box: kind, code, position, head length, length, depth.      *)
(* The structure of a file is the sequence of its nodes in document order. *)
Node(k, h, p, d) == [k |-> k, c |-> h.fcc, p |-> p, hl |-> h.hl, len |-> h.len, d |-> d]
NodeEnd(n) == n.p + n.len
NodeContent(n) == n.p + n.hl

(* What a box is depends on the container it is found in. *)
KindOf(parent, c) ==
  CASE parent = "file" /\ c = CMoov -> "moov"
    [] parent = "file" /\ c = CMdat -> "mdat"
    [] parent = "file" /\ c = CFtyp -> "ftyp"
    [] parent = "moov" /\ c = CMvhd -> "mvhd"
    [] parent = "moov" /\ c = CTrak -> "trak"
    [] parent = "moov" /\ c = CUdta -> "udta"
    [] parent = "trak" /\ c = CMdia -> "mdia"
    [] parent = "mdia" /\ c = CMinf -> "minf"
    [] parent = "minf" /\ c = CStbl -> "stbl"
    [] parent = "stbl" /\ c = CStsd -> "stsd"
    [] parent = "stbl" /\ c = CStco -> "stco"
    [] parent = "stbl" /\ c = CCo64 -> "co64"
    [] parent = "stsd" /\ c = CMp4a -> "mp4a"
    [] parent = "udta" /\ c = CMeta -> "meta"
    [] parent = "meta" /\ c = CHdlr -> "hdlr"
    [] parent = "meta" /\ c = CIlst -> "ilst"
    [] parent = "ilst" -> IF c = CFree THEN "pad" ELSE "item"
    [] parent = "item" -> "value"
    [] OTHER -> "other"

(* Where the children of a container begin, relative to its content. *)
Preamble(kind) ==
  CASE kind \in {"moov", "trak", "mdia", "minf", "stbl", "udta", "ilst", "item"} -> 0
    [] kind = "meta" -> 4
    [] kind = "stsd" -> 8
    [] OTHER -> -1                       \* not a container

NotNested == [ok |-> FALSE, ns |-> <<>>]
Nested(ns) == [ok |-> TRUE, ns |-> ns]

(* The nodes in [p, to), which must be exactly filled, as children of a    *)
(* container of kind `parent`; containers of the kinds in `shut` are not   *)
(* looked into.                                                            *)
RECURSIVE NodesIn(_, _, _, _, _, _, _)
NodesIn(f, p, to, parent, d, shut, acc) ==
  IF p = to THEN Nested(acc)
  ELSE LET h == HeadAt(f, p)
       IN  IF ~h.ok THEN NotNested
           ELSE IF h.len > to - p THEN NotNested
           ELSE LET k == KindOf(parent, h.fcc)
                    pre == IF k \in shut THEN -1 ELSE Preamble(k)
                    acc1 == Append(acc, Node(k, h, p, d))
                IN  IF pre < 0 THEN NodesIn(f, p + h.len, to, parent, d, shut, acc1)
                    ELSE IF h.hl + pre > h.len THEN NotNested
                    ELSE LET r == NodesIn(f, p + h.hl + pre, p + h.len, k, d + 1, shut, acc1)
                         IN  IF ~r.ok THEN NotNested
                             ELSE NodesIn(f, p + h.len, to, parent, d, shut, r.ns)

(* The whole file.  Its last box may reach beyond the end of the file      *)
(* (media data cut off), unless it is the movie box.                       *)
RECURSIVE FileNodesFrom(_, _, _, _)
FileNodesFrom(f, p, shut, acc) ==
  IF p = Len(f) THEN Nested(acc)
  ELSE LET h == HeadAt(f, p)
       IN  IF ~h.ok THEN NotNested
           ELSE LET k == KindOf("file", h.fcc)
                    acc1 == Append(acc, Node(k, h, p, 1))
                IN  IF h.len > Len(f) - p
                    THEN IF k = "moov" THEN NotNested ELSE Nested(acc1)
                    ELSE IF k # "moov" THEN FileNodesFrom(f, p + h.len, shut, acc1)
                    ELSE LET r == NodesIn(f, p + h.hl, p + h.len, k, 2, shut, acc1)
                         IN  IF ~r.ok THEN NotNested ELSE FileNodesFrom(f, p + h.len, shut, r.ns)

Structure(f) == FileNodesFrom(f, 0, {}, <<>>)

(* The file is cut off within its last box. *)
CutOff(f, ns) == ns # <<>> /\ LET n == CHOOSE n \in Range(ns) : NodeEnd(n) >= Len(f) /\ n.d = 1
                              IN  NodeEnd(n) > Len(f)

OfKind(ns, k) == SelectSeq(ns, LAMBDA n : n.k = k)
Count(ns, k) == Len(OfKind(ns, k))
The(ns, k) == OfKind(ns, k)[1]

(* the nodes below ns[i] *)
Below(ns, i) ==
  LET RECURSIVE Go(_)
      Go(j) == IF j > Len(ns) \/ ns[j].d <= ns[i].d THEN <<>> ELSE <<ns[j]>> \o Go(j + 1)
  IN  Go(i + 1)

AtMostOneIn(ns, parent, k) ==
  \A i \in 1..Len(ns) : ns[i].k = parent => Count(Below(ns, i), k) <= 1

(* A chunk offset table is [w |-> entry width, p |-> position of the       *)
(* first entry, n |-> number of entries]; it must fill its box.            *)
TableOk(f, n) ==
  LET w == IF n.k = "stco" THEN 4 ELSE 8
      p == NodeContent(n)
  IN  /\ n.len - n.hl >= 8
      /\ f[p + 1] = 0
      /\ U32At(f, p + 4) < 16777216
      /\ U32At(f, p + 4) * w = n.len - n.hl - 8

Table(f, n) == [w |-> IF n.k = "stco" THEN 4 ELSE 8, p |-> NodeContent(n) + 8,
                n |-> U32At(f, NodeContent(n) + 4)]
Entry(f, t, i) == Slice(f, t.p + (i - 1) * t.w, t.w)
TableNodes(ns) == SelectSeq(ns, LAMBDA n : n.k \in {"stco", "co64"})
Tables(f, ns) == [i \in 1..Len(TableNodes(ns)) |-> Table(f, TableNodes(ns)[i])]

(* Structurally well-formed with the cardinalities of the format. *)
WellStructured(f, st) ==
  /\ st.ok
  /\ LET ns == st.ns
     IN  /\ ns # <<>> /\ ns[1].k = "ftyp"
         /\ Count(ns, "moov") = 1
         /\ Count(ns, "udta") <= 1 /\ Count(ns, "meta") <= 1
         /\ Count(ns, "ilst") <= 1 /\ Count(ns, "hdlr") <= 1
         /\ AtMostOneIn(ns, "trak", "mdia") /\ AtMostOneIn(ns, "mdia", "minf")
         /\ AtMostOneIn(ns, "minf", "stbl") /\ AtMostOneIn(ns, "stbl", "stco")
         /\ AtMostOneIn(ns, "stbl", "co64")
         /\ \A i \in 1..Len(ns) : ns[i].k \in {"stco", "co64"} => TableOk(f, ns[i])

(* A well-formed file is one that also reads as a tag. *)
WellFormed(f) == WellStructured(f, Structure(f)) /\ ReadTag(f).ok

-----------------------------------------------------------------------------
(* C01: what a tag with the given items reads as (the identifier 'free' is *)
(* padding in an item list).                                               *)
Stored(items) == SelectSeq(items, LAMBDA it : it.id # CodeIdent(CFree))

-----------------------------------------------------------------------------
(* C02: chunk offsets follow the data.                                     *)

Mdats(ns) == OfKind(ns, "mdat")
MdatBytes(f, n) == SubSeq(f, NodeContent(n) + 1, Min2(NodeEnd(n), Len(f)))

SameMedia(f, ns, g, ms) ==
  LET a == Mdats(ns)
      b == Mdats(ms)
  IN  /\ Len(a) = Len(b)
      /\ \A k \in 1..Len(a) : MdatBytes(f, a[k]) = MdatBytes(g, b[k])

(* Whether offset oi (saturating) is within the content of box n; a box that *)
(* is cut off by the end of the file may be of any length.                 *)
Designates(oi, n) == oi >= NodeContent(n) /\ (oi < NodeEnd(n) \/ NodeEnd(n) >= Huge)

(* Entry o of a table of f became n in g: it is at the same distance from  *)
(* the start of the same media data; and an offset that isn't within media *)
(* data is either kept or moved, but is not garbled.                       *)
OffsetFollows(o, n, a, b, delta) ==
  LET oi == NatToInt(o)
      ks == {k \in 1..Len(a) : Designates(oi, a[k])}
  IN  IF ks # {}
      THEN LET k == CHOOSE k \in ks : TRUE
           IN  NatEq(n, NatShift(o, NodeContent(b[k]) - NodeContent(a[k])))
      ELSE \/ NatEq(n, o)
           \/ ((delta >= 0 \/ oi >= -delta) /\ NatEq(n, NatShift(o, delta)))

OffsetsFollow(f, ns, g, ms) ==
  LET s == Tables(f, ns)
      t == Tables(g, ms)
      a == Mdats(ns)
      b == Mdats(ms)
      delta == Len(g) - Len(f)
  IN  /\ Len(s) = Len(t)
      /\ \A i \in 1..Len(s) :
           /\ s[i].w = t[i].w /\ s[i].n = t[i].n
           /\ \A j \in 1..s[i].n :
                OffsetFollows(Entry(f, s[i], j), Entry(g, t[i], j), a, b, delta)

(* No 32-bit entry can overflow, whatever the size of the metadata. *)
OffsetsSmall(f, ns) ==
  LET s == Tables(f, ns)
  IN  \A i \in 1..Len(s) : \A j \in 1..s[i].n : NatToInt(Entry(f, s[i], j)) < Huge

(* No entry points into the movie box itself (what such an entry would     *)
(* follow when the box is rewritten is not defined).                       *)
OffsetsOutside(f, ns) ==
  LET s == Tables(f, ns)
      m == The(ns, "moov")
  IN  \A i \in 1..Len(s) : \A j \in 1..s[i].n :
        LET o == NatToInt(Entry(f, s[i], j)) IN o <= m.p \/ o >= NodeEnd(m)

-----------------------------------------------------------------------------
(* C03: only the item list changes.                                        *)

Enclosing == {"moov", "udta", "meta"}    \* boxes whose length follows the item list
Containers == {"trak", "mdia", "minf", "stbl", "stsd"}

(* What must not change about a box that is not part of the item list. *)
Fixed(f, n) ==
  LET p == NodeContent(n)
  IN  CASE n.k = "meta" -> <<n.d, n.c, Slice(f, p, 4)>>
        [] n.k \in Enclosing -> <<n.d, n.c>>
        [] n.k = "stsd" -> <<n.d, n.c, n.hl, n.len, Slice(f, p, 8)>>
        [] n.k \in Containers -> <<n.d, n.c, n.hl, n.len>>
        [] n.k \in {"stco", "co64"} -> <<n.d, n.c, n.hl, n.len, Slice(f, p, 8)>>
        [] OTHER -> <<n.d, n.c, n.hl, n.len, SubSeq(f, p + 1, Min2(NodeEnd(n), Len(f)))>>

OutsideList(ns) == SelectSeq(ns, LAMBDA n : n.k \notin {"ilst", "item", "value", "pad"})

Skeleton(f, ns, without) ==
  LET s == SelectSeq(OutsideList(ns), LAMBDA n : n.k \notin without)
  IN  [i \in 1..Len(s) |-> Fixed(f, s[i])]

Creatable == {"udta", "meta", "hdlr"}

OnlyListChanged(f, ns, g, ms) ==
  LET new == {k \in Creatable : Count(ns, k) = 0}
  IN  /\ \A k \in Creatable \cup {"ilst"} : Count(ms, k) = 1
      /\ Skeleton(f, ns, {}) = Skeleton(g, ms, new)

(* Boxes that are created: version and flags 0; handler component subtype and manufacturer: mdir, appl *)
NewMetaOk(f, ns) == Slice(f, NodeContent(The(ns, "meta")), 4) = Zeros(4)

NewHandlerOk(f, ns) ==
  LET h == The(ns, "hdlr")
  IN  /\ h.len - h.hl >= 25
      /\ Slice(f, NodeContent(h), 8) = Zeros(8)
      /\ Slice(f, NodeContent(h) + 8, 8) = <<109,100,105,114,97,112,112,108>>
      /\ Slice(f, NodeContent(h) + 16, 8) = Zeros(8)     \* reserved
      /\ f[h.p + h.len] = 0                               \* the end of its name

(* What a write adds to the enclosing boxes is a metadata box as a reader expects it. *)
CreatedWell(ns, g, ms) ==
  /\ Count(ns, "meta") = 0 /\ Count(ms, "meta") = 1 => NewMetaOk(g, ms)
  /\ Count(ns, "hdlr") = 0 /\ Count(ms, "hdlr") = 1 => NewHandlerOk(g, ms)

(* The file afterwards is well-formed again (cut off where it was). *)
StillNested(f, ns, g, st) ==
  /\ WellStructured(g, st)
  /\ CutOff(g, st.ns) = CutOff(f, ns)

-----------------------------------------------------------------------------
(* C09: the boxes around the item list do not nest.                        *)

(* The movie box that is read: the first one, found by skipping over boxes.*)
RECURSIVE FirstMoov(_, _)
FirstMoov(f, p) ==
  IF p >= Len(f) THEN <<>>
  ELSE LET h == HeadAt(f, p)
       IN  IF ~h.ok THEN <<>>
           ELSE IF h.fcc = CMoov THEN <<Node("moov", h, p, 1)>>
           ELSE FirstMoov(f, EndOf(h))

BadlyNested(f) ==
  LET m == FirstMoov(f, 0)
  IN  m # <<>>
      /\ \/ NodeEnd(m[1]) > Len(f)
         \/ ~NodesIn(f, NodeContent(m[1]), NodeEnd(m[1]), "moov", 2,
                     {"stsd", "ilst"}, <<>>).ok

-----------------------------------------------------------------------------
(* C10: a dump is exactly these boxes.                                     *)
DumpShape(f, st) ==
  /\ WellStructured(f, st)
  /\ ~CutOff(f, st.ns)
  /\ LET s == OutsideList(st.ns)
     IN  [i \in 1..Len(s) |-> s[i].k] = <<"ftyp", "moov", "udta", "meta", "hdlr">>
  /\ Count(st.ns, "ilst") = 1

HandlerOk(f, st) == NewMetaOk(f, st.ns) /\ NewHandlerOk(f, st.ns)

ListBytes(f, st) == IF Count(st.ns, "ilst") = 0 THEN <<>>
                    ELSE LET n == The(st.ns, "ilst") IN Slice(f, n.p, n.len)
=============================================================================
