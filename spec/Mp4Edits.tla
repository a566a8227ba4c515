------------------------------- MODULE Mp4Edits -------------------------------
(***************************************************************************)
(* Single changes to a well-formed file: every field of every box set to   *)
(* every special value, boxes removed, repeated, renamed, exchanged and    *)
(* inserted, and the file cut at every position.                           *)
(*                                                                         *)
(* An edit is [k |-> kind, es |-> splices, want |-> prediction]; a splice  *)
(* [p, r, b] replaces r bytes at p by b; those of an edit are ordered by   *)
(* descending position.  The prediction is what the change means for the   *)
(* reader according to the documentation, independently of Mp4Read:        *)
(* <<"same">> nothing, <<"error">> some error, <<kind, argument>> that      *)
(* error, <<>> not predicted.                                              *)
(***************************************************************************)
EXTENDS Mp4Layout

Splice(p, r, b) == [p |-> p, r |-> r, b |-> b]
Edit(k, es, want) == [k |-> k, es |-> es, want |-> want]

RECURSIVE ApplyFrom(_, _, _)
ApplyFrom(f, es, i) ==
  IF i > Len(es) THEN f
  ELSE LET s == es[i]
       IN  ApplyFrom(SubSeq(f, 1, s.p) \o s.b \o SubSeq(f, s.p + s.r + 1, Len(f)), es, i + 1)
Apply(f, e) == ApplyFrom(f, e.es, 1)

Same == <<"same">>

(* ns[i] with everything that encloses it. *)
Ancestors(ns, i) == {j \in 1..(i - 1) : ns[j].p < ns[i].p /\ NodeEnd(ns[j]) >= NodeEnd(ns[i])}

(* The lengths of the boxes js, changed by delta, last first. *)
Lengths(ns, js, delta) ==
  LET s == SetToSortSeq(js, LAMBDA a, b : a > b)
  IN  [x \in 1..Len(s) |-> LET w == NewLength(ns[s[x]], delta) IN Splice(w.p, Len(w.b), w.b)]

(* The content of ns[i] from offset o on becomes b, everything around it fits. *)
Content_To(ns, i, o, b) ==
  LET n == ns[i]
      old == n.len - n.hl - o
  IN  <<Splice(NodeContent(n) + o, old, b)>> \o Lengths(ns, Ancestors(ns, i) \cup {i}, Len(b) - old)

TakeOut(ns, i) == <<Splice(ns[i].p, ns[i].len, <<>>)>> \o Lengths(ns, Ancestors(ns, i), -ns[i].len)
PutIn(ns, i, b) == <<Splice(ns[i].p, 0, b)>> \o Lengths(ns, Ancestors(ns, i), Len(b))
Again_(f, ns, i) == <<Splice(NodeEnd(ns[i]), 0, Slice(f, ns[i].p, ns[i].len))>> \o
                    Lengths(ns, Ancestors(ns, i), ns[i].len)
Extend(ns, i) ==
  LET n == ns[i]
  IN  <<Splice(n.p, 8, Be32(1) \o n.c \o Be64(n.len + 8))>> \o Lengths(ns, Ancestors(ns, i), 8)
Exchange(f, ns, i, j) ==                 \* neighbours
  <<Splice(ns[i].p, ns[i].len + ns[j].len, Slice(f, ns[j].p, ns[j].len) \o Slice(f, ns[i].p, ns[i].len))>>
Put(p, b) == <<Splice(p, Len(b), b)>>

Parent(ns, i) == IF Ancestors(ns, i) = {} THEN "file"
                 ELSE ns[CHOOSE j \in Ancestors(ns, i) : \A x \in Ancestors(ns, i) : x <= j].k
NextSibling(ns, i) == {j \in (i + 1)..Len(ns) : ns[j].p = NodeEnd(ns[i]) /\ ns[j].d = ns[i].d
                                                /\ Ancestors(ns, j) = Ancestors(ns, i)}

-----------------------------------------------------------------------------
(* Lengths *)

Ff(k) == [i \in 1..k |-> 255]
LenValues(f, n) ==
  { Be32(v) : v \in {0, 1, 2, 7, 8, 9, 12, 15, 16, n.len - 1, n.len + 1, n.len + 4, n.len + 8, 2 * n.len,
                     Max2(0, n.len - 4), Max2(0, n.len - 8),
                     Len(f), Len(f) - n.p, Len(f) - n.p + 1, 65536, 1073741824} }
  \cup { <<127>> \o Ff(3), <<128,0,0,0>>, <<128,0,0,n.len % 256>>, Ff(4), Ff(3) \o <<248>>, Ff(3) \o <<n.len % 256>> }
LongValues(f, n) ==
  { Zeros(4) \o Be32(v) : v \in {0, 1, 8, 15, 16, 17, n.len - 1, n.len + 1, n.len + 8, Max2(0, n.len - 8),
                                 Len(f) - n.p, Len(f) - n.p + 1, 1073741824} }
  \cup { Zeros(4) \o Ff(4), <<0,0,0,1,0,0,0>> \o <<n.len % 256>>, <<127>> \o Ff(7), <<128>> \o Zeros(7),
         <<128,0,0,0>> \o Be32(n.len), Ff(8), Ff(7) \o <<248>>, Ff(4) \o Be32(n.len) }

LengthEdits(f, ns) ==
  UNION { LET n == ns[i]
          IN  IF n.hl = 8
              THEN { Edit("len", Put(n.p, v), <<>>) : v \in LenValues(f, n) \ {Be32(n.len)} }
                   \cup { Edit("extlen", <<Splice(n.p, 8, Be32(1) \o n.c \o v)>>, <<>>) :
                            v \in {Zeros(8), Be64(8), Be64(15), <<127>> \o Ff(7), <<128>> \o Zeros(7), Ff(8)} }
              ELSE { Edit("len", Put(n.p + 8, v), <<>>) : v \in LongValues(f, n) \ {Be64(n.len)} }
        : i \in 1..Len(ns) }

-----------------------------------------------------------------------------
(* Codes *)

Uknw == <<117,107,110,119>>
RenameTo == {CFree, Uknw, CMoov, CUdta, CMeta, CIlst, CHdlr, CTrak, CStco, CCo64, CMvhd, CData, CMean,
             CMdat, CFtyp, CEsds, CMp4a, CDash}

OnlyValue(ns, i) ==                      \* a value box, alone in its item
  /\ ns[i].k = "value" /\ ns[i].c = CData
  /\ \A j \in 1..Len(ns) : (j # i /\ ns[j].k = "value" /\ ns[j].c = CData) =>
       Ancestors(ns, j) # Ancestors(ns, i)

Gone(ns, i) ==                           \* what is said about a box that isn't there
  CASE ns[i].k = "ftyp" -> <<"NoTag", <<>>>>
    [] ns[i].k = "moov" -> <<"AtomNotFound", CMoov>>
    [] OnlyValue(ns, i) -> <<"AtomNotFound", CData>>
    [] ns[i].k \in {"hdlr", "stco", "co64", "pad", "mdat"} -> Same
    [] ns[i].k = "other" -> Same
    [] ns[i].k = "value" /\ ns[i].c \notin {CData, CMean, CName} -> Same
    [] OTHER -> <<>>

CodeEdits(ns, all) ==
  UNION { { Edit("code", Put(ns[i].p + 4, c), IF c = Uknw \/ (c = CFree /\ ns[i].k # "item")
                                              THEN Gone(ns, i) ELSE <<>>)
            : c \in (IF all THEN RenameTo ELSE {CFree, Uknw}) \ {ns[i].c} }
        : i \in {i \in 1..Len(ns) : ~(ns[i].k = "pad")} }

BoxEdits(f, ns) ==
  { Edit("gone", TakeOut(ns, i), Gone(ns, i)) : i \in 1..Len(ns) }
  \cup { Edit("twice", Again_(f, ns, i), IF Gone(ns, i) = Same THEN Same ELSE <<>>) : i \in 1..Len(ns) }
  \cup { Edit("extended", Extend(ns, i), Same) : i \in {i \in 1..Len(ns) : ns[i].hl = 8} }
  \cup { Edit("padding", PutIn(ns, i, FreeBox), Same) :
           i \in {i \in 1..Len(ns) : ns[i].k # "ftyp"} }
  \cup { Edit("unknown", PutIn(ns, i, UnknownBox), Same) :
           i \in {i \in 1..Len(ns) : ns[i].k \notin {"ftyp", "item", "pad"}} }
  \cup UNION { { Edit("order", Exchange(f, ns, i, j),
                      IF \/ ns[i].k = "ftyp"
                         \/ (ns[i].k = ns[j].k /\ ns[i].k \in {"trak", "item", "mvhd", "udta", "meta", "ilst"})
                         \/ (ns[i].k = "value" /\ ns[i].c = CData /\ ns[j].c = CData)
                      THEN <<>> ELSE Same)
                 : j \in NextSibling(ns, i) } : i \in 1..Len(ns) }

-----------------------------------------------------------------------------
(* Fields of the boxes *)

Bad(k, a) == <<k, a>>
BadUtf8 == {<<255>>, <<97,128>>, <<195>>, <<226,130>>, <<240,159,152>>, <<237,160,128>>, <<192,128>>,
            <<245,128,128,128>>, <<97,98,99,254>>}
BadUtf16 == {<<216,0>>, <<220,0>>, <<216,61,0,97>>, <<220,0,216,0>>, <<0,97,216,61>>}
BadTypes == {3, 4, 5, 11, 12, 15, 16, 20, 22, 26, 28, 29, 77, 128, 255, 256, 257, 269, 65536, 65537, 16777215}

VersionEdits(ns) ==
  UNION { LET p == NodeContent(ns[i])
              read == ns[i].k \in {"mvhd", "meta", "stsd"}
                      \/ (ns[i].k = "value" /\ ns[i].c \in {CData, CMean, CName})
          IN  { Edit("version", Put(p, <<v>>),
                     IF ns[i].k = "mvhd" /\ v < 2 THEN <<>>
                     ELSE IF read THEN Bad("UnknownVersion", <<v>>) ELSE Same)
                : v \in {1, 2, 3, 127, 128, 255} }
        : i \in {i \in 1..Len(ns) : ns[i].k \in {"mvhd", "meta", "stsd", "hdlr", "stco", "co64"}
                                    \/ (ns[i].k = "value" /\ ns[i].c \in {CData, CMean, CName})} }

FlagEdits(ns) ==
  { Edit("flags", Put(NodeContent(ns[i]) + 1, b), Same)
      : b \in {<<0,0,1>>, <<255,255,255>>},
        i \in {i \in 1..Len(ns) : ns[i].k \in {"mvhd", "meta", "stsd", "hdlr", "stco", "co64"}
                                  \/ (ns[i].k = "value" /\ ns[i].c \in {CMean, CName})} }

DataEdits(f, ns) ==
  UNION { LET p == NodeContent(ns[i])
              t == f[p + 4]
          IN  { Edit("type", Put(p + 1, SubSeq(Be32(x), 2, 4)), Bad("UnknownDataType", <<x>>)) : x \in BadTypes }
              \cup { Edit("retype", Put(p + 3, <<x>>), <<>>) : x \in DataTypes }
              \cup { Edit("locale", Put(p + 4, b), Same) : b \in {<<0,0,0,1>>, Ff(4), <<0,0,85,196>>} }
              \cup (IF t # 1 THEN {} ELSE
                    { Edit("text", Content_To(ns, i, 8, b), Bad("Utf8StringDecoding", b)) : b \in BadUtf8 })
              \cup (IF t # 2 THEN {} ELSE
                    { Edit("text", Content_To(ns, i, 8, b), Bad("Utf16StringDecoding", <<>>)) : b \in BadUtf16 })
              \cup { Edit("short", Content_To(ns, i, k, <<>>), <<"error">>) : k \in 0..7 }
        : i \in {i \in 1..Len(ns) : ns[i].k = "value" /\ ns[i].c = CData} }

NameEdits(ns) ==
  UNION { { Edit("text", Content_To(ns, i, 4, b), Bad("Utf8StringDecoding", b)) : b \in BadUtf8 }
          \cup { Edit("short", Content_To(ns, i, k, <<>>), <<"error">>) : k \in 0..3 }
        : i \in {i \in 1..Len(ns) : ns[i].k = "value" /\ ns[i].c \in {CMean, CName}} }

FtypEdits(ns) ==
  { Edit("text", Content_To(ns, 1, 0, b), <<"Utf8StringDecoding", b>>) : b \in BadUtf8 }

Counts(n) == { Be32(v) : v \in {0, 1, n - 1, n + 1, n + 2, 255, 65536, 1048576, 16777216, 268435456, 536870912,
                                536870913, 1073741824} \ {-1, n} }
             \cup { <<128,0,0,0>>, <<127>> \o Ff(3), Ff(4), <<64,0,0,n>>, <<128,0,0,n>>, <<32,0,0,n>> }

TableEdits(f, ns) ==
  UNION { LET p == NodeContent(ns[i])
              t == Table(f, ns[i])
          IN  { Edit("count", Put(p + 4, v), Same) : v \in Counts(t.n) }
              \cup { Edit("entry", Put(t.p + (j - 1) * t.w, Ff(t.w - 1) \o <<x>>), Same) :
                       j \in {1, t.n} \ {0}, x \in {0, 200, 250, 255} }
              \cup { Edit("tabshort", Content_To(ns, i, k, <<>>), Same) : k \in {0, 1, 3, 4, 7, 8} \ {8 + t.n * t.w} }
              \cup { Edit("tablong", Content_To(ns, i, 8 + t.n * t.w, b), Same) : b \in {<<0>>, Zeros(4), Zeros(8)} }
        : i \in {i \in 1..Len(ns) : ns[i].k \in {"stco", "co64"}} }

StsdEdits(ns) ==
  UNION { { Edit("count", Put(NodeContent(ns[i]) + 4, v), <<>>) : v \in Counts(1) }
        : i \in {i \in 1..Len(ns) : ns[i].k = "stsd"} }

MvhdEdits(f, ns) ==
  UNION { LET p == NodeContent(ns[i])
              w == IF f[p + 1] = 0 THEN 4 ELSE 8
              q == p + 4 + 2 * w
          IN  { Edit("scale", Put(q, v), IF v = Zeros(4) THEN <<"error">> ELSE <<>>) :
                  v \in {Zeros(4), Be32(1), Be32(1000), <<128,0,0,0>>, Ff(4), Be32(1000000007)} }
              \cup { Edit("duration", Put(q + 4, v), <<>>) :
                       v \in {Zeros(w), Ff(w), <<128>> \o Zeros(w - 1), <<127>> \o Ff(w - 1), Zeros(w - 1) \o <<1>>} }
              \cup { Edit("short", Content_To(ns, i, k, <<>>), <<"error">>) : k \in {0, 1, 4, q - p, q - p + 4, q - p + 3 + w} }
        : i \in {i \in 1..Len(ns) : ns[i].k = "mvhd"} }

-----------------------------------------------------------------------------
(* Descriptors: [tag, p, hl, len], in document order *)

RECURSIVE Descs(_, _, _)
Descs(f, p, to) ==
  IF p >= to THEN <<>>
  ELSE LET d == DescHead(f, p)
           c == IF d.acc.tag = 3 THEN 3 ELSE IF d.acc.tag = 4 THEN 13 ELSE d.acc.len
           e == d.p + d.acc.len
       IN  <<[tag |-> d.acc.tag, p |-> p, hl |-> d.acc.hl, len |-> d.acc.len]>> \o
           Descs(f, d.p + c, e) \o Descs(f, e, to)

DescLengths(d) ==
  { <<v>> : v \in {0, 1, 2, 3, 12, 13, 14, d.len - 1, d.len + 1, d.len + 8, 126, 127} \ {-1, d.len} }
  \cup { <<128, d.len>>, <<128, 128, d.len>>, <<128, 128, 128, d.len>>, <<129, d.len>>, <<255, 127>>,
         <<255, 255, 127>>, <<255, 255, 255, 127>>, <<129, 128, 128, d.len>>,
         \* a fourth continuation, and no end
         <<128, 128, 128, 128, d.len>>, <<128, 128, 128, 129, d.len>>, Ff(4) \o <<127>>, Ff(5) \o <<d.len>>, Ff(12), [i \in 1..12 |-> 128] \o <<d.len>> }

EsdsEdits(f, ns) ==
  UNION { LET e == HeadAt(f, NodeContent(ns[i]) + 28)
              ep == NodeContent(ns[i]) + 28
              js == Ancestors(ns, i) \cup {i}
              fit(es, delta) == es \o <<Splice(ep, 4, Be32(e.len + delta))>> \o Lengths(ns, js, delta)
              ds == Descs(f, e.p + 4, EndOf(e))
          IN  { Edit("version", Put(e.p, <<v>>), Bad("UnknownVersion", <<v>>)) : v \in {1, 2, 128, 255} }
              \cup { Edit("code", Put(ep + 4, c), Bad("AtomNotFound", CEsds)) : c \in {CFree, Uknw, CData} }
              \cup { Edit("len", Put(ep, v), <<>>) : v \in LenValues(f, [p |-> ep, hl |-> 8, len |-> e.len]) }
              \cup { Edit("tag", Put(e.p + 4, <<t>>), Bad("DescriptorNotFound", <<3>>)) : t \in {0, 1, 2, 4, 5, 6, 127, 131, 255} }
              \cup UNION { { Edit("tag", Put(ds[x].p, <<t>>), <<>>) : t \in {0, 3, 4, 5, 6, 255} }
                           \cup { Edit("desclen", Put(ds[x].p + 1, v), <<>>) :
                                    v \in {v \in DescLengths(ds[x]) : ds[x].p + 1 + Len(v) <= Len(f)} }
                           \cup { Edit("desclen", fit(<<Splice(ds[x].p + 1, ds[x].hl - 1, v)>>, Len(v) - ds[x].hl + 1), <<>>) :
                                    v \in DescLengths(ds[x]) }
                         : x \in 1..Len(ds) }
        : i \in {i \in 1..Len(ns) : ns[i].k = "mp4a"} }

Mp4aEdits(ns) ==
  UNION { { Edit("short", Content_To(ns, i, k, <<>>), <<"error">>) : k \in {0, 1, 27, 28, 31, 35, 36, 40} }
        : i \in {i \in 1..Len(ns) : ns[i].k = "mp4a"} }

-----------------------------------------------------------------------------
(* Cuts *)

Cut(f, ns) ==
  { LET inlist == \E i \in 1..Len(ns) : ns[i].k = "ilst" /\ ns[i].p < k /\ k < NodeEnd(ns[i])
        inhead == k < ns[1].len \/ \E i \in 1..Len(ns) : ns[i].k = "moov" /\ ns[i].p < k /\ k < NodeContent(ns[i])
    IN  Edit("cut", <<Splice(k, Len(f) - k, <<>>)>>, IF inlist \/ inhead THEN <<"Io", <<>>>> ELSE <<>>)
  : k \in 0..(Len(f) - 1) }

Edits(f, all) ==
  LET ns == Structure(f).ns
  IN  { Edit("none", <<>>, Same) }
      \cup LengthEdits(f, ns) \cup CodeEdits(ns, all) \cup BoxEdits(f, ns) \cup VersionEdits(ns) \cup FlagEdits(ns)
      \cup DataEdits(f, ns) \cup NameEdits(ns) \cup FtypEdits(ns) \cup TableEdits(f, ns) \cup StsdEdits(ns)
      \cup MvhdEdits(f, ns) \cup EsdsEdits(f, ns) \cup Mp4aEdits(ns) \cup Cut(f, ns)
=============================================================================
