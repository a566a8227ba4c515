------------------------------- MODULE Mp4Read --------------------------------
(***************************************************************************)
(* What reading a tag from a byte string means.                            *)
(*                                                                         *)
(* The reader is a state machine over <<position, accumulator>>: it reads  *)
(* box heads, enters the boxes it knows and seeks over the others.  Each   *)
(* operator below takes the bytes f and a position and yields either       *)
(* Ok(position, accumulator) or Fail(error kind, argument).                *)
(*                                                                         *)
(* It is deliberately as tolerant as the implementation: lengths are not   *)
(* checked against the enclosing box, seeking past the end is not an error *)
(* by itself, only reading there is.  Structure is judged in Mp4Struct.    *)
(***************************************************************************)
EXTENDS Mp4Bytes, Mp4Names

Ok(p, acc) == [ok |-> TRUE, p |-> p, acc |-> acc, err |-> <<>>]
Fail(kind, arg) == [ok |-> FALSE, p |-> 0, acc |-> <<>>, err |-> <<kind, arg>>]
FailIo == Fail("Io", <<>>)
FailParsing == Fail("Parsing", <<>>)

(* Reading k bytes at p succeeds. *)
CanRead(f, p, k) == k = 0 \/ HasBytes(f, p, k)

-----------------------------------------------------------------------------
(* Box heads.  len: whole length, hl: head length, p: content position.    *)

HeadAt(f, p) ==
  IF ~HasBytes(f, p, 8) THEN FailIo
  ELSE LET l == U32At(f, p)
           c == Slice(f, p + 4, 4)
       IN  IF l = 1
           THEN IF ~HasBytes(f, p, 16) THEN FailIo
                ELSE IF U64Negative(f, p + 8) THEN FailParsing
                ELSE LET e == U64At(f, p + 8)
                     IN  IF e < 16 THEN FailParsing
                         ELSE [ok |-> TRUE, len |-> e, hl |-> 16, fcc |-> c, p |-> p + 16, err |-> <<>>]
           ELSE IF l < 8 THEN FailParsing
           ELSE [ok |-> TRUE, len |-> l, hl |-> 8, fcc |-> c, p |-> p + 8, err |-> <<>>]

Content(h) == h.len - h.hl               \* content length
EndOf(h) == Sat(h.p + Content(h))
Skip(h, acc) == Ok(EndOf(h), acc)

-----------------------------------------------------------------------------
(* Values and items *)

DataTypes == {0, 1, 2, 13, 14, 21, 27}
IsBytesType(t) == t \in {0, 21}
IsTextType(t) == t \in {1, 2}
IsImageType(t) == t \in {13, 14, 27}

(* A value is [t, v]: type code and content (bytes, or a text for 1, 2).   *)
ValueOf(t, b) ==
  CASE t = 1 -> LET d == Utf8Decode(b) IN
                IF d.ok THEN Ok(0, [t |-> t, v |-> d.t]) ELSE Fail("Utf8StringDecoding", b)
    [] t = 2 -> LET d == Utf16Decode(b) IN
                IF d.ok THEN Ok(0, [t |-> t, v |-> d.t]) ELSE Fail("Utf16StringDecoding", <<>>)
    [] OTHER -> Ok(0, [t |-> t, v |-> b])

(* An identifier is a four-character code, or the pair (mean, name).       *)
CodeIdent(c) == [k |-> "f", b |-> c, mean |-> <<>>, name |-> <<>>]
FreeIdent(m, n) == [k |-> "x", b |-> <<>>, mean |-> m, name |-> n]

FullHead(f, p) ==                        \* version and flags
  IF ~HasBytes(f, p, 1) THEN FailIo
  ELSE IF ~HasBytes(f, p, 4) THEN FailIo
  ELSE Ok(p + 4, [version |-> f[p + 1],
                  flags |-> f[p + 2] * 65536 + f[p + 3] * 256 + f[p + 4]])

UnknownVersion(v) == Fail("UnknownVersion", <<v>>)

ReadData(f, h, acc) ==
  LET fh == FullHead(f, h.p)
  IN  IF ~fh.ok THEN fh
      ELSE IF fh.acc.version # 0 THEN UnknownVersion(fh.acc.version)
      ELSE IF Content(h) < 8 THEN FailParsing
      ELSE LET t == fh.acc.flags
               p == h.p + 8                       \* behind the locale indicator
               k == Content(h) - 8
           IN  IF t \notin DataTypes THEN Fail("UnknownDataType", <<t>>)
               ELSE IF ~CanRead(f, p, k) THEN FailIo
               ELSE LET v == ValueOf(t, Slice(f, p, k))
                    IN  IF ~v.ok THEN v
                        ELSE Ok(p + k, [acc EXCEPT !.data = Append(@, v.acc)])

ReadName(f, h, acc, field) ==            \* mean or name
  LET fh == FullHead(f, h.p)
  IN  IF ~fh.ok THEN fh
      ELSE IF fh.acc.version # 0 THEN UnknownVersion(fh.acc.version)
      ELSE IF Content(h) < 4 THEN FailParsing
      ELSE LET p == h.p + 4
               k == Content(h) - 4
           IN  IF ~CanRead(f, p, k) THEN FailIo
               ELSE LET d == Utf8Decode(Slice(f, p, k))
                    IN  IF ~d.ok THEN Fail("Utf8StringDecoding", Slice(f, p, k))
                        ELSE Ok(p + k, [acc EXCEPT ![field] = <<d.t>>])

(* Add values to an item list: appended to the item with that identifier   *)
(* if there is one, as a new last item otherwise.                          *)
HasItem(items, id) == \E i \in 1..Len(items) : items[i].id = id
ItemIndex(items, id) == CHOOSE i \in 1..Len(items) : items[i].id = id
AddValues(items, id, vs) ==
  IF HasItem(items, id)
  THEN [items EXCEPT ![ItemIndex(items, id)].data = @ \o vs]
  ELSE Append(items, [id |-> id, data |-> vs])

-----------------------------------------------------------------------------
(* MPEG-4 elementary stream descriptors                                    *)

RECURSIVE DescLen(_, _, _, _)
DescLen(f, p, k, len) ==                 \* k: bytes of the head read so far
  IF k >= 5 THEN Ok(p, [hl |-> k, len |-> len])
  ELSE IF ~HasBytes(f, p, 1) THEN FailIo
  ELSE LET b == f[p + 1]
           l == len * 128 + (b % 128)
       IN  IF b < 128 THEN Ok(p + 1, [hl |-> k + 1, len |-> l])
           ELSE DescLen(f, p + 1, k + 1, l)

DescHead(f, p) ==
  IF ~HasBytes(f, p, 1) THEN FailIo
  ELSE LET r == DescLen(f, p + 1, 1, 0)
       IN  IF ~r.ok THEN r
           ELSE Ok(r.p, [tag |-> f[p + 1], hl |-> r.acc.hl, len |-> r.acc.len])

NoStream == [ch |-> -1, sr |-> -1, maxb |-> <<>>, avgb |-> <<>>]

ReadDecoderSpecific(f, p, len, info) ==
  IF ~HasBytes(f, p, 2) THEN FailIo
  ELSE IF len < 2 THEN FailParsing
  ELSE LET num == U16At(f, p)
           fi == (num \div 128) % 16
           ci == (num \div 8) % 16
       IN  Ok(Sat(p + len), [info EXCEPT !.sr = IF fi <= 12 THEN fi ELSE -1,
                                         !.ch = IF ci \in 1..7 THEN ci ELSE -1])

RECURSIVE DecoderConfigLoop(_, _, _, _, _)
DecoderConfigLoop(f, p, done, len, info) ==
  IF done >= len THEN Ok(p, info)
  ELSE LET d == DescHead(f, p)
       IN  IF ~d.ok THEN d
           ELSE LET r == IF d.acc.tag = 5 THEN ReadDecoderSpecific(f, d.p, d.acc.len, info)
                         ELSE Ok(Sat(d.p + d.acc.len), info)
                IN  IF ~r.ok THEN r
                    ELSE DecoderConfigLoop(f, r.p, Sat(done + d.acc.hl + d.acc.len), len, r.acc)

ReadDecoderConfig(f, p, len, info) ==
  IF ~HasBytes(f, p, 13) THEN FailIo
  ELSE DecoderConfigLoop(f, p + 13, 13, len,
         [info EXCEPT !.maxb = Slice(f, p + 5, 4), !.avgb = Slice(f, p + 9, 4)])

RECURSIVE EsLoop(_, _, _, _, _)
EsLoop(f, p, done, len, info) ==
  IF done >= len THEN Ok(p, info)
  ELSE LET d == DescHead(f, p)
       IN  IF ~d.ok THEN d
           ELSE LET r == IF d.acc.tag = 4 THEN ReadDecoderConfig(f, d.p, d.acc.len, info)
                         ELSE Ok(Sat(d.p + d.acc.len), info)
                IN  IF ~r.ok THEN r
                    ELSE EsLoop(f, r.p, Sat(done + d.acc.hl + d.acc.len), len, r.acc)

ReadEsds(f, h, info) ==
  LET fh == FullHead(f, h.p)
  IN  IF ~fh.ok THEN fh
      ELSE IF fh.acc.version # 0 THEN UnknownVersion(fh.acc.version)
      ELSE LET d == DescHead(f, h.p + 4)
           IN  IF ~d.ok THEN d
               ELSE IF d.acc.tag # 3 THEN Fail("DescriptorNotFound", <<3>>)
               ELSE IF Content(h) < 4 + d.acc.hl THEN FailParsing
               ELSE EsLoop(f, d.p + 3, 3, Min2(d.acc.len, Content(h) - 4 - d.acc.hl), info)

ReadMp4a(f, h) ==
  LET e == HeadAt(f, h.p + 28)
  IN  IF ~e.ok THEN e
      ELSE IF e.fcc # CEsds THEN Fail("AtomNotFound", CEsds)
      ELSE LET r == ReadEsds(f, e, NoStream)
           IN  IF ~r.ok THEN r
               ELSE IF r.p > EndOf(h) THEN FailParsing
               ELSE Ok(EndOf(h), r.acc)

-----------------------------------------------------------------------------
(* Movie header: time scale and duration as base-256 naturals              *)

ReadMvhd(f, h) ==
  LET fh == FullHead(f, h.p)
  IN  IF ~fh.ok THEN fh
      ELSE LET v == fh.acc.version
               p == IF v = 0 THEN h.p + 12 ELSE h.p + 20
               k == IF v = 0 THEN 4 ELSE 8
           IN  IF v \notin {0, 1} THEN UnknownVersion(v)
               ELSE IF ~HasBytes(f, p, 4 + k) THEN FailIo
               ELSE IF NatNorm(Slice(f, p, 4)) = <<>> THEN FailParsing
               ELSE IF p + 4 + k > EndOf(h) THEN FailParsing
               ELSE Ok(EndOf(h), [scale |-> Slice(f, p, 4), dur |-> Slice(f, p + 4, k)])

-----------------------------------------------------------------------------
(* The box hierarchy.  Loop reads the children of a box of the given kind  *)
(* (len: content length, done: how much of it has been accounted for).     *)

EmptyItem == [data |-> <<>>, mean |-> <<>>, name |-> <<>>]
EmptyMoov == [mvhd |-> <<>>, streams |-> <<>>, items |-> <<>>]

RECURSIVE Loop(_, _, _, _, _, _)
RECURSIVE Child(_, _, _, _)

Loop(kind, f, p, done, len, acc) ==
  IF done >= len THEN Ok(p, acc)
  ELSE LET h == HeadAt(f, p)
       IN  IF ~h.ok THEN h
           ELSE LET r == Child(kind, f, h, acc)
                IN  IF ~r.ok THEN r
                    ELSE Loop(kind, f, r.p, Sat(done + h.len), len, r.acc)

(* Enter child h as a container of kind k, starting with accumulator a. *)
Enter(k, f, h, a) == Loop(k, f, h.p, 0, Content(h), a)

(* Accumulators: moov as in EmptyMoov; udta and meta: <<>> or <<items>>;   *)
(* ilst: items; item: as in EmptyItem; trak..stbl, stsd: <<>> or <<stream>>*)


Child(kind, f, h, acc) ==
  CASE kind = "moov" /\ h.fcc = CMvhd ->
         LET r == ReadMvhd(f, h) IN IF ~r.ok THEN r ELSE Ok(r.p, [acc EXCEPT !.mvhd = <<r.acc>>])
    [] kind = "moov" /\ h.fcc = CTrak ->
         LET r == Enter("trak", f, h, <<>>) IN
         IF ~r.ok THEN r ELSE Ok(r.p, [acc EXCEPT !.streams = @ \o r.acc])
    [] kind = "moov" /\ h.fcc = CUdta ->
         LET r == Enter("udta", f, h, <<>>) IN
         IF ~r.ok THEN r ELSE Ok(r.p, [acc EXCEPT !.items = r.acc])
    [] kind = "udta" /\ h.fcc = CMeta ->
         LET fh == FullHead(f, h.p) IN
         IF ~fh.ok THEN fh
         ELSE IF fh.acc.version # 0 THEN UnknownVersion(fh.acc.version)
         ELSE Loop("meta", f, fh.p, 4, Content(h), <<>>)
    [] kind = "meta" /\ h.fcc = CIlst ->
         LET r == Enter("ilst", f, h, <<>>) IN IF ~r.ok THEN r ELSE Ok(r.p, <<r.acc>>)
    [] kind = "ilst" /\ h.fcc # CFree ->
         LET r == Enter("item", f, h, EmptyItem) IN
         IF ~r.ok THEN r
         ELSE IF r.acc.data = <<>> THEN Fail("AtomNotFound", CData)
         ELSE LET id == IF h.fcc = CDash /\ r.acc.mean # <<>> /\ r.acc.name # <<>>
                        THEN FreeIdent(r.acc.mean[1], r.acc.name[1])
                        ELSE CodeIdent(h.fcc)
              IN  Ok(r.p, AddValues(acc, id, r.acc.data))
    [] kind = "item" /\ h.fcc = CData -> ReadData(f, h, acc)
    [] kind = "item" /\ h.fcc = CMean -> ReadName(f, h, acc, "mean")
    [] kind = "item" /\ h.fcc = CName -> ReadName(f, h, acc, "name")
    [] kind = "trak" /\ h.fcc = CMdia -> Enter("mdia", f, h, <<>>)
    [] kind = "mdia" /\ h.fcc = CMinf -> Enter("minf", f, h, <<>>)
    [] kind = "minf" /\ h.fcc = CStbl -> Enter("stbl", f, h, <<>>)
    [] kind = "stbl" /\ h.fcc = CStsd ->
         LET fh == FullHead(f, h.p) IN
         IF ~fh.ok THEN fh
         ELSE IF fh.acc.version # 0 THEN UnknownVersion(fh.acc.version)
         ELSE Loop("stsd", f, fh.p + 4, 8, Content(h), <<>>)
    [] kind = "stsd" /\ h.fcc = CMp4a ->
         LET r == ReadMp4a(f, h) IN IF ~r.ok THEN r ELSE Ok(r.p, <<r.acc>>)
    [] OTHER -> Skip(h, acc)

-----------------------------------------------------------------------------
(* Reading a tag from f, starting at position p0.                          *)

RECURSIVE FindMoov(_, _, _, _)
FindMoov(f, p, done, len) ==
  IF done >= len THEN Fail("AtomNotFound", CMoov)
  ELSE LET h == HeadAt(f, p)
       IN  IF ~h.ok THEN h
           ELSE IF h.fcc = CMoov THEN Enter("moov", f, h, EmptyMoov)
           ELSE FindMoov(f, EndOf(h), Sat(done + h.len), len)

ReadFtyp(f, p0) ==
  LET h == HeadAt(f, p0)
  IN  IF ~h.ok THEN h
      ELSE IF h.fcc # CFtyp THEN Fail("NoTag", <<>>)
      ELSE IF ~CanRead(f, h.p, Content(h)) THEN FailIo
      ELSE LET d == Utf8Decode(Slice(f, h.p, Content(h)))
           IN  IF ~d.ok THEN Fail("Utf8StringDecoding", Slice(f, h.p, Content(h))) ELSE Ok(EndOf(h), d.t)

(* The tag: file type text, items, movie header (<<>> or one) and the      *)
(* stream information of the first track that has some.                    *)
ReadTagAt(f, p0) ==
  LET t == ReadFtyp(f, p0)
  IN  IF ~t.ok THEN t
      ELSE LET m == FindMoov(f, t.p, 0, Len(f) - t.p)
           IN  IF ~m.ok THEN m
               ELSE Ok(0, [ftyp |-> t.acc,
                           items |-> IF m.acc.items = <<>> THEN <<>> ELSE m.acc.items[1],
                           mvhd |-> m.acc.mvhd,
                           stream |-> IF m.acc.streams = <<>> THEN NoStream ELSE m.acc.streams[1]])

ReadTag(f) == ReadTagAt(f, 0)
=============================================================================
