------------------------------ MODULE Mp4Layout -------------------------------
(***************************************************************************)
(* Files, built from a description of their layout.  A layout is a record  *)
(*   tops   order of the top-level boxes: "f" ftyp, "m" moov, "A"/"B" media *)
(*          data, "z" free, "y" unknown                                    *)
(*   kids   order of the boxes in the movie box: "h" mvhd, "t" track 1, "s" *)
(*          track 2, "u" udta, "z", "y"                                    *)
(*   trk    track kinds: "none", "32", "64", "both", "audio", "empty",      *)
(*          "other" (audio, with fixed parameters)                         *)
(*   udta   order of the boxes in udta: "e" meta, "z", "y"                 *)
(*   meta   order of the boxes in meta: "d" hdlr, "l" ilst, "z", "y"       *)
(*   items  items of the item list,  pad: padding in the item list         *)
(*   ext    kinds of boxes with an extended head                           *)
(*   aud    of the audio track: descriptor length bytes, rate and channel  *)
(*          index, bit rates, whether other descriptors come first         *)
(*   mv     movie header: version, time scale, duration                    *)
(***************************************************************************)
EXTENDS Mp4Write

BoxE(k, c, body, ext) == IF k \in ext THEN ExtBox(c, body) ELSE Box(c, body)

UnknownBox == Box(<<117,107,110,119>>, <<1,2,3>>)
FreeBox == Box(CFree, <<0,0,0,0>>)
Content_(k) == IF k = "A" THEN <<161,162,163,164,165>> ELSE <<177,178,179>>
MdatBox(k, ext) == BoxE("mdat", CMdat, Content_(k), ext)

MvhdOf(m) == LET w == IF m.v = 0 THEN 4 ELSE 8
             IN  Box(CMvhd, <<m.v, 0, 0, 0>> \o Zeros(2 * w) \o m.scale \o m.dur \o Zeros(4))

(* A descriptor whose length takes (at least) k bytes; n < 128. *)
Desc(tag, body, k) == <<tag>> \o [i \in 1..(k - 1) |-> 128] \o <<Len(body)>> \o body

EsdsOf(a) ==
  LET other == IF a.x THEN Desc(6, <<9, 9>>, 1) ELSE <<>>
      asc == LET n == 2 * 2048 + a.sr * 128 + a.ch * 8 IN Be16(n)
      dsi == Desc(5, asc, a.k)
      dcd == Desc(4, <<64, 21, 0, 6, 0>> \o a.maxb \o a.avgb \o other \o dsi, a.k)
  IN  FullBox(CEsds, Desc(3, <<0, 1, 0>> \o other \o dcd \o Desc(6, <<2>>, 1), a.k))
DefaultAudio == [k |-> 1, sr |-> 4, ch |-> 2, maxb |-> <<0,2,238,0>>, avgb |-> <<0,1,244,0>>, x |-> FALSE]
OtherAudio == [k |-> 4, sr |-> 11, ch |-> 1, maxb |-> <<255,255,255,255>>, avgb |-> <<0,0,0,0>>, x |-> TRUE]
DefaultMovie == [v |-> 0, scale |-> Be32(600), dur |-> Be32(1000)]
Mp4aBox(a) == Box(CMp4a, Zeros(28) \o EsdsOf(a))
StsdBox(a) == FullBox(CStsd, Be32(1) \o Mp4aBox(a))

(* pos: content position of media data A and B (-1: none) *)
Offsets(pos) == (IF pos[1] < 0 THEN <<>> ELSE <<pos[1], pos[1] + 4>>) \o
                (IF pos[2] < 0 THEN <<>> ELSE <<pos[2] + 1>>)
StcoBox(os) == FullBox(CStco, Be32(Len(os)) \o Flat([i \in 1..Len(os) |-> Be32(os[i])]))
Co64Box(os) == FullBox(CCo64, Be32(Len(os)) \o Flat([i \in 1..Len(os) |-> Be64(os[i])]))

StblBody(kind, pos, a) ==
  CASE kind = "32" -> StcoBox(Offsets(pos))
    [] kind = "64" -> Co64Box(Offsets(pos)) \o UnknownBox
    [] kind = "both" -> UnknownBox \o Co64Box(Offsets(pos)) \o StcoBox(Reverse(Offsets(pos)))
    [] kind = "audio" -> StsdBox(a) \o StcoBox(Offsets(pos))
    [] kind = "other" -> StsdBox(OtherAudio)
    [] kind = "empty" -> StcoBox(<<>>)
    [] OTHER -> <<>>

TrakBox(kind, pos, ext, a) ==
  IF kind = "none" THEN BoxE("trak", CTrak, UnknownBox, ext)
  ELSE BoxE("trak", CTrak, UnknownBox \o BoxE("mdia", CMdia, BoxE("minf", CMinf,
         BoxE("stbl", CStbl, StblBody(kind, pos, a), ext) \o FreeBox, ext), ext), ext)

IlstBox(l) == BoxE("ilst", CIlst, (IF l.pad THEN FreeBox ELSE <<>>) \o
                   Flat([i \in 1..Len(l.items) |-> ItemBox(l.items[i])]), l.ext)

MetaKid(k, l) == CASE k = "d" -> HdlrBox [] k = "l" -> IlstBox(l)
                   [] k = "z" -> FreeBox [] k = "y" -> UnknownBox
MetaOf(l) == BoxE("meta", CMeta, Zeros(4) \o Flat([i \in 1..Len(l.meta) |-> MetaKid(l.meta[i], l)]), l.ext)
UdtaKid(k, l) == CASE k = "e" -> MetaOf(l) [] k = "z" -> FreeBox [] k = "y" -> UnknownBox
UdtaOf(l) == BoxE("udta", CUdta, Flat([i \in 1..Len(l.udta) |-> UdtaKid(l.udta[i], l)]), l.ext)

MoovKid(k, l, pos) ==
  CASE k = "h" -> MvhdOf(l.mv)
    [] k = "t" -> TrakBox(l.trk[1], pos, l.ext, l.aud)
    [] k = "s" -> TrakBox(l.trk[2], pos, l.ext, l.aud)
    [] k = "u" -> UdtaOf(l)
    [] k = "z" -> FreeBox
    [] k = "y" -> UnknownBox
MoovOf(l, pos) == BoxE("moov", CMoov, Flat([i \in 1..Len(l.kids) |-> MoovKid(l.kids[i], l, pos)]), l.ext)

Top(k, l, pos) ==
  CASE k = "f" -> BoxE("ftyp", CFtyp, <<77,52,65,32>>, l.ext)
    [] k = "m" -> MoovOf(l, pos)
    [] k \in {"A", "B"} -> MdatBox(k, l.ext)
    [] k = "z" -> FreeBox
    [] k = "y" -> UnknownBox

TopsFor(l, pos) == [i \in 1..Len(l.tops) |-> Top(l.tops[i], l, pos)]

(* Content position of media data k, given the boxes. *)
PosOf(l, boxes, k) ==
  IF \A i \in 1..Len(l.tops) : l.tops[i] # k THEN -1
  ELSE LET i == CHOOSE i \in 1..Len(l.tops) : l.tops[i] = k
       IN  Len(Flat(SubSeq(boxes, 1, i - 1))) + (IF "mdat" \in l.ext THEN 16 ELSE 8)

Build(l) ==
  LET has(k) == IF \E i \in 1..Len(l.tops) : l.tops[i] = k THEN 0 ELSE -1
      bs == TopsFor(l, <<has("A"), has("B")>>)
  IN  Flat(TopsFor(l, <<PosOf(l, bs, "A"), PosOf(l, bs, "B")>>))
=============================================================================
