------------------------------- MODULE MC_Read --------------------------------
(***************************************************************************)
(* The reader, and the planner of writes, over well-formed files of every  *)
(* layout and over every single change to some of them (C06 - C09, C17,    *)
(* C04).  What the reader has to say about a file is known independently:  *)
(* from what the layout was built from, and from what the change means.    *)
(***************************************************************************)
EXTENDS Mp4Edits, TLC, Json, IOUtils

CONSTANTS Damage,      \* how many of the base layouts are changed
          AllCodes,    \* TRUE: boxes are renamed to every code
          Wide         \* TRUE: more layouts are read

A1 == CodeIdent(<<169,110,97,109>>)
A2 == CodeIdent(<<99,111,118,114>>)
A3 == CodeIdent(<<116,114,107,110>>)
AD == CodeIdent(CDash)
AX == FreeIdent(<<109>>, <<110,252>>)
AY == FreeIdent(<<>>, <<110,252>>)
V(t, v) == [t |-> t, v |-> v]
It(id, ds) == [id |-> id, data |-> ds]

Plain == <<It(A1, <<V(1, <<104,105>>)>>)>>
Mixed == <<It(A2, <<V(14, <<1,2,3>>), V(13, <<>>)>>), It(AX, <<V(2, <<8364,65>>)>>), It(A3, <<V(0, <<0,0,0,1>>)>>)>>
Again == <<It(A1, <<V(1, <<111>>)>>), It(AX, <<V(21, <<1,2>>)>>), It(A1, <<V(2, <<128512>>), V(1, <<>>)>>),
           It(AY, <<V(1, <<233>>)>>), It(AX, <<V(27, <<9>>)>>)>>

Aud(k, sr, ch, maxb, avgb, x) == [k |-> k, sr |-> sr, ch |-> ch, maxb |-> maxb, avgb |-> avgb, x |-> x]
Mov(v, scale, dur) == [v |-> v, scale |-> scale, dur |-> dur]
M1 == Mov(1, Be32(44100), <<0,0,0,1>> \o Be32(77))

Lay(tops, kids, trk, udta, meta, items, ext, aud, mv) ==
  [tops |-> tops, kids |-> kids, trk |-> trk, udta |-> udta, meta |-> meta, items |-> items,
   pad |-> Len(items) > 1, ext |-> ext, aud |-> aud, mv |-> mv]

AllExt == {"ftyp","moov","trak","mdia","minf","stbl","udta","meta","ilst","mdat"}

(* The files that are changed. *)
Base == <<
  Lay(<<"f","m","A">>, <<"h","t","u">>, <<"audio","none">>, <<"e">>, <<"d","l">>, Plain, {}, DefaultAudio, DefaultMovie),
  Lay(<<"f","A","m","B">>, <<"h","t","s","u">>, <<"both","audio">>, <<"e","y">>, <<"d","l","z">>, Mixed, {},
      Aud(4, 3, 7, Ff(4), <<127>> \o Ff(3), TRUE), M1),
  Lay(<<"f","z","m","A","B">>, <<"u","h","t","s">>, <<"audio","64">>, <<"z","e">>, <<"l","d">>, Again, {},
      Aud(2, 12, 1, Zeros(4), Zeros(4), FALSE), DefaultMovie),
  Lay(<<"f","m","A">>, <<"h","u","t">>, <<"audio","none">>, <<"e">>, <<"d","l">>, Mixed, AllExt,
      Aud(3, 13, 8, <<0,1,0,0>>, <<1,0,0,0>>, TRUE), M1),
  Lay(<<"f","m","y","A","z">>, <<"t","z","u","h">>, <<"32","none">>, <<"y","e">>, <<"z","d","l">>, Plain, {"moov","udta"},
      DefaultAudio, M1),
  Lay(<<"f","A","m">>, <<"s","t">>, <<"audio","other">>, <<>>, <<>>, <<>>, {"trak"}, DefaultAudio, DefaultMovie),
  Lay(<<"f","m","A">>, <<"h","u">>, <<"none","none">>, <<"e">>, <<"d">>, <<>>, {}, DefaultAudio, DefaultMovie),
  Lay(<<"f","m","A">>, <<"u","t">>, <<"both","none">>, <<"y">>, <<>>, <<>>, {"meta"}, DefaultAudio, DefaultMovie)
>>

(* The files that are read as they are. *)
Std == Base[1]
Orders(s) == { <<s[p[1]], s[p[2]], s[p[3]]>> : p \in {<<1,2,3>>, <<1,3,2>>, <<2,1,3>>, <<2,3,1>>, <<3,1,2>>, <<3,2,1>>} }
Narrow ==
  { [Std EXCEPT !.items = i, !.kids = k, !.meta = m, !.udta = u, !.pad = p] :
      i \in {<<>>, Plain, Mixed, Again}, k \in Orders(<<"h","t","u">>),
      m \in {<<"d","l">>, <<"l","d">>, <<"l">>, <<"z","d","y","l","z">>}, u \in {<<"e">>, <<"y","e","z">>}, p \in BOOLEAN }
  \cup { [Std EXCEPT !.items = Again, !.ext = e, !.tops = t] :
           e \in SUBSET {"ftyp", "moov", "udta", "meta", "ilst"},
           t \in {<<"f","m">>, <<"f","A","z","y","m">>, <<"f","m","B","A">>} }
  \cup { [Std EXCEPT !.aud = Aud(k, sr, ch, <<1,2,3,4>>, <<255,0,0,7>>, x)] :
           k \in {1, 4}, sr \in 0..15, ch \in {0, 1, 2, 7, 8, 15}, x \in {TRUE} }
  \cup { [Std EXCEPT !.aud = Aud(k, 4, ch, <<1,2,3,4>>, <<255,0,0,7>>, x)] :
           k \in 1..4, ch \in 0..15, x \in BOOLEAN }
  \cup { [Std EXCEPT !.trk = t, !.kids = k, !.ext = e] :
           t \in {<<"audio","other">>, <<"other","audio">>, <<"none","audio">>, <<"32","other">>, <<"64","none">>},
           k \in {<<"h","t","s","u">>, <<"u","s","t","h">>, <<"s","h">>},
           e \in {{}, {"trak"}, {"mdia","stbl"}, {"minf"}} }
  \cup { [Std EXCEPT !.mv = Mov(0, s, d), !.ext = e] :
           s \in {Be32(1), Be32(1000), Be32(44100), Ff(4)}, d \in {Zeros(4), Be32(1), Be32(999), <<128,0,0,0>>, Ff(4)},
           e \in {{}, {"moov"}} }
  \cup { [Std EXCEPT !.mv = Mov(1, s, d)] :
           s \in {Be32(1), Be32(3), Be32(90000), Ff(4)},
           d \in {Zeros(8), Zeros(4) \o Ff(4), <<0,0,0,1>> \o Zeros(4), <<128>> \o Zeros(7), Ff(8)} }
More ==
  { [Std EXCEPT !.items = i, !.tops = t, !.kids = k, !.trk = r, !.meta = m, !.ext = e, !.mv = v] :
      i \in {<<>>, Mixed, Again}, t \in {<<"f","m","A">>, <<"f","A","m">>, <<"f","y","m","z">>},
      k \in {<<"h","t","s","u">>, <<"u","s","t","h">>, <<"z","t","u","y","s">>},
      r \in {<<"audio","other">>, <<"both","audio">>, <<"empty","none">>},
      m \in {<<"d","l">>, <<"l","z","d">>}, e \in SUBSET {"moov", "udta", "meta", "ilst", "trak", "stbl"},
      v \in {DefaultMovie, M1} }
Sound == Narrow \cup (IF Wide THEN More ELSE {})

(* What reading a layout has to yield. *)
Has(l, kids, k) == \E i \in 1..Len(kids) : kids[i] = k
ListThere(l) == Has(l, l.kids, "u") /\ Has(l, l.udta, "e") /\ Has(l, l.meta, "l")
RECURSIVE Merged(_, _, _)
Merged(items, i, acc) == IF i > Len(items) THEN acc ELSE Merged(items, i + 1, AddValues(acc, items[i].id, items[i].data))

TracksOf(l) == SelectSeq(l.kids, LAMBDA k : \/ k = "t" /\ l.trk[1] \in {"audio", "other"}
                                            \/ k = "s" /\ l.trk[2] \in {"audio", "other"})
StreamOf(l) ==
  IF TracksOf(l) = <<>> THEN NoStream
  ELSE LET kind == l.trk[IF TracksOf(l)[1] = "t" THEN 1 ELSE 2]
           a == IF kind = "audio" THEN l.aud ELSE OtherAudio
       IN  [ch |-> IF a.ch \in 1..7 THEN a.ch ELSE -1, sr |-> IF a.sr <= 12 THEN a.sr ELSE -1,
            maxb |-> a.maxb, avgb |-> a.avgb]
Tag(l) == [ftyp |-> <<77,52,65,32>>,
           items |-> IF ListThere(l) THEN Merged(l.items, 1, <<>>) ELSE <<>>,
           mvhd |-> IF Has(l, l.kids, "h") THEN <<[scale |-> l.mv.scale, dur |-> l.mv.dur]>> ELSE <<>>,
           stream |-> StreamOf(l)]

-----------------------------------------------------------------------------
(* Computed once and kept in registers (TLC doesn't treat what is defined by *)
(* recursion as constant).                                                 *)
AllFiles == [i \in 1..Damage |-> Build(Base[i])]
AllEdits == [i \in 1..Damage |-> SetToSeq(Edits(AllFiles[i], AllCodes))]
ASSUME /\ TLCSet(11, TLCEval(AllFiles))
       /\ TLCSet(12, TLCEval(AllEdits))
       /\ TLCSet(13, TLCEval(SetToSeq(Sound)))
Files == TLCGet(11)
EditsOf == TLCGet(12)
Sounds == TLCGet(13)

VARIABLES mode,    \* "start"; "sound": layout e as it is; "base": edit e of Base[b]
          b, e
vars == <<mode, b, e>>

Init == mode = "start" /\ b = 0 /\ e = 0
Choose == /\ mode = "start"
          /\ \/ mode' = "sounds" /\ b' \in 1..8 /\ e' = 0
             \/ mode' = "base" /\ b' \in 1..Damage /\ e' = 0
Read == mode = "sounds" /\ mode' = "sound" /\ b' = 0
        /\ e' \in {i \in 1..Len(Sounds) : i % 8 = b - 1}
Change == /\ mode = "base" /\ e = 0
          /\ e' \in 1..Len(EditsOf[b])
          /\ UNCHANGED <<mode, b>>
Next == Choose \/ Read \/ Change
Spec == Init /\ [][Next]_vars

Some == mode \in {"sound", "base"}
File == IF mode = "sound" THEN Build(Sounds[e]) ELSE IF e = 0 THEN Files[b] ELSE Apply(Files[b], EditsOf[b][e])
Wanted == IF mode = "sound" \/ e = 0 THEN Same ELSE EditsOf[b][e].want
Original == IF mode = "sound" THEN Sounds[e] ELSE Base[b]
Result == ReadTag(File)

Kinds == {"Io", "Parsing", "NoTag", "AtomNotFound", "UnknownVersion", "UnknownDataType", "DescriptorNotFound",
          "Utf8StringDecoding", "Utf16StringDecoding"}

(* C06, C07: what was stored is read, and harmless changes are harmless. *)
C06_Items == (Some /\ Wanted = Same) =>
               LET r == Result
                   t == Tag(Original)
               IN  r.ok /\ r.acc.items = t.items /\ r.acc.ftyp = t.ftyp
C07_Info == (Some /\ Wanted = Same) =>
              LET r == Result
                  t == Tag(Original)
              IN  r.ok /\ r.acc.mvhd = t.mvhd /\ r.acc.stream = t.stream
SoundWellFormed == Some /\ (mode = "sound" \/ e = 0) => WellFormed(File)

(* C17: the error is the documented one. *)
C17_Cause == (Some /\ Wanted \notin {<<>>, Same}) =>
               LET r == Result
               IN  ~r.ok /\ (Len(Wanted) = 2 => r.err = Wanted)

(* C08: there is a result, of known kind, and all of it came from the file. *)
RECURSIVE Sizes(_)
Sizes(ds) == IF ds = <<>> THEN 0 ELSE Len(ds[1].v) + Sizes(Tail(ds))
RECURSIVE Amount(_)
Amount(items) == IF items = <<>> THEN 0
                 ELSE Sizes(items[1].data) + Amount(Tail(items))
C08_Total == Some => LET r == Result
                     IN  IF r.ok THEN Amount(r.acc.items) + Len(r.acc.ftyp) <= Len(File)
                         ELSE r.err[1] \in Kinds

(* C09, C04: a write is refused, or leads to a file that reads as what was *)
(* written, and only where the boxes nest.                                 *)
NewItems == <<It(AX, <<V(1, <<120,121>>)>>)>>
C09_Safe == Some => LET f == File
                        p == Plan(f, NewItems)
                    IN  p.ok => /\ ~BadlyNested(f)
                                /\ ReadTag(f).ok => LET r == ReadTag(DoAll(f, p.steps, 1))
                                                    IN  r.ok /\ r.acc.items = NewItems
C04_NoSteps == Some => LET p == Plan(File, NewItems) IN p.ok \/ p.steps = <<>>

Rec(f, es) == [bytes |-> f, edits |-> es]
Export == IOEnv.MC_OUT = "" \/
          ndJsonSerialize(IOEnv.MC_OUT,
            [i \in 1..Damage |-> Rec(Files[i], EditsOf[i])] \o
            LET s == SetToSeq(Narrow) IN [i \in 1..Len(s) |-> Rec(Build(s[i]), <<>>)])
ASSUME Export /\ PrintT("EXPORTED")
=============================================================================
