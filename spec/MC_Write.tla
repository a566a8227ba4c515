------------------------------- MODULE MC_Write -------------------------------
(***************************************************************************)
(* The writer as a state machine over a file, explored exhaustively over   *)
(* layouts (C01-C05, C07, C16).                                            *)
(*                                                                         *)
(* status: "idle", "busy" (pc: next step, part: bytes of it already done), *)
(*         "failed" (a write or resize failed half way) or "stopped".      *)
(***************************************************************************)
EXTENDS Mp4Layout, TLC, Json, IOUtils

CONSTANTS Wide,        \* TRUE: the larger set of layouts
          MaxWrites,   \* how many writes in a row
          Short        \* lengths of partial writes

A1 == [k |-> "f", b |-> <<169,110,97,109>>, mean |-> <<>>, name |-> <<>>]
A2 == [k |-> "f", b |-> <<99,111,118,114>>, mean |-> <<>>, name |-> <<>>]
AX == [k |-> "x", b |-> <<>>, mean |-> <<109>>, name |-> <<110,252>>]
V(t, v) == [t |-> t, v |-> v]
It(id, ds) == [id |-> id, data |-> ds]

Tags == { <<>>,
          <<It(A1, <<V(1, <<104,105>>)>>)>>,
          <<It(A2, <<V(14, <<1,2,3,4,5,6,7>>), V(13, <<>>)>>), It(AX, <<V(2, <<8364>>)>>)>>,
          <<It(AX, <<V(0, <<0>>), V(21, <<1,2>>)>>), It(A1, <<V(1, <<>>)>>)>> }

OldItems == <<It(A1, <<V(1, <<111,108,100>>)>>), It(A2, <<V(27, <<9>>)>>)>>

TopOrders == { <<"f","m","A">>, <<"f","A","m">>, <<"f","m","A","B">>, <<"f","A","m","B">>,
               <<"f","m","z","A">>, <<"f","A","B","m">>, <<"f","m">>, <<"f","y","A","z","m","B","z">> }
KidOrders == { <<"h","t","u">>, <<"u","h","t">>, <<"h","t","s","u">>, <<"h","u","t">>,
               <<"h","u","z","t","y","s">> }
Trks == { <<"32","64">>, <<"audio","32">>, <<"both","none">>, <<"64","audio">>, <<"empty","both">>,
          <<"none","32">> }
UdtaOrders == { <<"e">>, <<>>, <<"y">>, <<"z","e">>, <<"e","y">> }
MetaOrders == { <<"d","l">>, <<"l","d">>, <<"l">>, <<"d">>, <<>>, <<"d","z","l","z">>, <<"y","d","l">>,
                <<"z">> }
Exts == { {}, {"moov"}, {"udta","meta"}, {"ilst","mdat"}, {"moov","trak","mdia","minf","stbl","udta","meta","ilst","mdat"} }

Layout(tops, kids, trk, udta, meta, items, pad, ext) ==
  [tops |-> tops, kids |-> kids, trk |-> trk, udta |-> udta, meta |-> meta, items |-> items,
   pad |-> pad, ext |-> ext, aud |-> DefaultAudio, mv |-> DefaultMovie]

Std == Layout(<<"f","m","A">>, <<"h","t","u">>, <<"32","64">>, <<"e">>, <<"d","l">>, OldItems, FALSE, {})

(* Quick: every pair of dimensions around the standard layout, in a way    *)
(* that every value of every dimension occurs with every order of the      *)
(* top-level boxes.  Wide: the product of the dimensions.                  *)
QuickLayouts ==
  { [Std EXCEPT !.tops = t, !.kids = k, !.trk = r] : t \in TopOrders, k \in KidOrders, r \in {<<"32","64">>, <<"both","audio">>} }
  \cup { [Std EXCEPT !.tops = t, !.trk = r] : t \in TopOrders, r \in Trks }
  \cup { [Std EXCEPT !.tops = t, !.udta = u, !.meta = m] :
           t \in {<<"f","m","A">>, <<"f","A","m","B">>}, u \in UdtaOrders, m \in MetaOrders }
  \cup { [Std EXCEPT !.tops = t, !.meta = m, !.ext = e, !.pad = TRUE] :
           t \in {<<"f","m","A">>, <<"f","A","m">>}, m \in {<<"d","l">>, <<"l">>, <<>>}, e \in Exts }
  \cup { [Std EXCEPT !.tops = t, !.kids = <<"h","t">>, !.ext = e] : t \in TopOrders, e \in Exts }
  \cup { [Std EXCEPT !.items = i, !.pad = p, !.tops = t] :
           i \in Tags, p \in BOOLEAN, t \in {<<"f","m","A">>, <<"f","A","m","B">>} }

WideLayouts ==
  { Layout(t, k, r, u, m, i, p, e) :
      t \in TopOrders, k \in KidOrders \cup {<<"h","t">>}, r \in Trks, u \in UdtaOrders,
      m \in MetaOrders, i \in {<<>>, OldItems}, p \in {FALSE}, e \in Exts }

Layouts == IF Wide THEN WideLayouts ELSE QuickLayouts

VARIABLES lay, disk, orig, items, before, plan, pc, part, status, n

vars == <<lay, disk, orig, items, before, plan, pc, part, status, n>>

Init ==
  /\ lay \in Layouts
  /\ disk = Build(lay)
  /\ orig = disk
  /\ items = <<>> /\ before = <<>> /\ plan = <<>> /\ pc = 1 /\ part = 0
  /\ status = "idle" /\ n = 0

(* A write begins: refused, or its plan is made. *)
Begin ==
  /\ status = "idle" /\ n < MaxWrites
  /\ \E t \in Tags :
       LET p == Plan(disk, t)
       IN  /\ items' = t /\ before' = disk /\ n' = n + 1
           /\ IF p.ok THEN status' = "busy" /\ plan' = p.steps ELSE status' = "refused" /\ plan' = <<>>
  /\ pc' = 1 /\ part' = 0
  /\ UNCHANGED <<lay, disk, orig>>

Rest == LET s == plan[pc] IN IF s.k = "t" THEN s ELSE W(s.p + part, SubSeq(s.b, part + 1, Len(s.b)))

(* The rest of a step is performed. *)
Step ==
  /\ status = "busy" /\ pc <= Len(plan)
  /\ disk' = Do(disk, Rest)
  /\ pc' = pc + 1 /\ part' = 0
  /\ status' = IF pc = Len(plan) THEN "done" ELSE "busy"
  /\ UNCHANGED <<lay, orig, items, before, plan, n>>

(* A part of it is. *)
Partial ==
  /\ status = "busy" /\ pc <= Len(plan) /\ part = 0 /\ n = 1
  /\ plan[pc].k = "w"
  /\ \E k \in Short :
       /\ k < Len(plan[pc].b)
       /\ disk' = Overwrite(disk, plan[pc].p, SubSeq(plan[pc].b, 1, k))
       /\ part' = k
  /\ UNCHANGED <<lay, orig, items, before, plan, pc, status, n>>

(* A write or resize fails, or the process stops. *)
Fail_ ==
  /\ status = "busy" /\ n = 1 /\ pc <= Len(plan)
  /\ status' = "failed"
  /\ UNCHANGED <<lay, disk, orig, items, before, plan, pc, part, n>>

Finish ==
  /\ status \in {"done", "refused"} /\ status' = "idle"
  /\ UNCHANGED <<lay, disk, orig, items, before, plan, pc, part, n>>

Next == Begin \/ Step \/ Partial \/ Fail_ \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

-----------------------------------------------------------------------------
Done == status = "done"
SB == Structure(before)
SD == Structure(disk)

LayoutsWellFormed == status = "idle" => WellFormed(disk)

C01_ReadBack == Done => LET r == ReadTag(disk) IN r.ok /\ r.acc.items = Stored(items)
C01_Accepted == status # "refused"
C02_Media == Done => SameMedia(before, SB.ns, disk, SD.ns) /\ OffsetsFollow(before, SB.ns, disk, SD.ns)
C03_OnlyList == Done => /\ StillNested(before, SB.ns, disk, SD)
                        /\ OnlyListChanged(before, SB.ns, disk, SD.ns)
                        /\ CreatedWell(SB.ns, disk, SD.ns)
C04_Refused == status = "refused" => disk = before
C05_NoHistory == Done => disk = Written(orig, items)
C07_Info == Done => LET a == ReadTag(before).acc
                        b == ReadTag(disk).acc
                    IN  a.mvhd = b.mvhd /\ a.stream = b.stream
C16_Prefix == status \in {"busy", "failed", "done"} =>
                LET p == The(Structure(orig).ns, "moov").p
                IN  Len(disk) >= p /\ SubSeq(disk, 1, p) = SubSeq(orig, 1, p)

Export == Wide \/ IOEnv.MC_OUT = "" \/
          ndJsonSerialize(IOEnv.MC_OUT,
            LET s == SetToSeq(Layouts)
            IN  [i \in 1..Len(s) |-> [bytes |-> Build(s[i]), tops |-> s[i].tops, kids |-> s[i].kids,
                                      trk |-> s[i].trk, udta |-> s[i].udta, meta |-> s[i].meta]])
ASSUME PrintT(<<"LAYOUTS", Cardinality(Layouts)>>)
ASSUME Export /\ PrintT("EXPORTED")
=============================================================================
