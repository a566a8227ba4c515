------------------------------- MODULE MC_Dump --------------------------------
(***************************************************************************)
(* Handing over the bytes of a dump to a writer that takes them as it      *)
(* likes: all that is offered, a part, nothing because it was interrupted, *)
(* nothing because it is full ("zero"), or fails (C15); and what a dump    *)
(* consists of (C10).                                                      *)
(*                                                                         *)
(* The sequence of outcomes (the schedule) is part of the state.  All of   *)
(* them are exported and played into the implementation's dumps, writes    *)
(* and reads.                                                              *)
(***************************************************************************)
EXTENDS Mp4Layout, TLC, Json, IOUtils

CONSTANTS MaxCalls,    \* outcomes that the environment decides; "go" afterwards
          Errors,      \* error codes of failures
          Parts        \* how much is taken of an offer

F(b) == [k |-> "f", b |-> b, mean |-> <<>>, name |-> <<>>]
X(m, n) == [k |-> "x", b |-> <<>>, mean |-> m, name |-> n]
V(t, v) == [t |-> t, v |-> v]
It(id, ds) == [id |-> id, data |-> ds]

Nam == F(<<169,110,97,109>>)
Cov == F(<<99,111,118,114>>)
Values == { V(0, <<>>), V(0, <<0,255>>), V(1, <<>>), V(1, <<104,233,8364,128512>>), V(2, <<104,8364,128512>>),
            V(2, <<>>), V(13, <<255,216>>), V(14, <<137>>), V(21, <<1>>), V(21, <<0,0,1,0>>), V(27, <<66,77>>),
            V(21, <<>>) }
Dumped ==
  { <<>> }
  \cup { <<It(Nam, <<v>>)>> : v \in Values }
  \cup { <<It(X(<<109>>, <<110,252>>), <<v, w>>)>> : v \in {V(1, <<97>>), V(0, <<1,2,3>>)}, w \in {V(2, <<233>>), V(21, <<7>>)} }
  \cup { <<It(Nam, <<V(1, <<97>>), V(1, <<98>>)>>), It(X(<<>>, <<>>), <<V(1, <<>>)>>), It(Cov, <<V(13, <<1>>), V(14, <<2>>)>>)>>,
         <<It(F(CFree), <<V(1, <<97>>)>>), It(Nam, <<V(1, <<98>>)>>)>>,
         <<It(F(<<0,0,0,0>>), <<V(0, <<1>>)>>), It(F(<<255,255,255,255>>), <<V(0, <<2>>)>>)>>,
         <<It(X(<<109>>, <<110>>), <<V(1, <<97>>)>>), It(X(<<110>>, <<109>>), <<V(1, <<97>>)>>)>>,
         \* identifiers that are the names of boxes with a meaning elsewhere
         <<It(F(CData), <<V(1, <<97>>)>>), It(F(CIlst), <<V(1, <<98>>)>>), It(F(CMoov), <<V(0, <<>>)>>)>> }

VARIABLES items, want, sent, script, status, err

vars == <<items, want, sent, script, status, err>>

Init ==
  /\ items \in Dumped
  /\ want = DumpOf(items)
  /\ sent = <<>> /\ script = <<>> /\ status = "going" /\ err = <<>>

O(k, n) == [k |-> k, n |-> n]
Left == Len(want) - Len(sent)
(* What the implementation offers at a time is its own choice. *)
Offers == {Left} \cup (IF Left > 7 THEN {7} ELSE {})
Take(k) == SubSeq(want, Len(sent) + 1, Len(sent) + k)

Call ==
  /\ status = "going" /\ Left > 0 /\ Len(script) < MaxCalls
  /\ \E o \in Offers :
       \/ /\ sent' = sent \o Take(o) /\ script' = Append(script, O("go", 0))
          /\ UNCHANGED <<status, err>>
       \/ \E k \in Parts :
            /\ sent' = sent \o Take(Min2(k, o)) /\ script' = Append(script, O("part", k))
            /\ UNCHANGED <<status, err>>
  /\ UNCHANGED <<items, want>>

Interrupted ==
  /\ status = "going" /\ Left > 0 /\ Len(script) < MaxCalls
  /\ script' = Append(script, O("eintr", 0))
  /\ UNCHANGED <<items, want, sent, status, err>>

Fails ==
  /\ status = "going" /\ Left > 0 /\ Len(script) < MaxCalls
  /\ status' = "failed"
  /\ \/ \E e \in Errors : script' = Append(script, O("err", e)) /\ err' = <<e>>
     \/ script' = Append(script, O("zero", 0)) /\ err' = <<"any">>
  /\ UNCHANGED <<items, want, sent>>

(* Nothing disturbs the rest. *)
Rest ==
  /\ status = "going" /\ (Left = 0 \/ Len(script) = MaxCalls)
  /\ sent' = want /\ status' = "done"
  /\ UNCHANGED <<items, want, script, err>>

Next == Call \/ Interrupted \/ Fails \/ Rest
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Final(k) == k \in {"err", "zero"}

C15_Prefix == sent = SubSeq(want, 1, Len(sent))
C15_Whole == status = "done" => sent = want
C15_Honest ==
  /\ status = "done" => \A i \in 1..Len(script) : ~Final(script[i].k)
  /\ status = "failed" <=> (script # <<>> /\ Final(script[Len(script)].k))
  /\ status = "failed" => err # <<>> /\ (script[Len(script)].k = "err" => err = <<script[Len(script)].n>>)
C15_Ends == <>(status # "going")

First == script = <<>> /\ status = "going"
C10_Shape == First => LET st == Structure(want) IN DumpShape(want, st) /\ HandlerOk(want, st)
C10_Items == First => LET r == ReadTag(want) IN r.ok /\ r.acc.items = Stored(items)
C10_Again == First /\ Stored(items) = items => DumpOf(ReadTag(want).acc.items) = want

(* Media files of every kind store the same list. *)
Hosts == { [tops |-> t, kids |-> k, trk |-> <<"32">>, udta |-> u, meta |-> m, items |-> <<>>, pad |-> FALSE,
            ext |-> {}, aud |-> DefaultAudio, mv |-> DefaultMovie] :
             t \in {<<"f","m","A">>, <<"f","A","m">>}, k \in {<<"h","t">>, <<"h","u","t">>}, u \in {<<"e">>},
             m \in {<<"d","l">>, <<"l","d">>, <<>>} }
C10_List == First =>
  \A h \in Hosts : LET g == Written(Build(h), items)
                   IN  ListBytes(g, Structure(g)) = ListBytes(want, Structure(want))

(* Schedules, without a "go" at the end (which changes nothing). *)
RECURSIVE Goings(_)
Goings(n) == IF n = 0 THEN {<<>>}
             ELSE LET s == Goings(n - 1)
                      m == {O("go", 0), O("eintr", 0)} \cup {O("part", k) : k \in Parts}
                  IN  s \cup {Append(x, o) : x \in {y \in s : Len(y) = n - 1}, o \in m}
Ends == {O("err", e) : e \in Errors} \cup {O("zero", 0)}
Schedules ==
  {s \in Goings(MaxCalls) : s # <<>> /\ s[Len(s)].k # "go"}
  \cup {Append(s, o) : s \in Goings(MaxCalls - 1), o \in Ends}

Export ==
  IOEnv.MC_OUT = "" \/
  LET s == SetToSeq(Schedules)
      d == SetToSeq(Dumped)
      h == SetToSeq(Hosts)
  IN  ndJsonSerialize(IOEnv.MC_OUT,
        <<[schedules |-> s, items |-> d, files |-> [i \in 1..Len(h) |-> Build(h[i])]]>>)
ASSUME PrintT(<<"SCHEDULES", Cardinality(Schedules), Cardinality(Dumped)>>)
ASSUME Export /\ PrintT("EXPORTED")
=============================================================================
