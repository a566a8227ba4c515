------------------------------- MODULE MC_Value -------------------------------
(***************************************************************************)
(* Small models around values:                                       *)
(*   "codes"    coded values stored and read through a tag (C18),          *)
(*   "list"     the listing of a tag that grows item by item (C19),        *)
(*   "views"    a value that is changed through its mutable views (C20),   *)
(*   "idents"   values stored and looked up under identifiers (C21),       *)
(*   "twins"    two tags that are copied and changed (C22).                *)
(* The tags and values that are visited are exported and shown to the      *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS TagModel, TLC, Json, IOUtils

CONSTANTS Parts,       \* which of them
          Most,        \* items in a listed tag
          Steps        \* changes of a value

VARIABLES part, st

vars == <<part, st>>

NoP == [k |-> "all", v |-> <<>>, n |-> 0, id |-> CodeIdent(CData), not |-> FALSE]
Op(g, m) == [g |-> g, m |-> m, id |-> CodeIdent(CData), idk |-> "", v |-> <<>>, vs |-> <<>>, n |-> -1, o |-> 0,
             p |-> NoP, cls |-> "", fld |-> ""]
FieldOp(fld, m, v) == [Op("f", m) EXCEPT !.fld = fld, !.cls = FieldOf(fld).cls, !.v = v]
Get(items, fld) == Apply(items, FieldOp(fld, "get", <<>>)).ret

-----------------------------------------------------------------------------
(* Codes *)

Coded == {"media_type", "advisory_rating"}
NCodes(fld) == IF fld = "media_type" THEN Len(MediaCodes) ELSE Len(RatingCodes)
CodeIn(fld, m) == IF fld = "media_type" THEN MediaCodes[m + 1] ELSE RatingCodes[m + 1]
Meaning(fld, c) == IF fld = "media_type" THEN MediaOf(c) ELSE <<RatingOf(c)>>

(* last: what was done last: <<"set", field, value>>, <<"raw", field, code>> *)
CodeInit == st = [items |-> <<>>, last |-> <<"none">>]
CodeNext ==
  \/ \E fld \in Coded : \E m \in 0..(NCodes(fld) - 1) :
       st.last[1] # "raw" /\ st' = [items |-> Apply(st.items, FieldOp(fld, "set", m)).items, last |-> <<"set", fld, m>>]
  \/ \E fld \in Coded : \E c \in 0..255 :
       /\ st.last[1] # "raw" /\ Len(st.items) < 2
       /\ st' = [items |-> SetValues(st.items, FieldIdent(fld), <<V_(21, <<c>>)>>), last |-> <<"raw", fld, c>>]

OneToOne(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
Bytes_(s) == \A i \in 1..Len(s) : s[i] \in 0..255

C18_OneToOne ==
  /\ \A s \in {MediaCodes, RatingCodes, ChannelCodes, Hertz, PosCodes, RateCodes, <<13, 14, 27>>} : OneToOne(s)
  /\ \A s \in {MediaNames, RatingNames, ChannelNames} : OneToOne(s)
  /\ Bytes_(MediaCodes) /\ Bytes_(RatingCodes) /\ Bytes_(PosCodes) /\ Bytes_(RateCodes)
  /\ Len(MediaNames) = Len(MediaCodes) /\ Len(RatingNames) = Len(RatingCodes)
  /\ Len(ChannelNames) = Len(PosCodes) /\ Len(ChannelCodes) = Len(PosCodes) /\ Len(Hertz) = Len(RateCodes)
  /\ \A i \in 1..(Len(Hertz) - 1) : Hertz[i] > Hertz[i + 1]
C18_Stored ==
  part = "codes" /\ st.last[1] = "set" =>
    /\ Get(st.items, st.last[2]) = <<st.last[3]>>
    /\ Lead(st.items, FieldIdent(st.last[2]), 1) = <<<<CodeIn(st.last[2], st.last[3])>>>>
    /\ Meaning(st.last[2], CodeIn(st.last[2], st.last[3])) = <<st.last[3]>>
C18_Decoded ==
  part = "codes" /\ st.last[1] = "raw" =>
    LET fld == st.last[2]
        c == st.last[3]
        k == {m \in 0..(NCodes(fld) - 1) : CodeIn(fld, m) = c}
    IN  Get(st.items, fld) = (IF k # {} THEN <<CHOOSE m \in k : TRUE>>
                              ELSE IF fld = "media_type" THEN <<>> ELSE <<2>>)

-----------------------------------------------------------------------------
(* The listing *)

Texts == << <<97>>, <<>>, <<98, 99>> >>
ValuesFor(cls) ==
  CASE cls = "single" -> { <<V_(1, Texts[1])>>, <<V_(2, Texts[3]), V_(1, Texts[1])>>, <<V_(0, <<1>>)>> }
    [] cls = "multi" -> { <<V_(1, Texts[1])>>, <<V_(1, Texts[2]), V_(2, Texts[3])>>, <<V_(0, <<1>>)>> }
    [] cls = "flag" -> { <<V_(21, <<1>>)>>, <<V_(21, <<0>>)>> }
    [] cls = "u16" -> { <<V_(21, <<1, 2>>)>>, <<V_(21, <<1>>)>> }
    [] cls = "u32" -> { <<V_(21, <<0, 1, 0, 2>>)>>, <<V_(21, <<1, 2>>)>> }
    [] cls = "art" -> { <<V_(13, <<1, 2>>)>>, <<V_(14, <<>>), V_(27, <<1>>)>> }
    [] cls = "media" -> { <<V_(21, <<10>>)>>, <<V_(0, <<250>>)>> }
    [] cls = "rating" -> { <<V_(21, <<2>>)>>, <<V_(21, <<9>>)>> }

FieldItems == UNION {{Item(FieldList[i].id, vs) : vs \in ValuesFor(FieldList[i].cls)} : i \in 1..Len(FieldList)}
OtherItems ==
  {Item(Id_track, <<V_(0, <<0,0,0,1,0,0,0,0>>)>>), Item(Id_track, <<V_(0, <<0,0,0,0,1,0>>)>>),
   Item(Id_disc, <<V_(0, <<0,0,0,3,0,4>>)>>), Item(Id_disc, <<V_(0, <<0,0>>)>>),
   Item(Id_standard_genre, <<V_(0, <<0,1>>), V_(0, <<0,80>>), V_(0, <<0,81>>)>>),
   Item(FreeIdent(<<109>>, <<110>>), <<V_(1, <<97>>), V_(21, <<1>>)>>),
   Item(FreeIdent(<<>>, <<110>>), <<V_(13, <<>>)>>),
   Item(CodeIdent(CIlst), <<V_(1, <<97>>)>>)}
Entries == FieldItems \cup OtherItems

Has_(items, it) == \E i \in 1..Len(items) : items[i].id = it.id
Info0 == [dur |-> <<>>, ch |-> -1, sr |-> -1, maxb |-> <<>>, avgb |-> <<>>]
Ftyp0 == <<77,52,65>>
L(items) == Listing(Ftyp0, Info0, items)

ListInit == st = <<>>
ListNext == /\ Len(st) < Most
            /\ \E it \in Entries : ~Has_(st, it) /\ st' = Append(st, it)

(* What an item contributes to the listing of a tag on its own. *)
Empty_ == L(<<>>)
Own(it) == LET x == L(<<it>>) IN SubSeq(x, 1, Len(x) - Len(Empty_))

Freeform(it) == it.id.k = "x" /\ ~\E i \in 1..Len(FieldList) : FieldList[i].id = it.id
(* a freeform identifier that has a field is shown twice, both genres share *)
(* a heading                                                               *)
Simple(it) == it.id.k = "f" /\ it.id \notin {Id_standard_genre, FieldIdent("custom_genre")}

Inserted(x, y, b) ==                     \* y is x with b put in between
  /\ Len(y) = Len(x) + Len(b)
  /\ \E k \in 0..Len(x) : /\ SubSeq(y, 1, k) = SubSeq(x, 1, k)
                          /\ SubSeq(y, k + 1, k + Len(b)) = b
                          /\ SubSeq(y, k + Len(b) + 1, Len(y)) = SubSeq(x, k + 1, Len(x))

(* Nothing is listed for nothing, but the file type. *)
C19_Nothing == part = "list" /\ st = <<>> => L(st) = T_FileType \o Ftyp0 \o Nl
(* An item adds its own lines and leaves those of the others alone. *)
C19_Adds == part = "list" /\ st # <<>> /\ Simple(st[Len(st)])
              => Inserted(L(Front(st)), L(st), Own(st[Len(st)]))
(* The order of the items doesn't matter, except among freeform ones. *)
C19_Order == part = "list" /\ Len(st) >= 2 =>
  LET a == st[Len(st)]
      b == st[Len(st) - 1]
  IN  (a.id.k # "x" \/ b.id.k # "x") => L(Append(Append(Front(Front(st)), a), b)) = L(st)
(* A present value is shown, an absent one isn't. *)
C19_Present == part = "list" /\ Len(st) = 1 =>
  LET it == st[1]
      f == {i \in 1..Len(FieldList) : FieldList[i].id = it.id}
      absent == IF f = {} THEN it.id = CodeIdent(CIlst) \/ it = Item(Id_disc, <<V_(0, <<0,0>>)>>)
                ELSE LET g == FieldList[CHOOSE i \in f : TRUE]
                         x == Get(st, g.fld)
                     IN  (IF g.cls = "flag" THEN x = 0 ELSE x = <<>>) /\ it.id.k = "f"
  IN  (Own(it) = <<>>) <=> absent
(* Every line ends, so nothing runs into the next. *)
C19_Lines == part = "list" => L(st)[Len(L(st))] = 10

-----------------------------------------------------------------------------
(* Views *)

Contents(t) == IF IsTextType(t) THEN {<<>>, <<97>>, <<233, 8364>>, <<128512, 98>>}
               ELSE {<<>>, <<0>>, <<255, 216, 1>>}
ViewInit == \E t \in DataTypes : \E v \in Contents(t) : st = [v |-> V_(t, v), first |-> t, n |-> 0]
More(t) == IF IsTextType(t) THEN {55, 8364, 128512} ELSE {7, 255}
ViewNext == /\ st.n < Steps
            /\ \/ \E x \in More(st.v.t) : st' = [st EXCEPT !.v.v = Append(@, x), !.n = @ + 1]
               \/ st.v.v # <<>> /\ st' = [st EXCEPT !.v.v = <<>>, !.n = @ + 1]

W_ == ViewsOf(st.v)
C20_OneClass == part = "views" => W_.is_bytes + W_.is_string + W_.is_image = 1
C20_OneType == part = "views" => W_.is_reserved + W_.is_utf8 + W_.is_utf16 + W_.is_jpeg + W_.is_png
                                 + W_.is_be_signed + W_.is_bmp = 1
C20_Agree == part = "views" =>
  /\ \A k \in {"bytes", "bytes_mut", "into_bytes"} : (W_[k] # <<>>) = (W_.is_bytes = 1)
  /\ \A k \in {"string", "string_mut", "into_string"} : (W_[k] # <<>>) = (W_.is_string = 1)
  /\ \A k \in {"image", "image_mut", "into_image", "image_data", "image_data_mut", "into_image_data", "fmts"} :
        (W_[k] # <<>>) = (W_.is_image = 1)
  /\ \A k \in {"bytes", "string", "image_data", "reserved", "utf8", "utf16", "jpeg", "png", "be_signed", "bmp"} :
        W_[k] # <<>> => W_[k] = <<st.v.v>>
C20_Stored == part = "views" => LET r == ValueOf(st.v.t, RawOf(st.v)) IN r.ok /\ r.acc = st.v
C20_Length == part = "views" => W_.stored = Len(RawOf(st.v)) /\ (W_.is_empty = 1 <=> W_.stored = 0)
                                /\ W_.len = Be32(W_.stored)
C20_Kind == part = "views" => st.v.t = st.first

-----------------------------------------------------------------------------
(* Identifiers *)

Codes_ == {<<169,110,97,109>>, <<45,45,45,45>>, <<97,98,99,100>>, <<97,98,99,68>>, <<100,99,98,97>>, <<0,0,0,0>>,
           <<255,255,255,255>>, <<0,0,0,1>>, <<1,0,0,0>>}
Names_ == {<<>>, <<97>>, <<98>>, <<65>>, <<97,98>>, <<58>>, <<97,58>>, <<8364>>, <<32,97>>}
Idents == {CodeIdent(c) : c \in Codes_} \cup {FreeIdent(m, n) : m, n \in Names_}
Keys == {CodeIdent(c) : c \in Codes_} \cup {FreeIdent(m, n) : m, n \in {<<>>, <<97>>, <<65>>}}

(* ids: under which something was stored; items: the tag *)
IdentInit == st = [ids |-> <<>>, items |-> <<>>]
IdentNext == /\ Len(st.ids) < Most
             /\ \E a \in (IF st.ids = <<>> THEN Idents ELSE Keys) :
                  st' = [ids |-> Append(st.ids, a), items |-> AddAll(st.items, a, <<V_(1, <<Len(st.ids)>>)>>)]

C21_Equivalence == part = "idents" /\ st.ids # <<>> =>
  LET a == st.ids[1] IN
  /\ Same(a, a)
  /\ \A b \in Keys : /\ (Same(a, b) <=> Same(b, a))
                      /\ (Same(a, b) <=> a = b)
                      /\ (\E i \in 1..Len(st.ids) : Same(st.ids[i], a) /\ Same(st.ids[i], b)) => Same(a, b)
C21_OneForm == part = "idents" => \A i \in 1..Len(st.ids) : Len(CodeOf(st.ids[i])) + Len(NamesOf(st.ids[i])) = 1
(* What was stored under an identifier, and nothing else, is found. *)
C21_Found == part = "idents" => \A a \in Keys :
  Values(st.items, a) = LET is == SelectSeq([i \in 1..Len(st.ids) |-> i], LAMBDA i : Same(st.ids[i], a))
                        IN  [k \in 1..Len(is) |-> V_(1, <<is[k] - 1>>)]
(* Different codes are shown differently, and the text of a freeform       *)
(* identifier can be taken for that of another only if it has colons.      *)
C21_Shown == part = "idents" /\ Len(st.ids) >= 2 =>
  LET a == st.ids[1]
      b == st.ids[2]
      colon(s) == \E i \in 1..Len(s) : s[i] = 58
  IN  IdentText(a) = IdentText(b) => Same(a, b) \/ (a.k = "x" /\ b.k = "x" /\ (colon(a.mean) \/ colon(b.mean)))
C21_Names == \A i, j \in 1..Len(ConstList) :
  ConstList[i].n = ConstList[j].n \/ Same(ConstList[i].id, ConstList[j].id) => i = j

-----------------------------------------------------------------------------
(* Equality and copies *)

TwinIds == {CodeIdent(<<169,110,97,109>>), CodeIdent(<<169,78,97,109>>), FreeIdent(<<109>>, <<110>>), FreeIdent(<<110>>, <<109>>)}
TwinValues == {V_(0, <<97>>), V_(1, <<97>>), V_(2, <<97>>), V_(13, <<97>>), V_(14, <<97>>), V_(21, <<97>>),
               V_(27, <<97>>), V_(1, <<98>>), V_(1, <<>>), V_(0, <<97, 0>>), V_(13, <<>>)}
Dur_(s, n) == <<[s |-> <<0,0,0,0,0,0,0,s>>, n |-> <<0,0,0,n>>]>>
InfoEdits == {<<"dur", Dur_(0, 1)>>, <<"dur", Dur_(1, 0)>>, <<"ch", 1>>, <<"ch", 2>>, <<"sr", 0>>, <<"sr", 3>>,
              <<"maxb", <<0,0,0,1>>>>, <<"maxb", <<1,0,0,1>>>>, <<"avgb", <<0,0,0,1>>>>, <<"avgb", <<0,0,0,0>>>>}
Blank == [ftyp |-> <<>>, info |-> Info0, items |-> <<>>]

(* The tags that one change makes of a tag. *)
Edited(t) ==
  {[t EXCEPT !.items = AddAll(@, i, <<v>>)] : i \in TwinIds, v \in TwinValues}
  \cup {[t EXCEPT !.items = SetValues(@, i, <<V_(1, <<97>>)>>)] : i \in TwinIds}
  \cup {[t EXCEPT !.info[x[1]] = x[2]] : x \in InfoEdits}
  \cup {[t EXCEPT !.ftyp = Ftyp0], [t EXCEPT !.ftyp = <<77,52,66>>], [t EXCEPT !.items = <<>>]}

(* two tags, as they were before the last step, and the step *)
TwinInit == st = [a |-> Blank, b |-> Blank, last |-> "copy", n |-> 0]
TwinNext == /\ st.n < Steps
            /\ \/ \E x \in Edited(st.a) : st' = [st EXCEPT !.a = x, !.last = "a", !.n = @ + 1]
               \/ \E x \in Edited(st.b) : st' = [st EXCEPT !.b = x, !.last = "b", !.n = @ + 1]
               \/ st' = [st EXCEPT !.b = st.a, !.last = "copy", !.n = @ + 1]
C22_Copy == part = "twins" /\ st.last = "copy" => SameTag(st.a, st.b)
C22_Equivalence == part = "twins" =>
  /\ SameTag(st.a, st.a) /\ (SameTag(st.a, st.b) <=> SameTag(st.b, st.a))
  /\ SameTag(st.a, st.b) <=> st.a = st.b
(* Whatever changes a tag makes it differ from what it was. *)
C22_Tells == part = "twins" => \A x \in Edited(st.a) : SameTag(x, st.a) => x = st.a
(* Loading the items of a tag into a new one gives an equal tag. *)
C22_Loaded == part = "twins" => SameTag(Loaded(st.a), st.a)

-----------------------------------------------------------------------------
Init == /\ part \in Parts
        /\ CASE part = "codes" -> CodeInit [] part = "list" -> ListInit [] part = "views" -> ViewInit
             [] part = "idents" -> IdentInit [] part = "twins" -> TwinInit
Next == /\ UNCHANGED part
        /\ CASE part = "codes" -> CodeNext [] part = "list" -> ListNext [] part = "views" -> ViewNext
             [] part = "idents" -> IdentNext [] part = "twins" -> TwinNext
Spec == Init /\ [][Next]_vars

Grown(t) == LET A == Contents(t)
                B == {Append(a, x) : a \in A, x \in More(t)}
            IN  A \cup B \cup {Append(b, x) : b \in B, x \in More(t)}
Export ==
  IOEnv.MC_OUT = "" \/
  ndJsonSerialize(IOEnv.MC_OUT,
    <<[values |-> SetToSeq(UNION {{V_(t, v) : v \in Grown(t)} : t \in DataTypes}),
       entries |-> SetToSeq(Entries), idents |-> SetToSeq(Idents), 
       twins |-> SetToSeq({[t |-> t, e |-> SetToSeq(Edited(t))] : t \in {Blank} \cup Edited(Blank)}), ftyp |-> Ftyp0, info |-> Info0]>>)
ASSUME PrintT(<<"ENTRIES", Cardinality(Entries)>>)
ASSUME Export /\ PrintT("EXPORTED")
=============================================================================
