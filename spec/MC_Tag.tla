-------------------------------- MODULE MC_Tag ---------------------------------
(***************************************************************************)
(* The tag interface explored exhaustively over small domains: every       *)
(* operation in every state of a unit (a set of states and operations that *)
(* belong together).  The laws below state C11-C14 without reference to    *)
(* how Apply is defined; `bad` collects the laws a transition broke.       *)
(* The units are exported, and their transitions replayed in the code.     *)
(***************************************************************************)
EXTENDS TagModel, TLC, Json, IOUtils

CONSTANTS Parts, MaxOps

Fcc(b) == [k |-> "f", b |-> b, mean |-> <<>>, name |-> <<>>]
Xid(m, n) == [k |-> "x", b |-> <<>>, mean |-> m, name |-> n]

(* Operations, with every field. *)
NoP == [k |-> "all", v |-> <<>>, n |-> 0, id |-> Fcc(T_Test), not |-> FALSE]
Op(g, m) == [g |-> g, m |-> m, id |-> Fcc(T_Test), idk |-> "", v |-> <<>>, vs |-> <<>>, n |-> -1, o |-> 0,
             p |-> NoP, cls |-> "", fld |-> ""]

(* Sequences of length lo..hi over S *)
Lists(S, lo, hi) == UNION {[1..k -> S] : k \in lo..hi}

-----------------------------------------------------------------------------
(* C11 *)

IdA == Fcc(T_Test)
IdX == Xid(<<109>>, T_Test)              \* a freeform identifier of the same name
IdY == Xid(<<110>>, T_Test)
CVals == {V_(0, <<1>>), V_(1, <<97>>), V_(14, <<2>>), V_(2, <<>>)}
CLists == Lists(CVals, 1, 2)
CStates == {<<>>} \cup {<<Item(i, a)>> : i \in {IdA, IdX}, a \in CLists}
           \cup {<<Item(i, a), Item(j, b)>> : i \in {IdA}, j \in {IdX}, a \in CLists, b \in {<<V_(0, <<1>>)>>, <<V_(1, <<97>>), V_(27, <<>>)>>}}
           \cup {<<Item(IdX, a), Item(IdA, b)>> : a \in {<<V_(1, <<97>>)>>, <<V_(13, <<2>>), V_(21, <<1>>)>>}, b \in CLists}
           \cup {<<Item(IdY, <<V_(1, <<98>>)>>), Item(IdA, a), Item(IdX, <<V_(0, <<>>)>>)>> : a \in CLists}
COpIds == {IdA, IdX}
Kinds == {"data", "bytes", "strings", "images"}
Preds == { NoP, [NoP EXCEPT !.k = "none"], [NoP EXCEPT !.k = "eq", !.v = <<97>>],
           [NoP EXCEPT !.k = "eq", !.v = <<1>>, !["not"] = TRUE], [NoP EXCEPT !.k = "le", !.n = 0] }
IdPreds == Preds \cup {[NoP EXCEPT !.k = "id"], [NoP EXCEPT !.k = "id", !["not"] = TRUE]}
Nat_(i) == {"n", "d"}                    \* the identifier's own type or the general one

M(what, k) ==
  CASE what = "of" -> (CASE k = "data" -> "data_of" [] k = "bytes" -> "bytes_of"
                         [] k = "strings" -> "strings_of" [] k = "images" -> "images_of")
    [] what = "take_of" -> (CASE k = "data" -> "take_data_of" [] k = "bytes" -> "take_bytes_of"
                         [] k = "strings" -> "take_strings_of" [] k = "images" -> "take_images_of")
    [] what = "mut_of" -> (CASE k = "data" -> "data_mut_of" [] k = "bytes" -> "bytes_mut_of"
                         [] k = "strings" -> "strings_mut_of" [] k = "images" -> "images_mut_of")
    [] what = "remove_of" -> (CASE k = "data" -> "remove_data_of" [] k = "bytes" -> "remove_bytes_of"
                         [] k = "strings" -> "remove_strings_of" [] k = "images" -> "remove_images_of")
    [] what = "retain_of" -> (CASE k = "data" -> "retain_data_of" [] k = "bytes" -> "retain_bytes_of"
                         [] k = "strings" -> "retain_strings_of" [] k = "images" -> "retain_images_of")
    [] what = "all" -> k
    [] what = "take" -> (CASE k = "data" -> "take_data" [] k = "bytes" -> "take_bytes"
                         [] k = "strings" -> "take_strings" [] k = "images" -> "take_images")
    [] what = "mut" -> (CASE k = "data" -> "data_mut" [] k = "bytes" -> "bytes_mut"
                         [] k = "strings" -> "strings_mut" [] k = "images" -> "images_mut")
    [] what = "retain" -> (CASE k = "data" -> "retain_data" [] k = "bytes" -> "retain_bytes"
                         [] k = "strings" -> "retain_strings" [] k = "images" -> "retain_images")

ChangeBy(k) == CASE k = "data" -> V_(1, <<120>>) [] OTHER -> <<7>>

COps ==
  LET C(m) == Op("c", m)
      ById(i) == [C("") EXCEPT !.id = i]
  IN  {[ById(i) EXCEPT !.m = m, !.v = v, !.idk = q] :
         i \in COpIds, m \in {"set_data", "add_data"}, v \in CVals, q \in {"n", "d"}}
      \cup {[ById(i) EXCEPT !.m = m, !.vs = vs, !.idk = q] : i \in COpIds,
            m \in {"set_all_data", "add_all_data"}, vs \in {<<>>, <<V_(1, <<98>>)>>, <<V_(13, <<>>), V_(0, <<1>>)>>}, q \in {"n", "d"}}
      \cup {[ById(i) EXCEPT !.m = M("of", k), !.idk = q] : i \in COpIds, k \in Kinds, q \in {"n", "d"}}
      \cup {[ById(i) EXCEPT !.m = M("take_of", k), !.n = n, !.idk = q] :
              i \in COpIds, k \in Kinds, n \in {-1, 0, 1}, q \in {"n", "d"}}
      \cup {[ById(i) EXCEPT !.m = M("mut_of", k), !.v = ChangeBy(k), !.idk = q] : i \in COpIds, k \in Kinds, q \in {"n", "d"}}
      \cup {[ById(i) EXCEPT !.m = M("remove_of", k), !.idk = q] : i \in COpIds, k \in Kinds, q \in {"n", "d"}}
      \cup {[ById(i) EXCEPT !.m = M("retain_of", k), !.p = p, !.idk = "d"] : i \in COpIds, k \in Kinds, p \in Preds}
      \cup {C(M("all", k)) : k \in Kinds}
      \cup {[C(M("take", k)) EXCEPT !.n = n] : k \in Kinds, n \in {-1, 1}}
      \cup {[C(M("mut", k)) EXCEPT !.v = ChangeBy(k)] : k \in Kinds}
      \cup {[C(M("retain", k)) EXCEPT !.p = p] : k \in Kinds, p \in IdPreds}
      \cup {C("clear"), C("isempty"), C("clone")}

Ids(s) == [i \in 1..Len(s) |-> s[i].id]
Has(s, id) == \E i \in 1..Len(s) : s[i].id = id
ValuesIn(s, id) == Flat(MapSeq(LAMBDA it : IF it.id = id THEN it.data ELSE <<>>, s))
Others(s, id) == SelectSeq(s, LAMBDA it : it.id # id)

(* surviving items keep their order, a new one comes last *)
Ordered(s, t) ==
  LET old == SelectSeq(Ids(t), LAMBDA i : Has(s, i))
      new == SelectSeq(Ids(t), LAMBDA i : ~Has(s, i))
  IN  /\ Ids(t) = old \o new /\ Len(new) <= 1
      /\ old = SelectSeq(Ids(s), LAMBDA i : Has(t, i))

LawsC(s, e, r) ==
  LET w == Method(e.m)
      c == ClassOf(e.m)
      t == r.items
      byid == w \in {"set_data", "set_all_data", "add_data", "add_all_data", "of", "take_of", "mut_of",
                     "remove_of", "retain_of"}
      old == ValuesIn(s, e.id)
      new == ValuesIn(t, e.id)
  IN  (IF byid /\ Others(s, e.id) # Others(t, e.id) THEN {"frame"} ELSE {})
      \cup (IF ~Ordered(s, t) THEN {"order"} ELSE {})
      \cup (IF w \in {"of", "all", "isempty", "clone", "take"} /\ t # s THEN {"query"} ELSE {})
      \cup (IF w = "set_data" /\ new # <<e.v>> THEN {"set"} ELSE {})
      \cup (IF w = "set_all_data" /\ new # e.vs THEN {"setall"} ELSE {})
      \cup (IF w = "add_data" /\ new # Append(old, e.v) THEN {"add"} ELSE {})
      \cup (IF w = "add_all_data" /\ new # old \o e.vs THEN {"addall"} ELSE {})
      \cup (IF w = "take_of" /\ (Has(t, e.id) \/ ~IsPrefix(r.ret, Apply(s, [e EXCEPT !.m = M("of", c)]).ret))
            THEN {"take"} ELSE {})
      \cup (IF w = "remove_of" /\ (Views(c, new) # <<>> \/ new # SelectSeq(old, LAMBDA d : ~InClass(c, d)))
            THEN {"remove"} ELSE {})
      \cup (IF w = "retain_of" /\ (\E k \in Kinds \ {c, "data"} : c # "data" /\ Views(k, new) # Views(k, old))
            THEN {"retain"} ELSE {})
      \cup (IF w = "all" /\ r.ret # Flat(MapSeq(LAMBDA it :
                  MapSeq(LAMBDA v : [id |-> it.id, v |-> v], Apply(s, [e EXCEPT !.m = M("of", c), !.id = it.id]).ret), s))
            THEN {"iterate"} ELSE {})
      \cup (IF w = "mut" /\ (Ids(t) # Ids(s) \/ r.ret # Apply(s, [e EXCEPT !.m = M("all", c)]).ret) THEN {"mut"} ELSE {})
      \cup (IF w = "clear" /\ t # <<>> THEN {"clear"} ELSE {})
      \cup (IF w = "isempty" /\ (r.ret = 1) # (Len(Pairs(s)) = 0) THEN {"isempty"} ELSE {})

-----------------------------------------------------------------------------
(* C12: field i, with values of other fields before and behind it *)

FieldVals(cls) ==
  CASE cls \in {"single", "multi"} -> {V_(1, <<97>>), V_(2, <<8364>>), V_(0, <<98>>), V_(1, <<>>)}
    [] cls = "flag" -> {V_(21, <<1>>), V_(0, <<1, 2>>), V_(21, <<>>), V_(21, <<2>>), V_(1, <<1>>)}
    [] cls = "u16" -> {V_(21, <<1, 2>>), V_(0, <<3, 4, 5>>), V_(21, <<9>>), V_(0, <<>>), V_(1, <<97, 98>>)}
    [] cls = "u32" -> {V_(21, <<1, 2, 3, 4>>), V_(0, <<255, 254, 253, 252, 5>>), V_(21, <<9, 9, 9>>), V_(0, <<>>),
                       V_(1, <<97, 98, 99, 100>>)}
    [] cls = "art" -> {V_(13, <<1>>), V_(14, <<>>), V_(27, <<3>>), V_(0, <<4>>)}
    [] cls = "media" -> {V_(0, <<10>>), V_(21, <<0, 1>>), V_(0, <<3>>), V_(0, <<>>), V_(1, <<9>>)}
    [] cls = "rating" -> {V_(0, <<2>>), V_(21, <<0>>), V_(0, <<1, 0>>), V_(0, <<>>), V_(1, <<2>>)}

FieldStates(i) ==
  LET f == FieldList[i]
      n == Len(FieldList)
      g == FieldList[(i % n) + 1]
      h == FieldList[((i + 6) % n) + 1]
      ls == Lists(FieldVals(f.cls), 0, 2)
      It(vs) == IF vs = <<>> THEN <<>> ELSE <<Item(f.id, vs)>>
  IN  {<<Item(g.id, <<V_(1, <<103>>), V_(0, <<1>>)>>)>> \o It(vs) \o <<Item(h.id, <<V_(21, <<1, 0, 0, 1>>)>>)>> : vs \in ls}
      \cup {It(vs) : vs \in ls}

FieldOps(i) ==
  LET f == FieldList[i]
      F(m) == [Op("f", m) EXCEPT !.fld = f.fld, !.cls = f.cls]
      many == {[F("getall") EXCEPT !.n = -1]} \cup {[F("takeall") EXCEPT !.n = k] : k \in {-1, 0, 1}}
      texts == {<<>>, <<120, 121>>, <<128512>>}
      imgs == {V_(13, <<5>>), V_(14, <<6, 7>>), V_(27, <<>>)}
  IN  {F("get"), F("remove")} \cup
      CASE f.cls = "single" -> {F("take")} \cup {[F("set") EXCEPT !.v = t] : t \in texts}
        [] f.cls = "multi" -> {F("take")} \cup many \cup {[F(m) EXCEPT !.v = t] : m \in {"set", "add"}, t \in texts}
                              \cup {[F(m) EXCEPT !.vs = t] : m \in {"setall", "addall"}, t \in {<<>>, <<<<120>>>>, <<<<121>>, <<>>>>}}
        [] f.cls = "art" -> {F("take")} \cup many \cup {[F(m) EXCEPT !.v = t] : m \in {"set", "add"}, t \in imgs}
                              \cup {[F(m) EXCEPT !.vs = t] : m \in {"setall", "addall"}, t \in {<<>>, <<V_(14, <<1>>)>>, <<V_(27, <<>>), V_(13, <<2>>)>>}}
        [] f.cls = "flag" -> {F("set")}
        [] f.cls = "u16" -> {[F("set") EXCEPT !.v = t] : t \in {<<0, 0>>, <<1, 2>>, <<255, 254>>}}
        [] f.cls = "u32" -> {[F("set") EXCEPT !.v = t] : t \in {<<0, 0, 0, 0>>, <<1, 2, 3, 4>>, <<255, 254, 253, 252>>}}
        [] f.cls = "media" -> {[F("set") EXCEPT !.v = t] : t \in 0..7}
        [] f.cls = "rating" -> {[F("set") EXCEPT !.v = t] : t \in 0..2}

Absent(cls) == IF cls = "flag" THEN 0 ELSE <<>>
LawsF(s, e, r) ==
  LET f == FieldOf(e.fld)
      t == r.items
      Get(x) == Apply(x, [e EXCEPT !.m = "get"]).ret
      All(x) == Apply(x, [e EXCEPT !.m = "getall", !.n = -1]).ret
      plural == f.cls \in {"multi", "art"}
      others == {FieldList[i] : i \in 1..Len(FieldList)} \ {f}
      GetOf(x, g) == Apply(x, [e EXCEPT !.m = "get", !.fld = g.fld, !.cls = g.cls]).ret
  IN  (IF \E g \in others : GetOf(s, g) # GetOf(t, g) THEN {"interference"} ELSE {})
      \cup (IF Others(s, f.id) # Others(t, f.id) \/ ~Ordered(s, t) THEN {"frame"} ELSE {})
      \cup (IF e.m = "set" /\ Get(t) # (IF f.cls = "flag" THEN 1 ELSE <<e.v>>) THEN {"setget"} ELSE {})
      \cup (IF e.m = "set" /\ plural /\ All(t) # <<e.v>> THEN {"set"} ELSE {})
      \cup (IF e.m = "setall" /\ All(t) # e.vs THEN {"setall"} ELSE {})
      \cup (IF e.m = "add" /\ All(t) # Append(All(s), e.v) THEN {"add"} ELSE {})
      \cup (IF e.m = "addall" /\ All(t) # All(s) \o e.vs THEN {"addall"} ELSE {})
      \cup (IF plural /\ Get(s) # SeqHead(All(s)) THEN {"singular"} ELSE {})
      \cup (IF e.m = "take" /\ (r.ret # Get(s) \/ Get(t) # Absent(f.cls)) THEN {"take"} ELSE {})
      \cup (IF e.m = "takeall" /\ (~IsPrefix(r.ret, All(s)) \/ All(t) # <<>>) THEN {"takeall"} ELSE {})
      \cup (IF e.m = "remove" /\ (Get(t) # Absent(f.cls) \/ Has(t, f.id)) THEN {"remove"} ELSE {})
      \cup (IF e.m \in {"get", "getall"} /\ t # s THEN {"query"} ELSE {})

-----------------------------------------------------------------------------
(* C13 *)

PairVals == {V_(0, b) : b \in {<<>>, <<1, 2, 3>>, <<0, 0, 1, 2>>, <<0, 0, 0, 3, 0>>, <<0, 0, 0, 3, 0, 4>>, <<0, 0, 0, 0, 1, 0>>,
                               <<9, 8, 0, 7, 0, 0, 6, 5>>}}
            \cup {V_(21, <<0, 0, 2, 0, 2, 1>>), V_(1, <<0, 0, 0, 1, 0, 2>>), V_(14, <<0, 0, 0, 1, 0, 2>>)}
PairStates(id, other) ==
  {(IF vs = <<>> THEN <<>> ELSE <<Item(id, vs)>>) \o o :
     vs \in Lists(PairVals, 0, 2), o \in {<<>>, <<Item(other, <<V_(0, <<0, 0, 0, 5, 0, 6>>)>>)>>}}
PairOpsOf(g) ==
  LET P(m) == Op(g, m)
      ns == {0, 1, 513}
  IN  {P(m) : m \in {"both", "number", "total", "remove", "removenumber", "removetotal"}}
      \cup {[P("set") EXCEPT !.n = a, !.o = b] : a \in ns, b \in ns}
      \cup {[P(m) EXCEPT !.n = a] : m \in {"setnumber", "settotal"}, a \in ns}

LawsP(s, e, r) ==
  LET id == IF e.g = "track" THEN Id_track ELSE Id_disc
      t == r.items
      Num(x) == Apply(x, [e EXCEPT !.m = "number"]).ret
      Tot(x) == Apply(x, [e EXCEPT !.m = "total"]).ret
      some(v) == IF v = 0 THEN <<>> ELSE <<v>>
  IN  (IF Others(s, id) # Others(t, id) \/ ~Ordered(s, t) THEN {"frame"} ELSE {})
      \cup (IF e.m = "set" /\ (Num(t) # some(e.n) \/ Tot(t) # some(e.o)) THEN {"set"} ELSE {})
      \cup (IF e.m = "setnumber" /\ (Num(t) # some(e.n) \/ Tot(t) # Tot(s)) THEN {"setnumber"} ELSE {})
      \cup (IF e.m = "settotal" /\ (Tot(t) # some(e.n) \/ Num(t) # Num(s)) THEN {"settotal"} ELSE {})
      \cup (IF e.m = "remove" /\ Has(t, id) THEN {"remove"} ELSE {})
      \cup (IF e.m = "removenumber" /\ (Num(t) # <<>> \/ Tot(t) # Tot(s) \/ (Tot(s) = <<>> /\ Has(t, id)))
            THEN {"removenumber"} ELSE {})
      \cup (IF e.m = "removetotal" /\ (Tot(t) # <<>> \/ Num(t) # Num(s) \/ (Num(s) = <<>> /\ Has(t, id)))
            THEN {"removetotal"} ELSE {})
      \cup (IF e.m = "both" /\ r.ret # <<Num(s), Tot(s)>> THEN {"both"} ELSE {})
      \cup (IF e.m \in {"both", "number", "total"} /\ t # s THEN {"query"} ELSE {})

-----------------------------------------------------------------------------
(* C14 *)

GStd == {V_(0, <<0, 1>>), V_(0, <<0, 80>>), V_(0, <<0, 81>>), V_(21, <<0, 18, 9>>), V_(0, <<5>>), V_(0, <<0, 0>>),
         V_(1, <<0, 2>>), V_(0, <<1, 2>>)}
GCus == {V_(1, <<97>>), V_(2, <<98>>), V_(0, <<99>>)}
GenreStates ==
  LET a == {IF vs = <<>> THEN <<>> ELSE <<Item(IdStd, vs)>> : vs \in Lists(GStd, 0, 2)}
      b == {IF vs = <<>> THEN <<>> ELSE <<Item(IdCustom, vs)>> : vs \in Lists(GCus, 0, 2)}
  IN  {x \o y : x \in a, y \in b} \cup {y \o <<Item(IdA, <<V_(1, <<97>>)>>)>> \o x : x \in a, y \in {<<>>, <<Item(IdCustom, <<V_(1, <<97>>)>>)>>}}
GOps ==
  LET G(m) == Op("genre", m)
  IN  {G(m) : m \in {"std", "stds", "removestds", "get", "getall", "take", "remove"}}
      \cup {[G("takeall") EXCEPT !.n = k] : k \in {-1, 0, 1}}
      \cup {[G(m) EXCEPT !.v = c] : m \in {"setstd", "addstd"}, c \in {0, 1, 80, 81, 65535}}
      \cup {[G(m) EXCEPT !.vs = c] : m \in {"setstds", "addstds"}, c \in {<<>>, <<3>>, <<79, 300, 4>>}}
      \cup {[G(m) EXCEPT !.v = c] : m \in {"set", "add"}, c \in {<<>>, <<120>>}}
      \cup {[G("setall") EXCEPT !.vs = c] : c \in {<<>>, <<<<120>>>>, <<<<121>>, <<122>>>>}}

LawsG(s, e, r) ==
  LET t == r.items
      A(m, x) == Apply(x, [e EXCEPT !.m = m, !.n = -1]).ret
      All(x) == A("getall", x)
      frame == SelectSeq(t, LAMBDA it : it.id \notin {IdStd, IdCustom}) = SelectSeq(s, LAMBDA it : it.id \notin {IdStd, IdCustom})
  IN  (IF ~frame THEN {"frame"} ELSE {})
      \cup (IF e.m = "get" /\ r.ret # SeqHead(All(s)) THEN {"first"} ELSE {})
      \cup (IF e.m = "std" /\ r.ret # SeqHead(A("stds", s)) THEN {"firststd"} ELSE {})
      \cup (IF e.m = "set" /\ (All(t) # <<e.v>> \/ Has(t, IdStd)) THEN {"set"} ELSE {})
      \cup (IF e.m = "setall" /\ (All(t) # e.vs \/ Has(t, IdStd)) THEN {"setall"} ELSE {})
      \cup (IF e.m = "add" /\ All(t) # Append(All(s), e.v) THEN {"add"} ELSE {})
      \cup (IF e.m = "setstd" /\ A("stds", t) # <<e.v>> THEN {"setstd"} ELSE {})
      \cup (IF e.m = "setstds" /\ A("stds", t) # e.vs THEN {"setstds"} ELSE {})
      \cup (IF e.m = "addstd" /\ A("stds", t) # Append(A("stds", s), e.v) THEN {"addstd"} ELSE {})
      \cup (IF e.m = "addstds" /\ A("stds", t) # A("stds", s) \o e.vs THEN {"addstds"} ELSE {})
      \cup (IF e.m = "take" /\ (r.ret # SeqHead(All(s)) \/ Has(t, IdCustom) \/ A("stds", t) # A("stds", s)) THEN {"take"} ELSE {})
      \cup (IF e.m = "takeall" /\ (~IsPrefix(r.ret, All(s)) \/ Has(t, IdCustom) \/ A("stds", t) # A("stds", s)) THEN {"takeall"} ELSE {})
      \cup (IF e.m = "remove" /\ (Has(t, IdStd) \/ Has(t, IdCustom)) THEN {"remove"} ELSE {})
      \cup (IF e.m = "removestds" /\ (Has(t, IdStd) \/ Others(t, IdStd) # Others(s, IdStd)) THEN {"removestds"} ELSE {})
      \cup (IF e.m \in {"std", "stds", "get", "getall"} /\ t # s THEN {"query"} ELSE {})

-----------------------------------------------------------------------------
Units ==
  (IF "c" \in Parts THEN {[part |-> "c", f |-> 0]} ELSE {})
  \cup (IF "f" \in Parts THEN {[part |-> "f", f |-> i] : i \in 1..Len(FieldList)} ELSE {})
  \cup (IF "pair" \in Parts THEN {[part |-> "track", f |-> 0], [part |-> "disc", f |-> 0]} ELSE {})
  \cup (IF "genre" \in Parts THEN {[part |-> "genre", f |-> 0]} ELSE {})

StatesOf(u) == CASE u.part = "c" -> CStates [] u.part = "f" -> FieldStates(u.f)
                 [] u.part = "track" -> PairStates(Id_track, Id_disc)
                 [] u.part = "disc" -> PairStates(Id_disc, Id_track)
                 [] u.part = "genre" -> GenreStates
OpsOf(u) == CASE u.part = "c" -> COps [] u.part = "f" -> FieldOps(u.f)
              [] u.part \in {"track", "disc"} -> PairOpsOf(u.part) [] u.part = "genre" -> GOps
Laws(s, e, r) == CASE e.g = "c" -> LawsC(s, e, r) [] e.g = "f" -> LawsF(s, e, r)
                   [] e.g \in {"track", "disc"} -> LawsP(s, e, r) [] e.g = "genre" -> LawsG(s, e, r)

VARIABLES unit, items, n, bad
vars == <<unit, items, n, bad>>

Init == unit \in Units /\ items \in StatesOf(unit) /\ n = 0 /\ bad = {}
Next ==
  /\ n < MaxOps /\ n' = n + 1
  /\ \E e \in OpsOf(unit) :
       LET r == Apply(items, e)
       IN  items' = r.items /\ bad' = Laws(items, e, r)
  /\ UNCHANGED unit
Spec == Init /\ [][Next]_vars

TagValid == Valid(items)
LawsHold == bad = {}

Export == IOEnv.MC_OUT = "" \/
          ndJsonSerialize(IOEnv.MC_OUT,
            LET us == SetToSeq(Units)
            IN  [i \in 1..Len(us) |-> [part |-> us[i].part, states |-> SetToSeq(StatesOf(us[i])),
                                       ops |-> SetToSeq(OpsOf(us[i]))]])
ASSUME Export /\ PrintT("EXPORTED")
=============================================================================
