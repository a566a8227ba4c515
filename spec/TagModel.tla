------------------------------- MODULE TagModel -------------------------------
(***************************************************************************)
(* The tag as an abstract object: an ordered collection of items, each an  *)
(* identifier with a non-empty list of typed values (C11), and the named   *)
(* fields that are views of it (C12-C14), the textual listing (C19), value *)
(* views (C20) and code tables (C18).                                      *)
(*                                                                         *)
(* Apply(items, e) is the operation e of the public interface: the items   *)
(* afterwards and what the caller sees.  e is a record with                *)
(*   g, m      group and method,                                           *)
(*   id        identifier,   v, vs   value(s),   n, o   numbers,           *)
(*   p         predicate,    cls, fld   class and name of a field.         *)
(* Options are sequences of at most one element, no result is <<>>.        *)
(***************************************************************************)
EXTENDS Mp4Write, TagNames

SeqHead(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>>      \* as an option
FirstN(s, n) == IF n < 0 \/ n >= Len(s) THEN s ELSE SubSeq(s, 1, n)
MapSeq(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]

-----------------------------------------------------------------------------
(* Items *)

Values(items, id) == IF HasItem(items, id) THEN items[ItemIndex(items, id)].data ELSE <<>>
Item(id, vs) == [id |-> id, data |-> vs]

Drop(items, id) == SelectSeq(items, LAMBDA it : it.id # id)

(* The item gets exactly these values: it disappears if there are none.    *)
SetValues(items, id, vs) ==
  IF vs = <<>> THEN Drop(items, id)
  ELSE IF HasItem(items, id) THEN [items EXCEPT ![ItemIndex(items, id)].data = vs]
  ELSE Append(items, Item(id, vs))

AddAll(items, id, vs) == IF vs = <<>> THEN items ELSE AddValues(items, id, vs)

RECURSIVE LoadFrom(_, _, _)
LoadFrom(acc, new, i) ==
  IF i > Len(new) THEN acc ELSE LoadFrom(AddAll(acc, new[i].id, new[i].data), new, i + 1)

NoEmptyItems(items) == SelectSeq(items, LAMBDA it : it.data # <<>>)

(* Tags as a whole: file type, audio information, items.                  *)
SameInfo(i, j) == \A k \in {"dur", "ch", "sr", "maxb", "avgb"} : i[k] = j[k]
SameTag(a, b) == a.ftyp = b.ftyp /\ SameInfo(a.info, b.info) /\ a.items = b.items
SameValue(v, w) == v.t = w.t /\ v.v = w.v
IsImage(v) == v.t \in {13, 14, 27}
SameImage(v, w) == IF IsImage(v) /\ IsImage(w) THEN SameValue(v, w) ELSE ~IsImage(v) /\ ~IsImage(w)
Loaded(t) == [t EXCEPT !.items = LoadFrom(<<>>, t.items, 1)]

(* all values with their identifiers *)
Pairs(items) == Flat([i \in 1..Len(items) |->
                        [j \in 1..Len(items[i].data) |-> [id |-> items[i].id, v |-> items[i].data[j]]]])

Valid(items) ==                          \* what every tag is
  /\ \A i \in 1..Len(items) : items[i].data # <<>>
  /\ \A i, j \in 1..Len(items) : items[i].id = items[j].id => i = j

-----------------------------------------------------------------------------
(* Classes of values and their views *)

InClass(c, d) == CASE c = "data" -> TRUE
                   [] c = "bytes" -> IsBytesType(d.t)
                   [] c = "strings" -> IsTextType(d.t)
                   [] c = "images" -> IsImageType(d.t)
See(c, d) == IF c \in {"bytes", "strings"} THEN d.v ELSE d

OfClass(c, vs) == SelectSeq(vs, LAMBDA d : InClass(c, d))
Views(c, vs) == MapSeq(LAMBDA d : See(c, d), OfClass(c, vs))

(* Predicates *)
Pred(p, c, id, d) ==
  LET r == CASE p.k = "all" -> TRUE
             [] p.k = "none" -> FALSE
             [] p.k = "eq" -> d.v = p.v
             [] p.k = "le" -> Len(d.v) <= p.n
             [] p.k = "type" -> d.t = p.n
             [] p.k = "id" -> id = p.id
  IN  r # p["not"]

Keep(p, c, id, vs) == SelectSeq(vs, LAMBDA d : ~InClass(c, d) \/ Pred(p, c, id, d))

(* A change through a mutable view: data is replaced, content extended. *)
Change(c, d, v) == IF c = "data" THEN v ELSE [d EXCEPT !.v = @ \o v]
ChangeAll(c, vs, v) == MapSeq(LAMBDA d : IF InClass(c, d) THEN Change(c, d, v) ELSE d, vs)

-----------------------------------------------------------------------------
(* The collection (C11) *)

R(items, ret) == [items |-> items, ret |-> ret]

(* <<what, class>> of a method *)
Method(m) ==
  CASE m \in {"data_of", "bytes_of", "strings_of", "images_of"} -> "of"
    [] m \in {"take_data_of", "take_bytes_of", "take_strings_of", "take_images_of"} -> "take_of"
    [] m \in {"data_mut_of", "bytes_mut_of", "strings_mut_of", "images_mut_of"} -> "mut_of"
    [] m \in {"remove_data_of", "remove_bytes_of", "remove_strings_of", "remove_images_of"} -> "remove_of"
    [] m \in {"retain_data_of", "retain_bytes_of", "retain_strings_of", "retain_images_of"} -> "retain_of"
    [] m \in {"data", "bytes", "strings", "images"} -> "all"
    [] m \in {"take_data", "take_bytes", "take_strings", "take_images"} -> "take"
    [] m \in {"data_mut", "bytes_mut", "strings_mut", "images_mut"} -> "mut"
    [] m \in {"retain_data", "retain_bytes", "retain_strings", "retain_images"} -> "retain"
    [] OTHER -> m

ClassOf(m) ==
  CASE m \in {"data_of", "take_data_of", "data_mut_of", "remove_data_of", "retain_data_of",
              "data", "take_data", "data_mut", "retain_data"} -> "data"
    [] m \in {"bytes_of", "take_bytes_of", "bytes_mut_of", "remove_bytes_of", "retain_bytes_of",
              "bytes", "take_bytes", "bytes_mut", "retain_bytes"} -> "bytes"
    [] m \in {"strings_of", "take_strings_of", "strings_mut_of", "remove_strings_of",
              "retain_strings_of", "strings", "take_strings", "strings_mut", "retain_strings"} -> "strings"
    [] m \in {"images_of", "take_images_of", "images_mut_of", "remove_images_of",
              "retain_images_of", "images", "take_images", "images_mut", "retain_images"} -> "images"
    [] OTHER -> ""

PairViews(c, items) ==
  MapSeq(LAMBDA x : [id |-> x.id, v |-> See(c, x.v)],
         SelectSeq(Pairs(items), LAMBDA x : InClass(c, x.v)))

Collection(items, e) ==
  LET c == ClassOf(e.m)
      w == Method(e.m)
  IN
  CASE w = "load" -> R(LoadFrom(items, e.vs, 1), <<>>)
    [] w = "clear" -> R(<<>>, <<>>)
    [] w = "isempty" -> R(items, IF items = <<>> THEN 1 ELSE 0)
    [] w = "clone" -> R(items, 1)
    [] w = "set_data" -> R(SetValues(items, e.id, <<e.v>>), <<>>)
    [] w = "set_all_data" -> R(SetValues(items, e.id, e.vs), <<>>)
    [] w = "add_data" -> R(AddAll(items, e.id, <<e.v>>), <<>>)
    [] w = "add_all_data" -> R(AddAll(items, e.id, e.vs), <<>>)
    [] w = "of" -> R(items, Views(c, Values(items, e.id)))
    \* taking removes the item and yields its values of the class
    [] w = "take_of" -> R(Drop(items, e.id), FirstN(Views(c, Values(items, e.id)), e.n))
    [] w = "mut_of" -> R(SetValues(items, e.id, ChangeAll(c, Values(items, e.id), e.v)),
                         Views(c, Values(items, e.id)))
    [] w = "remove_of" -> R(SetValues(items, e.id,
                              SelectSeq(Values(items, e.id), LAMBDA d : ~InClass(c, d))), <<>>)
    [] w = "retain_of" -> R(SetValues(items, e.id, Keep(e.p, c, e.id, Values(items, e.id))), <<>>)
    [] w = "all" -> R(items, PairViews(c, items))
    [] w = "take" -> R(items, FirstN(PairViews(c, items), e.n))     \* of a copy
    [] w = "mut" -> R([i \in 1..Len(items) |-> [items[i] EXCEPT !.data = ChangeAll(c, @, e.v)]],
                      PairViews(c, items))
    [] w = "retain" -> R(NoEmptyItems([i \in 1..Len(items) |->
                           [items[i] EXCEPT !.data = Keep(e.p, c, items[i].id, @)]]), <<>>)

-----------------------------------------------------------------------------
(* Named fields (C12) *)

FieldOf(fld) == FieldList[CHOOSE i \in 1..Len(FieldList) : FieldList[i].fld = fld]

Strings(items, id) == Views("strings", Values(items, id))
Images(items, id) == Views("images", Values(items, id))
FirstBytes(items, id) == SeqHead(Views("bytes", Values(items, id)))   \* option

V_(t, v) == [t |-> t, v |-> v]
Utf8s(ts) == MapSeq(LAMBDA t : V_(1, t), ts)

(* the leading k bytes of the first byte value *)
Lead(items, id, k) ==
  LET b == FirstBytes(items, id)
  IN  IF b = <<>> THEN <<>> ELSE IF Len(b[1]) < k THEN <<>> ELSE <<SubSeq(b[1], 1, k)>>

IndexIn(s, x) == IF \E i \in 1..Len(s) : s[i] = x
                 THEN <<(CHOOSE i \in 1..Len(s) : s[i] = x) - 1>> ELSE <<>>

MediaOf(code) == IndexIn(MediaCodes, code)                      \* option
RatingOf(code) == LET x == IndexIn(RatingCodes, code) IN IF x = <<>> THEN 2 ELSE x[1]

MediaField(items, id) == LET b == Lead(items, id, 1) IN IF b = <<>> THEN <<>> ELSE MediaOf(b[1][1])
RatingField(items, id) == LET b == Lead(items, id, 1) IN IF b = <<>> THEN <<>> ELSE <<RatingOf(b[1][1])>>
FlagField(items, id) == LET b == Lead(items, id, 1) IN IF b = <<<<1>>>> THEN 1 ELSE 0

TextField(items, id, e) ==
  CASE e.m = "get" -> R(items, SeqHead(Strings(items, id)))
    [] e.m = "getall" -> R(items, Strings(items, id))
    [] e.m = "take" -> R(Drop(items, id), SeqHead(Strings(items, id)))
    [] e.m = "takeall" -> R(Drop(items, id), FirstN(Strings(items, id), e.n))
    [] e.m = "set" -> R(SetValues(items, id, Utf8s(<<e.v>>)), <<>>)
    [] e.m = "setall" -> R(SetValues(items, id, Utf8s(e.vs)), <<>>)
    [] e.m = "add" -> R(AddAll(items, id, Utf8s(<<e.v>>)), <<>>)
    [] e.m = "addall" -> R(AddAll(items, id, Utf8s(e.vs)), <<>>)
    [] e.m = "remove" -> R(Drop(items, id), <<>>)

ArtField(items, id, e) ==
  CASE e.m = "get" -> R(items, SeqHead(Images(items, id)))
    [] e.m = "getall" -> R(items, Images(items, id))
    [] e.m = "take" -> R(Drop(items, id), SeqHead(Images(items, id)))
    [] e.m = "takeall" -> R(Drop(items, id), FirstN(Images(items, id), e.n))
    [] e.m = "set" -> R(SetValues(items, id, <<e.v>>), <<>>)
    [] e.m = "setall" -> R(SetValues(items, id, e.vs), <<>>)
    [] e.m = "add" -> R(AddAll(items, id, <<e.v>>), <<>>)
    [] e.m = "addall" -> R(AddAll(items, id, e.vs), <<>>)
    [] e.m = "remove" -> R(Drop(items, id), <<>>)

(* Fields of one coded or numeric value: what getting shows, and the value *)
(* that setting stores.                                                    *)
Shown(items, id, cls) ==
  CASE cls = "flag" -> FlagField(items, id)
    [] cls = "u16" -> Lead(items, id, 2)
    [] cls = "u32" -> Lead(items, id, 4)
    [] cls = "media" -> MediaField(items, id)
    [] cls = "rating" -> RatingField(items, id)
ToStore(cls, e) ==
  CASE cls = "flag" -> V_(21, <<1>>)
    [] cls \in {"u16", "u32"} -> V_(21, e.v)
    [] cls = "media" -> V_(0, <<MediaCodes[e.v + 1]>>)
    [] cls = "rating" -> V_(0, <<RatingCodes[e.v + 1]>>)

Field(items, e) ==
  LET f == FieldOf(e.fld)
      id == f.id
  IN  CASE f.cls \in {"single", "multi"} -> TextField(items, id, e)
        [] f.cls = "art" -> ArtField(items, id, e)
        [] e.m = "get" -> R(items, Shown(items, id, f.cls))
        [] e.m = "set" -> R(SetValues(items, id, <<ToStore(f.cls, e)>>), <<>>)
        [] e.m = "remove" -> R(Drop(items, id), <<>>)

-----------------------------------------------------------------------------
(* Track and disc (C13): halves of the first byte value, bytes 2-3 and     *)
(* 4-5; zero and missing is absent.                                        *)

HalfAt(b, k) == IF Len(b) < k + 2 \/ U16At(b, k) = 0 THEN <<>> ELSE <<U16At(b, k)>>
Half(items, id, k) ==
  LET b == FirstBytes(items, id) IN IF b = <<>> THEN <<>> ELSE HalfAt(b[1], k)

FirstByteIndex(vs) == CHOOSE i \in 1..Len(vs) : IsBytesType(vs[i].t) /\
                                                \A j \in 1..(i - 1) : ~IsBytesType(vs[j].t)

(* Write x at byte k of a value.  A value that ends within the number has  *)
(* no number, and doesn't get one when the total is set.                   *)
PutHalf(b, k, x) ==
  Overwrite(IF k = 4 /\ Len(b) < 4 THEN SubSeq(b, 1, Min2(2, Len(b))) ELSE b, k, Be16(x))

(* ... of the first byte value, if there is one *)
SetHalf(items, id, k, x) ==
  LET vs == Values(items, id)
      i == FirstByteIndex(vs)
  IN  SetValues(items, id, [vs EXCEPT ![i].v = PutHalf(@, k, x)])

HasBytesValue(items, id) == FirstBytes(items, id) # <<>>
NewPair(n, o) == V_(0, <<0, 0>> \o Be16(n) \o Be16(o))

SetPairHalf(items, id, k, x) ==
  IF HasBytesValue(items, id) THEN SetHalf(items, id, k, x)
  ELSE SetValues(items, id, <<IF k = 2 THEN NewPair(x, 0) ELSE NewPair(0, x)>>)

RemoveHalf(items, id, k) ==
  IF Half(items, id, 6 - k) # <<>> THEN SetHalf(items, id, k, 0) ELSE Drop(items, id)

PairOps(items, e) ==
  LET id == IF e.g = "track" THEN Id_track ELSE Id_disc
  IN  CASE e.m = "both" -> R(items, <<Half(items, id, 2), Half(items, id, 4)>>)
        [] e.m = "number" -> R(items, Half(items, id, 2))
        [] e.m = "total" -> R(items, Half(items, id, 4))
        [] e.m = "set" -> R(IF HasBytesValue(items, id)
                            THEN SetHalf(SetHalf(items, id, 4, e.o), id, 2, e.n)
                            ELSE SetValues(items, id, <<NewPair(e.n, e.o)>>), <<>>)
        [] e.m = "setnumber" -> R(SetPairHalf(items, id, 2, e.n), <<>>)
        [] e.m = "settotal" -> R(SetPairHalf(items, id, 4, e.n), <<>>)
        [] e.m = "remove" -> R(Drop(items, id), <<>>)
        [] e.m = "removenumber" -> R(RemoveHalf(items, id, 2), <<>>)
        [] e.m = "removetotal" -> R(RemoveHalf(items, id, 4), <<>>)

-----------------------------------------------------------------------------
(* Genres (C14) *)

IdStd == Id_standard_genre
IdCustom == FieldOf("custom_genre").id

StdCodes(items) ==
  MapSeq(LAMBDA b : U16At(b, 0),
         SelectSeq(Views("bytes", Values(items, IdStd)), LAMBDA b : Len(b) >= 2))
StdNames(items) ==
  MapSeq(LAMBDA c : GenreNames[c], SelectSeq(StdCodes(items), LAMBDA c : c >= 1 /\ c <= Len(GenreNames)))
Genres(items) == StdNames(items) \o Strings(items, IdCustom)

StdValues(cs) == MapSeq(LAMBDA c : V_(0, Be16(c)), cs)

GenreOps(items, e) ==
  CASE e.m = "std" -> R(items, SeqHead(StdCodes(items)))
    [] e.m = "stds" -> R(items, StdCodes(items))
    [] e.m = "setstd" -> R(SetValues(items, IdStd, StdValues(<<e.v>>)), <<>>)
    [] e.m = "setstds" -> R(SetValues(items, IdStd, StdValues(e.vs)), <<>>)
    [] e.m = "addstd" -> R(AddAll(items, IdStd, StdValues(<<e.v>>)), <<>>)
    [] e.m = "addstds" -> R(AddAll(items, IdStd, StdValues(e.vs)), <<>>)
    [] e.m = "removestds" -> R(Drop(items, IdStd), <<>>)
    [] e.m = "get" -> R(items, SeqHead(Genres(items)))
    [] e.m = "getall" -> R(items, Genres(items))
    [] e.m = "take" -> R(Drop(items, IdCustom), SeqHead(Genres(items)))
    [] e.m = "takeall" -> R(Drop(items, IdCustom), FirstN(Genres(items), e.n))
    [] e.m = "set" -> R(Drop(SetValues(items, IdCustom, Utf8s(<<e.v>>)), IdStd), <<>>)
    [] e.m = "setall" -> R(Drop(SetValues(items, IdCustom, Utf8s(e.vs)), IdStd), <<>>)
    [] e.m = "add" -> R(AddAll(items, IdCustom, Utf8s(<<e.v>>)), <<>>)
    [] e.m = "remove" -> R(Drop(Drop(items, IdStd), IdCustom), <<>>)

Apply(items, e) ==
  CASE e.g = "c" -> Collection(items, e)
    [] e.g = "f" -> Field(items, e)
    [] e.g \in {"track", "disc"} -> PairOps(items, e)
    [] e.g = "genre" -> GenreOps(items, e)

-----------------------------------------------------------------------------
(* Views of one value (C20) *)

StoredLen(d) == Len(RawOf(d))
Opt(b, x) == IF b THEN <<x>> ELSE <<>>
Bit(b) == IF b THEN 1 ELSE 0

ViewsOf(d) ==
  LET by == IsBytesType(d.t)
      tx == IsTextType(d.t)
      im == IsImageType(d.t)
  IN [ len |-> Be32(StoredLen(d)), is_empty |-> Bit(StoredLen(d) = 0), stored |-> StoredLen(d),
       is_bytes |-> Bit(by), is_string |-> Bit(tx), is_image |-> Bit(im),
       is_reserved |-> Bit(d.t = 0), is_utf8 |-> Bit(d.t = 1), is_utf16 |-> Bit(d.t = 2),
       is_jpeg |-> Bit(d.t = 13), is_png |-> Bit(d.t = 14), is_be_signed |-> Bit(d.t = 21),
       is_bmp |-> Bit(d.t = 27),
       bytes |-> Opt(by, d.v), bytes_mut |-> Opt(by, d.v), into_bytes |-> Opt(by, d.v),
       string |-> Opt(tx, d.v), string_mut |-> Opt(tx, d.v), into_string |-> Opt(tx, d.v),
       image |-> Opt(im, d), image_mut |-> Opt(im, d), into_image |-> Opt(im, d),
       image_data |-> Opt(im, d.v), image_data_mut |-> Opt(im, d.v), into_image_data |-> Opt(im, d.v),
       reserved |-> Opt(d.t = 0, d.v), utf8 |-> Opt(d.t = 1, d.v), utf16 |-> Opt(d.t = 2, d.v),
       jpeg |-> Opt(d.t = 13, d.v), png |-> Opt(d.t = 14, d.v), be_signed |-> Opt(d.t = 21, d.v),
       bmp |-> Opt(d.t = 27, d.v), after |-> d,
       grown |-> [d EXCEPT !.v = Append(@, IF tx THEN 55 ELSE 7)],
       grownimg |-> IF im THEN [d EXCEPT !.v = Append(@, 9)] ELSE d,
       fromimg |-> Opt(im, d),
       fmts |-> Opt(im, <<Bit(d.t = 13), Bit(d.t = 14), Bit(d.t = 27)>>) ]

-----------------------------------------------------------------------------
(* Code tables (C18).  Enumerations are given by position.                 *)

Lookup(codes, c) == IndexIn(codes, c)
PosCodes == [i \in 1..7 |-> i]                                  \* channel configurations 1..7
RateCodes == [i \in 1..13 |-> i - 1]

FieldIdent(n) == FieldOf(n).id
OneValue(id, t, b) == <<[id |-> id, v |-> V_(t, b)]>>

-----------------------------------------------------------------------------
(* The listing (C19) *)

Nl == <<10>>
RECURSIVE DecDigits(_)
DecDigits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecDigits(n \div 10), 48 + (n % 10))

(* quotient (normalised) and remainder of a base-256 natural by k < 2^22 *)
RECURSIVE NatDivFrom(_, _, _, _, _)
NatDivFrom(a, k, i, r, q) ==
  IF i > Len(a) THEN [q |-> NatNorm(q), r |-> r]
  ELSE LET x == r * 256 + a[i] IN NatDivFrom(a, k, i + 1, x % k, Append(q, x \div k))
NatDiv(a, k) == NatDivFrom(NatNorm(a), k, 1, 0, <<>>)

RECURSIVE NatDec(_)
NatDec(a) == LET d == NatDiv(a, 10)
             IN  IF d.q = <<>> THEN <<48 + d.r>> ELSE Append(NatDec(d.q), 48 + d.r)

Line(label, t) == label \o T_Sep \o t \o Nl
Head_(label) == label \o <<58>> \o Nl
IndentLines(ts) == Flat(MapSeq(LAMBDA t : T_Indent \o t \o Nl, ts))

OneOrMore(label, plural, ts) ==
  IF ts = <<>> THEN <<>>
  ELSE IF Len(ts) = 1 THEN Line(label, ts[1])
  ELSE Head_(plural) \o IndentLines(ts)

ListField(items, n) ==
  LET f == FieldOf(n)
  IN  CASE f.cls = "multi" -> OneOrMore(f.label, f.plural, Strings(items, f.id))
        [] f.cls = "single" -> IF Strings(items, f.id) = <<>> THEN <<>>
                               ELSE Line(f.label, Strings(items, f.id)[1])
        [] f.cls = "flag" -> IF FlagField(items, f.id) = 1 THEN f.label \o Nl ELSE <<>>
        [] f.cls \in {"u16", "u32"} ->
             LET x == Shown(items, f.id, f.cls) IN IF x = <<>> THEN <<>> ELSE Line(f.label, NatDec(x[1]))

ListPair(items, id, label) ==
  LET n == Half(items, id, 2)
      o == Half(items, id, 4)
  IN  IF n = <<>> /\ o = <<>> THEN <<>>
      ELSE label \o (IF n = <<>> THEN T_Unknown ELSE DecDigits(n[1])) \o
           (IF o = <<>> THEN <<>> ELSE T_Of \o DecDigits(o[1])) \o Nl

ImageText(d) ==
  (CASE d.t = 13 -> T_Jpeg [] d.t = 14 -> T_Png [] d.t = 27 -> T_Bmp) \o
  \* (z: as many further bytes, which the listing doesn't show)
  (LET k == Len(d.v) + (IF "z" \in DOMAIN d THEN d.z ELSE 0)
   IN  IF k < 1024 THEN DecDigits(k)
       ELSE IF k < 1048576 THEN DecDigits(k \div 1024) \o <<107>>
       ELSE DecDigits(k \div 1048576) \o <<77>>)

ListArt(items) ==
  LET ts == MapSeq(LAMBDA d : ImageText(d), Images(items, FieldIdent("artwork")))
  IN  IF ts = <<>> THEN <<>>
      ELSE IF Len(ts) = 1 THEN T_Artwork \o ts[1] \o Nl
      ELSE T_Artworks \o Nl \o IndentLines(ts)

Two(n) == IF n < 10 THEN <<48>> \o DecDigits(n) ELSE DecDigits(n)

DurationText(d) ==
  LET m == NatDiv(d.s, 60)
      h == NatDiv(m.q, 60)
      n == NatToInt(d.n)
  IN  IF h.q # <<>> THEN NatDec(h.q) \o <<58>> \o Two(h.r) \o <<58>> \o Two(m.r)
      ELSE IF h.r # 0 THEN DecDigits(h.r) \o <<58>> \o Two(m.r)
      ELSE IF m.r # 0 THEN DecDigits(m.r) \o <<115>>
      ELSE IF n >= 1000000 THEN DecDigits(n \div 1000000) \o T_Ms
      ELSE IF n >= 1000 THEN DecDigits(n \div 1000) \o T_Us
      ELSE DecDigits(n) \o T_Ns

RateText(b) == NatDec(NatDiv(b, 1024).q) \o T_Kbps

ListInfo(info) ==
  (IF info.dur = <<>> THEN <<>> ELSE T_Duration \o DurationText(info.dur[1]) \o Nl) \o
  (IF info.ch < 1 THEN <<>> ELSE T_Channel \o ChannelNames[info.ch] \o Nl) \o
  (IF info.sr < 0 THEN <<>> ELSE T_Rate \o DecDigits(Hertz[info.sr + 1]) \o T_HzUnit \o Nl) \o
  (IF info.avgb = <<>> THEN <<>> ELSE T_AvgRate \o RateText(info.avgb) \o Nl) \o
  (IF info.maxb = <<>> THEN <<>> ELSE T_MaxRate \o RateText(info.maxb) \o Nl)

(* The debug form of a text: only used for characters in 0..127 and for    *)
(* printable ones above.                                                   *)
HexDigit(x) == IF x < 10 THEN 48 + x ELSE 87 + x
Quoted(c) ==
  CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 9 -> <<92, 116>> [] c = 10 -> <<92, 110>>
    [] c = 13 -> <<92, 114>> [] c = 0 -> <<92, 48>>
    [] (c < 32 \/ c = 127) /\ c \notin {0, 9, 10, 13} ->
         <<92, 117, 123>> \o (IF c < 16 THEN <<HexDigit(c)>> ELSE <<HexDigit(c \div 16), HexDigit(c % 16)>>) \o <<125>>
    [] OTHER -> <<c>>
QuotedText(t) == <<34>> \o Flat(MapSeq(LAMBDA c : Quoted(c), t)) \o <<34>>
BytesText(b) == <<91>> \o Flat([i \in 1..Len(b) |-> (IF i = 1 THEN <<>> ELSE <<44, 32>>) \o DecDigits(b[i])]) \o <<93>>
DebugText(d) ==
  CASE d.t = 0 -> T_DReserved \o BytesText(d.v) \o <<41>>
    [] d.t = 1 -> T_DUtf8 \o QuotedText(d.v) \o <<41>>
    [] d.t = 2 -> T_DUtf16 \o QuotedText(d.v) \o <<41>>
    [] d.t = 21 -> T_DSigned \o BytesText(d.v) \o <<41>>
    [] d.t = 13 -> T_DJpeg [] d.t = 14 -> T_DPng [] d.t = 27 -> T_DBmp

ListFree(items) ==
  Flat(MapSeq(LAMBDA it : IF it.id.k # "x" THEN <<>>
                          ELSE T_Free \o it.id.mean \o <<58>> \o it.id.name \o <<58>> \o Nl \o
                               IndentLines(MapSeq(LAMBDA d : DebugText(d), it.data)), items))

Listing(ftyp, info, items) ==
  LET F(n) == ListField(items, n)
      rating == RatingField(items, FieldIdent("advisory_rating"))
      media == MediaField(items, FieldIdent("media_type"))
  IN  F("album_artist") \o F("artist") \o F("composer") \o F("lyricist") \o F("album") \o F("title") \o
      OneOrMore(T_Genre, T_Genres, Genres(items)) \o F("year") \o
      ListPair(items, Id_track, T_Track) \o ListPair(items, Id_disc, T_Disc) \o ListArt(items) \o
      (IF rating = <<>> THEN <<>> ELSE T_Rating \o RatingNames[rating[1] + 1] \o Nl) \o
      (IF media = <<>> THEN <<>> ELSE T_Media \o MediaNames[media[1] + 1] \o Nl) \o
      F("grouping") \o F("description") \o F("comment") \o F("category") \o F("keyword") \o
      F("copyright") \o F("encoder") \o F("tv_show_name") \o F("tv_network_name") \o
      F("tv_episode_name") \o F("tv_episode") \o F("tv_season") \o F("bpm") \o F("movement") \o
      F("work") \o F("movement_count") \o F("movement_index") \o
      ListInfo(info) \o
      F("show_movement") \o F("gapless_playback") \o F("compilation") \o F("isrc") \o F("lyrics") \o
      ListFree(items) \o T_FileType \o ftyp \o Nl
-----------------------------------------------------------------------------
(* Identifiers (C21) *)

CodeOf(id) == IF id.k = "f" THEN <<id.b>> ELSE <<>>
NamesOf(id) == IF id.k = "x" THEN <<<<id.mean, id.name>>>> ELSE <<>>
Same(a, b) == CodeOf(a) = CodeOf(b) /\ NamesOf(a) = NamesOf(b)
(* Bytes are shown as the characters of those numbers. *)
IdentText(id) == IF id.k = "f" THEN id.b ELSE T_Free \o id.mean \o <<58>> \o id.name
IdentDebug(id) == IF id.k = "f" THEN <<T_Fourcc \o id.b \o <<41>>>> ELSE <<>>
=============================================================================
