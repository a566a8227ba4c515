------------------------------- MODULE TraceTag --------------------------------
(***************************************************************************)
(* Executions of the tag interface as behaviours of TagModel.  The state   *)
(* is the item collection; it follows what was observed, and each clause   *)
(* of the property Focus that a step violates is printed (REJECT).         *)
(***************************************************************************)
EXTENDS TagModel, TLC, Json, IOUtils

CONSTANT Focus

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, items
vars == <<l, items>>

Init == TLCSet(1, <<>>) /\ l = 1 /\ items = <<>>

Cl(name, applies, holds) == IF ~applies THEN {} ELSE {<<name, holds>>}
On(p) == Focus = "all" \/ Focus = p

PropOf(e) == CASE e.g = "c" -> "C11" [] e.g = "f" -> "C12" [] e.g \in {"track", "disc"} -> "C13"
               [] e.g = "genre" -> "C14"

(* Outcome, state, result; no empty or duplicate items (count: the number  *)
(* of item boxes in a dump of the tag), emptiness.                         *)
OpClauses(e) ==
  LET p == PropOf(e)
      ok == e.st = "ok"
      x == Apply(items, e)
  IN  Cl(p \o ".outcome", TRUE, ok)
      \cup Cl(p \o ".result", ok, e.ret = x.ret)
      \cup Cl(p \o ".items", ok, e.items = x.items)
      \cup Cl(p \o ".valid", ok, Valid(e.items))
      \cup Cl(p \o ".count", ok /\ e.count # <<>>, e.count[1] = Len(x.items))
      \cup Cl(p \o ".empty", ok, e.empty = (x.items = <<>>))

ViewClauses(e) ==
  LET w == ViewsOf(e.v)
      ok == e.st = "ok"
  IN  Cl("C20.outcome", TRUE, ok)
      \cup Cl("C20.bytes", ok, \A k \in {"is_bytes", "bytes", "bytes_mut", "into_bytes"} : e.views[k] = w[k])
      \cup Cl("C20.text", ok, \A k \in {"is_string", "string", "string_mut", "into_string"} : e.views[k] = w[k])
      \cup Cl("C20.image", ok, \A k \in {"is_image", "image", "image_mut", "into_image", "image_data",
                                          "image_data_mut", "into_image_data", "fromimg", "fmts"} :
                                  e.views[k] = w[k])
      \cup Cl("C20.type", ok, \A k \in {"is_reserved", "is_utf8", "is_utf16", "is_jpeg", "is_png",
                                         "is_be_signed", "is_bmp", "reserved", "utf8", "utf16", "jpeg",
                                         "png", "be_signed", "bmp"} : e.views[k] = w[k])
      \cup Cl("C20.length", ok, e.views.len = w.len /\ e.views.stored = w.stored
                                /\ e.views.is_empty = w.is_empty)
      \cup Cl("C20.unchanged", ok, e.views.after = w.after)
      \cup Cl("C20.mutable", ok, e.views.grown = w.grown /\ e.views.grownimg = w.grownimg)

(* One byte as code of every kind. *)
CodeClauses(e) ==
  LET c == e.c
      w == e.codes
      ok == e.st = "ok"
      media == Lookup(MediaCodes, c)
      chan == Lookup(PosCodes, c)
      rate == Lookup(RateCodes, c)
      rating == RatingOf(c)
      err(k) == [k |-> k, a |-> <<c>>, c |-> <<>>]
      ImgTypes == <<13, 14, 27>>
  IN  Cl("C18.outcome", TRUE, ok)
      \cup Cl("C18.media", ok, /\ w.media = media /\ w.mediatag = media
                               /\ w.mediaerr = (IF media = <<>> THEN <<err("UnknownMediaType")>> ELSE <<>>)
                               /\ w.medianame = (IF media = <<>> THEN <<>> ELSE <<MediaNames[media[1] + 1]>>))
      \cup Cl("C18.mediaset", ok, w.mediaset = IF c < Len(MediaCodes)
                                    THEN OneValue(FieldIdent("media_type"), 0, <<MediaCodes[c + 1]>>) ELSE <<>>)
      \cup Cl("C18.rating", ok, /\ w.rating = rating /\ w.ratingtag = <<rating>>
                                /\ w.ratingname = RatingNames[rating + 1])
      \cup Cl("C18.ratingset", ok, w.ratingset = IF c < Len(RatingCodes)
                                    THEN OneValue(FieldIdent("advisory_rating"), 0, <<RatingCodes[c + 1]>>) ELSE <<>>)
      \cup Cl("C18.channel", ok, /\ w.chan = chan
                                 /\ w.count = (IF chan = <<>> THEN <<>> ELSE <<ChannelCodes[chan[1] + 1]>>)
                                 /\ w.channame = (IF chan = <<>> THEN <<>> ELSE <<ChannelNames[chan[1] + 1]>>)
                                 /\ (w.chanerr = <<>>) = (chan # <<>>))
      \cup Cl("C18.rate", ok, /\ w.rate = rate
                              /\ w.hz = (IF rate = <<>> THEN <<>> ELSE <<Hertz[rate[1] + 1]>>)
                              /\ w.ratename = (IF rate = <<>> THEN <<>>
                                               ELSE <<DecDigits(Hertz[rate[1] + 1]) \o T_HzUnit>>)
                              /\ (w.rateerr = <<>>) = (rate # <<>>))
      \cup Cl("C18.image", ok, w.imgset = IF c < 3 THEN OneValue(FieldIdent("artwork"), ImgTypes[c + 1], <<c>>)
                                          ELSE <<>>)

GenreTable(e) == e.codes.genre = IF e.c < Len(GenreNames) THEN <<GenreNames[e.c + 1]>> ELSE <<>>

DisplayClauses(e) ==
  LET ok == e.st = "ok"
      load == LoadFrom(<<>>, e.items, 1)
  IN  Cl("C19.outcome", TRUE, ok)
      \cup Cl("C19.text", ok, e.text = Listing(e.ftyp, e.info, load))
      \cup Cl("C19.unchanged", ok, e.same)

(* Two identifiers in all their forms. *)
AllAre(s, x) == \A i \in 1..Len(s) : s[i] = x
IdentClauses(e) ==
  LET ok == e.st = "ok"
      w == e.seen
      same == IF Same(e.a, e.b) THEN 1 ELSE 0
  IN  Cl("C21.outcome", TRUE, ok)
      \cup Cl("C21.equal", ok, AllAre(w.eq, same) /\ AllAre(w.ne, 1 - same))
      \cup Cl("C21.found", ok, AllAre(w.found, same) /\ AllAre(w.removed, same))
      \cup Cl("C21.form", ok, /\ AllAre(w.code, CodeOf(e.a)) /\ AllAre(w.free, NamesOf(e.a))
                              /\ AllAre(w.conv, e.a)
                              /\ w.raw = IF e.a.k = "f" THEN <<e.a.b, e.a.b, e.a.b>> ELSE <<>>)
      \cup Cl("C21.text", ok, AllAre(w.shown, IdentText(e.a)) /\ w.debug = IdentDebug(e.a))

(* Two tags, and copies of them. *)
TwinClauses(e) ==
  LET ok == e.st = "ok"
      w == e.seen
      a == Loaded(e.a)
      b == Loaded(e.b)
      bit(x) == IF x THEN 1 ELSE 0
      va == Pairs(a.items)
      vb == Pairs(b.items)
      n == Len(vb)
      each(f(_, _)) == [k \in 1..(Len(va) * n) |-> bit(f(va[(k - 1) \div n + 1].v, vb[((k - 1) % n) + 1].v))]
  IN  Cl("C22.outcome", TRUE, ok)
      \cup Cl("C22.tags", ok, AllAre(w.eq, bit(SameTag(a, b))) /\ AllAre(w.info, bit(SameInfo(a.info, b.info))))
      \cup Cl("C22.values", ok /\ va # <<>> /\ vb # <<>>, w.values = each(SameValue) /\ w.images = each(SameImage))
      \cup Cl("C22.copies", ok, AllAre(w.own, 1) /\ \A i \in 1..Len(w.copies) : SameTag(w.copies[i], a))

ConstClauses(e) == Cl("C21.names", TRUE, e.st = "ok" /\ e.seen.list = ConstList /\ e.seen.mean = T_Itunes)

(* How often each clause applied is counted in register 1. *)
Counted(c) == LET m == TLCGet(1)
              IN  TLCSet(1, (c :> (IF c \in DOMAIN m THEN m[c] + 1 ELSE 1)) @@ m)

(* (Compared with TRUE, so that it is evaluated, once, and not explored as  *)
(* alternatives of an action.)                                             *)
Report(e, cs) ==
  (\A c \in cs : (IF c[2] THEN TRUE ELSE PrintT(<<"REJECT", l, c[1]>>)) /\ Counted(c[1])) = TRUE

Next ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET e == Log[l]
     IN  CASE e.op = "begin" -> items' = <<>>
           [] e.op = "t" -> /\ (IF On(PropOf(e)) THEN Report(e, OpClauses(e)) ELSE TRUE)
                            /\ items' = e.items
           [] e.op = "views" -> (IF On("C20") THEN Report(e, ViewClauses(e)) ELSE TRUE) /\ UNCHANGED items
           [] e.op = "codes" -> /\ (IF On("C18") THEN Report(e, CodeClauses(e)) ELSE TRUE)
                                /\ (IF On("C14") /\ e.st = "ok"
                                    THEN Report(e, Cl("C14.table", TRUE, GenreTable(e))) ELSE TRUE)
                                /\ UNCHANGED items
           [] e.op = "idents" -> (IF On("C21") THEN Report(e, IdentClauses(e)) ELSE TRUE) /\ UNCHANGED items
           [] e.op = "twins" -> (IF On("C22") THEN Report(e, TwinClauses(e)) ELSE TRUE) /\ UNCHANGED items
           [] e.op = "consts" -> (IF On("C21") THEN Report(e, ConstClauses(e)) ELSE TRUE) /\ UNCHANGED items
           [] e.op = "display" -> (IF On("C19") THEN Report(e, DisplayClauses(e)) ELSE TRUE) /\ UNCHANGED items

Spec == Init /\ [][Next]_vars
Consumed ==
  /\ PrintT(<<"CLAUSES", ToJson(TLCGet(1))>>)
  /\ PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Log)>>)
=============================================================================
