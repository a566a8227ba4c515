#!/usr/bin/env python3
"""Writes spec/TagNames.tla: the documented names, identifiers, codes and texts of the library's
interface, as the specification needs them (texts are sequences of code points). The tables below
are the source; they are taken from the documentation (README, doc comments, iTunes and ID3v1
conventions), not from the code at run time."""
import os, sys

SINGLE = [("album", "\xa9alb"), ("copyright", "cprt"), ("encoder", "\xa9too"), ("lyrics", "\xa9lyr"),
          ("movement", "\xa9mvn"), ("title", "\xa9nam"), ("tv_episode_name", "tven"),
          ("tv_network_name", "tvnn"), ("tv_show_name", "tvsh"), ("work", "\xa9wrk"),
          ("year", "\xa9day"), ("isrc", ("com.apple.iTunes", "ISRC"))]
MULTI = [("album_artist", "aART", "album artists"), ("artist", "\xa9ART", "artists"),
         ("category", "catg", "categories"), ("comment", "\xa9cmt", "comments"),
         ("composer", "\xa9wrt", "composers"), ("custom_genre", "\xa9gen", "custom genres"),
         ("description", "desc", "descriptions"), ("grouping", "\xa9grp", "groupings"),
         ("keyword", "keyw", "keywords"), ("lyricist", ("com.apple.iTunes", "LYRICIST"), "lyricists")]
FLAG = [("compilation", "cpil"), ("gapless_playback", "pgap"), ("show_movement", "shwm")]
U16 = [("bpm", "tmpo"), ("movement_count", "\xa9mvc"), ("movement_index", "\xa9mvi")]
U32 = [("tv_episode", "tves"), ("tv_season", "tvsn")]
CUSTOM = [("artwork", "covr", "art", "artworks"), ("media_type", "stik", "media", ""),
          ("advisory_rating", "rtng", "rating", "")]
OTHER = [("track", "trkn"), ("disc", "disk"), ("standard_genre", "gnre")]

GENRES = ["Blues", "Classic rock", "Country", "Dance", "Disco", "Funk", "Grunge", "Hip-Hop", "Jazz",
  "Metal", "New Age", "Oldies", "Other", "Pop", "Rhythm and Blues", "Rap", "Reggae", "Rock", "Techno",
  "Industrial", "Alternative", "Ska", "Death metal", "Pranks", "Soundtrack", "Euro-Techno", "Ambient",
  "Trip-Hop", "Vocal", "Jazz & Funk", "Fusion", "Trance", "Classical", "Instrumental", "Acid", "House",
  "Game", "Sound clip", "Gospel", "Noise", "Alternative Rock", "Bass", "Soul", "Punk", "Space",
  "Meditative", "Instrumental Pop", "Instrumental Rock", "Ethnic", "Gothic", "Darkwave",
  "Techno-Industrial", "Electronic", "Pop-Folk", "Eurodance", "Dream", "Southern Rock", "Comedy",
  "Cult", "Gangsta", "Top 40", "Christian Rap", "Pop/Funk", "Jungle", "Native US", "Cabaret",
  "New Wave", "Psychedelic", "Rave", "Show tunes", "Trailer", "Lo-Fi", "Tribal", "Acid Punk",
  "Acid Jazz", "Polka", "Retro", "Musical", "Rock \u2019n\u2019 Roll", "Hard Rock"]
MEDIA = [("Movie", 0), ("Normal", 1), ("Audiobook", 2), ("Whacked Bookmark", 5), ("Music Video", 6),
         ("Short Film", 9), ("TV-Show", 10), ("Booklet", 11)]
RATINGS = [("Clean", 2), ("Inoffensive", 0), ("Explicit", 4)]
CHANNELS = [("Mono", 1), ("Stereo", 2), ("3.0", 3), ("4.0", 4), ("5.0", 5), ("5.1", 6), ("7.1", 8)]
HZ = [96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350]

# constants of the module `ident`
CONSTS = [("FREEFORM", "----"), ("ADVISORY_RATING", "rtng"), ("ALBUM", "\xa9alb"), ("ALBUM_ARTIST", "aART"),
  ("ARTIST", "\xa9ART"), ("ARTWORK", "covr"), ("BPM", "tmpo"), ("COMMENT", "\xa9cmt"), ("COMPILATION", "cpil"),
  ("COMPOSER", "\xa9wrt"), ("COPYRIGHT", "cprt"), ("CUSTOM_GENRE", "\xa9gen"), ("DISC_NUMBER", "disk"),
  ("ENCODER", "\xa9too"), ("STANDARD_GENRE", "gnre"), ("TITLE", "\xa9nam"), ("TRACK_NUMBER", "trkn"),
  ("YEAR", "\xa9day"), ("GROUPING", "\xa9grp"), ("MEDIA_TYPE", "stik"), ("CATEGORY", "catg"), ("KEYWORD", "keyw"),
  ("PODCAST", "pcst"), ("PODCAST_EPISODE_GLOBAL_UNIQUE_ID", "egid"), ("PODCAST_URL", "purl"),
  ("DESCRIPTION", "desc"), ("LYRICS", "\xa9lyr"), ("TV_EPISODE", "tves"), ("TV_EPISODE_NAME", "tven"),
  ("TV_NETWORK_NAME", "tvnn"), ("TV_SEASON", "tvsn"), ("TV_SHOW_NAME", "tvsh"), ("PURCHASE_DATE", "purd"),
  ("GAPLESS_PLAYBACK", "pgap"), ("MOVEMENT", "\xa9mvn"), ("MOVEMENT_COUNT", "\xa9mvc"),
  ("MOVEMENT_INDEX", "\xa9mvi"), ("WORK", "\xa9wrk"), ("SHOW_MOVEMENT", "shwm"),
  ("ISRC", ("com.apple.iTunes", "ISRC")), ("LYRICIST", ("com.apple.iTunes", "LYRICIST"))]

TEXTS = {
  "Genre": "genre", "Genres": "genres", "Track": "track: ", "Disc": "disc: ", "Of": " of ", "Unknown": "?",
  "Artwork": "artwork: ", "Artworks": "artworks:", "Rating": "advisory rating: ", "Media": "media type: ",
  "Duration": "duration: ", "Channel": "channel config: ", "Rate": "sample rate: ",
  "AvgRate": "average bitrate: ", "MaxRate": "maximum bitrate: ", "Kbps": "kbps", "HzUnit": "Hz",
  "FileType": "filetype: ", "Free": "----:", "DReserved": "Data::Reserved(", "DUtf8": "Data::Utf8(",
  "DUtf16": "Data::Utf16(", "DSigned": "Data::BeSigned(", "DJpeg": "Data::Jpeg", "DPng": "Data::Png",
  "DBmp": "Data::Bmp", "Jpeg": "jpeg ", "Png": "png ", "Bmp": "bmp ", "Ns": "ns", "Us": "\xb5s", "Ms": "ms",
  "Indent": "    ", "Sep": ": ", "Test": "test",
  "Fourcc": "Fourcc(", "Itunes": "com.apple.iTunes",
}

def seq(xs): return "<<" + ",".join(str(x) for x in xs) + ">>"
def text(s): return seq(ord(c) for c in s)
def ident(i):
    if isinstance(i, tuple):
        return '[k |-> "x", b |-> <<>>, mean |-> %s, name |-> %s]' % (text(i[0]), text(i[1]))
    return '[k |-> "f", b |-> %s, mean |-> <<>>, name |-> <<>>]' % seq(i.encode("latin-1"))

def field(n, cls, i, plural=""):
    return '[fld |-> "%s", cls |-> "%s", id |-> %s, label |-> %s, plural |-> %s]' % (
        n, cls, ident(i), text(n.replace("_", " ")), text(plural))

fields = [field(n, "single", i) for n, i in SINGLE] + [field(n, "multi", i, p) for n, i, p in MULTI] \
    + [field(n, "flag", i) for n, i in FLAG] + [field(n, "u16", i) for n, i in U16] \
    + [field(n, "u32", i) for n, i in U32] + [field(n, c, i, p) for n, i, c, p in CUSTOM]

out = ["------------------------------- MODULE TagNames -------------------------------",
       "(* Generated by tools/gen_names.py; the documented names, identifiers and codes. *)"]
out += ["FieldList == <<\n  " + ",\n  ".join(fields) + " >>"]
for n, i in OTHER:
    out.append("Id_%s == %s" % (n, ident(i)))
out.append("GenreNames == <<\n  " + ",\n  ".join(text(g) for g in GENRES) + " >>")
for name, tab in (("Media", MEDIA), ("Rating", RATINGS), ("Channel", CHANNELS)):
    out.append("%sNames == <<%s>>" % (name, ", ".join(text(n) for n, _ in tab)))
    out.append("%sCodes == %s" % (name, seq(c for _, c in tab)))
out.append("Hertz == %s" % seq(HZ))
out.append("ConstList == <<\n  " + ",\n  ".join('[n |-> "%s", id |-> %s]' % (n, ident(i)) for n, i in CONSTS) + " >>")
for n, t in TEXTS.items():
    out.append("T_%s == %s" % (n, text(t)))
out.append("=" * 79)
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "TagNames.tla")
open(p, "w").write("\n".join(out) + "\n")
