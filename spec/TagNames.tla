------------------------------- MODULE TagNames -------------------------------
(* Generated by tools/gen_names.py; the documented names, identifiers and codes. *)
FieldList == <<
  [fld |-> "album", cls |-> "single", id |-> [k |-> "f", b |-> <<169,97,108,98>>, mean |-> <<>>, name |-> <<>>], label |-> <<97,108,98,117,109>>, plural |-> <<>>],
  [fld |-> "copyright", cls |-> "single", id |-> [k |-> "f", b |-> <<99,112,114,116>>, mean |-> <<>>, name |-> <<>>], label |-> <<99,111,112,121,114,105,103,104,116>>, plural |-> <<>>],
  [fld |-> "encoder", cls |-> "single", id |-> [k |-> "f", b |-> <<169,116,111,111>>, mean |-> <<>>, name |-> <<>>], label |-> <<101,110,99,111,100,101,114>>, plural |-> <<>>],
  [fld |-> "lyrics", cls |-> "single", id |-> [k |-> "f", b |-> <<169,108,121,114>>, mean |-> <<>>, name |-> <<>>], label |-> <<108,121,114,105,99,115>>, plural |-> <<>>],
  [fld |-> "movement", cls |-> "single", id |-> [k |-> "f", b |-> <<169,109,118,110>>, mean |-> <<>>, name |-> <<>>], label |-> <<109,111,118,101,109,101,110,116>>, plural |-> <<>>],
  [fld |-> "title", cls |-> "single", id |-> [k |-> "f", b |-> <<169,110,97,109>>, mean |-> <<>>, name |-> <<>>], label |-> <<116,105,116,108,101>>, plural |-> <<>>],
  [fld |-> "tv_episode_name", cls |-> "single", id |-> [k |-> "f", b |-> <<116,118,101,110>>, mean |-> <<>>, name |-> <<>>], label |-> <<116,118,32,101,112,105,115,111,100,101,32,110,97,109,101>>, plural |-> <<>>],
  [fld |-> "tv_network_name", cls |-> "single", id |-> [k |-> "f", b |-> <<116,118,110,110>>, mean |-> <<>>, name |-> <<>>], label |-> <<116,118,32,110,101,116,119,111,114,107,32,110,97,109,101>>, plural |-> <<>>],
  [fld |-> "tv_show_name", cls |-> "single", id |-> [k |-> "f", b |-> <<116,118,115,104>>, mean |-> <<>>, name |-> <<>>], label |-> <<116,118,32,115,104,111,119,32,110,97,109,101>>, plural |-> <<>>],
  [fld |-> "work", cls |-> "single", id |-> [k |-> "f", b |-> <<169,119,114,107>>, mean |-> <<>>, name |-> <<>>], label |-> <<119,111,114,107>>, plural |-> <<>>],
  [fld |-> "year", cls |-> "single", id |-> [k |-> "f", b |-> <<169,100,97,121>>, mean |-> <<>>, name |-> <<>>], label |-> <<121,101,97,114>>, plural |-> <<>>],
  [fld |-> "isrc", cls |-> "single", id |-> [k |-> "x", b |-> <<>>, mean |-> <<99,111,109,46,97,112,112,108,101,46,105,84,117,110,101,115>>, name |-> <<73,83,82,67>>], label |-> <<105,115,114,99>>, plural |-> <<>>],
  [fld |-> "album_artist", cls |-> "multi", id |-> [k |-> "f", b |-> <<97,65,82,84>>, mean |-> <<>>, name |-> <<>>], label |-> <<97,108,98,117,109,32,97,114,116,105,115,116>>, plural |-> <<97,108,98,117,109,32,97,114,116,105,115,116,115>>],
  [fld |-> "artist", cls |-> "multi", id |-> [k |-> "f", b |-> <<169,65,82,84>>, mean |-> <<>>, name |-> <<>>], label |-> <<97,114,116,105,115,116>>, plural |-> <<97,114,116,105,115,116,115>>],
  [fld |-> "category", cls |-> "multi", id |-> [k |-> "f", b |-> <<99,97,116,103>>, mean |-> <<>>, name |-> <<>>], label |-> <<99,97,116,101,103,111,114,121>>, plural |-> <<99,97,116,101,103,111,114,105,101,115>>],
  [fld |-> "comment", cls |-> "multi", id |-> [k |-> "f", b |-> <<169,99,109,116>>, mean |-> <<>>, name |-> <<>>], label |-> <<99,111,109,109,101,110,116>>, plural |-> <<99,111,109,109,101,110,116,115>>],
  [fld |-> "composer", cls |-> "multi", id |-> [k |-> "f", b |-> <<169,119,114,116>>, mean |-> <<>>, name |-> <<>>], label |-> <<99,111,109,112,111,115,101,114>>, plural |-> <<99,111,109,112,111,115,101,114,115>>],
  [fld |-> "custom_genre", cls |-> "multi", id |-> [k |-> "f", b |-> <<169,103,101,110>>, mean |-> <<>>, name |-> <<>>], label |-> <<99,117,115,116,111,109,32,103,101,110,114,101>>, plural |-> <<99,117,115,116,111,109,32,103,101,110,114,101,115>>],
  [fld |-> "description", cls |-> "multi", id |-> [k |-> "f", b |-> <<100,101,115,99>>, mean |-> <<>>, name |-> <<>>], label |-> <<100,101,115,99,114,105,112,116,105,111,110>>, plural |-> <<100,101,115,99,114,105,112,116,105,111,110,115>>],
  [fld |-> "grouping", cls |-> "multi", id |-> [k |-> "f", b |-> <<169,103,114,112>>, mean |-> <<>>, name |-> <<>>], label |-> <<103,114,111,117,112,105,110,103>>, plural |-> <<103,114,111,117,112,105,110,103,115>>],
  [fld |-> "keyword", cls |-> "multi", id |-> [k |-> "f", b |-> <<107,101,121,119>>, mean |-> <<>>, name |-> <<>>], label |-> <<107,101,121,119,111,114,100>>, plural |-> <<107,101,121,119,111,114,100,115>>],
  [fld |-> "lyricist", cls |-> "multi", id |-> [k |-> "x", b |-> <<>>, mean |-> <<99,111,109,46,97,112,112,108,101,46,105,84,117,110,101,115>>, name |-> <<76,89,82,73,67,73,83,84>>], label |-> <<108,121,114,105,99,105,115,116>>, plural |-> <<108,121,114,105,99,105,115,116,115>>],
  [fld |-> "compilation", cls |-> "flag", id |-> [k |-> "f", b |-> <<99,112,105,108>>, mean |-> <<>>, name |-> <<>>], label |-> <<99,111,109,112,105,108,97,116,105,111,110>>, plural |-> <<>>],
  [fld |-> "gapless_playback", cls |-> "flag", id |-> [k |-> "f", b |-> <<112,103,97,112>>, mean |-> <<>>, name |-> <<>>], label |-> <<103,97,112,108,101,115,115,32,112,108,97,121,98,97,99,107>>, plural |-> <<>>],
  [fld |-> "show_movement", cls |-> "flag", id |-> [k |-> "f", b |-> <<115,104,119,109>>, mean |-> <<>>, name |-> <<>>], label |-> <<115,104,111,119,32,109,111,118,101,109,101,110,116>>, plural |-> <<>>],
  [fld |-> "bpm", cls |-> "u16", id |-> [k |-> "f", b |-> <<116,109,112,111>>, mean |-> <<>>, name |-> <<>>], label |-> <<98,112,109>>, plural |-> <<>>],
  [fld |-> "movement_count", cls |-> "u16", id |-> [k |-> "f", b |-> <<169,109,118,99>>, mean |-> <<>>, name |-> <<>>], label |-> <<109,111,118,101,109,101,110,116,32,99,111,117,110,116>>, plural |-> <<>>],
  [fld |-> "movement_index", cls |-> "u16", id |-> [k |-> "f", b |-> <<169,109,118,105>>, mean |-> <<>>, name |-> <<>>], label |-> <<109,111,118,101,109,101,110,116,32,105,110,100,101,120>>, plural |-> <<>>],
  [fld |-> "tv_episode", cls |-> "u32", id |-> [k |-> "f", b |-> <<116,118,101,115>>, mean |-> <<>>, name |-> <<>>], label |-> <<116,118,32,101,112,105,115,111,100,101>>, plural |-> <<>>],
  [fld |-> "tv_season", cls |-> "u32", id |-> [k |-> "f", b |-> <<116,118,115,110>>, mean |-> <<>>, name |-> <<>>], label |-> <<116,118,32,115,101,97,115,111,110>>, plural |-> <<>>],
  [fld |-> "artwork", cls |-> "art", id |-> [k |-> "f", b |-> <<99,111,118,114>>, mean |-> <<>>, name |-> <<>>], label |-> <<97,114,116,119,111,114,107>>, plural |-> <<97,114,116,119,111,114,107,115>>],
  [fld |-> "media_type", cls |-> "media", id |-> [k |-> "f", b |-> <<115,116,105,107>>, mean |-> <<>>, name |-> <<>>], label |-> <<109,101,100,105,97,32,116,121,112,101>>, plural |-> <<>>],
  [fld |-> "advisory_rating", cls |-> "rating", id |-> [k |-> "f", b |-> <<114,116,110,103>>, mean |-> <<>>, name |-> <<>>], label |-> <<97,100,118,105,115,111,114,121,32,114,97,116,105,110,103>>, plural |-> <<>>] >>
Id_track == [k |-> "f", b |-> <<116,114,107,110>>, mean |-> <<>>, name |-> <<>>]
Id_disc == [k |-> "f", b |-> <<100,105,115,107>>, mean |-> <<>>, name |-> <<>>]
Id_standard_genre == [k |-> "f", b |-> <<103,110,114,101>>, mean |-> <<>>, name |-> <<>>]
GenreNames == <<
  <<66,108,117,101,115>>,
  <<67,108,97,115,115,105,99,32,114,111,99,107>>,
  <<67,111,117,110,116,114,121>>,
  <<68,97,110,99,101>>,
  <<68,105,115,99,111>>,
  <<70,117,110,107>>,
  <<71,114,117,110,103,101>>,
  <<72,105,112,45,72,111,112>>,
  <<74,97,122,122>>,
  <<77,101,116,97,108>>,
  <<78,101,119,32,65,103,101>>,
  <<79,108,100,105,101,115>>,
  <<79,116,104,101,114>>,
  <<80,111,112>>,
  <<82,104,121,116,104,109,32,97,110,100,32,66,108,117,101,115>>,
  <<82,97,112>>,
  <<82,101,103,103,97,101>>,
  <<82,111,99,107>>,
  <<84,101,99,104,110,111>>,
  <<73,110,100,117,115,116,114,105,97,108>>,
  <<65,108,116,101,114,110,97,116,105,118,101>>,
  <<83,107,97>>,
  <<68,101,97,116,104,32,109,101,116,97,108>>,
  <<80,114,97,110,107,115>>,
  <<83,111,117,110,100,116,114,97,99,107>>,
  <<69,117,114,111,45,84,101,99,104,110,111>>,
  <<65,109,98,105,101,110,116>>,
  <<84,114,105,112,45,72,111,112>>,
  <<86,111,99,97,108>>,
  <<74,97,122,122,32,38,32,70,117,110,107>>,
  <<70,117,115,105,111,110>>,
  <<84,114,97,110,99,101>>,
  <<67,108,97,115,115,105,99,97,108>>,
  <<73,110,115,116,114,117,109,101,110,116,97,108>>,
  <<65,99,105,100>>,
  <<72,111,117,115,101>>,
  <<71,97,109,101>>,
  <<83,111,117,110,100,32,99,108,105,112>>,
  <<71,111,115,112,101,108>>,
  <<78,111,105,115,101>>,
  <<65,108,116,101,114,110,97,116,105,118,101,32,82,111,99,107>>,
  <<66,97,115,115>>,
  <<83,111,117,108>>,
  <<80,117,110,107>>,
  <<83,112,97,99,101>>,
  <<77,101,100,105,116,97,116,105,118,101>>,
  <<73,110,115,116,114,117,109,101,110,116,97,108,32,80,111,112>>,
  <<73,110,115,116,114,117,109,101,110,116,97,108,32,82,111,99,107>>,
  <<69,116,104,110,105,99>>,
  <<71,111,116,104,105,99>>,
  <<68,97,114,107,119,97,118,101>>,
  <<84,101,99,104,110,111,45,73,110,100,117,115,116,114,105,97,108>>,
  <<69,108,101,99,116,114,111,110,105,99>>,
  <<80,111,112,45,70,111,108,107>>,
  <<69,117,114,111,100,97,110,99,101>>,
  <<68,114,101,97,109>>,
  <<83,111,117,116,104,101,114,110,32,82,111,99,107>>,
  <<67,111,109,101,100,121>>,
  <<67,117,108,116>>,
  <<71,97,110,103,115,116,97>>,
  <<84,111,112,32,52,48>>,
  <<67,104,114,105,115,116,105,97,110,32,82,97,112>>,
  <<80,111,112,47,70,117,110,107>>,
  <<74,117,110,103,108,101>>,
  <<78,97,116,105,118,101,32,85,83>>,
  <<67,97,98,97,114,101,116>>,
  <<78,101,119,32,87,97,118,101>>,
  <<80,115,121,99,104,101,100,101,108,105,99>>,
  <<82,97,118,101>>,
  <<83,104,111,119,32,116,117,110,101,115>>,
  <<84,114,97,105,108,101,114>>,
  <<76,111,45,70,105>>,
  <<84,114,105,98,97,108>>,
  <<65,99,105,100,32,80,117,110,107>>,
  <<65,99,105,100,32,74,97,122,122>>,
  <<80,111,108,107,97>>,
  <<82,101,116,114,111>>,
  <<77,117,115,105,99,97,108>>,
  <<82,111,99,107,32,8217,110,8217,32,82,111,108,108>>,
  <<72,97,114,100,32,82,111,99,107>> >>
MediaNames == <<<<77,111,118,105,101>>, <<78,111,114,109,97,108>>, <<65,117,100,105,111,98,111,111,107>>, <<87,104,97,99,107,101,100,32,66,111,111,107,109,97,114,107>>, <<77,117,115,105,99,32,86,105,100,101,111>>, <<83,104,111,114,116,32,70,105,108,109>>, <<84,86,45,83,104,111,119>>, <<66,111,111,107,108,101,116>>>>
MediaCodes == <<0,1,2,5,6,9,10,11>>
RatingNames == <<<<67,108,101,97,110>>, <<73,110,111,102,102,101,110,115,105,118,101>>, <<69,120,112,108,105,99,105,116>>>>
RatingCodes == <<2,0,4>>
ChannelNames == <<<<77,111,110,111>>, <<83,116,101,114,101,111>>, <<51,46,48>>, <<52,46,48>>, <<53,46,48>>, <<53,46,49>>, <<55,46,49>>>>
ChannelCodes == <<1,2,3,4,5,6,8>>
Hertz == <<96000,88200,64000,48000,44100,32000,24000,22050,16000,12000,11025,8000,7350>>
ConstList == <<
  [n |-> "FREEFORM", id |-> [k |-> "f", b |-> <<45,45,45,45>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "ADVISORY_RATING", id |-> [k |-> "f", b |-> <<114,116,110,103>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "ALBUM", id |-> [k |-> "f", b |-> <<169,97,108,98>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "ALBUM_ARTIST", id |-> [k |-> "f", b |-> <<97,65,82,84>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "ARTIST", id |-> [k |-> "f", b |-> <<169,65,82,84>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "ARTWORK", id |-> [k |-> "f", b |-> <<99,111,118,114>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "BPM", id |-> [k |-> "f", b |-> <<116,109,112,111>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "COMMENT", id |-> [k |-> "f", b |-> <<169,99,109,116>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "COMPILATION", id |-> [k |-> "f", b |-> <<99,112,105,108>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "COMPOSER", id |-> [k |-> "f", b |-> <<169,119,114,116>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "COPYRIGHT", id |-> [k |-> "f", b |-> <<99,112,114,116>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "CUSTOM_GENRE", id |-> [k |-> "f", b |-> <<169,103,101,110>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "DISC_NUMBER", id |-> [k |-> "f", b |-> <<100,105,115,107>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "ENCODER", id |-> [k |-> "f", b |-> <<169,116,111,111>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "STANDARD_GENRE", id |-> [k |-> "f", b |-> <<103,110,114,101>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "TITLE", id |-> [k |-> "f", b |-> <<169,110,97,109>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "TRACK_NUMBER", id |-> [k |-> "f", b |-> <<116,114,107,110>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "YEAR", id |-> [k |-> "f", b |-> <<169,100,97,121>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "GROUPING", id |-> [k |-> "f", b |-> <<169,103,114,112>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "MEDIA_TYPE", id |-> [k |-> "f", b |-> <<115,116,105,107>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "CATEGORY", id |-> [k |-> "f", b |-> <<99,97,116,103>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "KEYWORD", id |-> [k |-> "f", b |-> <<107,101,121,119>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "PODCAST", id |-> [k |-> "f", b |-> <<112,99,115,116>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "PODCAST_EPISODE_GLOBAL_UNIQUE_ID", id |-> [k |-> "f", b |-> <<101,103,105,100>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "PODCAST_URL", id |-> [k |-> "f", b |-> <<112,117,114,108>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "DESCRIPTION", id |-> [k |-> "f", b |-> <<100,101,115,99>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "LYRICS", id |-> [k |-> "f", b |-> <<169,108,121,114>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "TV_EPISODE", id |-> [k |-> "f", b |-> <<116,118,101,115>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "TV_EPISODE_NAME", id |-> [k |-> "f", b |-> <<116,118,101,110>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "TV_NETWORK_NAME", id |-> [k |-> "f", b |-> <<116,118,110,110>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "TV_SEASON", id |-> [k |-> "f", b |-> <<116,118,115,110>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "TV_SHOW_NAME", id |-> [k |-> "f", b |-> <<116,118,115,104>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "PURCHASE_DATE", id |-> [k |-> "f", b |-> <<112,117,114,100>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "GAPLESS_PLAYBACK", id |-> [k |-> "f", b |-> <<112,103,97,112>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "MOVEMENT", id |-> [k |-> "f", b |-> <<169,109,118,110>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "MOVEMENT_COUNT", id |-> [k |-> "f", b |-> <<169,109,118,99>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "MOVEMENT_INDEX", id |-> [k |-> "f", b |-> <<169,109,118,105>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "WORK", id |-> [k |-> "f", b |-> <<169,119,114,107>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "SHOW_MOVEMENT", id |-> [k |-> "f", b |-> <<115,104,119,109>>, mean |-> <<>>, name |-> <<>>]],
  [n |-> "ISRC", id |-> [k |-> "x", b |-> <<>>, mean |-> <<99,111,109,46,97,112,112,108,101,46,105,84,117,110,101,115>>, name |-> <<73,83,82,67>>]],
  [n |-> "LYRICIST", id |-> [k |-> "x", b |-> <<>>, mean |-> <<99,111,109,46,97,112,112,108,101,46,105,84,117,110,101,115>>, name |-> <<76,89,82,73,67,73,83,84>>]] >>
T_Genre == <<103,101,110,114,101>>
T_Genres == <<103,101,110,114,101,115>>
T_Track == <<116,114,97,99,107,58,32>>
T_Disc == <<100,105,115,99,58,32>>
T_Of == <<32,111,102,32>>
T_Unknown == <<63>>
T_Artwork == <<97,114,116,119,111,114,107,58,32>>
T_Artworks == <<97,114,116,119,111,114,107,115,58>>
T_Rating == <<97,100,118,105,115,111,114,121,32,114,97,116,105,110,103,58,32>>
T_Media == <<109,101,100,105,97,32,116,121,112,101,58,32>>
T_Duration == <<100,117,114,97,116,105,111,110,58,32>>
T_Channel == <<99,104,97,110,110,101,108,32,99,111,110,102,105,103,58,32>>
T_Rate == <<115,97,109,112,108,101,32,114,97,116,101,58,32>>
T_AvgRate == <<97,118,101,114,97,103,101,32,98,105,116,114,97,116,101,58,32>>
T_MaxRate == <<109,97,120,105,109,117,109,32,98,105,116,114,97,116,101,58,32>>
T_Kbps == <<107,98,112,115>>
T_HzUnit == <<72,122>>
T_FileType == <<102,105,108,101,116,121,112,101,58,32>>
T_Free == <<45,45,45,45,58>>
T_DReserved == <<68,97,116,97,58,58,82,101,115,101,114,118,101,100,40>>
T_DUtf8 == <<68,97,116,97,58,58,85,116,102,56,40>>
T_DUtf16 == <<68,97,116,97,58,58,85,116,102,49,54,40>>
T_DSigned == <<68,97,116,97,58,58,66,101,83,105,103,110,101,100,40>>
T_DJpeg == <<68,97,116,97,58,58,74,112,101,103>>
T_DPng == <<68,97,116,97,58,58,80,110,103>>
T_DBmp == <<68,97,116,97,58,58,66,109,112>>
T_Jpeg == <<106,112,101,103,32>>
T_Png == <<112,110,103,32>>
T_Bmp == <<98,109,112,32>>
T_Ns == <<110,115>>
T_Us == <<181,115>>
T_Ms == <<109,115>>
T_Indent == <<32,32,32,32>>
T_Sep == <<58,32>>
T_Test == <<116,101,115,116>>
T_Fourcc == <<70,111,117,114,99,99,40>>
T_Itunes == <<99,111,109,46,97,112,112,108,101,46,105,84,117,110,101,115>>
===============================================================================
