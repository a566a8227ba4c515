------------------------------- MODULE Mp4Names -------------------------------
(* Four-character codes as byte strings. *)
CFtyp == <<102,116,121,112>>
CMoov == <<109,111,111,118>>
CMdat == <<109,100,97,116>>
CMvhd == <<109,118,104,100>>
CTrak == <<116,114,97,107>>
CMdia == <<109,100,105,97>>
CMinf == <<109,105,110,102>>
CStbl == <<115,116,98,108>>
CStsd == <<115,116,115,100>>
CStco == <<115,116,99,111>>
CCo64 == <<99,111,54,52>>
CMp4a == <<109,112,52,97>>
CEsds == <<101,115,100,115>>
CUdta == <<117,100,116,97>>
CMeta == <<109,101,116,97>>
CHdlr == <<104,100,108,114>>
CIlst == <<105,108,115,116>>
CData == <<100,97,116,97>>
CMean == <<109,101,97,110>>
CName == <<110,97,109,101>>
CFree == <<102,114,101,101>>
CDash == <<45,45,45,45>>                  \* ----
=============================================================================
