-------------------------------- MODULE Info --------------------------------
(* What statuses, groups of file extensions, user types and flags, and the     *)
(* description of a client mean (ADC BASE; ADC-EXT, SEGA), and which commands   *)
(* NMDC has types for.                                                          *)
EXTENDS NmdcMsg, InfoConst

\* --- statuses ----------------------------------------------------------------
Success == 0  Recoverable == 1  Fatal == 2
NotFound == 51                     \* a file that is not available
IsOk(sev) == sev = Success
IsRecoverable(sev) == sev \in {Success, Recoverable}
ErrKind(sev, code) == IF IsOk(sev) THEN "none" ELSE IF code = NotFound THEN "notexist" ELSE "status"

\* --- groups of extensions -----------------------------------------------------
Exts == << {"ape", "flac", "m4a", "mid", "mp3", "mpc", "ogg", "ra", "wav", "wma"},
           {"7z", "ace", "arj", "bz2", "gz", "lha", "lzh", "rar", "tar", "tz", "z", "zip"},
           {"doc", "docx", "htm", "html", "nfo", "odf", "odp", "ods", "odt", "pdf", "ppt", "pptx", "rtf", "txt", "xls", "xlsx", "xml", "xps"},
           {"app", "bat", "cmd", "com", "dll", "exe", "jar", "msi", "ps1", "vbs", "wsf"},
           {"bmp", "cdr", "eps", "gif", "ico", "img", "jpeg", "jpg", "png", "ps", "psd", "sfw", "tga", "tif", "webp"},
           {"3gp", "asf", "asx", "avi", "divx", "flv", "mkv", "mov", "mp4", "mpeg", "mpg", "ogm", "pxp", "qt", "rm", "rmvb", "swf", "vob", "webm", "wmv"} >>
AllExts == UNION { Exts[i_] : i_ \in 1..6 }
GroupBytes == TLCEval([i_ \in 1..6 |-> { B(e_) : e_ \in Exts[i_] }])
Bit(x, i_) == (x \div (2 ^ i_)) % 2 = 1
DOT == 46
LowerOf(s_) == [i_ \in 1..Len(s_) |-> IF s_[i_] \in 65..90 THEN s_[i_] + 32 ELSE s_[i_]]
ExtOf(name) == LowerOf(From(name, FindLastByte(name, DOT) + 1))
Matches(g, name) == g = 0 \/ \E i_ \in 1..6 : Bit(g, i_ - 1) /\ ExtOf(name) \in GroupBytes[i_]
\* text beyond ASCII has no defined lower case here
PlainName(name) == \A i_ \in 1..Len(name) : name[i_] < 128

\* --- bits ----------------------------------------------------------------------
HasBit(x, i_) == Bit(x, i_)

\* --- the description of a client --------------------------------------------------
\* older clients put the application in front of the version
Normal(ap, ve) ==
  LET i == FindLastByte(ve, SP) IN
  IF ap = << >> /\ i > 0 THEN << Upto(ve, i - 1), From(ve, i + 1) >> ELSE << ap, ve >>

ChatText(name, text) == IF name = << >> THEN text ELSE B("<") \o name \o B("> ") \o text

\* --- commands with types ------------------------------------------------------------
Known(cmd) == cmd = << >> \/ cmd \in DOMAIN TypeByCmd
KnownCmds == DOMAIN TypeByCmd \cup { << >> }
=============================================================================
