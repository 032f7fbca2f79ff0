-------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* What decides the format and the compression of a recording: what the    *)
(* user asks for, the name, and if neither tells, a default.  "~" stands   *)
(* for what isn't given.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

No == "~"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
Caps == [c \in {SubSeq(Upper, i, i) : i \in 1..26} |-> LET i == CHOOSE k \in 1..26 : SubSeq(Upper, k, k) = c IN SubSeq(Lower, i, i)]
RECURSIVE Low(_)
Low(s) == IF s = "" THEN ""
          ELSE LET c == SubSeq(s, 1, 1) IN (IF c \in DOMAIN Caps THEN Caps[c] ELSE c) \o Low(SubSeq(s, 2, Len(s)))

\* in any case
Ends(name, ext) == Len(name) >= Len(ext) /\ Low(SubSeq(name, Len(name) - Len(ext) + 1, Len(name))) = ext

CompExts == {".gz", ".bz2", ".xz", ".zst"}
\* the compression, named by its extension
Comp(name) == IF \E e \in CompExts : Ends(name, e) THEN CHOOSE e \in CompExts : Ends(name, e) ELSE ""
Bare(name) == SubSeq(name, 1, Len(name) - Len(Comp(name)))

\* the formats, with their extensions
Written == [x \in {"ansi", "ttyrec", "nh_recorder", "asciicast", "asciicast-v1", "live", "null"} |->
  CASE x = "ansi" -> ".txt" [] x = "ttyrec" -> ".ttyrec" [] x = "nh_recorder" -> ".nh" [] x = "asciicast" -> ".cast"
    [] x = "asciicast-v1" -> ".cast-v1" [] OTHER -> ""]
Played == [x \in {"baudrate", "ttyrec", "nh_recorder", "dosrecorder", "asciicast", "live", "auto"} |->
  CASE x = "baudrate" -> ".txt" [] x = "ttyrec" -> ".ttyrec" [] x = "nh_recorder" -> ".nh" [] x = "asciicast" -> ".cast"
    [] x = "dosrecorder" -> ".dm2" [] OTHER -> ""]

\* -> a format of the table, or No
Format(tab, asked, name, default) ==
  LET Told == {f \in DOMAIN tab : tab[f] # "" /\ name # No /\ Ends(Bare(name), tab[f])}
  IN IF asked # No THEN (IF Low(asked) \in DOMAIN tab THEN Low(asked) ELSE No)
     ELSE IF Told # {} THEN CHOOSE f \in Told : TRUE
     ELSE IF default # No /\ Low(default) \in DOMAIN tab THEN Low(default) ELSE No

(***************************************************************************)
(* Files made, each [name, comp, fmt, new]: by what they have inside;      *)
(* new: there was no such thing before.  kept: the others are as they were *)
(***************************************************************************)
Inside(f, fmt) == f.fmt = CASE fmt = "live" -> "ansi" [] OTHER -> fmt
\* a file made of the name that was given
MadeOk(name, fmt, files, kept) ==
  /\ kept /\ Len(files) = 1
  /\ files[1].name = name /\ files[1].comp = Comp(name) /\ Inside(files[1], fmt)
\* ... of one that was not
InventedOk(fmt, date, files, kept) ==
  /\ kept /\ Len(files) = 1
  /\ files[1].new
  /\ SubSeq(files[1].name, 1, Len(date)) = date
  /\ Ends(Bare(files[1].name), Written[fmt])
  \* ... and those alone
  /\ LET n == Bare(files[1].name)  stem == SubSeq(n, 1, Len(n) - Len(Written[fmt]))
     IN Comp(stem) = "" /\ Format(Written, No, stem, No) = No
  /\ files[1].comp = Comp(files[1].name) /\ Inside(files[1], fmt)
\* a format there isn't: those there are are named
RefusedOk(tab, asked, status, left, listed) ==
  Format(tab, asked, No, No) = No /\ status # 0 /\ left = 0 /\ DOMAIN tab \subseteq {listed[i] : i \in DOMAIN listed}
NothingOk(files, kept) == kept /\ files = <<>>

\* termrec
RecOk(asked, name, date, status, files, kept) ==
  LET fmt == Format(Written, asked, name, "ttyrec")
  IN IF fmt = No THEN status # 0 /\ NothingOk(files, kept)
     ELSE /\ status = 0
          /\ IF name = No THEN InventedOk(fmt, date, files, kept) ELSE MadeOk(name, fmt, files, kept)
\* a recorder of the library
WriteOk(asked, name, res, files, kept) ==
  LET fmt == Format(Written, asked, name, "ansi")
  IN IF fmt = No THEN ~res /\ NothingOk(files, kept) ELSE res /\ MadeOk(name, fmt, files, kept)
\* a player: the file's data is raw once decompressed as its name says; it is
\* really a recording in the format `true', that has this text
PlayOk(asked, name, res, true, raw, text, shown) ==
  LET fmt == Format(Played, asked, name, "auto")
  IN IF fmt = No THEN ~res /\ shown = ""
     ELSE /\ res
          /\ (fmt \in {"baudrate", "live"} => shown = raw)
          /\ (fmt = true \/ (fmt = "auto" /\ true \in {"ttyrec", "asciicast"}) => shown = text)
\* streams: what is written, and what is read of a file that has data
\* compressed as comp says (comp: those bytes)
StreamOk(name, files, kept) == MadeOk(name, "ansi", files, kept)
ReadOk(name, comp, data, bytes, got) ==
  /\ Comp(name) = comp => got = data
  /\ Comp(name) = "" => got = bytes
=============================================================================
