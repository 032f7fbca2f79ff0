------------------------------- MODULE MCNames -------------------------------
(***************************************************************************)
(* What Names says of all names made of a few parts: the last extension    *)
(* alone decides the compression, whatever case it is in; what is in front *)
(* does not matter; a format is never guessed from under two of them; at   *)
(* most one format fits a name; and the names termrec invents, however     *)
(* many exist already, come out as the format they were made for.          *)
(***************************************************************************)
EXTENDS Names

Parts == {"a", ".", ".gz", ".BZ2", ".xz", ".zSt", ".ttyrec", ".NH", ".txt", ".Cast", ".cast-v1", "/"}
CONSTANT N
VARIABLES name, parts
Init == name = "" /\ parts = <<>>
Next == Len(parts) < N /\ \E p \in Parts : name' = name \o p /\ parts' = Append(parts, p)
Spec == Init /\ [][Next]_<<name, parts>>

F(n) == Format(Written, No, n, "ttyrec")
One == Cardinality({f \in DOMAIN Written : Written[f] # "" /\ Ends(Bare(name), Written[f])}) <= 1
       /\ Cardinality({e \in CompExts : Ends(name, e)}) <= 1
AnyCase == Comp(Low(name)) = Comp(name) /\ F(Low(name)) = F(name)
Last == parts # <<>> => Comp(name) = Comp(parts[Len(parts)])
Under == Len(parts) > 1 =>
  LET z == parts[Len(parts)]  x == parts[Len(parts) - 1]
  IN F(name) = IF Comp(z) # "" THEN F(x) ELSE F(z)
Asked == \A f \in DOMAIN Written : Format(Written, f, name, "ttyrec") = f
Unknown == Format(Written, "nosuch", name, "ttyrec") = No
Invented == \A f \in {g \in DOMAIN Written : Written[g] # ""} : \A z \in CompExts \cup {""} : F(name \o Written[f] \o z) = f
=============================================================================
