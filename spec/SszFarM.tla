------------------------------- MODULE SszFarM -------------------------------
(***************************************************************************)
(* The run-length coded codec of SszFar is that of SszCodec: on every byte  *)
(* string and every small value of SszCodecM they say the same.             *)
(***************************************************************************)
EXTENDS SszCodecM, SszFar

F == FarDe(S, Runs(b))

SameDecoding ==
  /\ F.ok <=> D.ok
  /\ D.ok => F.v = Far(S, D.v)

SameEncoding ==
  b = <<>> => \A p \in pairs :
    /\ FarSer(S, Far(S, p[2])) = Runs(p[1])
    /\ FarErase(S, Far(S, p[2])) = Far(S, Erase(S, p[2]))

(* Run strings: slicing, joining and length are those of byte strings.      *)
RunStrings ==
  /\ Plain(Runs(b)) = b /\ RLen(Runs(b)) = Len(b)
  /\ i = 1 => \A m \in 0..Len(b) : \A n \in m..Len(b) :
                /\ RSlice(Runs(b), m, n) = Runs(Slice(b, m, n))
                /\ RCat(Runs(Slice(b, 0, m)), Runs(Drop(b, m))) = Runs(b)
                /\ Times(n - m, Runs(Slice(b, 0, m))) = Runs(Concat(Force([j \in 1..(n - m) |-> Slice(b, 0, m)])))

(* Table strings of lists of variable-size items.                           *)
Tabs ==
  S.k = "list" /\ ~IsFixed(S.e) /\ TileList(b).ok /\ b # <<>> =>
    LET t == TileList(b).v
        p == Norm(Force([j \in 1..Len(t) |-> <<1, Runs(t[j])>>]))
        d == TabDe(S, p)
    IN /\ TabCount(p) = Len(t) /\ TabLen(p) = Len(b) /\ TabRuns(p) = Runs(b)
       /\ d.ok <=> D.ok
       /\ D.ok => d.v = Far(S, D.v)
       /\ D.ok /\ Canonical(S) => TabSer(S, d.v) = p
=============================================================================
