------------------------------- MODULE SszFar -------------------------------
(***************************************************************************)
(* The reference codec over run-length coded byte strings, for encodings    *)
(* too long to be written out (offsets of 2^24 and more).                   *)
(*                                                                         *)
(* A run string is a sequence of <<n, byte>> with n > 0, neighbours having  *)
(* different bytes (so that a byte string has one run string).  In a far    *)
(* value, byte strings are run strings and a list is a sequence of          *)
(* <<n, item>>, neighbouring items being different; everything else is as   *)
(* in SszCodec.  SszFarM checks that the two codecs are the same.           *)
(***************************************************************************)
EXTENDS SszCodec

(* ---------------------------------------------------------------------- *)
(* Run strings.                                                            *)
AddRun(acc, r) ==
  IF r[1] = 0 THEN acc
  ELSE IF acc # <<>> /\ acc[Len(acc)][2] = r[2]
       THEN [acc EXCEPT ![Len(acc)] = <<@[1] + r[1], r[2]>>]
       ELSE Append(acc, r)
Norm(rs) == FoldLeft(AddRun, <<>>, rs)
Runs(b) == FoldLeft(LAMBDA acc, x : AddRun(acc, <<1, x>>), <<>>, b)
RLen(rs) == FoldLeft(LAMBDA acc, r : acc + r[1], 0, rs)
RCat(a, b) == FoldLeft(AddRun, a, b)
RCatAll(ss) == FoldLeft(RCat, <<>>, ss)
(* n copies of a run string. *)
RECURSIVE Times(_, _)
Times(n, rs) ==
  IF n = 0 \/ rs = <<>> THEN <<>>
  ELSE IF Len(rs) = 1 THEN <<<<n * rs[1][1], rs[1][2]>>>>
  ELSE RCat(rs, Times(n - 1, rs))
(* The bytes i .. j-1 (0-based). *)
RSlice(rs, i, j) ==
  FoldLeft(LAMBDA acc, r :
             LET from == MaxOf(i, acc.at)
                 to == MinOf(j, acc.at + r[1])
             IN [at |-> acc.at + r[1],
                 out |-> IF to > from THEN AddRun(acc.out, <<to - from, r[2]>>) ELSE acc.out],
           [at |-> 0, out |-> <<>>], rs).out
(* A short run string written out. *)
Plain(rs) == FoldLeft(LAMBDA acc, r : acc \o Force([i \in 1..r[1] |-> r[2]]), <<>>, rs)

(* ---------------------------------------------------------------------- *)
RAssemble(fixed, parts) ==
  LET n == Len(fixed)
      fixedEnd == SumSeq([i \in 1..n |-> IF fixed[i] THEN RLen(parts[i]) ELSE BytesPerOffset])
      tails == Force([i \in 1..n |-> IF fixed[i] THEN <<>> ELSE parts[i]])
      starts == FoldLeft(LAMBDA acc, t : Append(acc, acc[Len(acc)] + RLen(t)), <<fixedEnd>>, tails)
      heads == Force([i \in 1..n |-> IF fixed[i] THEN parts[i] ELSE Runs(OffsetWord(starts[i]))])
  IN RCat(RCatAll(heads), RCatAll(tails))

RECURSIVE FarSer(_, _)
FarSer(s, v) ==
  CASE s.k = "bytes" -> v
    [] s.k = "revbytes" -> Rev(v)
    [] s.k = "list" ->
         LET parts == Force([i \in 1..Len(v) |-> FarSer(s.e, v[i][2])])
         IN IF IsFixed(s.e) THEN RCatAll([i \in 1..Len(v) |-> Times(v[i][1], parts[i])])
            ELSE LET all == FoldLeft(LAMBDA acc, i : acc \o Force([j \in 1..v[i][1] |-> parts[i]]),
                                     <<>>, Force([i \in 1..Len(v) |-> i]))
                 IN RAssemble(Force([i \in 1..Len(all) |-> FALSE]), all)
    [] s.k = "cont" ->
         LET live == LiveIdx(s.f)
         IN RAssemble(Force([i \in 1..Len(live) |-> IsFixed(s.f[live[i]])]),
                      Force([i \in 1..Len(live) |-> FarSer(s.f[live[i]], v[live[i]])]))
    [] s.k = "trans" -> FarSer(Wrapped(s), v[LivePos(s)])
    [] s.k = "option" -> IF v = <<>> THEN Runs(<<0>>) ELSE RCat(Runs(<<1>>), FarSer(s.e, v[1]))
    [] s.k = "legacy" -> IF v = <<>> THEN Runs(<<0, 0, 0, 0>>)
                         ELSE RCat(Runs(<<1, 0, 0, 0>>), FarSer(s.e, v[1]))
    [] s.k = "union" -> RCat(Runs(<<v[1]>>), FarSer(s.v[v[1] + 1], v[2]))
    [] s.k = "tenum" -> FarSer(s.v[v[1] + 1], v[2])
    [] OTHER -> Runs(Ser(s, v))

(* ---------------------------------------------------------------------- *)
(* The conditions of Tile and TileList (SszCodec), on run strings.          *)
ROffsetAt(b, i) == OffsetAt(Plain(RSlice(b, i, i + BytesPerOffset)), 0)
RTile(kinds, b) ==
  LET n == Len(kinds)
      W(i) == IF kinds[i] < 0 THEN BytesPerOffset ELSE kinds[i]
      pos == FoldLeft(LAMBDA acc, i : Append(acc, acc[Len(acc)] + W(i)), <<0>>, Force([i \in 1..n |-> i]))
      end == pos[n + 1]
      vars == SelectSeq([i \in 1..n |-> i], LAMBDA i : kinds[i] < 0)
      nv == Len(vars)
      total == RLen(b)
      off == Force([j \in 1..nv |-> ROffsetAt(b, pos[vars[j]])])
      rank == Force([i \in 1..n |-> SumSeq([j \in 1..nv |-> IF vars[j] <= i THEN 1 ELSE 0])])
  IN IF nv = 0
     THEN IF total # end THEN Fail
          ELSE Good(Force([i \in 1..n |-> RSlice(b, pos[i], pos[i + 1])]))
     ELSE IF total < end THEN Fail
     ELSE IF /\ off[1] = end
             /\ \A j \in 1..(nv - 1) : off[j] <= off[j + 1]
             /\ off[nv] <= total
          THEN Good(Force([i \in 1..n |->
                      IF kinds[i] >= 0 THEN RSlice(b, pos[i], pos[i + 1])
                      ELSE RSlice(b, off[rank[i]], IF rank[i] = nv THEN total ELSE off[rank[i] + 1])]))
          ELSE Fail
RTileList(b) ==
  LET total == RLen(b)
  IN IF total = 0 THEN Good(<<>>)
     ELSE IF total < BytesPerOffset THEN Fail
     ELSE LET o1 == ROffsetAt(b, 0)
          IN IF o1 < BytesPerOffset \/ o1 > total \/ o1 % BytesPerOffset # 0 THEN Fail
             ELSE LET n == o1 \div BytesPerOffset
                      \* not a table: the first pair out of order ends it, whatever n is
                      Off(j) == IF j = n + 1 THEN total ELSE ROffsetAt(b, (j - 1) * BytesPerOffset)
                  IN IF \A j \in 1..n : Off(j) <= Off(j + 1)
                     THEN Good(Force([j \in 1..n |-> RSlice(b, Off(j), Off(j + 1))]))
                     ELSE Fail

(* Items of length L, as <<count, run string>>: as many as possible at once. *)
RECURSIVE Chunks(_, _, _)
Chunks(L, b, acc) ==
  IF b = <<>> THEN acc
  ELSE IF b[1][1] >= L
       THEN LET k == b[1][1] \div L
                rest == b[1][1] % L
            IN Chunks(L, (IF rest = 0 THEN <<>> ELSE <<<<rest, b[1][2]>>>>) \o Tail(b),
                      Append(acc, <<k, <<<<L, b[1][2]>>>>>>))
       ELSE Chunks(L, RSlice(b, L, RLen(b)), Append(acc, <<1, RSlice(b, 0, L)>>))

RECURSIVE FarDe(_, _)
FarDe(s, b) ==
  CASE s.k = "bytes" -> Good(b)
    [] s.k = "revbytes" -> Good(Rev(b))
    [] s.k = "list" ->
         LET parts == IF ~IsFixed(s.e)
                      THEN LET t == RTileList(b)
                           IN IF t.ok THEN Good(Force([i \in 1..Len(t.v) |-> <<1, t.v[i]>>])) ELSE Fail
                      ELSE IF FixedLen(s.e) = 0 THEN (IF b = <<>> THEN Good(<<>>) ELSE Fail)
                      ELSE IF RLen(b) % FixedLen(s.e) # 0 THEN Fail
                      ELSE Good(Chunks(FixedLen(s.e), b, <<>>))
         IN IF ~parts.ok THEN Fail
            ELSE LET rs == Force([i \in 1..Len(parts.v) |-> FarDe(s.e, parts.v[i][2])])
                 IN IF ~AllOk(rs) THEN Fail
                    ELSE Good(Norm(Force([i \in 1..Len(rs) |-> <<parts.v[i][1], rs[i].v>>])))
    [] s.k = "cont" ->
         LET live == LiveIdx(s.f)
             n == Len(live)
             t == RTile(Force([i \in 1..n |-> IF IsFixed(s.f[live[i]])
                                              THEN FixedLen(s.f[live[i]]) ELSE -1]), b)
         IN IF ~t.ok THEN Fail
            ELSE LET rs == Force([i \in 1..n |-> FarDe(s.f[live[i]], t.v[i])])
                     pos(i) == CHOOSE p \in 1..n : live[p] = i
                 IN IF ~AllOk(rs) THEN Fail
                    ELSE Good(Force([i \in 1..Len(s.f) |->
                                 IF IsLive(s.f[i]) THEN rs[pos(i)].v ELSE DefaultOf(s.f[i].e)]))
    [] s.k = "trans" ->
         LET r == FarDe(Wrapped(s), b)
         IN IF ~r.ok THEN Fail
            ELSE Good(Force([i \in 1..Len(s.f) |-> IF i = LivePos(s) THEN r.v ELSE DefaultOf(s.f[i].e)]))
    [] s.k \in {"option", "legacy"} ->
         LET w == IF s.k = "option" THEN 1 ELSE 4
             sel == Plain(RSlice(b, 0, w))
         IN IF RLen(b) < w THEN Fail
            ELSE IF sel = Zeros(w) THEN (IF RLen(b) = w THEN Good(<<>>) ELSE Fail)
            ELSE IF sel[1] # 1 \/ Tail(sel) # Zeros(w - 1) THEN Fail
            ELSE LET r == FarDe(s.e, RSlice(b, w, RLen(b)))
                 IN IF r.ok THEN Good(<<r.v>>) ELSE Fail
    [] s.k = "union" ->
         IF RLen(b) = 0 THEN Fail
         ELSE IF b[1][2] >= Len(s.v) \/ b[1][2] > 127 THEN Fail
         ELSE LET r == FarDe(s.v[b[1][2] + 1], RSlice(b, 1, RLen(b)))
              IN IF r.ok THEN Good(<<b[1][2], r.v>>) ELSE Fail
    [] s.k = "tenum" ->
         LET rs == Force([i \in 1..Len(s.v) |-> FarDe(s.v[i], b)])
             acc == {i \in 1..Len(s.v) : rs[i].ok}
         IN IF acc = {} THEN Fail
            ELSE LET i == CHOOSE i \in acc : \A j \in acc : i <= j
                 IN Good(<<i - 1, rs[i].v>>)
    [] OTHER -> IF RLen(b) > 5000 THEN Fail ELSE De(s, Plain(b))

(* ---------------------------------------------------------------------- *)
(* Lists of very many variable-size items.  A string whose offset table is  *)
(* well formed (as TileList of SszCodec has it) is the sequence of its      *)
(* parts, written as runs of <<n, run string>>: a table string.  TabSer is  *)
(* the table string of the encoding of v, TabDe decodes one.                *)
TabSer(s, v) == Norm(Force([i \in 1..Len(v) |-> <<v[i][1], FarSer(s.e, v[i][2])>>]))
TabDe(s, p) ==
  LET rs == Force([i \in 1..Len(p) |-> FarDe(s.e, p[i][2])])
  IN IF ~AllOk(rs) THEN Fail ELSE Good(Norm(Force([i \in 1..Len(p) |-> <<p[i][1], rs[i].v>>])))
TabCount(p) == FoldLeft(LAMBDA acc, r : acc + r[1], 0, p)
TabLen(p) == FoldLeft(LAMBDA acc, r : acc + r[1] * (BytesPerOffset + RLen(r[2])), 0, p)
(* The byte string of a table string, as a run string.                      *)
TabRuns(p) ==
  LET all == FoldLeft(LAMBDA acc, r : acc \o Force([j \in 1..r[1] |-> r[2]]), <<>>, p)
  IN RAssemble(Force([i \in 1..Len(all) |-> FALSE]), all)

(* ---------------------------------------------------------------------- *)
(* A plain value as a far value.                                           *)
RECURSIVE Far(_, _)
Far(s, v) ==
  CASE s.k \in {"bytes", "revbytes"} -> Runs(v)
    [] s.k = "list" -> Norm(Force([i \in 1..Len(v) |-> <<1, Far(s.e, v[i])>>]))
    [] s.k \in {"cont", "trans"} -> Force([i \in 1..Len(s.f) |-> Far(s.f[i], v[i])])
    [] s.k = "skip" -> Far(s.e, v)
    [] s.k \in {"option", "legacy"} -> Force([i \in 1..Len(v) |-> Far(s.e, v[i])])
    [] s.k \in {"union", "tenum"} -> <<v[1], Far(s.v[v[1] + 1], v[2])>>
    [] OTHER -> v

(* v with skipped fields replaced by their default. *)
RECURSIVE FarErase(_, _)
FarErase(s, v) ==
  CASE s.k \in {"cont", "trans"} ->
         Force([i \in 1..Len(s.f) |-> IF IsLive(s.f[i]) THEN FarErase(s.f[i], v[i])
                                      ELSE DefaultOf(s.f[i].e)])
    [] s.k = "list" -> Norm(Force([i \in 1..Len(v) |-> <<v[i][1], FarErase(s.e, v[i][2])>>]))
    [] s.k \in {"option", "legacy"} -> Force([i \in 1..Len(v) |-> FarErase(s.e, v[i])])
    [] s.k \in {"union", "tenum"} -> <<v[1], FarErase(s.v[v[1] + 1], v[2])>>
    [] s.k \in {"map", "set"} -> Erase(s, v)
    [] OTHER -> v
=============================================================================
