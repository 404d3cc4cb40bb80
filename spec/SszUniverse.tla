---------------------------- MODULE SszUniverse ----------------------------
(***************************************************************************)
(* The types the implementation is exercised on, as type terms.  The        *)
(* harness is generated from this module (DumpUniverse writes it as JSON);  *)
(* the trace specifications compute the schema of every recorded execution  *)
(* from the same terms.                                                    *)
(*                                                                         *)
(* Each entry is [g |-> group, t |-> term]; its id is its position.         *)
(***************************************************************************)
EXTENDS SszDerive

T(x) == [t |-> x]
N(x, n) == [t |-> x, n |-> n]
Vec(e) == [t |-> "vec", e |-> e]
SVec(n, e) == [t |-> "svec", n |-> n, e |-> e]
Opt(e) == [t |-> "opt", e |-> e]
ArcOf(e) == [t |-> "arc", e |-> e]
SetOf(e) == [t |-> "set", e |-> e]
MapOf(k, w) == [t |-> "map", e |-> k, w |-> w]
Tup(f) == [t |-> "tup", f |-> f]
Legacy(e) == [t |-> "legacy", e |-> e]

(* Fields: a plain one, one with a codec, a skipped one, and one skipped on *)
(* one side only.  p = "" | "p" (declared through a type parameter) |       *)
(* "v" (Vec of a type parameter) | "c" (array of a const parameter).        *)
F(ty) == [ty |-> ty, ss |-> FALSE, sd |-> FALSE, w |-> "", p |-> ""]
FW(w, ty) == [ty |-> ty, ss |-> FALSE, sd |-> FALSE, w |-> w, p |-> ""]
Sk(ty) == [ty |-> ty, ss |-> TRUE, sd |-> TRUE, w |-> "", p |-> ""]
SkS(ty) == [ty |-> ty, ss |-> TRUE, sd |-> FALSE, w |-> "", p |-> ""]
SkD(ty) == [ty |-> ty, ss |-> FALSE, sd |-> TRUE, w |-> "", p |-> ""]
FP(p, ty) == [ty |-> ty, ss |-> FALSE, sd |-> FALSE, w |-> "", p |-> p]
SkW(w, ty) == [ty |-> ty, ss |-> TRUE, sd |-> TRUE, w |-> w, p |-> ""]

Cont(f) == [t |-> "struct", named |-> TRUE, beh |-> "", f |-> f]
ContX(f) == [t |-> "struct", named |-> TRUE, beh |-> "container", f |-> f]
TransN(f) == [t |-> "struct", named |-> TRUE, beh |-> "transparent", f |-> f]
TransT(f) == [t |-> "struct", named |-> FALSE, beh |-> "transparent", f |-> f]
Desc(e) == [t |-> "struct", named |-> FALSE, beh |-> "transparent", f |-> <<F(e)>>, r |-> TRUE]
Enum(beh, vs) == [t |-> "enum", beh |-> beh, v |-> vs, d |-> <<>>]
Union(tys) == Enum("union", [i \in 1..Len(tys) |-> <<tys[i]>>])
TEnum(tys) == Enum("transparent", [i \in 1..Len(tys) |-> <<tys[i]>>])
Tag(n) == Enum("tag", [i \in 1..n |-> <<>>])
TagD(ds) == [t |-> "enum", beh |-> "tag", v |-> [i \in 1..Len(ds) |-> <<>>], d |-> ds]

MapSeq(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]
Flat(ss) == FlattenSeq(ss)
Pairs(Op(_, _), s, u) == Flat([i \in 1..Len(s) |-> [j \in 1..Len(u) |-> Op(s[i], u[j])]])
Pick(s, i) == s[((i - 1) % Len(s)) + 1]

(* ---------------------------------------------------------------------- *)
U8 == T("u8")  U16 == T("u16")  U32 == T("u32")  U64 == T("u64")
Bool == T("bool")  BytesT == T("Bytes")  VU8 == Vec(U8)  VU16 == Vec(U16)
OptU8 == Opt(U8)

Leaves == <<U8, U16, U32, U64, T("u128"), T("usize"), T("nz"), Bool, T("U128"),
            T("U256"), T("Address"), T("Bloom"), BytesT, T("bitdyn"),
            N("arr", 1), N("arr", 3), N("arr", 4), N("arr", 32), N("arr", 48),
            N("fb", 1), N("fb", 4), N("fb", 20), N("fb", 32), N("fb", 48), N("fb", 96),
            N("bitvec", 0), N("bitvec", 1), N("bitvec", 7), N("bitvec", 8), N("bitvec", 9),
            N("bitvec", 16), N("bitvec", 64), N("bitvec", 512),
            N("bitlist", 0), N("bitlist", 1), N("bitlist", 7), N("bitlist", 8),
            N("bitlist", 9), N("bitlist", 16), N("bitlist", 2048)>>

OrdLeaves == <<U8, U16, U64, T("nz"), Bool, T("U256"), T("Address"), BytesT,
               N("arr", 3), N("fb", 4)>>

Zeros0 == <<N("arr", 0), N("fb", 0), Cont(<<>>), Tup(<<N("arr", 0), N("arr", 0)>>)>>

(* -------------------------------------------------------------- wrappers *)
Reps == <<U8, U16, VU16, BytesT, OptU8>>
Wrappers(e) == <<Vec(e), Opt(e), SVec(2, e), ArcOf(e)>>
Depth2 ==
  Flat([i \in 1..Len(Reps) |->
    Flat([j \in 1..4 |-> Wrappers(Wrappers(Reps[i])[j])])])

Deep == <<Vec(Vec(Vec(U8))), Vec(Vec(Vec(Vec(U16)))), Opt(Opt(Opt(U8))),
          Vec(Opt(Vec(Opt(U16)))), Opt(Vec(Opt(BytesT))), ArcOf(ArcOf(Vec(ArcOf(U8)))),
          SVec(8, SVec(1, SVec(2, U8))), Vec(N("bitlist", 9)), Vec(Vec(N("bitvec", 9))),
          Vec(Tup(<<U8, VU8>>)), Vec(Tup(<<U8, U16>>)), Opt(Tup(<<VU8, U8>>)),
          Vec(Vec(Tup(<<BytesT, U16, BytesT>>))), Tup(<<Vec(Tup(<<U8, VU8>>)), U16>>),
          Vec(N("arr", 3)), SVec(4, BytesT), SVec(1, T("U256")),
          Vec(MapOf(U8, VU8)), Opt(SetOf(U16)), MapOf(U8, MapOf(U8, BytesT)),
          SetOf(SetOf(U8)), SetOf(MapOf(U8, U8)), Vec(SetOf(BytesT)),
          ArcOf(Tup(<<U8, VU16, N("bitlist", 8), T("bitdyn")>>))>>

(* ---------------------------------------------------------------- tuples *)
FixT == <<U8, U16, U32, N("arr", 3), U64, Bool, N("arr", 5), T("U256"), N("bitvec", 9),
          T("Address"), N("fb", 4), T("u128")>>
VarT == <<BytesT, VU16, OptU8, N("bitlist", 16), Vec(BytesT), T("bitdyn"), VU8,
          Vec(VU8), Opt(BytesT), SetOf(U8), MapOf(U8, U8), SVec(2, U32)>>
FV(pat) == [i \in 1..Len(pat) |-> IF pat[i] = 0 THEN Pick(FixT, i) ELSE Pick(VarT, i)]
RECURSIVE Bin(_, _)
Bin(n, k) == IF k = 0 THEN <<>> ELSE Append(Bin(n \div 2, k - 1), n % 2)
Pats(n) == <<[i \in 1..n |-> 0], [i \in 1..n |-> 1], [i \in 1..n |-> i % 2],
             [i \in 1..n |-> (i + 1) % 2], [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0],
             [i \in 1..n |-> IF i = n THEN 1 ELSE 0],
             [i \in 1..n |-> IF i = 1 THEN 0 ELSE 1],
             [i \in 1..n |-> IF i = n THEN 0 ELSE 1]>>
Tuples ==
  Pairs(LAMBDA a, b : Tup(<<a, b>>), Reps, Reps)
  \o [k \in 1..8 |-> Tup(FV(Bin(k - 1, 3)))]
  \o [k \in 1..16 |-> Tup(FV(Bin(k - 1, 4)))]
  \o Flat([m \in 1..8 |-> [p \in 1..8 |-> Tup(FV(Pats(m + 4)[p]))]])
  \o <<Tup(<<Tup(<<U8, VU8>>), Tup(<<U16, U8>>)>>), Tup(<<Tup(<<U8, U16>>), VU8, Tup(<<VU8, U8>>)>>)>>

(* --------------------------------------------------------- maps and sets *)
OrdComps == <<Vec(U8), VU16, OptU8, Tup(<<U8, VU8>>), Tup(<<U8, U16>>), Vec(BytesT),
              SetOf(U8), Opt(VU8)>>
MapVals == <<U8, VU8, T("U256"), BytesT, N("bitlist", 9), N("bitvec", 9), Opt(U16),
             Vec(VU16), Tup(<<U8, VU8>>), Tup(<<U16, U8>>), SetOf(U16), ArcOf(BytesT)>>
MapsSets ==
  MapSeq(LAMBDA e : SetOf(e), OrdLeaves) \o MapSeq(LAMBDA e : SetOf(e), OrdComps)
  \o Pairs(LAMBDA a, b : MapOf(a, b), OrdLeaves, <<U8, VU8>>)
  \o Pairs(LAMBDA a, b : MapOf(a, b), OrdComps, <<U16, BytesT>>)
  \o Pairs(LAMBDA a, b : MapOf(a, b), <<U8, BytesT>>, MapVals)

(* Keys in an order that is not that of their encodings or numbers.         *)
Orders ==
  MapSeq(LAMBDA e : SetOf(Desc(e)), <<U8, U16, U64, BytesT, Tup(<<U8, U16>>), OptU8, N("arr", 3)>>)
  \o MapSeq(LAMBDA e : MapOf(Desc(e), U8), <<U8, U32, BytesT>>)
  \o MapSeq(LAMBDA e : MapOf(Desc(e), BytesT), <<U8, U16, VU16>>)
  \o <<SetOf(Tup(<<Desc(U8), U8>>)), SetOf(Vec(Desc(U8))), MapOf(Tup(<<U8, Desc(BytesT)>>), Desc(U8)),
       Vec(SetOf(Desc(U8))), SetOf(SetOf(Desc(U8))), SetOf(Desc(SetOf(Desc(U16)))), Cont(<<F(MapOf(Desc(U8), Desc(BytesT))), F(U8)>>)>>

ZeroLength ==
  Flat([i \in 1..Len(Zeros0) |->
    LET z == Zeros0[i]
    IN <<z, Vec(z), SVec(2, z), Opt(z), ArcOf(z), Tup(<<z, U8>>), Tup(<<VU8, z>>)>>])
  \o <<SetOf(N("arr", 0)), MapOf(N("arr", 0), N("arr", 0)), MapOf(N("arr", 0), U8),
       Vec(Vec(N("arr", 0))), Opt(Vec(N("arr", 0))), Tup(<<U8, Vec(N("fb", 0))>>),
       Vec(ArcOf(N("arr", 0))), MapOf(U8, Vec(N("arr", 0))), Cont(<<F(Vec(N("arr", 0)))>>),
       Cont(<<F(N("arr", 0)), F(VU8)>>), Union(<<N("arr", 0), Vec(N("arr", 0))>>),
       Vec(TransT(<<F(N("arr", 0))>>))>>

(* ------------------------------------------------------------ containers *)
Classes == <<F(U8), F(U16), F(VU16), F(BytesT), FW("be", U32), FW("u24", U32),
             FW("fix2", BytesT), FW("varu8", U8), FW("rev", BytesT),
             FW("legacy", Opt(U16)), FW("legacy", Opt(VU8)), Sk(U16), Sk(BytesT)>>
Classes3 == <<F(U16), F(BytesT), FW("fix2", BytesT), Sk(U32), FW("legacy", Opt(VU8))>>

FldPat(pat) == [i \in 1..Len(pat) |->
                 CASE pat[i] = 0 -> F(Pick(FixT, i))
                   [] pat[i] = 1 -> F(Pick(VarT, i))
                   [] pat[i] = 2 -> Sk(Pick(<<U16, BytesT, Bool, Vec(U64)>>, i))]
SkPats(n) == <<[i \in 1..n |-> IF i % 3 = 1 THEN 2 ELSE i % 2],
               [i \in 1..n |-> IF i % 3 = 2 THEN 2 ELSE (i + 1) % 2],
               [i \in 1..n |-> IF i = n THEN 2 ELSE 0],
               [i \in 1..n |-> IF i \in {1, n} THEN 2 ELSE 1]>>

Asym == <<SkS(U8), SkD(U8), SkS(BytesT), SkD(BytesT)>>

PairC == Cont(<<F(U8), F(U16)>>)              \* fixed-size container
VarC == Cont(<<F(U8), F(VU8)>>)               \* variable-size container
NestC == Cont(<<F(VarC), F(U8), F(PairC), F(BytesT)>>)
TagC == Tag(3)
UnionC == Union(<<U8, VU16, PairC, VarC>>)
WrapC == TransT(<<F(VU16)>>)
WrapF == TransN(<<Sk(U8), F(U16)>>)
TEnumC == TEnum(<<VarC, BytesT>>)

ContsSmall ==
  <<Cont(<<>>)>> \o MapSeq(LAMBDA a : Cont(<<a>>), Classes)
  \o Pairs(LAMBDA a, b : Cont(<<a, b>>), Classes, Classes)
ConstsThree ==
  Flat([i \in 1..5 |-> Pairs(LAMBDA a, b : Cont(<<Classes3[i], a, b>>), Classes3, Classes3)])
ContsLong ==
  Flat([m \in 1..6 |-> LET n == <<4, 5, 8, 9, 10, 12>>[m] IN
    [p \in 1..8 |-> ContX(FldPat(Pats(n)[p]))] \o [p \in 1..4 |-> Cont(FldPat(SkPats(n)[p]))]])
ContsAsym ==
  Flat([i \in 1..4 |-> Flat([j \in 1..3 |-> LET o == <<F(U16), F(BytesT), FW("fix2", BytesT)>>[j]
    IN <<Cont(<<Asym[i], o>>), Cont(<<o, Asym[i]>>), Cont(<<F(VU16), Asym[i], o>>)>>])])
  \o Pairs(LAMBDA a, b : Cont(<<a, F(U8), b>>), Asym, Asym)
  \o <<Cont(<<SkS(U8)>>), Cont(<<SkD(U8)>>), Cont(<<SkS(BytesT)>>), Cont(<<SkD(BytesT)>>),
       Cont(<<SkW("be", U32), F(BytesT), SkW("rev", BytesT)>>)>>
ContsNest ==
  <<NestC, Cont(<<F(NestC), F(VarC)>>), Cont(<<F(TagC), F(UnionC), F(TagC)>>),
    Cont(<<F(WrapC), F(WrapF), F(TEnumC)>>), Cont(<<F(Vec(VarC)), F(Opt(PairC))>>),
    Cont(<<F(N("bitlist", 8)), F(N("bitvec", 9)), F(T("bitdyn"))>>),
    Cont(<<F(MapOf(U8, VU8)), F(SetOf(U16))>>), Cont(<<F(ArcOf(VarC)), F(ArcOf(U8))>>),
    Cont(<<Sk(PairC), F(VarC)>>), Cont(<<F(PairC), FW("legacy", Opt(PairC)), FW("legacy", Opt(VarC))>>),
    Vec(PairC), Vec(VarC), Vec(NestC), Opt(VarC), Opt(PairC), SetOf(PairC), SetOf(VarC),
    MapOf(PairC, VarC), MapOf(VarC, PairC), Tup(<<VarC, PairC, U8>>), Vec(TagC), SVec(3, TagC),
    SVec(2, UnionC), Vec(UnionC), Opt(UnionC), Vec(WrapC), Vec(WrapF), Vec(TEnumC), Opt(TEnumC),
    MapOf(TagC, UnionC), SetOf(TagC), MapOf(U8, TEnumC), ArcOf(NestC), Tup(<<TEnumC, UnionC>>),
    Cont(<<FP("p", U8)>>), Cont(<<FP("p", VU8), FP("p", U16)>>),
    Cont(<<F(U8), FP("v", VU16), FP("p", BytesT)>>), Cont(<<FP("c", N("arr", 5)), F(VU8)>>),
    Cont(<<FP("p", PairC), F(U8)>>), Cont(<<FP("p", VarC), F(U8), FP("c", N("arr", 2))>>),
    Cont(<<FP("v", Vec(VarC)), Sk(U16), FP("p", OptU8)>>),
    TransT(<<FP("p", VU8)>>), TransN(<<Sk(U8), FP("p", U16)>>), TransT(<<FP("c", N("arr", 7))>>)>>

(* One generic definition with several arguments each.                      *)
Args == <<U8, U64, BytesT, N("arr", 3), PairC, VarC, VU16, T("U256")>>
(* Widths and capacities between and beyond those above.                   *)
Widths ==
  [i \in 1..11 |-> N("arr", Pick(<<6, 8, 9, 15, 16, 17, 64, 96, 128, 129, 256>>, i))]
  \o [i \in 1..10 |-> N("fb", Pick(<<2, 8, 16, 31, 64, 65, 100, 128, 256, 1024>>, i))]
  \o [i \in 1..6 |-> N("bitvec", Pick(<<24, 65, 127, 128, 129, 300>>, i))]
  \o [i \in 1..7 |-> N("bitlist", Pick(<<15, 17, 63, 64, 65, 256, 513>>, i))]
  \o <<Vec(N("arr", 8)), Vec(N("arr", 64)), Vec(N("fb", 2)), Vec(N("fb", 64)), Vec(N("bitvec", 128)),
        Vec(N("bitlist", 64)), Opt(N("arr", 16)), SVec(16, U8), SVec(32, U16), SVec(5, VU8), SVec(16, N("arr", 8)),
        MapOf(N("arr", 8), N("fb", 8)), SetOf(N("fb", 64)),
        Cont(<<F(N("arr", 64)), F(VU8), F(N("fb", 8))>>), Cont(<<F(N("bitvec", 65)), F(N("bitlist", 63))>>),
        Tup(<<N("fb", 128), BytesT>>), Union(<<N("arr", 16), N("fb", 64)>>)>>

Generics ==
  MapSeq(LAMBDA a : Cont(<<FP("p", a), F(BytesT)>>), Args)
  \o MapSeq(LAMBDA a : Cont(<<F(U16), FP("v", Vec(a)), FP("p", a), F(U8)>>), Args)
  \o Pairs(LAMBDA a, b : Cont(<<FP("p", a), F(VU8), FP("p", b)>>), <<U8, VU16, N("arr", 5)>>, <<U32, BytesT, PairC>>)
  \o MapSeq(LAMBDA a : Cont(<<FP("p", a), FP("p", a)>>), <<U8, U16, VarC, N("arr", 40)>>)
  \o MapSeq(LAMBDA i : Cont(<<FP("c", N("arr", i)), F(BytesT), F(U8)>>), <<0, 1, 2, 7, 33, 300>>)
  \o MapSeq(LAMBDA a : Cont(<<Sk(U8), FW("be", U32), FP("p", a), FW("legacy", Opt(U16))>>), Args)
  \o MapSeq(LAMBDA a : TransN(<<Sk(U8), FP("p", a)>>), Args)
  \o MapSeq(LAMBDA a : TransT(<<FP("p", a), Sk(BytesT)>>), Args)
  \o MapSeq(LAMBDA a : Cont(<<F(Cont(<<FP("p", a), F(BytesT)>>)), F(U8)>>), <<U32, VU8, Bool>>)
  \o Pairs(LAMBDA a, b : Union(<<a, b>>), <<U8, U16, BytesT, PairC, VarC>>, <<U32, U8, VU16, VarC, OptU8>>)
  \o Pairs(LAMBDA a, b : Cont(<<F(Union(<<U8, a, b>>)), F(a)>>), <<U64, BytesT, PairC>>, <<U32, VU16, VarC>>)

(* --------------------------------------------------- transparent structs *)
TransLive == <<F(U8), F(U64), F(BytesT), F(Vec(VU16)), F(OptU8), F(Tup(<<U8, VU8>>)), F(PairC),
               F(VarC), F(N("bitlist", 9)), F(N("bitvec", 9)), F(MapOf(U8, U8)), F(TagC), F(UnionC),
               FW("be", U32), FW("fix2", BytesT), FW("varu8", U8), FW("rev", BytesT),
               FW("legacy", Opt(U16)), FW("legacy", Opt(VU8))>>
Layouts(l) == <<<<l>>, <<Sk(U16), l>>, <<l, Sk(BytesT)>>, <<Sk(BytesT), l, Sk(Bool)>>,
                <<Sk(U8), Sk(U16), l>>>>
Transparents ==
  Flat([i \in 1..Len(TransLive) |->
     LET ls == Layouts(TransLive[i])
     IN Flat([j \in 1..5 |-> IF (i + j) % 2 = 0 \/ i <= 3 THEN <<TransN(ls[j]), TransT(ls[j])>>
                             ELSE IF i % 2 = 0 THEN <<TransN(ls[j])>> ELSE <<TransT(ls[j])>>])])
  \o Flat([i \in 1..3 |-> LET a == <<U8, BytesT, VU16>>[i] b == <<U16, U8, BytesT>>[i]
       IN <<TransN(<<SkS(a), SkD(b)>>), TransT(<<SkS(a), SkD(b)>>),
            TransN(<<SkD(a), SkS(b)>>), TransT(<<SkD(a), Sk(Bool), SkS(b)>>)>>])

(* ----------------------------------------------------------------- enums *)
VarClasses == <<U8, BytesT, U16, VU16, Bool, OptU8, VarC, T("U256"), N("bitlist", 9),
                Tup(<<U8, VU8>>), N("arr", 3), PairC, Vec(BytesT)>>
UnionOf(n) == Union([i \in 1..n |-> Pick(VarClasses, i + (i \div 13))])
Simple(n) == Union([i \in 1..n |-> IF i % 4 = 0 THEN BytesT ELSE IF i % 4 = 2 THEN U16 ELSE U8])
TVar == <<BytesT, VU16, VarC, Vec(BytesT), OptU8, N("bitlist", 9), VU8, UnionC>>
Enums ==
  MapSeq(LAMBDA n : UnionOf(n), <<1, 2, 3, 5, 13, 64, 127, 128>>)
  \o <<Union(<<UnionC, TagC>>), Union(<<Vec(UnionC), Opt(U8), NestC>>), Union(<<U8>>), Union(<<BytesT>>),
       Union(<<MapOf(U8, U8), SetOf(BytesT)>>), Union(<<WrapC, WrapF>>), Union(<<ArcOf(VU8), U8>>)>>
  \o MapSeq(LAMBDA n : Tag(n), <<1, 2, 3, 4, 64, 127, 128>>)
  \o <<TagD(<<5, 2, 9>>), TagD(<<0, 7, 3, 200>>), TagD(<<3, 2, 1, 0>>)>>
  \o MapSeq(LAMBDA a : TEnum(<<a>>), TVar)
  \o Flat([i \in 1..Len(TVar) |-> Flat([j \in 1..Len(TVar) |->
        IF i = j THEN <<>> ELSE <<TEnum(<<TVar[i], TVar[j]>>)>>])])
  \o Flat([i \in 1..6 |-> <<TEnum(<<TVar[i], TVar[i + 1], TVar[i + 2]>>),
                            TEnum(<<TVar[i + 2], TVar[i], TVar[i + 1]>>)>>])

(* Variants through codec modules.                                         *)
W(w, e) == [t |-> "with", w |-> w, e |-> e]
WithV == <<W("be", U32), W("u24", U32), W("fix2", BytesT), W("varu8", U8), W("rev", BytesT),
           W("legacy", Opt(U16)), W("legacy", Opt(VU8))>>
EnumsWith ==
  MapSeq(LAMBDA a : Union(<<a>>), WithV)
  \o MapSeq(LAMBDA a : Union(<<U8, a, BytesT>>), WithV)
  \o <<Union(WithV), Union(<<W("rev", BytesT), BytesT, W("varu8", U8), U8, W("legacy", Opt(U8)), OptU8>>),
       Vec(Union(<<W("be", U32), U32>>)), Cont(<<F(Union(<<W("rev", BytesT), U8>>)), F(U8)>>),
       TEnum(<<W("varu8", U8), BytesT>>), TEnum(<<W("legacy", Opt(VU8)), W("rev", BytesT)>>),
       TEnum(<<W("varu8", U8), W("legacy", Opt(U16)), VarC, W("rev", BytesT)>>),
       TEnum(<<W("rev", BytesT), BytesT>>), Vec(TEnum(<<W("legacy", Opt(VU8)), VU16>>))>>

(* Unions of every size (C15). *)
UnionSizes == [n \in 1..128 |-> Simple(n)]

LegacyOf == MapSeq(LAMBDA e : Legacy(e),
              <<U8, U16, U64, Bool, T("U256"), N("arr", 3), N("arr", 4), BytesT, VU8, VU16, Vec(VU8), OptU8,
                N("bitlist", 9), N("bitvec", 9), T("bitdyn"), Tup(<<U8, U16>>), Tup(<<U8, VU8>>),
                MapOf(U8, U8), PairC, VarC, UnionC, TagC, N("arr", 0), T("nz")>>)

(* Large fixed parts: offsets beyond one, two and three digits from the     *)
(* start, in containers and in lists of containers.  (An item of a list     *)
(* stays below 4 kB in memory, or a list may announce over 1 GiB of them,    *)
(* which the harness takes for a request that is not linear.)               *)
Arr(n) == N("arr", n)
BigC == Cont(<<F(Arr(300)), F(BytesT)>>)
Bigs ==
  <<BigC, Vec(BigC), Opt(BigC), Tup(<<BigC, U8>>), Tup(<<BytesT, BigC>>), Vec(Tup(<<T("Bloom"), VU8>>)),
    Tup(<<T("Bloom"), BytesT, T("Bloom"), VU16>>), Vec(Tup(<<T("Bloom"), U8>>)), Cont(<<F(BigC), F(BigC)>>),
    Cont(<<F(BytesT), F(BigC), F(T("Bloom"))>>), Tup(<<Arr(70000), BytesT>>), Cont(<<F(VU16), F(Arr(65536)), F(BytesT)>>),
    Cont(<<F(Arr(65531)), F(BytesT)>>), Cont(<<F(Arr(65536)), F(U8)>>), Vec(Tup(<<Arr(3300), VU8>>)),
    Union(<<BigC, T("Bloom")>>), Union(<<U8, Arr(70000)>>), TransT(<<F(BigC)>>), TEnum(<<BigC, BytesT>>),
    MapOf(U8, BigC), MapOf(Arr(260), VU8), SetOf(Arr(260)), Legacy(BigC), SVec(1, BigC),
    Cont(<<FW("legacy", Opt(BigC)), F(U8), Sk(U16), F(BigC)>>), ArcOf(Vec(BigC)), Vec(Vec(BigC)),
    Vec(Vec(Vec(BytesT))), SVec(2, SVec(2, BytesT)), N("bitvec", 1023), N("bitvec", 1024), N("bitvec", 1025),
    N("bitvec", 65537), N("bitlist", 1023), N("bitlist", 1024), N("bitlist", 1025), N("bitlist", 65536),
    Vec(N("bitvec", 1025)), Vec(N("bitlist", 1025)), Tup(<<N("bitvec", 1032), N("bitlist", 1032), U8>>)>>

(* Containers of very many fields, what is special about them being late.   *)
WFix(i) == F(Pick(<<U8, U16, U8, Bool, U32, N("arr", 3)>>, i))
WVar(i) == F(Pick(<<BytesT, VU16, OptU8, BytesT, N("bitlist", 9)>>, i))
WideOf(n, Special(_, _), late) ==
  Cont([i \in 1..n |-> IF i \in late THEN Special(i, n) ELSE WFix(i)])
Wides ==
  Flat([m \in 1..8 |-> LET n == <<13, 16, 17, 18, 24, 33, 40, 65>>[m] IN
     <<WideOf(n, LAMBDA i, k : F(BytesT), {}), WideOf(n, LAMBDA i, k : F(VU16), {n}),
       WideOf(n, LAMBDA i, k : F(BytesT), {1, n}), WideOf(n, LAMBDA i, k : WVar(i), 1..n),
       WideOf(n, LAMBDA i, k : IF i = 1 THEN Sk(U16) ELSE FW("varu8", U8), {1, n - 1}),
       WideOf(n, LAMBDA i, k : FW("fix2", BytesT), {2, n}),
       WideOf(n, LAMBDA i, k : IF i % 2 = 0 THEN Sk(BytesT) ELSE WVar(i), (n \div 2)..n)>>])
  \o <<Vec(WideOf(17, LAMBDA i, k : F(BytesT), {17})), Vec(WideOf(17, LAMBDA i, k : F(BytesT), {})),
       Opt(WideOf(33, LAMBDA i, k : WVar(i), {2, 33})), Cont(<<F(WideOf(20, LAMBDA i, k : WVar(i), {20})), F(U8), F(WideOf(20, LAMBDA i, k : WVar(i), {}))>>),
       TransN([i \in 1..20 |-> IF i = 19 THEN F(VU16) ELSE Sk(Pick(<<U8, BytesT>>, i))]),
       TransT([i \in 1..20 |-> IF i = 20 THEN F(U16) ELSE Sk(Pick(<<U8, BytesT>>, i))]),
       TEnum([i \in 1..20 |-> IF i < 20 THEN F(Vec(Tup(<<U16, BytesT>>))).ty ELSE BytesT])>>

(* All fields of one type, so that taking one for another compiles: every   *)
(* position of the live field of a transparent struct, every set of skipped *)
(* fields of small containers, and containers all alike.                   *)
Sames ==
  Flat([n \in 1..5 |-> Flat([p \in 1..n |->
     LET t == IF (n + p) % 2 = 0 THEN U16 ELSE BytesT
         f == [i \in 1..n |-> IF i = p THEN F(t) ELSE Sk(t)]
     IN <<TransN(f), TransT(f)>>])])
  \o Flat([m \in 1..3 |-> LET n == m + 1 IN Flat([k \in 1..Pow2(n) |->
     LET f(t) == [i \in 1..n |-> IF Bin(k - 1, n)[i] = 1 THEN Sk(t) ELSE F(t)]
     IN IF n < 4 THEN <<Cont(f(U16)), Cont(f(BytesT))>>
        ELSE IF k % 2 = 0 THEN <<Cont(f(U16))>> ELSE <<Cont(f(BytesT))>>])])
  \o Flat([n \in 1..3 |-> LET k == <<6, 11, 14>>[n] IN
     <<Cont([i \in 1..k |-> F(U16)]), Cont([i \in 1..k |-> F(BytesT)]),
       Cont([i \in 1..k |-> IF i % 4 = 3 THEN Sk(VU16) ELSE F(VU16)])>>])
  \o [m \in 1..11 |-> Tup([i \in 1..(m + 1) |-> U16])] \o [m \in 1..11 |-> Tup([i \in 1..(m + 1) |-> BytesT])]

(* Transparent enums with fixed-size variants: encoded and decoded on their *)
(* own only (they have no size metadata).                                   *)
FTEnums == <<TEnum(<<U8>>), TEnum(<<U8, VU8>>), TEnum(<<U16, U8, BytesT>>), TEnum(<<Bool, U8>>), TEnum(<<PairC, VarC>>),
             TEnum(<<VarC, PairC, U64>>), TEnum(<<TagC, Bool, BytesT>>), TEnum(<<N("bitvec", 9), U16, VU16>>),
             TEnum(<<VU16, U8>>), TEnum(<<W("be", U32), U32>>), TEnum(<<W("varu8", U8), U16, W("legacy", Opt(U16))>>),
             TEnum(<<T("nz"), U64>>), TEnum(<<T("U256"), N("fb", 4), OptU8>>), TEnum(<<Tup(<<U8, U16>>), WrapF, UnionC>>)>>

(* -------------------------------------------------- pseudo-random terms *)
(* A multiplicative congruential generator modulo 65537; Rnd(s, k) is the   *)
(* k-th number of the stream s.                                            *)
RECURSIVE Stream(_, _)
Stream(x, n) == IF n = 0 THEN <<>> ELSE LET y == (x * 75 + 74) % 65537 IN <<y>> \o Stream(y, n - 1)
Rnds(s) == Drop(Stream((s * 7919 + 12345) % 65537, 40), 4)
At(s, x) == s[((x \div 7) % Len(s)) + 1]

RFix == <<U8, U16, U32, U64, T("u128"), T("usize"), Bool, T("nz"), T("U128"), T("U256"), T("Address"), Arr(1),
          Arr(5), N("fb", 3), N("fb", 33), N("bitvec", 3), N("bitvec", 12), PairC, TagC, WrapF, Tup(<<U8, U16>>),
          ArcOf(U32), T("Bloom")>>
RVar == <<BytesT, VU8, VU16, OptU8, N("bitlist", 5), N("bitlist", 100), T("bitdyn"), VarC, UnionC, WrapC, Vec(BytesT),
          Vec(VarC), Opt(VarC), SVec(2, U16), SVec(1, BytesT), MapOf(U8, VU8), SetOf(U16), ArcOf(VU16), TEnumC,
          Tup(<<U8, BytesT>>), Opt(PairC), Vec(PairC), Vec(Opt(U16)), MapOf(BytesT, U8), Vec(Bool), Opt(Opt(U8))>>
RWith == <<FW("be", U32), FW("u24", U32), FW("fix2", BytesT), FW("varu8", U8), FW("rev", BytesT),
           FW("legacy", Opt(U16)), FW("legacy", Opt(VU8)), FW("legacy", Opt(VarC)), FW("be", U32), FW("fix2", BytesT)>>
RSkip == <<Sk(U16), Sk(BytesT), Sk(Bool), SkS(U8), SkD(U16), SkS(BytesT), SkD(BytesT), SkW("be", U32), Sk(VU16)>>
RFixField(x, y) == IF x % 5 = 0 THEN At(<<FW("be", U32), FW("u24", U32), FW("fix2", BytesT)>>, y)
                   ELSE IF x % 11 = 0 THEN At(RSkip, y) ELSE F(At(RFix, y))
RField(x, y) == CASE x % 10 \in 0..3 -> F(At(RVar, y)) [] x % 10 \in 4..6 -> F(At(RFix, y))
                  [] x % 10 \in 7..8 -> At(RWith, y) [] OTHER -> At(RSkip, y)
RandCont(s) == LET r == Rnds(s) n == 3 + (r[1] % 9) IN Cont([i \in 1..n |-> RField(r[2 * i], r[2 * i + 1])])
RandFix(s) == LET r == Rnds(s) n == 3 + (r[1] % 7) IN Cont([i \in 1..n |-> RFixField(r[2 * i], r[2 * i + 1])])
RandTup(s) == LET r == Rnds(s) n == 2 + (r[1] % 11)
              IN Tup([i \in 1..n |-> IF r[2 * i] % 2 = 0 THEN At(RFix, r[2 * i + 1]) ELSE At(RVar, r[2 * i + 1])])
RandVariant(x, y) == IF x % 4 = 0 THEN LET f == At(RWith, y) IN [t |-> "with", w |-> f.w, e |-> f.ty]
                     ELSE IF x % 4 = 1 THEN At(RFix, y) ELSE At(RVar, y)
RandUnion(s) == LET r == Rnds(s) n == 1 + (r[1] % 9) IN Union([i \in 1..n |-> RandVariant(r[2 * i], r[2 * i + 1])])
RandTEnum(s) == LET r == Rnds(s) n == 2 + (r[1] % 4) IN TEnum([i \in 1..n |-> At(RVar, r[2 * i + 1])])
RECURSIVE RandNest(_, _)
RandNest(r, d) ==
  IF d = 0 THEN IF r[1] % 2 = 0 THEN At(RFix, r[2]) ELSE At(RVar, r[2])
  ELSE CASE r[1] % 7 = 0 -> Vec(RandNest(Drop(r, 1), d - 1))
         [] r[1] % 7 = 1 -> Opt(RandNest(Drop(r, 1), d - 1))
         [] r[1] % 7 = 2 -> ArcOf(RandNest(Drop(r, 1), d - 1))
         [] r[1] % 7 = 3 -> SVec(1 + (r[2] % 4), RandNest(Drop(r, 1), d - 1))
         [] r[1] % 7 = 4 -> Tup(<<RandNest(Drop(r, 1), d - 1), RandNest(Drop(r, 9), d - 1)>>)
         [] r[1] % 7 = 5 -> MapOf(At(OrdLeaves, r[2]), RandNest(Drop(r, 1), d - 1))
         [] r[1] % 7 = 6 -> Cont(<<F(RandNest(Drop(r, 1), d - 1)), RField(r[7], r[8]), F(RandNest(Drop(r, 9), d - 1))>>)
RandTerm(i, s) ==
  CASE i % 8 \in {0, 5} -> RandCont(s) [] i % 8 \in {1, 6} -> RandFix(s) [] i % 8 = 2 -> RandTup(s)
    [] i % 8 = 3 -> RandUnion(s) [] i % 8 = 4 -> RandTEnum(s) [] i % 8 = 7 -> RandNest(Rnds(s), 3)
(* A term with a list of items of no length is one of those in ZeroLength.  *)
Random(n, seed) == [i \in 1..n |-> RandTerm(i, (seed * 1000 + i) % 65521)]

(* ---------------------------------------------------------------------- *)
Tagged(g, s) == [i \in 1..Len(s) |-> [g |-> g, t |-> s[i]]]

Universe(n, seed) ==
  Tagged("leaf", Leaves)
  \o Tagged("wrap", MapSeq(LAMBDA e : Vec(e), Leaves))
  \o Tagged("wrap", MapSeq(LAMBDA e : Opt(e), Leaves))
  \o Tagged("wrap", MapSeq(LAMBDA e : ArcOf(e), <<U16, BytesT, T("bitdyn"), N("bitlist", 7)>>))
  \o Tagged("wrap", MapSeq(LAMBDA e : SVec(4, e), <<U8, U64, T("U256"), BytesT, N("bitlist", 9), Bool, T("nz")>>))
  \o Tagged("depth", Depth2) \o Tagged("depth", Deep)
  \o Tagged("tuple", Tuples)
  \o Tagged("map", MapsSets)
  \o Tagged("zero", ZeroLength)
  \o Tagged("legacy", LegacyOf)
  \o Tagged("cont2", ContsSmall)
  \o Tagged("cont3", ConstsThree)
  \o Tagged("contlong", ContsLong)
  \o Tagged("contasym", ContsAsym)
  \o Tagged("nest", ContsNest)
  \o Tagged("trans", Transparents)
  \o Tagged("enum", Enums)
  \o Tagged("enum", EnumsWith)
  \o Tagged("unions", UnionSizes)
  \o Tagged("big", Bigs)
  \o Tagged("random", Random(n, seed))
  \o Tagged("wide", Wides)
  \o Tagged("tenumfix", FTEnums)
  \o Tagged("same", Sames)
  \o Tagged("order", Orders)
  \o Tagged("generic", Generics)
  \o Tagged("width", Widths)
(* ---------------------------------------------------------------------- *)
(* Definitions given to each derive macro on its own, to see whether it     *)
(* accepts them: the boundaries of what has an SSZ meaning.                 *)
FieldsOf(n) == [i \in 1..n |-> F(Pick(<<U8, BytesT, U16>>, i))]
Lives ==   \* field lists with 0, 1, 2, 3 live fields on either side
  <<<<>>, <<Sk(U8)>>, <<Sk(U8), Sk(BytesT)>>, <<F(U8)>>, <<F(BytesT)>>, <<F(U8), F(U16)>>,
    <<F(U8), Sk(U16)>>, <<Sk(U16), F(BytesT)>>, <<F(U8), Sk(U16), F(BytesT)>>,
    <<F(U8), F(U16), F(U8)>>, <<Sk(U8), F(U16), F(U8)>>, <<F(BytesT), F(U16), Sk(U8)>>,
    <<SkS(U8)>>, <<SkD(U8)>>, <<SkS(U8), F(U16)>>, <<F(U16), SkS(U8)>>, <<SkD(U8), F(U16)>>,
    <<F(U16), SkD(U8)>>, <<SkS(U8), SkD(U16)>>, <<SkD(U8), SkS(U16)>>, <<SkS(U8), SkS(U16)>>,
    <<SkD(U8), SkD(U16)>>, <<SkS(U8), SkD(U16), F(BytesT)>>, <<SkS(U8), Sk(U16), F(BytesT)>>,
    <<FW("be", U32)>>, <<FW("be", U32), FW("rev", BytesT)>>, <<SkW("be", U32), F(U8)>>,
    <<SkW("be", U32)>>>>
EnumOf(beh, n) == Enum(beh, [i \in 1..n |-> <<Pick(<<U8, BytesT, U16>>, i)>>])
Definitions ==
  [i \in 1..Len(Lives) |-> TransN(Lives[i])] \o [i \in 1..Len(Lives) |-> TransT(Lives[i])]
  \o [i \in 1..Len(Lives) |-> Cont(Lives[i])]
  \o [i \in 1..6 |-> ContX(FieldsOf(i - 1))]
  \o MapSeq(LAMBDA n : EnumOf("union", n), <<0, 1, 2, 3, 126, 127, 128, 129, 130, 131, 192, 255, 256,
                                             257, 258, 300>>)
  \o MapSeq(LAMBDA n : Enum("", [i \in 1..n |-> <<U8>>]), <<0, 1, 2, 5, 129>>)
  \o MapSeq(LAMBDA n : Enum("", [i \in 1..n |-> <<>>]), <<1, 2, 5>>)
  \o MapSeq(LAMBDA n : Tag(n), <<1, 2, 127, 128>>)
  \o MapSeq(LAMBDA n : Enum("transparent", [i \in 1..n |-> <<Pick(<<BytesT, VU16>>, i)>>]), <<1, 2, 129, 200>>)
=============================================================================
