------------------------------- MODULE Config -------------------------------
(* Configurations: their text, the values in them, and what corr2 and corr3    *)
(* do with them.                                                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, FP

----------------------------------------------------------------------------
(* A. Text: lines "key = value", comments, included files.                     *)
Ch(s, i) == SubSeq(s, i, i)
White == {" ", "\t"}
Drop(s, n) == SubSeq(s, n + 1, Len(s))
RECURSIVE LStrip(_)
LStrip(s) == IF Len(s) > 0 /\ Ch(s, 1) \in White THEN LStrip(Drop(s, 1)) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) \in White THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == RStrip(LStrip(s))
\* the first position of character c, 0 if there is none
Find(s, c) == LET I == {i \in 1..Len(s) : Ch(s, i) = c} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Before(s, c) == IF Find(s, c) = 0 THEN s ELSE SubSeq(s, 1, Find(s, c) - 1)
RECURSIVE Split(_, _)
Split(s, c) == IF Find(s, c) = 0 THEN <<Strip(s)>> ELSE <<Strip(Before(s, c))>> \o Split(Drop(s, Find(s, c)), c)
RECURSIVE Words(_)
Words(t) ==
  LET s == Strip(t)
      W == {i \in 1..Len(s) : Ch(s, i) \in White}
      e == IF W = {} THEN Len(s) + 1 ELSE CHOOSE i \in W : \A j \in W : i <= j
  IN IF s = "" THEN <<>> ELSE <<SubSeq(s, 1, e - 1)>> \o Words(Drop(s, e))

Skip == [k |-> "skip", key |-> "", vals |-> <<>>]
Bad == [k |-> "bad", key |-> "", vals |-> <<>>]
\* the value of "key = value": one word, or a list in brackets or of several words
Setting(s) ==
  LET v == Strip(Before(Drop(s, Find(s, "=")), "#"))
  IN IF Find(s, "=") = 0 \/ v = "" THEN Bad
     ELSE IF Ch(v, 1) \in {"{", "[", "("}
     THEN IF Ch(v, Len(v)) \notin {"}", "]", ")"} THEN Bad
          ELSE [k |-> "set", key |-> Strip(Before(s, "=")), vals |-> Split(SubSeq(v, 2, Len(v) - 1), ",")]
     ELSE [k |-> "set", key |-> Strip(Before(s, "=")), vals |-> Words(v)]
Line(t) ==
  LET s == Strip(t)
  IN IF s = "" THEN Skip ELSE IF Ch(s, 1) = "#" THEN Skip
     ELSE IF Ch(s, 1) = "+" THEN [k |-> "include", key |-> Drop(s, 1), vals |-> <<>>]
     ELSE Setting(s)

Over(new, old) == new @@ old
\* The contents: key -> its values (one: a plain value); later lines win.  A bad
\* line makes the whole text bad ("?" in its domain).
RECURSIVE Read(_, _, _)
Read(files, lines, acc) ==
  IF lines = <<>> THEN acc
  ELSE LET p == Line(lines[1]) IN
       Read(files, Tail(lines),
            IF p.k = "skip" THEN acc
            ELSE IF p.k = "include" THEN Over(Read(files, files[p.key], << >>), acc)
            ELSE IF p.k = "set" THEN Over(p.key :> p.vals, acc)
            ELSE Over("?" :> <<>>, acc))

----------------------------------------------------------------------------
(* B. Parameters: name -> type, may it be a list, default, allowed values.     *)
(* A value is [t, v, items]: its type, its text, and the items of a list.      *)
None == [t |-> "none", v |-> "", items |-> <<>>]
E(ty, li, de, va) == [ty |-> ty, li |-> li, de |-> de, va |-> va]
Val(t, v) == [t |-> t, v |-> v, items |-> <<>>]
Plain(ty, li, S) == [n \in S |-> E(ty, li, None, <<>>)]
Units == <<"rad", "deg", "hr", "hour", "arcmin", "arcsec">>
Fields == {"k", "z1", "z2", "v1", "v2", "g1", "g2", "t1", "t2", "q1", "q2"}
Columns == {"x", "y", "z", "ra", "dec", "r", "w", "wpos", "flag", "patch"} \cup Fields
Common ==
  Plain("str", FALSE, {"log_file"})
  @@ ("verbose" :> E("int", FALSE, Val("int", "1"), <<"0", "1", "2", "3">>))
  @@ ("split_method" :> E("str", FALSE, Val("str", "mean"), <<"mean", "median", "middle", "random">>))
CatTable ==
  Common
  @@ [n \in {c \o "_col" : c \in Columns} |-> E("str", TRUE, Val("str", "0"), <<>>)]
  @@ Plain("str", TRUE, {c \o "_ext" : c \in Columns} \cup {c \o "_eval" : c \in Columns} \cup {"ext", "delimiter"})
  @@ [n \in {c \o "_units" : c \in {"x", "y", "ra", "dec"}} |-> E("str", TRUE, None, Units)]
  @@ [n \in {"flip_" \o c : c \in Fields \ {"k"}} \cup {"allow_xyz"} |-> E("bool", TRUE, Val("bool", "False"), <<>>)]
  @@ Plain("float", TRUE, {"vark", "varz", "varv", "varg", "vart", "varq"})
  @@ Plain("int", TRUE, {"ignore_flag"}) @@ Plain("int", FALSE, {"npatch"})
  @@ Plain("str", FALSE, {"patch_centers", "save_patch_dir"}) @@ Plain("list", FALSE, {"extra_cols"})
  @@ [n \in {"keep_zero_weight", "kmeans_alt"} |-> E("bool", FALSE, Val("bool", "False"), <<>>)]
  @@ [n \in {"first_row", "every_nth"} |-> E("int", TRUE, Val("int", "1"), <<>>)]
  @@ ("last_row" :> E("int", TRUE, Val("int", "-1"), <<>>)) @@ ("ok_flag" :> E("int", TRUE, Val("int", "0"), <<>>))
  @@ ("file_type" :> E("str", TRUE, None, <<"ASCII", "FITS", "HDF", "Parquet">>))
  @@ ("comment_marker" :> E("str", TRUE, Val("str", "#"), <<>>))
  @@ ("kmeans_init" :> E("str", FALSE, Val("str", "tree"), <<"tree", "random", "kmeans++">>))
  @@ ("cat_precision" :> E("int", FALSE, Val("int", "16"), <<>>))
CorrTable ==
  Common
  @@ Plain("int", FALSE, {"nbins", "min_top", "num_threads"}) @@ Plain("bool", FALSE, {"output_dots"})
  @@ Plain("float", FALSE, {"bin_size", "min_sep", "max_sep", "bin_slop", "angle_slop", "period", "xperiod", "yperiod", "zperiod"})
  @@ ("sep_units" :> E("str", FALSE, None, Units))
  @@ ("max_top" :> E("int", FALSE, Val("int", "10"), <<>>)) @@ ("precision" :> E("int", FALSE, Val("int", "4"), <<>>))
  @@ ("num_bootstrap" :> E("int", FALSE, Val("int", "500"), <<>>))
  @@ ("var_method" :> E("str", FALSE, Val("str", "shot"), <<"shot", "jackknife", "sample", "bootstrap", "marked_bootstrap">>))
Corr2Table ==
  CorrTable @@ Plain("float", FALSE, {"min_rpar", "max_rpar"})
  @@ ("brute" :> E("bool", FALSE, Val("bool", "False"), <<"False", "True", "0", "1", "2">>))
  @@ ("metric" :> E("str", FALSE, Val("str", "Euclidean"), <<"Euclidean", "Rperp", "FisherRperp", "OldRperp", "Rlens", "Arc", "Periodic">>))
  @@ ("bin_type" :> E("str", FALSE, Val("str", "Log"), <<"Log", "Linear", "TwoD">>))
  @@ ("m2_uform" :> E("str", FALSE, Val("str", "Crittenden"), <<"Crittenden", "Schneider">>))
Corr3Table ==
  CorrTable
  @@ Plain("int", FALSE, {"nubins", "nvbins", "nphi_bins", "max_n"}) @@ ("phi_units" :> E("str", FALSE, None, Units))
  @@ Plain("float", FALSE, {"ubin_size", "vbin_size", "phi_bin_size", "min_u", "max_u", "min_v", "max_v", "min_phi", "max_phi"})
  @@ ("brute" :> E("bool", FALSE, Val("bool", "False"), <<"False", "True", "0", "1">>))
  @@ ("metric" :> E("str", FALSE, Val("str", "Euclidean"), <<"Euclidean", "Arc", "Periodic">>))
  @@ ("bin_type" :> E("str", FALSE, Val("str", "LogSAS"), <<"LogRUV", "LogSAS", "LogMultipole">>))
Stat == <<"compensated", "simple">>
Pairs == {"nn", "nk", "kk", "nz", "kz", "zz", "nv", "kv", "vv", "ng", "kg", "gg", "nt", "kt", "tt", "nq", "kq", "qq"}
Derived2 == {"m2", "nm", "norm"}
Triples == {"nnn", "kkk", "ggg", "m3"}
NStats == {"nk", "nz", "nv", "ng", "nt", "nq"}
Run2Table ==
  CatTable @@ Corr2Table
  @@ Plain("str", TRUE, {"file_name", "file_name2", "rand_file_name", "rand_file_name2"})
  @@ Plain("str", FALSE, {"file_list", "file_list2", "rand_file_list", "rand_file_list2"} \cup {p \o "_file_name" : p \in Pairs \cup Derived2})
  @@ ("nn_statistic" :> E("str", FALSE, Val("str", "compensated"), Stat)) @@ [n \in {p \o "_statistic" : p \in NStats} |-> E("str", FALSE, None, Stat)]
Run3Table ==
  CatTable @@ Corr3Table @@ Plain("str", TRUE, {"file_name", "rand_file_name"})
  @@ Plain("str", FALSE, {"file_list", "rand_file_list"} \cup {p \o "_file_name" : p \in Triples})
  @@ ("nnn_statistic" :> E("str", FALSE, Val("str", "compensated"), Stat))
Tables == [cat |-> CatTable, c2 |-> Corr2Table, c3 |-> Corr3Table, run2 |-> Run2Table, run3 |-> Run3Table]

\* Conversion of one value to the type of the parameter; Wrong if it has none.
Wrong == Val("wrong", "")
Yes == {"true", "True", "TRUE", "yes", "Yes", "YES", "t", "T", "y", "Y"}
No == {"false", "False", "FALSE", "no", "No", "NO", "f", "F", "n", "N", "none", "None", "NONE"}
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Ch(s, i) \in Digit
IsInt(s) == AllDigits(s) \/ (Len(s) > 1 /\ Ch(s, 1) = "-" /\ AllDigits(Drop(s, 1)))
\* digits with at most one point, and an exponent
Mantissa(s) == LET u == IF Len(s) > 0 /\ Ch(s, 1) = "-" THEN Drop(s, 1) ELSE s
                   p == Find(u, ".")
               IN IF p = 0 THEN AllDigits(u) ELSE LET w == Before(u, ".") \o Drop(u, p) IN AllDigits(w)
IsFloat(s) == IF Find(s, "e") = 0 THEN Mantissa(s) ELSE Mantissa(Before(s, "e")) /\ IsInt(Drop(s, Find(s, "e")))
Typed(ty, x) ==
  IF ty = "bool" THEN
    IF x.t = "str" THEN IF x.v \in Yes THEN Val("bool", "True") ELSE IF x.v \in No THEN Val("bool", "False")
                        ELSE IF IsInt(x.v) THEN Val("int", x.v) ELSE Wrong
    ELSE IF x.t \in {"bool", "int"} THEN x ELSE Wrong
  ELSE IF x.t = "none" THEN x
  ELSE IF ty = "int" THEN IF (x.t = "str" /\ IsInt(x.v)) \/ x.t = "int" THEN Val("int", x.v) ELSE Wrong
  ELSE IF ty = "float" THEN IF (x.t = "str" /\ IsFloat(x.v)) \/ x.t \in {"int", "float"} THEN Val("float", x.v) ELSE Wrong
  ELSE IF ty = "list" THEN IF x.t = "str" THEN [t |-> "list", v |-> "", items |-> <<x>>] ELSE IF x.t = "list" THEN x ELSE Wrong
  ELSE Val("str", x.v)
Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Member(x, va) == x \in {va[i] : i \in DOMAIN va}
\* one of the allowed values, or a longer form of one ("degrees")
Allowed(e, x) ==
  IF e.va = <<>> \/ x.t \in {"none", "wrong"} \/ Member(x.v, e.va) THEN x
  ELSE LET M == {i \in DOMAIN e.va : Prefix(e.va[i], x.v)}
       IN IF e.ty = "str" /\ Cardinality(M) = 1 THEN Val("str", e.va[CHOOSE i \in M : TRUE]) ELSE Wrong
One(e, x) == Allowed(e, Typed(e.ty, x))
Conv(e, x) ==
  IF x.t = "list" /\ e.ty # "list"
  THEN IF ~e.li THEN Wrong
       ELSE LET it == [i \in DOMAIN x.items |-> One(e, x.items[i])]
            IN IF \E i \in DOMAIN it : it[i].t = "wrong" THEN Wrong ELSE [t |-> "list", v |-> "", items |-> it]
  ELSE One(e, x)
\* The checked configuration: what was given, converted, and the defaults of the rest.
Refused(tab, g) == \E n \in DOMAIN g : n \notin DOMAIN tab \/ Conv(tab[n], g[n]).t = "wrong"
Checked(tab, g) ==
  [n \in DOMAIN g \cup {m \in DOMAIN tab : tab[m].de.t # "none"} |-> IF n \in DOMAIN g THEN Conv(tab[n], g[n]) ELSE tab[n].de]
\* Keywords win over the configuration; what does not concern this class is left out of the configuration.
Merged(tab, cfg, kw) == kw @@ [n \in DOMAIN cfg \cap DOMAIN tab |-> cfg[n]]
SameOne(a, b) == a.t = b.t /\ IF a.t = "float" THEN FEq(a.v, b.v) ELSE a.v = b.v
Same(a, b) == IF a.t = "list" THEN b.t = "list" /\ Len(a.items) = Len(b.items) /\ \A i \in DOMAIN a.items : SameOne(a.items[i], b.items[i])
              ELSE SameOne(a, b)

----------------------------------------------------------------------------
(* C. Runs.  r.three: corr3; r.cat2, r.rand1, r.rand2: whether these are given; *)
(* r.outs: the outputs asked for; r.layers: settings of the statistics, the     *)
(* first layer wins; r.has[i]: the fields catalog i (1 or 2) provides.          *)
Letter(o, i) == IF o \in {"m2", "m3", "ggg"} THEN "g" ELSE IF o \in {"nm", "norm"} THEN (IF i = 1 THEN "n" ELSE "g") ELSE Ch(o, i)
RECURSIVE Merge(_)
Merge(ls) == IF ls = <<>> THEN << >> ELSE ls[1] @@ Merge(Tail(ls))
Stats(r) == Merge(r.layers)
Stats1(r, o, d) == LET s == Stats(r) IN IF o \in DOMAIN s THEN s[o] ELSE d
\* Missing fields
Lacks(r, o) == \E i \in IF r.cat2 THEN {1, 2} ELSE {1} : Letter(o, i) # "n" /\ Letter(o, i) \notin r.has[i]
NeedsTwo(o) == o \in {"nm", "norm"} \/ (o \in Pairs /\ Ch(o, 1) # Ch(o, 2))
StatOf(o) == IF o \in {"nm", "norm"} THEN "ng" ELSE o
Compensated(r, o) ==
  IF o \in {"nn", "nnn"} THEN Stats1(r, o, "compensated") = "compensated"
  ELSE Stats1(r, StatOf(o), "compensated") = "compensated"
Asked(r, o) == Stats1(r, StatOf(o), "") = "compensated" /\ StatOf(o) \in NStats
RefusedOut(r, o) ==
  \/ Lacks(r, o)
  \/ (NeedsTwo(o) /\ ~r.cat2)
  \/ (o = "nn" /\ r.cat2 /\ r.rand1 /\ ~r.rand2)
  \/ (Asked(r, o) /\ ~r.rand1)
  \/ (o = "norm" /\ ~r.rand1)
RefusedRun(r) == r.bad \/ (r.rand2 /\ ~r.cat2) \/ \E o \in r.outs : RefusedOut(r, o)
\* Which estimator an output is computed with
Variant(r, o) ==
  IF o \in {"nn", "nnn"} THEN IF ~r.rand1 THEN "none" ELSE IF Compensated(r, o) THEN "comp" ELSE "simple"
  ELSE IF o \in NStats \cup {"nm"} THEN IF r.rand1 /\ Compensated(r, o) THEN "comp" ELSE "simple"
  ELSE IF o = "norm" THEN (IF Compensated(r, "ng") THEN "comp" ELSE "simple") \o (IF Compensated(r, "nn") THEN "comp" ELSE "simple")
  ELSE "simple"
=============================================================================
