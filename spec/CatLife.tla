------------------------------ MODULE CatLife ------------------------------
(* Where the data of a catalog live, and what the operations on catalogs do    *)
(* to that: data in memory or only in the file it came from, patches in memory,*)
(* unloaded, or in files of their own, copies and pickles.  A number stands    *)
(* for a content (a sequence of rows); want[i] is the content object i has to  *)
(* show, whatever happened to it.  Selecting rows and combining make new       *)
(* contents.                                                                   *)
EXTENDS Naturals, Sequences, FiniteSets, Behaviours
CONSTANTS NObj, Files, Patched, SelectResets
VARIABLES objs, want, next, seen, tgt
vars == <<objs, want, next, seen, tgt>>

\* file: content of the file behind the object (0: made from arrays); data: content in memory (0: none)
\* pk: kind of patches kept (none, mem: own arrays, file: read from file when needed); pfile: content their files hold
\* pdata: content of the patches in memory; dir: content of patch files written for this object
\* cache: content behind the values remembered once computed (sums, variances, centers, fields)
Obj(f, d) == [file |-> f, data |-> d, pk |-> "none", pfile |-> 0, pdata |-> 0, dir |-> 0, cache |-> 0]

Init == /\ objs = <<Obj(IF Files THEN 1 ELSE 0, IF Files THEN 0 ELSE 1)>>
        /\ want = <<1>> /\ next = 2 /\ seen = 0 /\ tgt = 1 /\ hist = << >>

Obs == 1..Len(objs)
Mem(o) == IF o.data = 0 THEN [o EXCEPT !.data = o.file] ELSE o
Set(i, o) == objs' = [objs EXCEPT ![i] = o]
Same == UNCHANGED <<want, next>>
See(i, c) == seen' = c /\ tgt' = i

Look(i) == LET o == Mem(objs[i]) IN Set(i, [o EXCEPT !.cache = IF o.cache = 0 THEN o.data ELSE o.cache]) /\ See(i, o.data) /\ Same
LookCached(i) == LET o == Mem(objs[i]) c == IF o.cache = 0 THEN o.data ELSE o.cache
                 IN Set(i, [o EXCEPT !.cache = c]) /\ See(i, c) /\ Same
Load(i) == Set(i, Mem(objs[i])) /\ See(i, want[i]) /\ Same
Unload(i) == LET o == objs[i]
             IN Set(i, IF o.file = 0 THEN o ELSE [o EXCEPT !.data = 0, !.pdata = IF o.pk = "file" THEN 0 ELSE o.pdata]) /\ See(i, want[i]) /\ Same
Patches(i, low) ==
  LET o == objs[i] m == Mem(o)
      p == IF o.pk # "none" THEN o
           ELSE IF low /\ o.file # 0 THEN [m EXCEPT !.pk = "file", !.pfile = o.file, !.pdata = 0]
           ELSE [m EXCEPT !.pk = "mem", !.pdata = m.data]
  IN Set(i, p) /\ See(i, want[i]) /\ Same
LookP(i) == LET o == objs[i]
            IN /\ o.pk # "none"
               /\ LET p == IF o.pdata = 0 THEN [o EXCEPT !.pdata = o.pfile] ELSE o IN Set(i, p) /\ See(i, p.pdata) /\ Same
WriteP(i) == LET o == Mem(objs[i]) p == IF o.pk = "none" THEN [o EXCEPT !.pk = "mem", !.pdata = o.data] ELSE o
             IN Set(i, [p EXCEPT !.dir = IF p.pdata = 0 THEN p.pfile ELSE p.pdata]) /\ See(i, want[i]) /\ Same
ReadP(i) == /\ objs[i].dir # 0
            /\ Set(i, [objs[i] EXCEPT !.pk = "file", !.pfile = objs[i].dir, !.pdata = 0]) /\ See(i, want[i]) /\ Same
Clear(i) == Set(i, objs[i]) /\ See(i, want[i]) /\ Same
Corr(i) == Set(i, Mem(objs[i])) /\ See(i, want[i]) /\ Same
New(o, c) == /\ Len(objs) < NObj /\ objs' = Append(objs, o) /\ want' = Append(want, c)
Copy(i) == New([objs[i] EXCEPT !.dir = 0], want[i]) /\ See(i, want[i]) /\ UNCHANGED next
Reread(i) == New(Obj(Mem(objs[i]).data, 0), want[i]) /\ See(i, want[i]) /\ UNCHANGED next
Combine(i, j) == New(Obj(0, next), next) /\ next' = next + 1 /\ See(i, want[i])
Select(i) == LET o == objs[i]
             IN /\ o.file = 0 /\ want' = [want EXCEPT ![i] = next] /\ next' = next + 1
                /\ Set(i, IF SelectResets THEN [o EXCEPT !.data = next, !.cache = 0, !.pk = "none", !.pdata = 0, !.pfile = 0, !.dir = 0]
                          ELSE [o EXCEPT !.data = next])
                /\ See(i, next)

Next == \E i \in Obs :
          \/ Look(i) /\ Did(<<"look", i>>)
          \/ LookCached(i) /\ Did(<<"cached", i>>)
          \/ Load(i) /\ Did(<<"load", i>>)
          \/ Unload(i) /\ Did(<<"unload", i>>)
          \/ Patched /\ (\/ Patches(i, TRUE) /\ Did(<<"patches_low", i>>)
                         \/ Patches(i, FALSE) /\ Did(<<"patches", i>>)
                         \/ LookP(i) /\ Did(<<"lookp", i>>)
                         \/ WriteP(i) /\ Did(<<"writep", i>>)
                         \/ ReadP(i) /\ Did(<<"readp", i>>))
          \/ Clear(i) /\ Did(<<"clear", i>>)
          \/ Corr(i) /\ Did(<<"corr", i>>)
          \/ Copy(i) /\ Did(<<"copy", i>>)
          \/ Copy(i) /\ Did(<<"pickle", i>>)
          \/ Reread(i) /\ Did(<<"reread", i>>)
          \/ Select(i) /\ Did(<<"select", i>>)
          \/ \E j \in Obs : Combine(i, j) /\ Did(<<"combine", i, j>>)

\* what is seen is what the object stands for, and everything kept is a version of it
Invisible == seen = 0 \/ seen = want[tgt]
Faithful == \A i \in Obs : LET o == objs[i] IN
   /\ o.data \in {0, want[i]} /\ o.cache \in {0, want[i]} /\ o.file \in {0, want[i]} /\ o.dir \in {0, want[i]}
   /\ (o.pk = "none" \/ (o.pdata \in {0, want[i]} /\ (o.pk = "mem" \/ o.pfile = want[i])))
   /\ (o.data = 0 => o.file # 0)
Ver == Cardinality({want[i] : i \in Obs})
Bound == next <= 4
View == <<objs, want, next, seen, tgt>>
Out(depth) == Emit(depth)
=============================================================================
