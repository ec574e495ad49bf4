----------------------------- MODULE QpEnsemble -----------------------------
(***************************************************************************)
(* Ensembles, their selections and combinations, updates, ancillary data,  *)
(* cached grids and the files they are kept in, as one state machine.      *)
(*                                                                         *)
(* A distribution is an abstract row number, an ensemble a sequence of     *)
(* them with the metadata they share (1 or 2), ancillary columns (each a   *)
(* sequence with one number for each row) and the grid values it keeps.    *)
(* Every step is logged with the state it leads to; the behaviours are     *)
(* replayed into the code with each representation of qp.                  *)
(*                                                                         *)
(* MUT injects a defect of the kind that the properties exclude, to show   *)
(* that they are not vacuous.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, QpSelect
CONSTANTS H,        \* number of handles (variables that hold an ensemble)
          NF,       \* number of file names
          ND,       \* number of files for named collections
          MaxLen,   \* most distributions in an ensemble
          NRow,     \* number of different distributions
          NGrid,    \* number of grids
          Depth,    \* steps of a logged behaviour (0: no logging, explore everything)
          OPS,      \* the operations that take part
          MUT
VARIABLES ens, files, lastw, dicts, nanc, log, done
vars == <<ens, files, lastw, dicts, nanc, log, done>>

SIM == Depth > 0
Handles == 1..H
Dead == [live |-> FALSE, meta |-> 0, alt |-> FALSE, rows |-> <<>>, anc |-> <<>>, cache |-> <<>>]
NoFile == [there |-> FALSE, meta |-> 0, rows |-> <<>>, anc |-> <<>>]

\* everything when exploring, one of them when simulating
Choices(S) == IF SIM THEN {RandomElement(S)} ELSE S
On(op) == op \in OPS
Live == {h \in Handles : ens[h].live}
Full == {h \in Handles : ens[h].live /\ ens[h].rows # <<>>}
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

(******************************* selections ********************************)
Keys(n) == CASE On("anykey") -> Choices(IntKeys(n)) \cup Choices(SliceKeys(n)) \cup Choices(SliceKeys(n))
                                \cup Choices(MaskKeys(n)) \cup Choices(IndexKeys(n))
             [] On("fullkey") -> Choices(FullKeys(n))
             [] OTHER -> IntKeys(n) \cup {[k |-> "slice", a |-> NoneInt, b |-> NoneInt, s |-> -1]}

(****************************** combinations *******************************)
RECURSIVE CatRows(_)
CatRows(s) == IF s = <<>> THEN <<>> ELSE Head(s).rows \o CatRows(Tail(s))
RECURSIVE CatCol(_, _)
CatCol(s, c) == IF s = <<>> THEN <<>> ELSE Head(s).anc[c] \o CatCol(Tail(s), c)
\* what joining a sequence of ensembles gives
CanJoin(s) == /\ \A i \in 1..Len(s) : s[i].meta = s[1].meta
              /\ \/ \E i \in 1..Len(s) : s[i].anc = <<>>
                 \/ \A i \in 1..Len(s) : Len(s[i].anc) = Len(s[1].anc)
JoinAnc(s) == IF \E i \in 1..Len(s) : s[i].anc = <<>> THEN <<>>
              ELSE [c \in 1..Len(s[1].anc) |-> CatCol(s, c)]

(******************************** the steps ********************************)
AncOf(k, n) == CASE k = 0 -> <<>>
                 [] k = 1 -> <<[i \in 1..n |-> nanc + i]>>
                 [] k = 2 -> <<[i \in 1..n |-> nanc + i], [i \in 1..n |-> nanc + 50 + i]>>
Bump == nanc' = IF SIM THEN nanc + 100 ELSE 0
AK == IF SIM \/ On("anc2") THEN 0..2 ELSE 0..1
AL == IF SIM \/ On("alt") THEN {FALSE, TRUE} ELSE {FALSE}
Top == IF SIM THEN 2 * MaxLen ELSE MaxLen
RowSeqs == \* to be bound with \E
   LET n == IF SIM THEN RandomElement(1..MaxLen) ELSE 0
   IN IF SIM THEN {RandomElement([1..n -> 1..NRow])}
      ELSE UNION {[1..l -> 1..NRow] : l \in 1..MaxLen}

\* one step: what was done, to which handle (0: none), if it was accepted, and the ensembles after it
Step(what, tgt, ok, e) ==
   /\ ens' = e
   /\ log' = IF SIM THEN Append(log, [what |-> what, tgt |-> tgt, ok |-> ok, post |-> e])
             ELSE <<[what |-> what, tgt |-> tgt, ok |-> ok]>>
   /\ UNCHANGED done
NoFiles == UNCHANGED <<files, lastw, dicts>>

Create == /\ On("create")
          /\ \E h \in Choices(Handles), m \in Choices(1..2), al \in Choices(AL), k \in Choices(AK) :
             \E r \in RowSeqs :
                /\ Step([op |-> "create", h |-> h, meta |-> m, alt |-> al, rows |-> r, anc |-> AncOf(k, Len(r))], h, TRUE,
                        [ens EXCEPT ![h] = [live |-> TRUE, meta |-> m, alt |-> al, rows |-> r,
                                            anc |-> AncOf(k, Len(r)), cache |-> <<>>]])
                /\ Bump
                /\ NoFiles

Select == /\ On("select") /\ Full # {}
          /\ \E h \in Choices(Full), g \in Choices(Handles) :
             \E key \in Keys(Len(ens[h].rows)) :
                LET idx == KeyIdx(key, Len(ens[h].rows))
                IN /\ idx # <<>>
                   /\ Step([op |-> "select", h |-> h, g |-> g, key |-> key], g, TRUE,
                           [ens EXCEPT ![g] = [live |-> TRUE, meta |-> ens[h].meta, alt |-> FALSE,
                                               rows |-> Pick(ens[h].rows, idx),
                                               anc |-> PickAnc(ens[h].anc, idx), cache |-> <<>>]])
          /\ UNCHANGED nanc /\ NoFiles

Concat == /\ On("concat") /\ Full # {}
          /\ \E n \in Choices(1..(IF SIM THEN 3 ELSE 2)), g \in Choices(Handles) :
             \E hs \in Choices([1..n -> Full]) :
                LET s == [i \in 1..n |-> ens[hs[i]]]
                IN /\ Len(CatRows(s)) <= Top
                   /\ IF CanJoin(s)
                      THEN Step([op |-> "concat", g |-> g, hs |-> hs], g, TRUE,
                                [ens EXCEPT ![g] = [live |-> TRUE, meta |-> s[1].meta, alt |-> FALSE,
                                                    rows |-> CatRows(s), anc |-> JoinAnc(s), cache |-> <<>>]])
                      ELSE Step([op |-> "concat", g |-> g, hs |-> hs], 0, FALSE, ens)
          /\ UNCHANGED nanc /\ NoFiles

\* alt: made with an alternate constructor, which its updates then use
Append2 == /\ On("append") /\ Full # {}
           /\ \E h \in Choices(Full), g \in Choices(Full) :
                LET s == <<ens[h], ens[g]>>
                IN /\ Len(CatRows(s)) <= Top
                   /\ IF CanJoin(s)
                      THEN Step([op |-> "append", h |-> h, g |-> g], h, TRUE,
                                [ens EXCEPT ![h] = [@ EXCEPT !.rows = CatRows(s), !.anc = JoinAnc(s),
                                                             !.cache = IF MUT = "stale" THEN @ ELSE <<>>]])
                      ELSE Step([op |-> "append", h |-> h, g |-> g], h, FALSE,
                                IF MUT = "partial" THEN [ens EXCEPT ![h].anc = <<>>] ELSE ens)
           /\ UNCHANGED nanc /\ NoFiles

\* the same data with the other metadata (such as another way to make a density of quantiles)
Switch == /\ On("switch") /\ Full # {}
          /\ \E h \in Choices(Full) :
                Step([op |-> "switch", h |-> h], h, TRUE, [ens EXCEPT ![h] = [@ EXCEPT !.meta = 3 - @, !.cache = <<>>]])
          /\ UNCHANGED nanc /\ NoFiles

\* bad: what is wrong with the update
Update == /\ On("update") /\ Full # {}
          /\ \E h \in Choices(Full) : \E m \in Choices(IF On("keepmeta") THEN {ens[h].meta} ELSE 1..2), k \in Choices(AK), full \in Choices({FALSE, TRUE}),
                bad \in Choices({"", "", "shape", "anc"}) :
             \E r \in RowSeqs :
                LET mm == IF full THEN m ELSE ens[h].meta
                    w == [op |-> "update", h |-> h, meta |-> mm, full |-> full, rows |-> r, anc |-> AncOf(k, Len(r)), bad |-> bad]
                IN /\ (bad = "anc" => k > 0)
                   /\ IF bad = ""
                      THEN Step(w, h, TRUE,
                                [ens EXCEPT ![h] = [@ EXCEPT !.rows = r, !.meta = mm, !.anc = AncOf(k, Len(r)),
                                                             !.cache = IF MUT = "stale" THEN @ ELSE <<>>]])
                      ELSE Step(w, h, FALSE,
                                IF MUT = "partial" THEN [ens EXCEPT ![h].rows = r] ELSE ens)
          /\ Bump /\ NoFiles

Ancil == /\ On("ancil") /\ Full # {}
         /\ \E h \in Choices(Full), k \in Choices(AK), add \in Choices({FALSE, TRUE}), bad \in Choices({FALSE, FALSE, TRUE}) :
              LET n == Len(ens[h].rows)
                  new == AncOf(k, n)
                  \* adding replaces the columns of the same name and keeps the others
                  res == IF ~add THEN new
                         ELSE IF Len(ens[h].anc) = 2 /\ k = 1 THEN <<new[1], ens[h].anc[2]>>
                         ELSE new
                  w == [op |-> "ancil", h |-> h, add |-> add, anc |-> new, bad |-> bad]
              IN /\ (add \/ bad => k > 0)
                 /\ IF bad THEN Step(w, h, FALSE, IF MUT = "partial" THEN [ens EXCEPT ![h].anc = <<>>] ELSE ens)
                    ELSE Step(w, h, TRUE,
                              IF MUT = "alias" /\ add
                              THEN [x \in Handles |-> IF ens[x].anc = ens[h].anc /\ ens[x].live
                                                      THEN [ens[x] EXCEPT !.anc = res] ELSE ens[x]]
                              ELSE [ens EXCEPT ![h].anc = res])
         /\ Bump /\ NoFiles

\* the grid values that are kept: those of the rows and metadata of the time, for one grid
Gridded == /\ On("grid") /\ Full # {}
           /\ \E h \in Choices(Full), gr \in Choices(1..NGrid),
                 how \in Choices(IF SIM THEN {"gridded", "mode", "moment", "partial"} ELSE {"gridded"}) :
                LET hit == ens[h].cache # <<>> /\ (MUT = "gridblind" \/ ens[h].cache[1].grid = gr)
                    c == IF hit THEN ens[h].cache
                         ELSE <<[grid |-> gr, meta |-> ens[h].meta, rows |-> ens[h].rows]>>
                IN Step([op |-> "grid", h |-> h, grid |-> gr, how |-> how, given |-> c[1]], h, TRUE,
                        [ens EXCEPT ![h].cache = c])
           /\ UNCHANGED nanc /\ NoFiles

\* evaluations and other questions that change nothing
Query == /\ On("query") /\ Full # {}
         /\ \E h \in Choices(Full), g \in Choices(Full),
               how \in Choices(IF ~SIM THEN {"pdf"} ELSE {"pdf", "cdf", "ppf", "rvs", "stats", "iterate", "tables", "convert", "metric", "repr", "hist", "chunk"}) :
              Step([op |-> "query", h |-> h, g |-> g, how |-> how], 0, TRUE, ens)
         /\ UNCHANGED nanc /\ NoFiles

\* made again from what an ensemble says about itself; only tables and copies carry the ancillary data
Carries(how) == how \in {"tables", "class", "copy"}
Rebuild == /\ On("rebuild") /\ Full # {}
           /\ \E h \in Choices(Full), g \in Choices(Handles), how \in Choices({"tables", "class", "copy", "create"}) :
                Step([op |-> "rebuild", h |-> h, g |-> g, how |-> how], g, TRUE,
                     [ens EXCEPT ![g] = [live |-> TRUE, meta |-> ens[h].meta, alt |-> how = "copy" /\ ens[h].alt,
                                         rows |-> IF MUT = "reordered" THEN Pick(ens[h].rows, [i \in DOMAIN ens[h].rows |-> Len(ens[h].rows) + 1 - i]) ELSE ens[h].rows,
                                         anc |-> IF Carries(how) /\ MUT # "bare" THEN ens[h].anc ELSE <<>>,
                                         cache |-> IF how = "copy" THEN ens[h].cache ELSE <<>>]])
           /\ UNCHANGED nanc /\ NoFiles

Drop == /\ On("drop") /\ Cardinality(Live) > 1
        /\ \E h \in Choices(Live) : Step([op |-> "drop", h |-> h], h, TRUE, [ens EXCEPT ![h] = Dead])
        /\ UNCHANGED nanc /\ NoFiles

(********************************** files **********************************)
FileOf(e) == [there |-> TRUE, meta |-> e.meta, rows |-> e.rows, anc |-> e.anc]
Write == /\ On("file") /\ Full # {}
         /\ \E h \in Choices(Full), f \in Choices(1..NF) :
              /\ Step([op |-> "write", h |-> h, f |-> f, again |-> files[f].there], 0, TRUE, ens)
              /\ files' = [files EXCEPT ![f] = IF MUT = "staleanc" /\ files[f].there /\ ens[h].anc = <<>>
                                               THEN [FileOf(ens[h]) EXCEPT !.anc = files[f].anc]
                                               ELSE FileOf(ens[h])]
              /\ lastw' = [lastw EXCEPT ![f] = FileOf(ens[h])]
              /\ UNCHANGED <<nanc, dicts>>

Read == /\ On("file") /\ \E f \in 1..NF : files[f].there
        /\ \E f \in Choices({x \in 1..NF : files[x].there}), g \in Choices(Handles) :
             Step([op |-> "read", f |-> f, g |-> g], g, TRUE,
                  [ens EXCEPT ![g] = [live |-> TRUE, meta |-> files[f].meta, alt |-> FALSE,
                                      rows |-> files[f].rows, anc |-> files[f].anc, cache |-> <<>>]])
        /\ UNCHANGED nanc /\ NoFiles

\* is there an ensemble in the file; a file of something else; no file
IsQp == /\ On("file")
        /\ \E f \in Choices(0..NF) :
             Step([op |-> "isqp", f |-> f, there |-> f > 0 /\ files[Max(f, 1)].there], 0, TRUE, ens)
        /\ UNCHANGED nanc /\ NoFiles

Remove == /\ On("file") /\ On("remove") /\ \E f \in 1..NF : files[f].there
          /\ \E f \in Choices({x \in 1..NF : files[x].there}) :
               /\ Step([op |-> "remove", f |-> f], 0, TRUE, ens)
               /\ files' = [files EXCEPT ![f] = NoFile]
               /\ lastw' = [lastw EXCEPT ![f] = NoFile]
          /\ UNCHANGED <<nanc, dicts>>

\* named collections: names are 1..3
WriteDict == /\ On("dict") /\ Full # {}
             /\ \E d \in Choices(1..ND), N \in Choices(SUBSET (1..(IF SIM THEN 3 ELSE 2))), bad \in Choices({FALSE, FALSE, FALSE, TRUE}) :
                \E hs \in Choices([N -> Full]) :
                  LET D == {[name |-> x, e |-> FileOf(ens[hs[x]]), h |-> hs[x]] : x \in N}
                      keep == IF MUT = "merge" THEN {y \in dicts[d] : y.name \notin N} ELSE {}
                  IN /\ N # {}
                     /\ Step([op |-> "writedict", d |-> d, items |-> D, bad |-> bad], 0, ~bad, ens)
                     /\ dicts' = IF bad THEN dicts ELSE [dicts EXCEPT ![d] = D \cup keep]
             /\ UNCHANGED <<nanc, files, lastw>>

ReadDict == /\ On("dict") /\ \E d \in 1..ND : dicts[d] # {}
            /\ \E d \in Choices({x \in 1..ND : dicts[x] # {}}), g \in Choices(Handles) :
               \E it \in Choices(dicts[d]) :
                 Step([op |-> "readdict", d |-> d, items |-> dicts[d], g |-> g, name |-> it.name], g, TRUE,
                      [ens EXCEPT ![g] = [live |-> TRUE, meta |-> it.e.meta, alt |-> FALSE,
                                          rows |-> it.e.rows, anc |-> it.e.anc, cache |-> <<>>]])
            /\ UNCHANGED nanc /\ NoFiles

Init == /\ ens = [h \in Handles |-> Dead]
        /\ files = [f \in 1..NF |-> NoFile]
        /\ lastw = [f \in 1..NF |-> NoFile]
        /\ dicts = [d \in 1..ND |-> {}]
        /\ nanc = 0 /\ log = <<>> /\ done = FALSE

Finish == /\ SIM /\ Len(log) = Depth /\ ~done
          /\ done' = TRUE
          /\ PrintT("@@" \o ToJson(log))
          /\ UNCHANGED <<ens, files, lastw, dicts, nanc, log>>

More == ~SIM \/ Len(log) < Depth
Next == \/ Finish
        \/ More /\ (Create \/ Select \/ Concat \/ Append2 \/ Switch \/ Rebuild \/ Update \/ Ancil \/ Gridded \/ Query \/ Drop
                    \/ Write \/ Read \/ IsQp \/ Remove \/ WriteDict \/ ReadDict)
Spec == Init /\ [][Next]_vars
View == <<ens, files, lastw, dicts, nanc>>

(******************************* properties ********************************)
\* ancillary columns have one value for each distribution
AncFits == \A h \in Live : \A c \in 1..Len(ens[h].anc) : Len(ens[h].anc[c]) = Len(ens[h].rows)
\* what is kept for a grid is what the ensemble now is
CacheFresh == \A h \in Live : ens[h].cache # <<>> =>
                 /\ ens[h].cache[1].rows = ens[h].rows
                 /\ ens[h].cache[1].meta = ens[h].meta
\* a name holds what was last written to it
FileHolds == files = lastw
\* names in a collection are different
DictNames == \A d \in 1..ND : \A x, y \in dicts[d] : x.name = y.name => x = y
Same(a, b) == a.live = b.live /\ a.meta = b.meta /\ a.rows = b.rows /\ a.anc = b.anc /\ a.alt = b.alt
Last == log'[Len(log')]
\* nobody but the target of a step sees a change
Frame == [][log' # log => \A h \in Handles : h # Last.tgt => ens'[h] = ens[h]]_vars
\* what is refused changes nothing
Atomic == [][log' # log /\ ~Last.ok => (\A h \in Handles : Same(ens'[h], ens[h])) /\ files' = files /\ dicts' = dicts]_vars
\* a grid asked for is the grid given, of the ensemble as it is
GridGiven == [][log' # log /\ Last.what.op = "grid" =>
                  LET w == Last.what IN w.given = [grid |-> w.grid, meta |-> ens[w.h].meta, rows |-> ens[w.h].rows]]_vars
\* a collection holds exactly what was written
DictHolds == [][log' # log /\ Last.what.op = "writedict" /\ Last.ok => dicts'[Last.what.d] = Last.what.items]_vars
\* made again, it is the same
RebuiltSame == [][log' # log /\ Last.what.op = "rebuild" =>
                    LET w == Last.what
                    IN /\ ens'[w.g].rows = ens[w.h].rows /\ ens'[w.g].meta = ens[w.h].meta
                       /\ ens'[w.g].anc = IF Carries(w.how) THEN ens[w.h].anc ELSE <<>>]_vars
\* joining conserves the distributions
Conserve == [][log' # log /\ Last.what.op = "concat" /\ Last.ok =>
                 LET w == Last.what
                     RECURSIVE L(_)
                     L(i) == IF i = 0 THEN 0 ELSE L(i - 1) + Len(ens[w.hs[i]].rows)
                 IN Len(ens'[w.g].rows) = L(Len(w.hs))]_vars
=============================================================================
