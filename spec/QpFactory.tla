----------------------------- MODULE QpFactory -----------------------------
(***************************************************************************)
(* The registry of representations.                                        *)
(*                                                                         *)
(* A class has a name, a parent that it inherits from and the methods it   *)
(* brings: pairs of a kind (creating, extracting, reading) and a key, the  *)
(* key "none" being the default.  Registering adds the class under its     *)
(* name, for looking up by name and by attribute, and fills the maps of    *)
(* its methods.  A used name is refused, and nothing changes.  A class can *)
(* be given further methods later.                                         *)
(* Looking up gives the function for the key, else the default one; there  *)
(* is no creating or extracting without either, and reading without either *)
(* leaves the data as they are.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS C, Names, Keys, L, \* classes, names, keys of methods, most methods of a class
          Len0,              \* length of behaviours
          Emit, MUT
VARIABLES cls, reg, attr, maps, last, log
vars == <<cls, reg, attr, maps, last, log>>

Kinds == {"create", "extract", "read"}
Ids == 1..C
\* the i-th method of class c
Func(c, i) == [c |-> c, i |-> i]
NoFunc == [c |-> 0, i |-> 0]
NoMap == [k \in {} |-> NoFunc]
Put(m, key, f) == IF key \in DOMAIN m THEN m ELSE m @@ (key :> f)    \* the first one stays
RECURSIVE Fill(_, _, _, _)
Fill(m, c, kind, i) ==
   IF i > Len(cls[c].adds) THEN m
   ELSE Fill(IF cls[c].adds[i].kind = kind /\ ~cls[c].adds[i].late THEN Put(m, cls[c].adds[i].key, Func(c, i)) ELSE m, c, kind, i + 1)
Built(c, start) == [kind \in Kinds |-> Fill(start[kind], c, kind, 1)]
Empty == [kind \in Kinds |-> NoMap]

Method == [kind : Kinds, key : Keys \cup {"none"}, late : {FALSE}]
\* the simulator takes a few of the many
Choices(k) == IF Emit THEN {[i \in 1..k |-> RandomElement(Method)]} ELSE [1..k -> Method]

\* classes are chosen one by one (exhaustively, or at random by the simulator)
Init == /\ cls = <<>> /\ reg = [n \in {} |-> 0] /\ attr = [n \in {} |-> 0] /\ maps = [c \in Ids |-> Empty]
        /\ last = [op |-> "start"] /\ log = <<>>
Define == /\ Len(cls) < C
          /\ LET c == Len(cls) + 1
             IN \E name \in Names : \E p \in 0..(c - 1) : \E k \in 0..L : \E adds \in Choices(k) :
                  cls' = Append(cls, [name |-> name, parent |-> p, adds |-> adds])
          /\ UNCHANGED <<reg, attr, maps, last, log>>

Done(ev) == /\ Len(cls) = C /\ Len(log) < Len0
            /\ last' = ev
            /\ log' = Append(log, ev)
            /\ (Emit /\ Len(log') = Len0) => PrintT("@@" \o ToJson([cls |-> cls', ops |-> log']))

\* a class that inherits shares the maps of its parent with the defect
RECURSIVE Root(_)
Root(c) == IF cls[c].parent = 0 THEN c ELSE Root(cls[c].parent)

Register(c) ==
  LET name == cls[c].name IN
  /\ UNCHANGED cls
  /\ IF name \in DOMAIN reg
     THEN /\ Done([op |-> "register", c |-> c, ok |-> MUT = "overwrite"])
          /\ reg' = IF MUT = "overwrite" THEN [reg EXCEPT ![name] = c] ELSE reg
          /\ attr' = IF MUT \in {"overwrite", "early"} THEN [attr EXCEPT ![name] = c] ELSE attr
          /\ maps' = IF MUT = "wipe" /\ reg[name] = c THEN [maps EXCEPT ![c] = Built(c, Empty)] ELSE maps
     ELSE /\ Done([op |-> "register", c |-> c, ok |-> TRUE])
          /\ reg' = reg @@ (name :> c)
          /\ attr' = attr @@ (name :> c)
          /\ maps' = IF MUT = "shared"
                     THEN LET m == Built(c, maps[Root(c)])
                          IN [d \in Ids |-> IF Root(d) = Root(c) THEN m ELSE maps[d]]
                     ELSE [maps EXCEPT ![c] = Built(c, Empty)]

\* a method for a class that is registered; the first one for a key stays
Add(c, m) ==
  /\ c \in {reg[n] : n \in DOMAIN reg}
  /\ Len(cls[c].adds) <= L
  /\ cls' = [cls EXCEPT ![c].adds = Append(@, [m EXCEPT !.late = TRUE])]
  /\ maps' = [maps EXCEPT ![c][m.kind] = Put(@, m.key, Func(c, Len(cls[c].adds) + 1))]
  /\ Done([op |-> "add", c |-> c, i |-> Len(cls[c].adds) + 1])
  /\ UNCHANGED <<reg, attr>>

Look(kind, name, key) ==
  IF name \notin DOMAIN reg THEN NoFunc
  ELSE LET m == maps[reg[name]][kind]
       IN IF key \in DOMAIN m THEN m[key]
          ELSE IF MUT = "nodefault" THEN NoFunc
          ELSE IF MUT = "anything" /\ DOMAIN m # {} THEN m[CHOOSE k \in DOMAIN m : TRUE]
          ELSE IF "none" \in DOMAIN m THEN m["none"] ELSE NoFunc
Class0(name) == IF name \in DOMAIN reg THEN reg[name] ELSE 0

\* create by name and method
Create(name, key) ==
  /\ UNCHANGED <<cls, reg, attr, maps>>
  /\ Done([op |-> "create", name |-> name, key |-> key, c |-> Class0(name), f |-> Look("create", name, key)])
\* by attribute
Attr(name) ==
  /\ UNCHANGED <<cls, reg, attr, maps>>
  /\ Done([op |-> "attr", name |-> name, c |-> IF name \in DOMAIN attr THEN attr[name] ELSE 0])

\* extract and create
Convert(name, key) ==
  /\ UNCHANGED <<cls, reg, attr, maps>>
  /\ Done([op |-> "convert", name |-> name, key |-> key, c |-> Class0(name), x |-> Look("extract", name, key), f |-> Look("create", name, key)])

\* from tables of a version
Tables(name, key) ==
  /\ UNCHANGED <<cls, reg, attr, maps>>
  /\ Done([op |-> "tables", name |-> name, key |-> key, c |-> Class0(name), x |-> Look("read", name, key), f |-> Look("create", name, "none")])


Next == \/ Define
        \/ Len(cls) = C /\ \E c \in Ids : Register(c)
        \/ Len(cls) = C /\ \E c \in Ids : \E m \in (IF Emit THEN {RandomElement(Method)} ELSE Method) : Add(c, m)
        \/ Len(cls) = C /\ \E n \in Names : \E k \in Keys \cup {"none"} : Create(n, k) \/ Convert(n, k) \/ Tables(n, k)
        \/ Len(cls) = C /\ \E n \in Names : Attr(n)
Spec == Init /\ [][Next]_vars

(* -------------------------------- properties ---------------------------- *)
Registered == {reg[n] : n \in DOMAIN reg}
\* nothing that was registered changes
Kept == [][ /\ \A n \in DOMAIN reg : n \in DOMAIN reg' /\ reg'[n] = reg[n] /\ attr'[n] = attr[n]
            /\ \A c \in Registered : \A kind \in Kinds : \A key \in DOMAIN maps[c][kind] :
                 key \in DOMAIN maps'[c][kind] /\ maps'[c][kind][key] = maps[c][kind][key] ]_vars
\* a class is found under its own name only
OwnName == \A n \in DOMAIN reg : cls[reg[n]].name = n
SameAttr == attr = reg
\* every method that is found was brought by the class, for the key
Brought(f, c, kind, key) == /\ f.c = c /\ f.i \in DOMAIN cls[c].adds
                            /\ cls[c].adds[f.i].kind = kind /\ cls[c].adds[f.i].key = key
Has(c, kind, key) == c # 0 /\ \E i \in DOMAIN cls[c].adds : cls[c].adds[i].kind = kind /\ cls[c].adds[i].key = key
OwnMethods == \A c \in Registered : \A kind \in Kinds : \A key \in Keys \cup {"none"} :
                /\ key \in DOMAIN maps[c][kind] <=> Has(c, kind, key)
                /\ key \in DOMAIN maps[c][kind] => Brought(maps[c][kind][key], c, kind, key)
\* what a look-up gives
Answer(f, c, kind, key) ==
  IF Has(c, kind, key) THEN Brought(f, c, kind, key)
  ELSE IF Has(c, kind, "none") THEN Brought(f, c, kind, "none")
  ELSE f = NoFunc
Answers == /\ last.op = "create" => Answer(last.f, last.c, "create", last.key)
           /\ last.op = "convert" => Answer(last.x, last.c, "extract", last.key) /\ Answer(last.f, last.c, "create", last.key)
           /\ last.op = "tables" => Answer(last.x, last.c, "read", last.key) /\ Answer(last.f, last.c, "create", "none")
           /\ last.op = "attr" => (IF \E c \in Registered : cls[c].name = last.name THEN cls[last.c].name = last.name ELSE last.c = 0)
View == <<cls, reg, attr, maps, last>>
=============================================================================
