----------------------------- MODULE RobinHood -----------------------------
(* Design model of cachelot::dict: a Robin Hood open-addressing table with   *)
(* backward-shift deletion, and incremental growth through two tables, in    *)
(* steps of Batch elements per modifying operation.  Checked property: the   *)
(* whole construction is observationally a map, in every state of an         *)
(* unfinished expansion and for every assignment of hash values.             *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Keys,      \* 1..n
          Hashes,    \* hash values to be assigned to keys (non-zero)
          Cap0,      \* initial capacity
          Batch,     \* elements moved per operation
          Fill       \* growth threshold in percent

VARIABLES hsh,    \* [Keys -> Hashes]
          pri,    \* primary table [0..cap-1 -> key or 0]
          sec,    \* secondary table, << >> if not expanding
          pos,    \* next slot of sec to be moved
          map     \* the ideal map: set of stored keys
vars == <<hsh, pri, sec, pos, map>>

Cap(t) == Cardinality(DOMAIN t)
Empty(c) == [s \in 0..(c - 1) |-> 0]
NoTable == << >>
Expanding == sec # NoTable
Size(t) == Cardinality({s \in DOMAIN t : t[s] # 0})
MaxSize(t) == (Cap(t) * Fill) \div 100
Inc(t, s) == (s + 1) % Cap(t)
Want(t, k) == hsh[k] % Cap(t)
Dist(t, s, k) == (s + Cap(t) - Want(t, k)) % Cap(t)

\* position of key k, or the position where insertion has to start
RECURSIVE Probe(_, _, _, _)
Probe(t, k, s, d) ==
    IF t[s] = 0 \/ d > Dist(t, s, t[s]) THEN [found |-> FALSE, at |-> s]
    ELSE IF t[s] = k THEN [found |-> TRUE, at |-> s]
    ELSE Probe(t, k, Inc(t, s), d + 1)
EntryFor(t, k) == Probe(t, k, Want(t, k), 0)

\* insertion from the position found by Probe; returns the table and the place of the new key
RECURSIVE Displace(_, _, _, _, _)
Displace(t, e, s, d, placed) ==
    IF t[s] = 0 THEN [t |-> [t EXCEPT ![s] = e], at |-> IF placed < 0 THEN s ELSE placed]
    ELSE LET x == Dist(t, s, t[s])
         IN IF x < d
            THEN Displace([t EXCEPT ![s] = e], t[s], Inc(t, s), x + 1, IF placed < 0 THEN s ELSE placed)
            ELSE Displace(t, e, Inc(t, s), d + 1, placed)
InsertAt(t, s, k) == Displace(t, k, s, Dist(t, s, k), -1)
Put(t, k) == IF EntryFor(t, k).found THEN t ELSE InsertAt(t, EntryFor(t, k).at, k).t

\* backward shift
RECURSIVE Shift(_, _)
Shift(t, s) ==
    LET n == Inc(t, s)
    IN IF t[n] = 0 \/ Dist(t, n, t[n]) = 0 \/ n = s THEN t
       ELSE Shift([t EXCEPT ![s] = t[n], ![n] = 0], n)
RemoveAt(t, s) == Shift([t EXCEPT ![s] = 0], s)

-----------------------------------------------------------------------------
\* move up to Batch elements from `b' (secondary) to `a' (primary)
RECURSIVE Move(_, _, _, _)
Move(a, b, p, n) ==
    IF n = 0 \/ Size(b) = 0 THEN [pri |-> a, sec |-> IF Size(b) = 0 THEN NoTable ELSE b, pos |-> IF Size(b) = 0 THEN 0 ELSE p]
    ELSE IF b[p] = 0 THEN Move(a, b, p + 1, n)
    ELSE Move(Put(a, b[p]), RemoveAt(b, p), p, n - 1)

Dict == [pri |-> pri, sec |-> sec, pos |-> pos]
Rehash(d) == Move(d.pri, d.sec, d.pos, Batch)
BeginExpand(d) == Rehash([pri |-> Empty(2 * Cap(d.pri)), sec |-> d.pri, pos |-> 0])

\* entry_for(): [d: dict after the call, found, at] - `at' is always in the primary table
Find(k, readonly) ==
    IF ~Expanding THEN
        LET e == EntryFor(pri, k)
        IN IF ~e.found /\ Size(pri) >= MaxSize(pri) /\ ~readonly
           THEN LET d == BeginExpand(Dict) IN [d |-> d, found |-> FALSE, at |-> EntryFor(d.pri, k).at]
           ELSE [d |-> Dict, found |-> e.found, at |-> e.at]
    ELSE LET d == Rehash(Dict)
             o == IF d.sec = NoTable THEN [found |-> FALSE, at |-> 0] ELSE EntryFor(d.sec, k)
         IN IF o.found
            THEN LET ins == InsertAt(d.pri, EntryFor(d.pri, k).at, k)
                     s2 == RemoveAt(d.sec, o.at)
                 IN [d |-> [pri |-> ins.t, sec |-> s2, pos |-> d.pos], found |-> TRUE, at |-> ins.at]
            ELSE [d |-> d, found |-> EntryFor(d.pri, k).found, at |-> EntryFor(d.pri, k).at]

Set(d) == pri' = d.pri /\ sec' = d.sec /\ pos' = d.pos

-----------------------------------------------------------------------------
Init == /\ hsh \in [Keys -> Hashes]
        /\ pri = Empty(Cap0) /\ sec = NoTable /\ pos = 0 /\ map = {}

Store(k) ==
    LET f == Find(k, FALSE)
    IN IF f.found THEN Set(f.d) /\ UNCHANGED <<hsh, map>>
       ELSE /\ Set([f.d EXCEPT !.pri = InsertAt(f.d.pri, f.at, k).t])
            /\ map' = map \cup {k}
            /\ UNCHANGED hsh

Lookup(k) == LET f == Find(k, TRUE) IN Set(f.d) /\ UNCHANGED <<hsh, map>>

\* find, then remove at the found position
Remove(k) ==
    LET f == Find(k, TRUE)
    IN IF f.found THEN Set([f.d EXCEPT !.pri = RemoveAt(f.d.pri, f.at)]) /\ map' = map \ {k} /\ UNCHANGED hsh
       ELSE Set(f.d) /\ UNCHANGED <<hsh, map>>

\* dict::del works on both tables, then moves a batch
Del(k) ==
    LET ep == EntryFor(pri, k)
        es == IF Expanding THEN EntryFor(sec, k) ELSE [found |-> FALSE, at |-> 0]
        p2 == IF es.found THEN pri ELSE IF ep.found THEN RemoveAt(pri, ep.at) ELSE pri
        s2 == IF es.found THEN RemoveAt(sec, es.at) ELSE sec
    IN /\ Set(IF Expanding THEN Rehash([pri |-> p2, sec |-> s2, pos |-> pos]) ELSE [pri |-> p2, sec |-> s2, pos |-> pos])
       /\ map' = map \ {k} /\ UNCHANGED hsh

Next == \E k \in Keys : Store(k) \/ Lookup(k) \/ Remove(k) \/ Del(k)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
In(t, k) == IF t = NoTable THEN 0 ELSE Cardinality({s \in DOMAIN t : t[s] = k})

\* every stored key is exactly once in the two tables, and no other key is
ExactlyOnce == \A k \in Keys : In(pri, k) + In(sec, k) = IF k \in map THEN 1 ELSE 0
\* the early-stopping search finds every key that is there
Reachable == /\ \A k \in Keys : EntryFor(pri, k).found <=> In(pri, k) = 1
             /\ Expanding => \A k \in Keys : EntryFor(sec, k).found <=> In(sec, k) = 1
\* find() answers as the ideal map does and its position holds the key
FindRight == \A k \in Keys, ro \in BOOLEAN :
                LET f == Find(k, ro) IN /\ f.found <=> k \in map
                                        /\ f.found => f.d.pri[f.at] = k
                                        /\ ~f.found /\ Size(f.d.pri) < Cap(f.d.pri) => InsertAt(f.d.pri, f.at, k).t[InsertAt(f.d.pri, f.at, k).at] = k
\* the table to insert into always has an empty slot (so that probing stops)
HasRoom == Cap(pri) > 1 => Size(pri) < Cap(pri)
\* the growth finishes before the next one becomes necessary
NoDoubleGrowth == Expanding => \A k \in Keys : ~Find(k, FALSE).found =>
                       (LET d == Find(k, FALSE).d IN d.sec # NoTable => Size(d.pri) + Size(d.sec) <= MaxSize(d.pri))
SizeRight == Size(pri) + (IF Expanding THEN Size(sec) ELSE 0) = Cardinality(map)
\* slots before `pos' in the table being emptied stay empty
Swept == Expanding => \A s \in DOMAIN sec : s < pos => sec[s] = 0

Inv == ExactlyOnce /\ Reachable /\ FindRight /\ HasRoom /\ SizeRight /\ Swept /\ NoDoubleGrowth
===========================================================================
