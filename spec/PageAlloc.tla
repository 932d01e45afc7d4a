----------------------------- MODULE PageAlloc -----------------------------
(* Design model of the page allocator: pages are sequences of blocks,       *)
(* allocation splits a free block (any one that fits), freeing merges with  *)
(* free neighbours of the same page, eviction reuses the whole least used   *)
(* page, touching moves a page one place closer to the front of the list.   *)
(* Sizes are in abstract units (one unit = the minimal block).              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NP, PageUnits, Sizes, WithRealloc,
          Id,       \* identities of live allocations (reused after free / eviction)
          NoId,     \* marks a free block
          Ghost     \* follow recency ghosts

VARIABLES pages,   \* [1..NP -> Seq([sz, id])], id = NoId: free
          lru,     \* sequence of page numbers, front first, back = next victim
          hits,    \* ghost: allocation used last and how often it was read in a row
          budget,  \* ghost: page-filling allocations it must survive
          last     \* last operation
vars == <<pages, lru, hits, budget, last>>

P == 1..NP
FreePage == << [sz |-> PageUnits, id |-> NoId] >>
NoOp == [o |-> "none", id |-> NoId, sz |-> 0, r |-> "none", ev |-> {}]

Init ==
    /\ pages = [p \in P |-> FreePage]
    /\ lru = [i \in P |-> NP + 1 - i]
    /\ hits = [id |-> NoId, n |-> 0]
    /\ budget = 0
    /\ last = NoOp

Ids(p) == {pages[p][i].id : i \in 1..Len(pages[p])} \ {NoId}
Live == UNION {Ids(p) : p \in P}
PageOf(id) == CHOOSE p \in P : id \in Ids(p)
PosOf(id) == CHOOSE i \in 1..Len(pages[PageOf(id)]) : pages[PageOf(id)][i].id = id
SizeOf(id) == pages[PageOf(id)][PosOf(id)].sz

RankOf(l, p) == CHOOSE i \in 1..Len(l) : l[i] = p
\* one place closer to the front
Bubble(l, p) == LET i == RankOf(l, p) IN
    IF i = 1 THEN l ELSE [l EXCEPT ![i - 1] = l[i], ![i] = l[i - 1]]
ToFront(l, p) == <<p>> \o SelectSeq(l, LAMBDA x : x # p)

\* use the first `sz' units of block i of page p for id
Split(bs, i, sz, id) ==
    SubSeq(bs, 1, i - 1)
    \o << [sz |-> sz, id |-> id] >>
    \o (IF bs[i].sz > sz THEN << [sz |-> bs[i].sz - sz, id |-> NoId] >> ELSE <<>>)
    \o SubSeq(bs, i + 1, Len(bs))

RECURSIVE Coalesce(_)
\* merge all runs of free blocks (only ever needed around one block)
Coalesce(bs) ==
    IF \E i \in 1..(Len(bs) - 1) : bs[i].id = NoId /\ bs[i + 1].id = NoId
    THEN LET i == CHOOSE i \in 1..(Len(bs) - 1) : bs[i].id = NoId /\ bs[i + 1].id = NoId
         IN Coalesce(SubSeq(bs, 1, i - 1) \o << [sz |-> bs[i].sz + bs[i + 1].sz, id |-> NoId] >> \o SubSeq(bs, i + 2, Len(bs)))
    ELSE bs

Fits(sz) == {pi \in P \X (1..PageUnits) :
              /\ pi[2] <= Len(pages[pi[1]])
              /\ pages[pi[1]][pi[2]].id = NoId
              /\ pages[pi[1]][pi[2]].sz >= sz}

Quiet == hits' = [id |-> NoId, n |-> 0] /\ budget' = 0
\* ghosts of an allocation: page-filling ones consume the budget of a hot allocation
Recency(id, sz) ==
    IF ~Ghost THEN Quiet
    ELSE IF budget > 1 /\ sz = PageUnits THEN budget' = budget - 1 /\ UNCHANGED hits
    ELSE budget' = 0 /\ hits' = [id |-> id, n |-> 0]

\* allocation from a free block
Alloc(id, sz) ==
    /\ id \notin Live
    /\ \E pi \in Fits(sz) :
         /\ pages' = [pages EXCEPT ![pi[1]] = Split(@, pi[2], sz, id)]
         /\ lru' = Bubble(lru, pi[1])
    /\ Recency(id, sz)
    /\ last' = [o |-> "alloc", id |-> id, sz |-> sz, r |-> "ok", ev |-> {}]

AllocEvict(id, sz) ==
    /\ id \notin Live
    /\ Fits(sz) = {}
    /\ LET victim == lru[NP] IN
         /\ pages' = [pages EXCEPT ![victim] = Split(FreePage, 1, sz, id)]
         /\ lru' = ToFront(lru, victim)
         /\ last' = [o |-> "alloc", id |-> id, sz |-> sz, r |-> "evict", ev |-> Ids(victim)]
    /\ Recency(id, sz)

AllocFail(sz) ==
    /\ Fits(sz) = {}
    /\ last' = [o |-> "alloc", id |-> NoId, sz |-> sz, r |-> "fail", ev |-> {}]
    /\ Quiet
    /\ UNCHANGED <<pages, lru>>

Free(id) ==
    /\ id \in Live
    /\ pages' = [pages EXCEPT ![PageOf(id)] = Coalesce([@ EXCEPT ![PosOf(id)].id = NoId])]
    /\ last' = [o |-> "free", id |-> id, sz |-> 0, r |-> "ok", ev |-> {}]
    /\ Quiet
    /\ UNCHANGED lru

Touch(id) ==
    /\ id \in Live
    /\ lru' = Bubble(lru, PageOf(id))
    /\ IF Ghost
       THEN LET n == IF hits.id = id /\ hits.n < NP THEN hits.n + 1 ELSE IF hits.id = id THEN hits.n ELSE 1
            IN hits' = [id |-> id, n |-> n] /\ budget' = IF n >= NP THEN NP - 2 ELSE 0
       ELSE Quiet
    /\ last' = [o |-> "touch", id |-> id, sz |-> 0, r |-> "ok", ev |-> {}]
    /\ UNCHANGED pages

\* in place resize: the free block to the right, if any, is taken into account
Realloc(id, sz) ==
    /\ WithRealloc
    /\ id \in Live
    /\ LET p == PageOf(id) i == PosOf(id) bs == pages[p]
           room == bs[i].sz + (IF i < Len(bs) /\ bs[i + 1].id = NoId THEN bs[i + 1].sz ELSE 0)
           rest == IF i < Len(bs) /\ bs[i + 1].id = NoId THEN SubSeq(bs, i + 2, Len(bs)) ELSE SubSeq(bs, i + 1, Len(bs))
       IN IF sz <= room
          THEN /\ pages' = [pages EXCEPT ![p] = SubSeq(bs, 1, i - 1) \o << [sz |-> sz, id |-> id] >>
                              \o (IF room > sz THEN << [sz |-> room - sz, id |-> NoId] >> ELSE <<>>) \o rest]
               /\ last' = [o |-> "realloc", id |-> id, sz |-> sz, r |-> "ok", ev |-> {}]
          ELSE /\ UNCHANGED pages
               /\ last' = [o |-> "realloc", id |-> id, sz |-> sz, r |-> "fail", ev |-> {}]
    /\ Quiet
    /\ UNCHANGED lru

Next ==
    \/ \E sz \in Sizes : AllocFail(sz) \/ \E id \in Id : Alloc(id, sz) \/ AllocEvict(id, sz)
    \/ \E id \in Id : Free(id) \/ Touch(id)
    \/ \E id \in Id, sz \in Sizes : Realloc(id, sz)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
RECURSIVE Total(_, _)
Total(bs, n) == IF n = 0 THEN 0 ELSE bs[n].sz + Total(bs, n - 1)

\* C08/C11: blocks tile each page: no overlap, no crossing, nothing lost
Tiling == \A p \in P : Total(pages[p], Len(pages[p])) = PageUnits /\ \A i \in 1..Len(pages[p]) : pages[p][i].sz > 0
UniqueIds == \A p, q \in P : p # q => Ids(p) \cap Ids(q) = {}
OnePlace == \A p \in P : \A i, j \in 1..Len(pages[p]) : (i # j /\ pages[p][i].id # NoId) => pages[p][i].id # pages[p][j].id
\* C09/C11: free neighbours are always merged, an empty page is one maximal block
Merged == \A p \in P : \A i \in 1..(Len(pages[p]) - 1) : ~(pages[p][i].id = NoId /\ pages[p][i + 1].id = NoId)
EmptyIsWhole == \A p \in P : Ids(p) = {} => pages[p] = FreePage
LruPerm == Len(lru) = NP /\ {lru[i] : i \in 1..NP} = P

Start(bs, i) == Total(bs, i - 1)
Where(id) == LET p == PageOf(id) IN <<p, Start(pages[p], PosOf(id)), SizeOf(id)>>

\* C11: allocations stay where they are until freed, resized or evicted, and disappear only so
Stable ==
    [][\A id \in Live :
        \/ last'.o = "free" /\ last'.id = id
        \/ id \in last'.ev
        \/ /\ id \in Live'
           /\ LET a == Where(id) b == Where(id)' IN a[1] = b[1] /\ a[2] = b[2] /\ (a[3] = b[3] \/ (last'.o = "realloc" /\ last'.id = id))]_vars
\* C06/C11: eviction empties exactly one page, never a page that could have been avoided
EvictOnePage ==
    [][last'.ev # {} => /\ \E p \in P : last'.ev = Ids(p)
                        /\ ~ \E p \in P : \E i \in 1..Len(pages[p]) : pages[p][i].id = NoId /\ pages[p][i].sz >= last'.sz]_vars
\* C07: the allocation used last is not evicted by the next allocation; one that was read NP times
\* in a row survives NP - 2 page-filling allocations
RecentSpared == [][(hits.id # NoId /\ last'.o = "alloc") => hits.id \notin last'.ev]_vars

\* C07: a reused page is the last one to be reused again, hence page-filling allocations in a row
\* use the pages in turn
UsedInTurn == [][last'.o = "alloc" /\ last'.r = "evict"
                 => lru' = <<lru[NP]>> \o SubSeq(lru, 1, NP - 1)]_vars

Symm == Permutations(Id)
View == <<pages, lru, hits, budget>>
============================================================================
