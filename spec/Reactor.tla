------------------------------ MODULE Reactor ------------------------------
(* Design model of the whole daemon seen by concurrent clients: one reactor  *)
(* thread runs the handlers of all connections one at a time; a connection   *)
(* is either reading or sending, its buffers are its own.  Clients send      *)
(* requests (a write of their own identity or a read of one shared item),    *)
(* may stall (never read again) or disconnect at any time.  An accept loop   *)
(* serves clients that come later.                                           *)
(*                                                                           *)
(* Checked: replies of a client are to its own requests, in order; each      *)
(* request takes effect atomically between the moment it is sent and the     *)
(* moment its reply arrives (`lo' and `hi' bound the number of effects that  *)
(* happened before); a stalled or gone client does not keep the others from  *)
(* being answered.                                                           *)
(* Shared = TRUE: all connections write replies into one buffer (a defect).  *)
(* Blocking = TRUE: the thread waits for the client to read (a defect).      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Clients, MaxReq, Window, Faults, Shared, Blocking

VARIABLES up,       \* accepted connections
          inq,      \* requests on their way: seq of [id, op, lo]
          nreq,     \* requests issued by each client
          st,       \* "reading" | "sending"
          sbuf,     \* reply under way: seq of [id, val]
          wire,     \* replies in the socket
          got,      \* replies received
          alive,    \* "ok" | "stalled" | "gone"
          item,     \* the shared item
          hist,     \* sequence of effects [cl, id, val]: val is the item after the effect
          faults
vars == <<up, inq, nreq, st, sbuf, wire, got, alive, item, hist, faults>>

Init == /\ up = {} /\ inq = [c \in Clients |-> <<>>] /\ nreq = [c \in Clients |-> 0]
        /\ st = [c \in Clients |-> "reading"] /\ sbuf = [c \in Clients |-> <<>>]
        /\ wire = [c \in Clients |-> <<>>] /\ got = [c \in Clients |-> <<>>]
        /\ alive = [c \in Clients |-> "ok"] /\ item = 0 /\ hist = <<>> /\ faults = 0

Accept(c) == /\ c \notin up /\ up' = up \cup {c}
             /\ UNCHANGED <<inq, nreq, st, sbuf, wire, got, alive, item, hist, faults>>

Send(c, op) ==
    /\ c \in up /\ alive[c] = "ok" /\ nreq[c] < MaxReq
    /\ nreq' = [nreq EXCEPT ![c] = @ + 1]
    /\ inq' = [inq EXCEPT ![c] = Append(@, [id |-> nreq[c] + 1, op |-> op, lo |-> Len(hist)])]
    /\ UNCHANGED <<up, st, sbuf, wire, got, alive, item, hist, faults>>

Read(c) ==
    /\ alive[c] = "ok" /\ wire[c] # <<>>
    /\ got' = [got EXCEPT ![c] = Append(@, [id |-> Head(wire[c]).id, cl |-> Head(wire[c]).cl, val |-> Head(wire[c]).val, lo |-> Head(wire[c]).lo, hi |-> Len(hist)])]
    /\ wire' = [wire EXCEPT ![c] = Tail(@)]
    /\ UNCHANGED <<up, inq, nreq, st, sbuf, alive, item, hist, faults>>

Fault(c) ==
    /\ faults < Faults /\ c \in up /\ alive[c] = "ok"
    /\ \E f \in {"stalled", "gone"} : alive' = [alive EXCEPT ![c] = f]
    /\ faults' = faults + 1
    /\ UNCHANGED <<up, inq, nreq, st, sbuf, wire, got, item, hist>>

Buf(c) == IF Shared THEN CHOOSE x \in Clients : TRUE ELSE c
Stuck == Blocking /\ \E c \in Clients : st[c] = "sending" /\ Len(wire[c]) >= Window /\ alive[c] = "stalled"

\* the reactor runs the handler of a connection that has input
Handle(c) ==
    /\ ~Stuck /\ c \in up /\ st[c] = "reading" /\ inq[c] # <<>>
    /\ LET q == Head(inq[c])
           v == IF q.op = "write" THEN c ELSE item
       IN /\ item' = v
          /\ hist' = Append(hist, [cl |-> c, id |-> q.id, val |-> v])
          /\ sbuf' = [sbuf EXCEPT ![Buf(c)] = Append(@, [id |-> q.id, cl |-> c, val |-> v, lo |-> q.lo])]
          /\ inq' = [inq EXCEPT ![c] = Tail(@)]
          /\ st' = [st EXCEPT ![c] = "sending"]
    /\ UNCHANGED <<up, nreq, wire, got, alive, faults>>

Transmit(c) ==
    /\ ~Stuck /\ c \in up /\ st[c] = "sending"
    /\ IF alive[c] = "gone" \/ sbuf[Buf(c)] = <<>>
       THEN /\ sbuf' = [sbuf EXCEPT ![Buf(c)] = <<>>] /\ st' = [st EXCEPT ![c] = "reading"] /\ UNCHANGED wire
       ELSE /\ Len(wire[c]) < Window
            /\ wire' = [wire EXCEPT ![c] = Append(@, Head(sbuf[Buf(c)]))]
            /\ sbuf' = [sbuf EXCEPT ![Buf(c)] = Tail(@)]
            /\ st' = [st EXCEPT ![c] = IF Len(sbuf[Buf(c)]) = 1 THEN "reading" ELSE "sending"]
    /\ UNCHANGED <<up, inq, nreq, got, alive, item, hist, faults>>

Next == \E c \in Clients : Accept(c) \/ Send(c, IF (c + nreq[c]) % 2 = 0 THEN "write" ELSE "read") \/ Read(c) \/ Fault(c) \/ Handle(c) \/ Transmit(c)
Spec == Init /\ [][Next]_vars /\ \A c \in Clients : WF_vars(Handle(c)) /\ WF_vars(Transmit(c)) /\ WF_vars(Read(c)) /\ WF_vars(Accept(c))

-----------------------------------------------------------------------------
OwnReplies == \A c \in Clients : \A i \in 1..Len(got[c]) : got[c][i].cl = c /\ got[c][i].id = i
Linearizable == \A c \in Clients : \A i \in 1..Len(got[c]) :
    LET r == got[c][i] IN \E k \in (r.lo + 1)..r.hi : hist[k].cl = r.cl /\ hist[k].id = r.id /\ hist[k].val = r.val
Inv == OwnReplies /\ Linearizable
Served == \A c \in Clients : \A i \in 1..MaxReq : (nreq[c] >= i /\ alive[c] = "ok") ~> (Len(got[c]) >= i \/ alive[c] # "ok")
=============================================================================
