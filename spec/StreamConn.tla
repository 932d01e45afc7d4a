---------------------------- MODULE StreamConn ----------------------------
(* Design model of one stream connection (socket_stream.h): the byte stream  *)
(* of N requests is cut arbitrarily, the server parses what it has, sends    *)
(* one reply at a time and reads on when the reply is sent; the client reads *)
(* the replies as slowly as it likes through a bounded socket.               *)
(*                                                                           *)
(* Request r has Len_[r] bytes and a reply of Rep[r] bytes (0 = noreply).    *)
(* Drain: after a reply was sent, requests that are already in the receive   *)
(* buffer are processed before reading (FALSE reproduces the defect of the   *)
(* original code: pipelined requests are answered only when more arrives).   *)
EXTENDS Integers, Sequences

CONSTANTS Lens,     \* sequence of request lengths
          Reps,     \* sequence of reply lengths
          Window,   \* capacity of the socket towards the client
          InFlight, \* capacity of the socket towards the server
          Abort,    \* the client may disconnect at any time
          Drain

N == Len(Lens)
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
Total == Sum(Lens, N)

VARIABLES sent,     \* bytes the client has sent
          rcvd,     \* bytes the server has read from the socket
          parsed,   \* bytes consumed by executed requests
          exec,     \* sequence of executed requests
          st,       \* "reading", "sending"
          outq,     \* bytes of the current reply not yet accepted by the socket
          wire,     \* reply bytes in the socket
          got,      \* reply bytes the client has read
          gone      \* the client has disconnected
vars == <<sent, rcvd, parsed, exec, st, outq, wire, got, gone>>

Next_ == Len(exec) + 1
Complete(p, r, k) == k <= N /\ r - p >= Lens[k]

\* handle requests of the receive buffer until one of them has a reply
RECURSIVE Handle(_, _, _)
Handle(p, r, ex) ==
    LET k == Len(ex) + 1
    IN IF ~Complete(p, r, k) THEN [p |-> p, ex |-> ex, out |-> 0]
       ELSE IF Reps[k] = 0 THEN Handle(p + Lens[k], r, Append(ex, k))
       ELSE [p |-> p + Lens[k], ex |-> Append(ex, k), out |-> Reps[k]]

Init == /\ sent = 0 /\ rcvd = 0 /\ parsed = 0 /\ exec = <<>> /\ st = "reading"
        /\ outq = 0 /\ wire = 0 /\ got = 0 /\ gone = FALSE

ClientSend == \E n \in 1..InFlight :
    /\ ~gone /\ sent + n <= Total /\ sent + n - rcvd <= InFlight
    /\ sent' = sent + n
    /\ UNCHANGED <<rcvd, parsed, exec, st, outq, wire, got, gone>>

ClientRead == \E n \in 1..Window :
    /\ ~gone /\ n <= wire
    /\ wire' = wire - n /\ got' = got + n
    /\ UNCHANGED <<sent, rcvd, parsed, exec, st, outq, gone>>

ServerProcess(r) ==
    LET h == Handle(parsed, r, exec)
    IN /\ parsed' = h.p /\ exec' = h.ex /\ outq' = h.out
       /\ st' = IF h.out > 0 THEN "sending" ELSE "reading"

ServerRead == \E n \in 1..InFlight :
    /\ st = "reading" /\ rcvd + n <= sent
    /\ rcvd' = rcvd + n
    /\ ServerProcess(rcvd + n)
    /\ UNCHANGED <<sent, wire, got, gone>>

ServerSend == \E n \in 1..Window :
    /\ st = "sending" /\ outq > 0 /\ n <= outq /\ wire + n <= Window /\ ~gone
    /\ outq' = outq - n /\ wire' = wire + n
    /\ UNCHANGED <<sent, rcvd, parsed, exec, st, got, gone>>

ServerSent ==
    /\ st = "sending" /\ outq = 0
    /\ IF Drain THEN ServerProcess(rcvd) ELSE st' = "reading" /\ UNCHANGED <<parsed, exec, outq>>
    /\ UNCHANGED <<sent, rcvd, wire, got, gone>>

Disconnect == /\ Abort /\ ~gone /\ gone' = TRUE
              /\ UNCHANGED <<sent, rcvd, parsed, exec, st, outq, wire, got>>

Next == ClientSend \/ ClientRead \/ ServerRead \/ ServerSend \/ ServerSent \/ Disconnect
Spec == Init /\ [][Next]_vars /\ WF_vars(ServerRead) /\ WF_vars(ServerSend) /\ WF_vars(ServerSent) /\ WF_vars(ClientRead)

-----------------------------------------------------------------------------
\* requests are executed once, in order, and only when they are complete
InOrder == \A k \in 1..Len(exec) : exec[k] = k
OnlyComplete == parsed = Sum(Lens, Len(exec)) /\ parsed <= rcvd /\ rcvd <= sent
\* what the client sees is a prefix of the concatenated replies of the executed requests
Conserved == got + wire + outq = Sum(Reps, Len(exec))
Inv == InOrder /\ OnlyComplete /\ Conserved

\* every complete request is answered without further input
Answered == \A k \in 1..N : (sent >= Sum(Lens, k)) ~> (got >= Sum(Reps, k) \/ gone)
===========================================================================
