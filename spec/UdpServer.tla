----------------------------- MODULE UdpServer -----------------------------
(* Design model of the datagram server (socket_datagram.h and UdpServer of   *)
(* conversation.h): one receive buffer, one send buffer, one outstanding     *)
(* asynchronous operation.  Datagrams are                                    *)
(*   "ok"      valid header, a complete request with a reply                 *)
(*   "quiet"   valid header, a complete request with noreply                 *)
(*   "part"    valid header, incomplete request                              *)
(*   "badhdr"  short / multi-packet / reserved header                        *)
(* The send buffer is a sequence of cells <<"H", d>> (header of datagram d)  *)
(* and <<"R", d>> (reply to d).                                              *)
(* DropHeader = FALSE and WaitSent = FALSE are defects of the original code. *)
EXTENDS Integers, Sequences

CONSTANTS MaxD, Kinds, DropHeader, WaitSent

VARIABLES net,      \* datagrams waiting in the socket, each <<id, kind>>
          n,        \* number of datagrams sent by the clients
          sbuf,
          st,       \* "recv" | "send" (send and receive at once: "both")
          pend,     \* <<destination, length of the message being sent>>
          kind,     \* kind of each datagram
          done,     \* executed datagrams in order
          out       \* sequence of <<destination, message>>
vars == <<net, n, sbuf, st, pend, kind, done, out>>

Init == net = <<>> /\ n = 0  /\ sbuf = <<>> /\ st = "recv" /\ pend = <<>> /\ kind = <<>> /\ done = <<>> /\ out = <<>>

ClientSend == \E k \in Kinds :
    /\ n < MaxD /\ Len(net) < 2
    /\ n' = n + 1 /\ kind' = Append(kind, k) /\ net' = Append(net, n + 1)
    /\ UNCHANGED <<sbuf, st, pend, done, out>>

Drop == /\ net # <<>> /\ net' = Tail(net)       \* UDP may lose datagrams
        /\ UNCHANGED <<n, sbuf, st, pend, kind, done, out>>

\* the receive buffer is emptied after each datagram
Receive ==
    /\ net # <<>> /\ st \in {"recv", "both"}
    /\ LET d == Head(net)
           k == kind[d]
           from == Head(net)
       IN /\ net' = Tail(net)
          /\ done' = IF k \in {"ok", "quiet"} THEN Append(done, d) ELSE done
          /\ CASE k = "badhdr" -> UNCHANGED <<sbuf, st, pend>>
               [] k \in {"quiet", "part"} ->
                    /\ sbuf' = IF DropHeader THEN sbuf ELSE Append(sbuf, <<"H", d>>)
                    /\ UNCHANGED <<st, pend>>
               [] k = "ok" ->
                    /\ sbuf' = sbuf \o << <<"H", d>>, <<"R", d>> >>
                    /\ pend' = Append(pend, <<from, Len(sbuf) + 2>>)
                    /\ st' = IF WaitSent THEN "send" ELSE "both"
    /\ UNCHANGED <<n, kind, out>>

\* the transport takes the whole of the unread send buffer as of the moment it really sends
Sent ==
    /\ pend # <<>>
    /\ LET p == Head(pend)
           m == IF p[2] <= Len(sbuf) THEN p[2] ELSE Len(sbuf)
       IN /\ out' = Append(out, <<p[1], SubSeq(sbuf, 1, m)>>)
          /\ sbuf' = SubSeq(sbuf, m + 1, Len(sbuf))
          /\ pend' = Tail(pend)
          /\ st' = IF Tail(pend) = <<>> THEN "recv" ELSE st
    /\ UNCHANGED <<net, n, kind, done>>

Next == ClientSend \/ Drop \/ Receive \/ Sent
Spec == Init /\ [][Next]_vars /\ WF_vars(Receive) /\ WF_vars(Sent)

-----------------------------------------------------------------------------
\* every outgoing datagram is the header and the reply of the very request of its destination
Own == \A i \in 1..Len(out) : out[i][2] = << <<"H", out[i][1]>>, <<"R", out[i][1]>> >> /\ kind[out[i][1]] = "ok"
Once == \A i, j \in 1..Len(out) : out[i][1] = out[j][1] => i = j
OnlyComplete == \A i \in 1..Len(done) : kind[done[i]] \in {"ok", "quiet"}
InOrder == \A i, j \in 1..Len(done) : i < j => done[i] < done[j]
Clean == pend = <<>> => sbuf = <<>>
Inv == Own /\ Once /\ OnlyComplete /\ InOrder /\ Clean
\* whatever was executed and wants a reply is answered
Answered == \A d \in 1..MaxD : (d <= n /\ kind[d] = "ok" /\ \E i \in 1..Len(done) : done[i] = d) ~> (\E i \in 1..Len(out) : out[i][1] = d)
=============================================================================
