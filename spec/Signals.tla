------------------------------ MODULE Signals ------------------------------
(* Design model of the daemon's life: one thread that runs handlers, a       *)
(* signal set that delivers one queued signal to one outstanding wait, and   *)
(* clients that change and read one item, stall, or leave requests           *)
(* unfinished.  A signal is delivered by the kernel at any moment, also      *)
(* while a handler runs; a second one of the same kind is merged with the    *)
(* first while it is pending in the kernel.                                  *)
(* Rearm = FALSE: the handler of SIGUSR1 does not wait again (the defect     *)
(* fixed in c6107be).  Busy = TRUE: the thread serves one connection without *)
(* returning to the reactor while requests are there (a defect).             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxSig, MaxReq, Rearm, Busy
Term == {"TERM", "INT", "QUIT"}
Sigs == Term \cup {"USR1"}
VARIABLES phase,     \* "up" | "stopping" | "exited"
          kernel,    \* pending in the kernel: a set
          queue,     \* delivered to the signal set
          armed,     \* a wait is outstanding
          printed, sent, item, writes, reads, inq, status
vars == <<phase, kernel, queue, armed, printed, sent, item, writes, reads, inq, status>>
Init == /\ phase = "up" /\ kernel = {} /\ queue = <<>> /\ armed = TRUE /\ printed = 0
        /\ sent = [s \in Sigs |-> 0] /\ item = 0 /\ writes = 0 /\ reads = 0 /\ inq = <<>> /\ status = -1
Total == sent["TERM"] + sent["INT"] + sent["QUIT"] + sent["USR1"]

Kill(s) == /\ phase # "exited" /\ Total < MaxSig
           /\ sent' = [sent EXCEPT ![s] = @ + 1] /\ kernel' = kernel \cup {s}
           /\ UNCHANGED <<phase, queue, armed, printed, item, writes, reads, inq, status>>
Deliver(s) == /\ phase # "exited" /\ s \in kernel /\ kernel' = kernel \ {s} /\ queue' = Append(queue, s)
              /\ UNCHANGED <<phase, armed, printed, sent, item, writes, reads, inq, status>>
Handle == /\ phase = "up" /\ armed /\ queue # <<>>
          /\ ~(Busy /\ inq # <<>>)
          /\ queue' = Tail(queue)
          /\ IF Head(queue) = "USR1"
             THEN printed' = printed + 1 /\ armed' = Rearm /\ UNCHANGED phase
             ELSE phase' = "stopping" /\ armed' = FALSE /\ UNCHANGED printed
          /\ UNCHANGED <<kernel, sent, item, writes, reads, inq, status>>
Exit == /\ phase = "stopping" /\ phase' = "exited" /\ status' = 0
        /\ UNCHANGED <<kernel, queue, armed, printed, sent, item, writes, reads, inq>>
Request == /\ phase # "exited" /\ Len(inq) < 2 /\ writes + reads + Len(inq) < MaxReq
           /\ \E r \in {"w", "r"} : inq' = Append(inq, r)
           /\ UNCHANGED <<phase, kernel, queue, armed, printed, sent, item, writes, reads, status>>
Serve == /\ phase = "up" /\ inq # <<>> /\ inq' = Tail(inq)
         /\ IF Head(inq) = "w" THEN item' = item + 1 /\ writes' = writes + 1 /\ UNCHANGED reads
                               ELSE reads' = reads + 1 /\ UNCHANGED <<item, writes>>
         /\ UNCHANGED <<phase, kernel, queue, armed, printed, sent, status>>
\* clients that never stop asking (only used with Busy)
Flood == /\ Busy /\ phase = "up" /\ inq # <<>> /\ inq' = inq \o <<"r">> /\ Len(inq) < 2
         /\ UNCHANGED <<phase, kernel, queue, armed, printed, sent, item, writes, reads, status>>
ServeForever == /\ Busy /\ phase = "up" /\ inq # <<>> /\ Head(inq) = "r" /\ UNCHANGED vars
Next == \/ \E s \in Sigs : Kill(s) \/ Deliver(s)
        \/ Handle \/ Exit \/ Request \/ Serve \/ Flood \/ ServeForever
Fair == /\ \A s \in Sigs : WF_vars(Deliver(s))
        /\ WF_vars(Handle) /\ WF_vars(Exit) /\ (IF Busy THEN TRUE ELSE WF_vars(Serve))
Spec == Init /\ [][Next]_vars /\ Fair

TermSent == \E s \in Term : sent[s] > 0
DataKept == item = writes                                   \* signals change nothing
OnlyOnTerm == phase # "up" => TermSent                      \* SIGUSR1 does not stop it
GoodStatus == phase = "exited" => status = 0
PrintBound == printed <= sent["USR1"]
Stops == TermSent ~> (phase = "exited")
PrintsOnce == (sent["USR1"] > 0) ~> (printed > 0 \/ phase # "up")
Serves == \A k \in 1..MaxReq : (phase = "up" /\ Len(inq) + writes + reads >= k) ~> (writes + reads >= k \/ phase # "up")
============================================================================
