------------------------------ MODULE WireTrace -----------------------------
(* Explains recorded bytes: "Frame" came from the code, "Sent" went to it.  *)
(* Three situations (field mode of a trace): echo, a socket that sends back *)
(* what it receives; dock, a dock whose hub and other docks are ours; hub.  *)
EXTENDS Wire, Traces
VARIABLES fifo,    \* echo: messages to come back
          called,  \* dock: features called
          calls,   \* calls made and not sent; id -> message
          out,     \* calls sent: id -> message received
          back,    \* answers sent: identifier -> message
          reqs,    \* requests sent: message -> done
          names,   \* hub: names registered, by connection
          ready,   \* ... and announced ready
          ports,   \* port given to a connection
          hosts,   \* where it comes from
          asked,   \* queries to be answered: <<connection, name>>, a sequence
          told     \* answers seen before the port of the dock they tell: <<name, address>>
vars == <<fifo, called, calls, out, back, reqs, names, ready, ports, hosts, asked, told, tr, l>>
dockV == <<called, calls, out, back, reqs>>
hubV == <<names, ready, ports, hosts, asked, told>>
Empty == [x \in {} |-> 0]
Init == /\ TracesInit /\ fifo = <<>> /\ called = {} /\ calls = Empty /\ out = Empty /\ back = {} /\ reqs = {}
        /\ names = Empty /\ ready = Empty /\ ports = Empty /\ hosts = Empty /\ asked = <<>> /\ told = {}
Mode == Trs[tr].mode
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE {}
P == Parse(Ev.bytes)
SetOf(v) == IF v[1] = "rep" THEN {v[3][2]} ELSE {v[2][i][2] : i \in 1..Len(v[2])}
W(cond) == G("W01", cond)

(* ---------------------------------------------------------------- echo *)
EchoSent == fifo' = Append(fifo, P.m) /\ UNCHANGED <<dockV, hubV>>
EchoFrame == /\ W(fifo # <<>> /\ P.ok /\ Canonical(Ev.bytes) /\ (OddMsg(Head(fifo)) \/ SameMsg(P.m, Head(fifo))))
             /\ fifo' = IF fifo = <<>> THEN fifo ELSE Tail(fifo)
             /\ UNCHANGED <<dockV, hubV>>
(* long messages: what is sent is as specified here, and the same bytes come back *)
EchoSentL == Ev.enc = LFrame(Ev.m) /\ fifo' = Append(fifo, Ev.m) /\ UNCHANGED <<dockV, hubV>>
EchoFrameL == /\ W(fifo # <<>> /\ Ev.enc = LFrame(Head(fifo)))
              /\ fifo' = IF fifo = <<>> THEN fifo ELSE Tail(fifo)
              /\ UNCHANGED <<dockV, hubV>>
EchoRest == W(fifo = <<>>) /\ UNCHANGED <<fifo, dockV, hubV>>

(* ---------------------------------------------------------------- dock *)
Disc == {Trs[tr].disc[i] : i \in 1..Len(Trs[tr].disc)}
Results(m, args) == CASE m = <<69, 99, 104, 111>> -> args                    \* Echo
                      [] m = <<84, 119, 111>> -> <<args[2], args[1]>>        \* Two
                      [] OTHER -> <<>>
SameAll(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Same(x[i], y[i])
Arr(v) == IF v[1] = "rep" THEN [i \in 1..v[2] |-> v[3]] ELSE v[2]
DockSent ==
  /\ CASE P.m.id = 7 -> reqs' = reqs \cup {[c |-> Ev.c, m |-> P.m, run |-> FALSE]} /\ UNCHANGED back
       [] P.m.id = 8 -> back' = back \cup {P.m} /\ UNCHANGED reqs
       [] OTHER -> UNCHANGED <<reqs, back>>
  /\ UNCHANGED <<fifo, hubV, called, calls, out>>
DockCall == /\ calls' = Put(calls, Ev.id, [id |-> 7, f |-> <<<<"s", Ev.to>>, <<"s", Ev.m>>, <<"a", Ev.args>>, <<"b", Ev.wr>>>>])
            /\ called' = called \cup {Ev.to}
            /\ UNCHANGED <<fifo, hubV, out, back, reqs>>
DockFrame ==
  /\ W(P.ok /\ Canonical(Ev.bytes) /\ P.m.id \in (IF Ev.c = 0 THEN {0, 1, 2, 3, 5} ELSE {0, 1, 2, 3, 7, 8}))
  /\ CASE P.m.id \in {2, 3} -> W(SetOf(P.m.f[1]) = Disc) /\ UNCHANGED <<calls, out, back, reqs>>
       [] P.m.id = 5 -> W(P.m.f[1][2] \in called) /\ UNCHANGED <<calls, out, back, reqs>>
       [] P.m.id = 7 ->
            LET S == {i \in DOMAIN calls : \A j \in 1..4 : Same(calls[i].f[j], P.m.f[j + 1])} IN
            IF S = {} THEN W(FALSE) /\ UNCHANGED <<calls, out, back, reqs>>
            ELSE LET i == CHOOSE x \in S : TRUE IN   \* they are all alike
                 calls' = Drop(calls, i) /\ out' = Put(out, i, P.m) /\ UNCHANGED <<back, reqs>>
       [] P.m.id = 8 ->
            LET S == {r \in reqs : /\ r.run /\ r.c = Ev.c /\ \A j \in 1..3 : Same(r.m.f[j], P.m.f[j])
                                   /\ P.m.f[5] = <<"s", <<>>>>
                                   /\ SameAll(IF r.m.f[5] = <<"b", TRUE>> THEN Results(r.m.f[3][2], Arr(r.m.f[4])) ELSE <<>>, Arr(P.m.f[4]))} IN
            IF S = {} THEN W(FALSE) /\ UNCHANGED <<calls, out, back, reqs>>
            ELSE reqs' = reqs \ {CHOOSE r \in S : TRUE} /\ UNCHANGED <<calls, out, back>>
       [] OTHER -> UNCHANGED <<calls, out, back, reqs>>
  /\ UNCHANGED <<fifo, hubV, called>>
DockExec ==
  LET S == {r \in reqs : ~r.run /\ r.m.f[3][2] = Ev.m /\ SameAll(Arr(r.m.f[4]), Ev.args)} IN
  /\ IF S = {} THEN W(FALSE) /\ UNCHANGED reqs
     ELSE \E r \in S : reqs' = (reqs \ {r}) \cup {[r EXCEPT !.run = TRUE]}
  /\ UNCHANGED <<fifo, hubV, called, calls, out, back>>
DockRet ==
  LET S == IF Ev.id \notin DOMAIN out THEN {} ELSE
           {b \in back : b.f[1][3] = out[Ev.id].f[1][3] /\ (Ev.ok <=> b.f[5][2] = <<>>)
              /\ (Ev.ok /\ out[Ev.id].f[5] = <<"b", TRUE>> => SameAll(Ev.res, Arr(b.f[4])))} IN
  /\ IF S = {} THEN W(FALSE) /\ UNCHANGED <<out, back>>
     ELSE out' = Drop(out, Ev.id) /\ UNCHANGED back
  /\ UNCHANGED <<fifo, hubV, called, calls, reqs>>
DockRest == W(calls = Empty /\ out = Empty /\ reqs = {}) /\ UNCHANGED <<fifo, dockV, hubV>>

(* ----------------------------------------------------------------- hub *)
HubDial == hosts' = Put(hosts, Ev.c, Ev.host) /\ UNCHANGED <<fifo, dockV, names, ready, ports, asked, told>>
HubSent ==
  /\ CASE P.m.id = 3 -> names' = Put(names, Ev.c, Get(names, Ev.c) \cup SetOf(P.m.f[1])) /\ UNCHANGED <<ready, asked>>
       [] P.m.id = 2 -> ready' = Put(ready, Ev.c, Get(ready, Ev.c) \cup SetOf(P.m.f[1])) /\ UNCHANGED <<names, asked>>
       [] P.m.id = 5 -> asked' = Append(asked, <<Ev.c, P.m.f[1][2]>>) /\ UNCHANGED <<names, ready>>
       [] OTHER -> UNCHANGED <<names, ready, asked>>
  /\ UNCHANGED <<fifo, dockV, ports, hosts, told>>
Addr(c) == hosts[c] \o <<58>> \o Digits(ports[c])
Port(v) == IF \A i \in 1..5 : v[3][i] = 0 THEN (v[3][6] * 256 + v[3][7]) * 256 + v[3][8] ELSE 0
Both(s) == {c \in DOMAIN hosts : s \in Get(names, c) /\ s \in Get(ready, c)}
Knows(s) == Both(s) \cap DOMAIN ports
Prefix(p, s) == Len(s) > Len(p) /\ SubSeq(s, 1, Len(p)) = p
Known(s, a) == \E c \in Knows(s) : Addr(c) = a
\* Connections are recorded separately: the answer can be seen before the port it tells.
Early(s, a) == \E c \in Both(s) \ DOMAIN ports : Prefix(hosts[c] \o <<58>>, a)
HubFrame ==
  /\ W(P.ok /\ Canonical(Ev.bytes) /\ P.m.id \in {0, 1, 4, 6})
  /\ CASE P.m.id = 4 -> /\ W(Ev.c \notin DOMAIN ports /\ Port(P.m.f[1]) \in 20001..49000)
                        /\ ports' = Put(ports, Ev.c, Port(P.m.f[1])) /\ UNCHANGED <<asked, told>>
       [] P.m.id = 6 ->
            LET A == P.m.f[1][2]
                S == {i \in 1..Len(asked) : asked[i][1] = Ev.c /\ (Known(asked[i][2], A) \/ Early(asked[i][2], A))} IN
            IF S = {} THEN W(FALSE) /\ UNCHANGED <<asked, ports, told>>
            ELSE \E i \in S : /\ asked' = SubSeq(asked, 1, i - 1) \o SubSeq(asked, i + 1, Len(asked))
                              /\ told' = IF Known(asked[i][2], A) THEN told ELSE told \cup {<<asked[i][2], A>>}
                              /\ UNCHANGED ports
       [] OTHER -> UNCHANGED <<asked, ports, told>>
  /\ UNCHANGED <<fifo, dockV, names, ready, hosts>>
HubRest == /\ W(/\ \A i \in 1..Len(asked) : Knows(asked[i][2]) = {}
                /\ \A t \in told : Known(t[1], t[2])
                /\ DOMAIN names \subseteq DOMAIN ports)
           /\ UNCHANGED <<fifo, dockV, hubV>>

Next == \/ /\ Is("Sent") /\ Step
           /\ CASE Mode = "echo" -> EchoSent [] Mode = "dock" -> DockSent [] OTHER -> HubSent
        \/ /\ Is("Frame") /\ Step
           /\ CASE Mode = "echo" -> EchoFrame [] Mode = "dock" -> DockFrame [] OTHER -> HubFrame
        \/ Is("SentL") /\ Step /\ EchoSentL
        \/ Is("FrameL") /\ Step /\ EchoFrameL
        \/ /\ Is("Rest") /\ Step
           /\ CASE Mode = "echo" -> EchoRest [] Mode = "dock" -> DockRest [] OTHER -> HubRest
        \/ Is("Dial") /\ Step /\ HubDial
        \/ Is("Call") /\ Step /\ DockCall
        \/ Is("Exec") /\ Step /\ DockExec
        \/ Is("Ret") /\ Step /\ DockRet
        \/ Is("Done") /\ Step /\ UNCHANGED <<fifo, dockV, hubV>>
Spec == Init /\ [][Next]_vars
=============================================================================
