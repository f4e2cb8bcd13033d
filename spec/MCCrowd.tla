------------------------------ MODULE MCCrowd ------------------------------
(* Several sessions of one proxy at the same time: every interleaving of what
   happens to them, for the crowds of the file SCRIPTS:
     sess[i]  a script of Proxy, and steps, each
                t   dial | up | io
                hs  (dial) ok | bad: what becomes of the client's TLS handshake
                how (up) ok | refuse
                cn, un, cx, ux  (io) as in TraceProxy
   The sessions share nothing: what is seen of one depends on its own steps. *)
EXTENDS Proxy, TLCExt, Json, IOUtils

Crowds == JsonDeserialize(IOEnv.SCRIPTS)
Emit == "EMIT" \in DOMAIN IOEnv

VARIABLES id, pos, sets, got, last
vars == <<id, pos, sets, got, last>>
view == <<id, pos, sets, got>>
P == Crowds[id].sess
N == Len(P)

Nobody == [ProxyInit EXCEPT !.ph = "nobody"]
Init ==
  /\ id \in 1 .. Len(Crowds)
  /\ pos = [i \in 1 .. N |-> 0] /\ sets = [i \in 1 .. N |-> {Nobody}]
  /\ got = [i \in 1 .. N |-> <<"", "">>] /\ last = [i |-> 0, co |-> "", uo |-> "", asks |-> FALSE]

CO(st) == IF st.cx = "" THEN st.co ELSE "*"
UO(st) == IF st.ux = "" THEN st.uo ELSE "*"
Quiet(st) == [st EXCEPT !.co = "", !.uo = ""]
Plus(a, b) == IF b = "*" THEN a ELSE a \o b
\* The proxy asks for the upstream connection as soon as the client is there.
Asks(set) == \E st \in set : st.ph \notin {"nobody", "failed"}

Stimulus(e, st) ==
  CASE e.t = "dial" -> {IF e.hs = "ok" THEN ProxyInit ELSE [Nobody EXCEPT !.ph = "failed"]}
    [] e.t = "up" -> {IF st.ph = "conn" THEN Up(st, e.how) ELSE st}
    [] OTHER -> Arrive(st, e.cn, e.un, e.cx, e.ux)
Act(i) ==
  /\ pos[i] < Len(P[i].steps)
  /\ LET e == P[i].steps[pos[i] + 1]
         rest == Rests(P[i], Ways(P[i], UNION {Stimulus(e, st) : st \in sets[i]}))
     IN \E o \in {<<CO(st), UO(st)>> : st \in rest} :
          LET s1 == {Quiet(st) : st \in {x \in rest : <<CO(x), UO(x)>> = o}} IN
          /\ sets' = [sets EXCEPT ![i] = s1]
          /\ got' = [got EXCEPT ![i] = <<Plus(@[1], o[1]), Plus(@[2], o[2])>>]
          /\ last' = [i |-> i, co |-> o[1], uo |-> o[2], asks |-> Asks(s1)]
  /\ pos' = [pos EXCEPT ![i] = @ + 1]
  /\ UNCHANGED id
Next == \E i \in 1 .. N : Act(i)
Spec == Init /\ [][Next]_vars

Contains(s, w) == \E i \in 1 .. Len(s) - Len(w) + 1 : SubSeq(s, i, i + Len(w) - 1) = w
\* Everything that session i says carries the mark #i.
Mark(i) == "#" \o ToString(i - 1)
P06_Apart == \A i, j \in 1 .. N : i # j => ~Contains(got[i][1], Mark(j)) /\ ~Contains(got[i][2], Mark(j))
\* Whoever got through the handshake is served, whatever the others do.
P06_Served == \A i \in 1 .. N : (pos[i] > 0 /\ P[i].steps[1].hs = "ok") => Asks(sets[i])

EmitTransition ==
  ~Emit \/ PrintT("@@" \o ToJson([s |-> id, f |-> TLCFP(view), g |-> TLCFP(<<view, "another fingerprint of the same">>), a |-> last'.i, co |-> last'.co, uo |-> last'.uo, asks |-> last'.asks,
                                  t |-> TLCFP(view'), u |-> TLCFP(<<view', "another fingerprint of the same">>)]))
=============================================================================
