---------------------------- MODULE ExtractorsMC -----------------------------
EXTENDS Extractors, Emit, TLC
CONSTANTS Sigs, Rets, Vals, SVals, FormBodies, JsonBodies, Deep
VARIABLES s, path, query, ct, body, st, my, done
vars == <<s, path, query, ct, body, st, my, done>>
Kinds == {Sigs[s][i] : i \in DOMAIN Sigs[s]}
Single == Len(Sigs[s]) <= 1 /\ Deep
TextB(t) == [k |-> "text", t |-> t, j |-> ""]
BadB == [k |-> "bad", t |-> << >>, j |-> ""]
Pr(n, v) == <<n, v>>
FullPaths == {<< >>} \cup {<<Pr(n, v)>> : n \in {A, B}, v \in Vals \ {<< >>}}
             \cup {<<Pr(A, v), Pr(B, w)>> : v \in Vals \ {<< >>}, w \in Vals \ {<< >>}}
             \cup {<<Pr(B, v), Pr(A, w)>> : v \in SVals \ {<< >>}, w \in Vals \ {<< >>}}
             \cup {<<Pr(A, v), Pr(C, w)>> : v \in SVals \ {<< >>}, w \in SVals \ {<< >>}}
RepPaths == {<< >>, <<Pr(A, <<55>>)>>, <<Pr(A, <<120>>)>>, <<Pr(A, <<55>>), Pr(B, <<49>>)>>, <<Pr(A, <<55>>), Pr(B, <<120>>)>>, <<Pr(B, <<49>>), Pr(A, <<55>>)>>}
FullQueries == {<< >>} \cup {<<Pr(n, v)>> : n \in {A, B}, v \in Vals} \cup {<<Pr(n, v), Pr(m, w)>> : n \in {A, B}, m \in {A, B, C}, v \in Vals, w \in SVals}
               \cup {<<Pr(x[1], v), Pr(x[2], w), Pr(x[3], u)>> : x \in {<<A, B, C>>, <<C, B, A>>, <<A, B, A>>, <<A, A, B>>}, v \in SVals, w \in SVals, u \in Vals}
RepQueries == {<< >>, <<Pr(A, <<52, 50>>)>>, <<Pr(A, <<>>)>>, <<Pr(B, <<120, 32>>), Pr(A, <<55>>)>>, <<Pr(A, <<48>>), Pr(C, <<45, 49>>), Pr(B, <<122>>)>>}
FormB == IF Single THEN {TextB(FormBodies[i]) : i \in DOMAIN FormBodies} ELSE {TextB(<<97, 61, 49>>), TextB(<<98, 61, 120, 38, 97, 61, 50>>), TextB(<<37>>)}
JsonB == LET all == {[k |-> "text", t |-> JsonBodies[i][1], j |-> JsonBodies[i][2]] : i \in DOMAIN JsonBodies} IN
         IF Single THEN all ELSE {b \in all : b.j = ""} \cup {CHOOSE b \in all : b.j # ""}
Init == /\ s \in DOMAIN Sigs /\ done = FALSE
        /\ path \in (IF Kinds \cap PathKinds = {} THEN {<< >>} ELSE IF Single THEN FullPaths ELSE RepPaths)
        /\ query \in (IF Kinds \cap QueryKinds = {} THEN {<< >>} ELSE IF Single THEN FullQueries ELSE RepQueries)
        /\ ct \in (IF Kinds \cap (FormKinds \cup {"json"}) = {} THEN {"none"} ELSE {"form", "json", "none"})
        /\ body \in (IF Kinds \cap BodyKinds = {} THEN {TextB(<< >>)}
                     ELSE {BadB, TextB(<< >>)} \cup (IF Kinds \cap FormKinds # {} THEN FormB ELSE {}) \cup (IF "json" \in Kinds THEN JsonB ELSE {})
                          \cup (IF Kinds \cap {"str", "vec", "chars"} # {} THEN {TextB(<<0, 97, 255, 13, 10>>)} ELSE {}))
        /\ st \in (IF "state" \in Kinds THEN {TRUE, FALSE} ELSE {FALSE})
        /\ my \in (IF "my" \in Kinds THEN {TRUE, FALSE} ELSE {FALSE})
Req == [path |-> path, query |-> query, ct |-> ct, body |-> body, st |-> st, my |-> my]
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED <<s, path, query, ct, body, st, my>>
        /\ Emit([s |-> s, req |-> Req, o |-> Outcome(Sigs[s], Rets[s], Req)])
\* runs exactly when each argument alone can be had; the error is that of an argument all before which can be had
Gate == LET o == Outcome(Sigs[s], Rets[s], Req) IN
  /\ o.run <=> \A i \in DOMAIN Sigs[s] : Outcome(<<Sigs[s][i]>>, "string", Req).run
  /\ ~o.run => /\ Outcome(SubSeq(Sigs[s], 1, o.at - 1), "string", Req).run
               /\ Outcome(<<Sigs[s][o.at]>>, "string", Req).status = o.status /\ Outcome(<<Sigs[s][o.at]>>, "string", Req).msg = o.msg
\* an argument does not depend on those around it
Alone == LET o == Outcome(Sigs[s], Rets[s], Req) IN o.run => \A i \in DOMAIN Sigs[s] : o.vs[i] = Arg(Sigs[s][i], Req).v
\* a parameter that no field names makes a structure fail, never be ignored
Exact == \A k \in {"ps1", "ps2", "q1", "q2", "q3"} : LET src == IF k \in PathKinds THEN path ELSE query IN
  Arg(k, Req).ok => NamesOf(src) = {Fields(k)[i].n : i \in DOMAIN Fields(k)}
=============================================================================
