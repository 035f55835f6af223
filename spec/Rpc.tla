--------------------------------- MODULE Rpc ----------------------------------
(* The RPC client's configuration and outcome rules.  Strings are sequences of  *)
(* one-character strings; an optional value is <<>> or <<value>>.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == <<>>
Some(x) == <<x>>
Val(o) == o[1]
IsSet(o) == o # None /\ Val(o) # <<>>     \* a variable that is set and not empty
RangeOf(s) == {s[i] : i \in 1..Len(s)}

(* ------------------------------------------------------ N01: credentials -- *)
Blank == {" ", "\n", "\r", "\t"}
RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] \in Blank THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
(* c: job, access, home (variables), token, session (files) *)
Resolve(c) ==
    IF IsSet(c.job) THEN Some([tok |-> Val(c.job), job |-> TRUE])
    ELSE IF IsSet(c.access) THEN Some([tok |-> Val(c.access), job |-> FALSE])
    ELSE IF IsSet(c.home) /\ c.token # None THEN Some([tok |-> Trim(Val(c.token)), job |-> FALSE])
    ELSE IF c.session # None THEN Some([tok |-> Trim(Val(c.session)), job |-> FALSE])
    ELSE None
JobC == <<"J", "o", "b", " ">>
TokC == <<"T", "o", "k", "e", "n", " ">>
AuthOf(a) == (IF a.job THEN JobC ELSE TokC) \o a.tok

(* ---------------------------------------------------------- N02: settings -- *)
(* K holds the built-in values: server, endpoint (docc), lserver, lendpoint (local), auth, hint (header names) *)
Blank0 == [server |-> <<>>, endpoint |-> <<>>, headers |-> {}, failed |-> FALSE]
SetHeader(h, n, v) == {p \in h : p[1] # n} \cup {<<n, v>>}
RECURSIVE SetHeaders(_, _, _)
SetHeaders(h, ps, i) == IF i > Len(ps) THEN h ELSE SetHeaders(SetHeader(h, ps[i][1], ps[i][2]), ps, i + 1)
(* f: a file [ok, server, endpoint, headers]; None if the path names no readable file *)
File(st, f) ==
    IF f = None \/ ~Val(f).ok THEN [st EXCEPT !.failed = TRUE]
    ELSE LET d == Val(f) IN
         [st EXCEPT !.server = IF d.server # None THEN Val(d.server) ELSE @,
                    !.endpoint = IF d.endpoint # None THEN Val(d.endpoint) ELSE @,
                    !.headers = SetHeaders(@, d.headers, 1)]
FirstColon(s) == CHOOSE i \in 1..Len(s) : s[i] = ":" /\ \A j \in 1..(i - 1) : s[j] # ":"
HeaderVar(st, v, K) ==
    IF ~IsSet(v) THEN st
    ELSE LET s == Val(v) IN
         IF ":" \in RangeOf(s)
         THEN [st EXCEPT !.headers = SetHeader(@, SubSeq(s, 1, FirstColon(s) - 1), SubSeq(s, FirstColon(s) + 1, Len(s)))]
         ELSE [st EXCEPT !.headers = SetHeader(@, K.hint, s)]
(* the server variable replaces only the default server *)
Docc(st, c, K) ==
    LET a == Resolve(c) IN
    IF a = None THEN st
    ELSE [st EXCEPT !.server = IF IsSet(c.rpcserver) THEN Val(c.rpcserver) ELSE K.server,
                    !.endpoint = K.endpoint,
                    !.headers = SetHeader(@, K.auth, AuthOf(Val(a)))]
ApplyStep(st, s, K) ==
    IF st.failed THEN st ELSE
    CASE s.op = "local" -> [st EXCEPT !.server = K.lserver, !.endpoint = K.lendpoint]
      [] s.op = "file" -> File(st, s.file)
      [] s.op = "env" -> IF s.var = FALSE THEN st ELSE File(st, s.file)
      [] s.op = "henv" -> HeaderVar(st, s.val, K)
      [] s.op = "header" -> [st EXCEPT !.headers = SetHeader(@, s.name, s.value)]
      [] s.op = "docc" -> Docc(st, s.cfg, K)
(* what may be connected to *)
Builds(st) == ~st.failed /\ st.server # <<>>
Address(st) == st.server \o <<"/">> \o st.endpoint

(* ---------------------------------------------------------- N03: outcomes -- *)
(* a complete response with a status, or none *)
Success(x) == x.complete /\ x.status \in 200..203
Class(x) == IF Success(x) THEN "ok" ELSE IF x.complete /\ x.status = 401 THEN "auth" ELSE "error"
==============================================================================
