------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Decision table of valid and invalid configurations (C22): every         *)
(* configuration that differs from a plain valid one in at most Dev of six  *)
(* respects, for every population type and entry point.  Enumerated by     *)
(* TLC, replayed into the real classes.                                    *)
(***************************************************************************)
EXTENDS GAOps, TLC, Json
CONSTANTS Dev
VARIABLE x

N0 == 5
Lvl == {[t |-> "name", v |-> a, n |-> 0] : a \in {"weak", "normal", "strong", "medium", "Normal", ""}}
       \cup {[t |-> "float", v |-> "", n |-> a] : a \in {0, 1, 350, 999, 1000, -1, 1001, 5000}}
       \cup {[t |-> a, v |-> "", n |-> b] : a \in {"int"}, b \in {0, 1, 2}}
       \cup {[t |-> a, v |-> "", n |-> 0] : a \in {"nan", "none", "list", "bool", "above", "below", "inf"}}
Lvl0 == [t |-> "float", v |-> "", n |-> 350]
Tp == {"best", "random", "Best", "", "worst", "NONE"}
Ts == {-1, 0, 1, 2, 3, N0 - 1, N0, N0 + 1, 50}
Inp == {[ninp |-> a, inputs |-> "ok"] : a \in {0, 1, N0 - 1, N0, N0 + 1, 2 * N0}}
       \cup {[ninp |-> a, inputs |-> b] : a \in {1, N0}, b \in {"short", "long", "low", "high"}}
P(p, b1, b2, t, s) == [pen |-> p, b1 |-> b1, b2 |-> b2, tables |-> t, signs |-> s]
Pen == {P("none", 11, 12, "equal", "known"), P("dyn", 11, 12, "equal", "known"), P("sta", 11, 12, "equal", "known"),
        P("obj", 11, 12, "equal", "known"), P("class", 11, 12, "equal", "known"), P("str", 11, 12, "equal", "known"),
        P("sta", 11, 12, "eqlong", "known"), P("sta", 11, 12, "eqshort", "known"), P("sta", 11, 12, "inlong", "known"),
        P("sta", 11, 12, "inshort", "known")}
       \cup {P("ada", a, b, "equal", "known") : a, b \in {9, 10, 11, 12, 30}}
       \cup {P(a, 11, 12, "equal", b) : a \in {"dyn", "ada", "sta"}, b \in {"ge", "eqeq", "empty"}}
Val == {[form |-> a, d |-> b] : a \in {"seq"}, b \in {-1, 0, 1, 2}} \cup {[form |-> "scalar", d |-> 0]}

Base == [lvl |-> Lvl0, tp |-> "best", ts |-> 2, inp |-> [ninp |-> 0, inputs |-> "ok"], pen |-> P("none", 11, 12, "equal", "known"),
         val |-> [form |-> "seq", d |-> 0]]
Changed1(c) == {f \in DOMAIN Base : c[f] # Base[f]}
(* built from the choices of at most Dev changed fields *)
Alter(c, f) == CASE f = "lvl" -> {[c EXCEPT !.lvl = v] : v \in Lvl}
                 [] f = "tp" -> {[c EXCEPT !.tp = v] : v \in Tp}
                 [] f = "ts" -> {[c EXCEPT !.ts = v] : v \in Ts}
                 [] f = "inp" -> {[c EXCEPT !.inp = v] : v \in Inp}
                 [] f = "pen" -> {[c EXCEPT !.pen = v] : v \in Pen}
                 [] f = "val" -> {[c EXCEPT !.val = v] : v \in Val}
RECURSIVE Within(_)
Within(n) == IF n = 0 THEN {Base} ELSE LET W == Within(n - 1) IN W \cup UNION {UNION {Alter(c, f) : f \in DOMAIN Base} : c \in W}

Multi(entry) == entry \in {"vega", "ffga"}
Full(c, kind, entry, sel) ==
    LET e == (IF c.pen.pen \in {"dyn", "ada", "sta"} THEN 3 ELSE 1) + (IF Multi(entry) THEN 1 ELSE 0)
    IN [kind |-> kind, entry |-> entry, lvl |-> c.lvl, tp |-> c.tp, sel |-> sel, ts |-> c.ts, N |-> N0, ninp |-> c.inp.ninp,
        inputs |-> c.inp.inputs, pen |-> c.pen.pen, b1 |-> c.pen.b1, b2 |-> c.pen.b2, tables |-> c.pen.tables,
        signs |-> c.pen.signs, form |-> c.val.form, values |-> e + c.val.d, expected |-> e]
Possible(y) == /\ y.inputs = "ok" \/ y.kind \in {"bin", "gray"}     \* only binary inputs are examined
               /\ Multi(y.entry) => (/\ y.kind \in {"bin", "gray"} /\ y.pen # "ada"      \* known finding K1
                                      /\ y.form = "seq" /\ y.values = y.expected)

Init == /\ \E c \in Within(Dev), kind \in {"bin", "gray", "cat", "ord"}, es \in {<<"facade", "tour">>, <<"collector", "tour">>, <<"adv", "rank">>,
                <<"vega", "vtour">>, <<"ffga", "bal">>} :
             x = Full(c, kind, es[1], es[2])
        /\ Possible(x)
        /\ PrintT("CASE " \o ToJson([x |-> x, ok |-> IF ConfigOK(x) THEN 1 ELSE 0]))
Next == FALSE /\ UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
