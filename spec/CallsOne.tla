------------------------------- MODULE CallsOne -------------------------------
EXTENDS Calls
Or(p, r) == <<[xyz |-> <<p>>, rpy |-> <<r>>]>>
Jt(n, t, p, c, o, a) ==
  [name |-> <<n>>, type |-> <<t>>, parent |-> <<p>>, child |-> <<c>>, origin |-> o, axis |-> a,
   limit |-> IF t \in {"revolute", "prismatic"}
             THEN <<[lower |-> <<0 - U>>, upper |-> <<U>>, effort |-> <<U>>, velocity |-> <<2 * U>>]>> ELSE <<>>,
   lex |-> FALSE]
Mass(m) == <<[mass |-> m, origin |-> <<[xyz |-> <<<<U, 0, U>>>>, rpy |-> <<>>]>>, I |-> <<U, 0, 0, 2 * U, 0, 3 * U>>]>>
Lk(n, i) == [name |-> n, inertial |-> i]
OneDoc ==
  [doc |-> [syntax |-> "ok", robot |-> TRUE, version |-> "none", materials |-> <<>>, unnamed |-> 0,
            links |-> <<Lk("r", <<>>), Lk("b", <<>>), Lk("a", Mass(2 * U))>>,
            joints |-> <<Jt("k", "revolute", "r", "b", Or(<<U, 0, U>>, <<0, 0, 1>>), <<<<0, U, 0>>>>),
                         Jt("i", "prismatic", "b", "a", Or(<<0, U, 0>>, <<1, 0, 0>>), <<<<0, 0, U>>>>)>>],
   lnames |-> <<"a", "b", "r", "a_com">>, jnames |-> <<"i", "k">>, root |-> "r"]
(* joint 0 slides (multiples of U), joint 1 turns (quarters) *)
Q1 == <<U, 1>>
Q2 == <<0, 1>>
Q3 == <<U, 2>>
Pl1 == <<U, 0, 1>>
Pl2 == <<0, 2 * U, 3>>
Fl1 == <<U, U, 2 * U, 1, 0, 1>>
Fl2 == <<0, 0, 0, 2, 0, 3>>
Nil == <<>>
C(ids, links, base, qs, bs) == [ids |-> ids, links |-> links, base |-> base, qs |-> qs, bs |-> bs]
Rev(q) == <<q[2], q[1]>>
OneCalls == <<
  C(<<0, 1>>, <<0>>, "fixed", <<Q1>>, <<Nil>>),
  C(<<0, 1>>, <<0, 1>>, "fixed", <<Q1, Q2, Q1>>, <<Nil, Nil, Nil>>),
  C(<<1, 0>>, <<0, 2, 0>>, "fixed", <<Rev(Q1), Rev(Q2)>>, <<Nil, Nil>>),
  C(<<1>>, <<1, 0>>, "fixed", <<<<1>>, <<2>>>>, <<Nil, Nil>>),
  C(<<>>, <<0>>, "fixed", <<<<>>, <<>>>>, <<Nil, Nil>>),
  C(<<0, 1>>, <<0, 1>>, "planar", <<Q1, Q2>>, <<Pl1, Pl2>>),
  C(<<1, 0>>, <<3>>, "planar", <<Rev(Q3), Rev(Q3)>>, <<Pl2, Pl1>>),
  C(<<0>>, <<2, 1>>, "planar", <<<<U>>>>, <<Pl1>>),
  C(<<0, 1>>, <<1>>, "floating", <<Q1, Q3>>, <<Fl1, Fl2>>),
  C(<<1, 0>>, <<0, 1, 2>>, "floating", <<Rev(Q1), Rev(Q1)>>, <<Fl2, Fl1>>),
  C(<<1>>, <<0>>, "floating", <<<<0>>>>, <<<<0, 0, 0, 0, 0, 0>>>>),
  C(<<0, 1>>, <<1>>, "fixed", <<<<0, 0>>>>, <<Nil>>) >>
S(ids, base, q, b) == [ids |-> ids, base |-> base, q |-> q, b |-> b]
OneSets == <<
  S(<<0, 1>>, "fixed", <<0, 0>>, Nil), S(<<1, 0>>, "fixed", Rev(Q1), Nil), S(<<1>>, "fixed", <<2>>, Nil),
  S(<<0, 1>>, "planar", Q2, Pl1), S(<<0>>, "planar", <<U>>, Pl2),
  S(<<1, 0>>, "floating", Rev(Q1), Fl1), S(<<>>, "floating", <<>>, <<0, 0, 0, 0, 0, 0>>) >>
F(call, ids, base, rows) == [call |-> call, ids |-> ids, base |-> base, rows |-> rows]
OneMisfits == <<
  F("setq", <<0, 1>>, "fixed", <<<<U, 1, 2>>>>), F("setq", <<1, 0>>, "planar", <<Rev(Q1)>>),
  F("setq", <<0>>, "floating", <<<<U>> \o Fl1 \o <<1>>>>), F("setq", <<0, 1>>, "floating", <<Q3 \o Pl1>>),
  F("batch", <<0, 1>>, "fixed", <<Q1, Q3, <<U>>>>), F("batch", <<1, 0>>, "planar", <<Rev(Q3) \o Pl2, Rev(Q1) \o Fl1>>),
  F("batch", <<0, 1>>, "floating", <<Q1 \o Fl1, Q1>>), F("batch", <<1>>, "floating", <<<<1>> \o Pl1>>),
  F("batch", <<0, 1>>, "fixed", <<Q1 \o Pl1>>), F("inertiaq", <<0, 1>>, "fixed", <<<<0>>>>), F("inertiaq", <<1>>, "fixed", <<Q1>>) >>
ASSUME PrintT(<<"MISFITS", ToJson(OneMisfits)>>)
ASSUME PrintT(<<"DOCS", ToJson(<<OneDoc>>)>>)
ASSUME PrintT(<<"CALLS", ToJson(OneCalls)>>) /\ PrintT(<<"SETS", ToJson(OneSets)>>)
================================================================================
