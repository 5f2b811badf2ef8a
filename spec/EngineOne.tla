------------------------------ MODULE EngineOne ------------------------------
(* one model: two joints in a chain, a mass point at the end, links added     *)
EXTENDS Engine
Or(p, r) == <<[xyz |-> <<p>>, rpy |-> <<r>>]>>
Jt(n, t, p, c, o, a) ==
  [name |-> <<n>>, type |-> <<t>>, parent |-> <<p>>, child |-> <<c>>, origin |-> o, axis |-> a,
   limit |-> IF t \in {"revolute", "prismatic"}
             THEN <<[lower |-> <<0 - U>>, upper |-> <<U>>, effort |-> <<U>>, velocity |-> <<2 * U>>]>> ELSE <<>>,
   lex |-> FALSE]
Mass == <<[mass |-> 2 * U, origin |-> <<[xyz |-> <<<<U, 0, U>>>>, rpy |-> <<>>]>>, I |-> <<U, 0, 0, 2 * U, 0, 3 * U>>]>>
Lk(n, i) == [name |-> n, inertial |-> i]
D(links, joints) ==
  [syntax |-> "ok", robot |-> TRUE, version |-> "none", materials |-> <<>>, unnamed |-> 0, links |-> links, joints |-> joints]

OneDocs == << [doc |-> D(<<Lk("r", <<>>), Lk("b", <<>>), Lk("a", Mass)>>,
                         <<Jt("k", "revolute", "r", "b", Or(<<U, 0, U>>, <<0, 0, 1>>), <<<<0, U, 0>>>>),
                           Jt("i", "continuous", "b", "a", Or(<<0, U, 0>>, <<1, 0, 0>>), <<<<0, 0, U>>>>)>>),
               lnames |-> <<"a", "b", "r", "a_com">>, jnames |-> <<"i", "k">>, root |-> "r"] >>
OneBases == {<<0, 0, 0, 0, 0, 0>>, <<U, 0, 0, 1, 0, 2>>, <<0, 0, 0, 0, 0, 1>>}
OneNames == <<"x", "0y", "c">>
AllOnes == {"h"}
ASSUME PrintT(<<"DOCS", ToJson(OneDocs)>>)
=============================================================================
