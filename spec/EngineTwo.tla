------------------------------ MODULE EngineTwo ------------------------------
(* two models of two descriptions: copied, assigned, destroyed, loaded        *)
EXTENDS EngineOne
TwoDocs == << [doc |-> D(<<Lk("r", <<>>), Lk("a", Mass)>>,
                         <<Jt("k", "revolute", "r", "a", Or(<<U, 0, U>>, <<0, 0, 1>>), <<<<0, U, 0>>>>)>>),
               lnames |-> <<"a", "r", "a_com">>, jnames |-> <<"k">>, root |-> "r"],
              [doc |-> D(<<Lk("a", <<>>), Lk("r", <<>>)>>,
                         <<Jt("k", "continuous", "a", "r", Or(<<0, U, 0>>, <<1, 0, 0>>), <<<<0, 0, U>>>>)>>),
               lnames |-> <<"a", "r">>, jnames |-> <<"k">>, root |-> "a"] >>
TwoHandles == {"h", "g"}
TwoBases == {<<U, 0, 0, 1, 0, 2>>}
ASSUME PrintT(<<"DOCS2", ToJson(TwoDocs)>>)
=============================================================================
