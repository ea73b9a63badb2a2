------------------------------ MODULE AuthGen ------------------------------
(* Every kind of setting with every kind of caller: the driver makes each call of each
   guard under it, at every door.  *)
EXTENDS Auth, TLC, Json
Settings == {<<>>, <<<<"">>>>, <<<<"ann">>>>, <<<<"ann", "one">>>>, <<<<"ann", "one">>, <<"bob", "two">>>>, <<<<"ann", "one">>, <<"ann", "two">>>>,
             <<<<"ann", "">>>>, <<<<"", "one">>>>, <<<<"ann", "one", "x">>, <<"bob", "two">>>>, <<<<"ann", "one">>, <<"bob", "two", "x">>>>}
Said == {<<"ann", "one">>, <<"ann", "two">>, <<"bob", "two">>, <<"bob", "one">>, <<"ann", "">>, <<"", "one">>, <<"ann">>, <<"">>, <<"ann", "one", "x">>,
         <<"Ann", "one">>, <<"ann", "One">>, <<"ann", "on">>, <<"ann", "onee">>, <<"an", "one">>, <<"bob", "two", "x">>, <<"one", "ann">>, <<" ann", "one">>}
Heads == {NoHeader} \cup
         {[there |-> TRUE, scheme |-> s, words |-> w, decodes |-> d, pieces |-> p] :
            s \in {"Basic"}, w \in {2}, d \in {TRUE}, p \in Said} \cup
         {[there |-> TRUE, scheme |-> s, words |-> w, decodes |-> d, pieces |-> <<"ann", "one">>] :
            s \in {"Basic", "Bearer", "Digest"}, w \in 1..3, d \in BOOLEAN}
VARIABLE s
Init == \E e \in Settings : s = e /\ PrintT(<<"BEH", ToJson([entries |-> e, heads |-> Heads])>>)
Next == FALSE /\ UNCHANGED s
Spec == Init /\ [][Next]_s
=============================================================================
