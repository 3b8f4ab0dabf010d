------------------------------- MODULE Bakery -------------------------------
(* The render server as its clients see it. At most one bake runs; a bake of
   the view baked last continues its image, of another view starts afresh; the
   first bake of a view makes one pass and each further one pass more.
   An image is the set of the passes it accumulates. pass numbers are unique. *)
EXTENDS Integers, FiniteSets, Sequences
Nobody == 0
(* what the server keeps: the view baked last, its image and how many passes
   the next bake makes                                                        *)
Fresh(v) == [view |-> v, img |-> {}, num |-> 1]
Base(kept, v) == IF kept.view = v THEN kept ELSE Fresh(v)
(* img is what a successful bake of v may answer, with kept before *)
GoodImage(kept, v, img) == LET b == Base(kept, v) IN b.img \subseteq img /\ Cardinality(img) = Cardinality(b.img) + b.num
After(kept, v, img) == [view |-> v, img |-> img, num |-> Base(kept, v).num + 1]
-----------------------------------------------------------------------------
CONSTANTS Views, MaxPass
VARIABLES running,  \* view being baked, or Nobody
          kept, pass, answers
vars == <<running, kept, pass, answers>>
Init == running = Nobody /\ kept = Fresh(Nobody) /\ pass = 0 /\ answers = <<>>
Accept(v) == running = Nobody /\ running' = v /\ UNCHANGED <<kept, pass, answers>>
Refuse == running # Nobody /\ UNCHANGED vars
Finish == /\ running # Nobody
          /\ LET b == Base(kept, running)
                 new == (pass + 1)..(pass + b.num) IN
             /\ pass + b.num <= MaxPass
             /\ pass' = pass + b.num
             /\ kept' = After(kept, running, b.img \cup new)
             /\ answers' = Append(answers, [view |-> running, img |-> b.img \cup new])
          /\ running' = Nobody
Preview == /\ pass < MaxPass /\ pass' = pass + 1 /\ UNCHANGED <<running, kept, answers>>
Cancel == UNCHANGED vars
Next == (\E v \in Views : Accept(v)) \/ Refuse \/ Finish \/ Preview \/ Cancel
Spec == Init /\ [][Next]_vars /\ WF_vars(Finish)
(* properties *)
Counts == \A i \in 1..Len(answers) :
            LET same(j) == \A k \in j..i : answers[k].view = answers[i].view
                first == CHOOSE j \in 1..i : same(j) /\ (j = 1 \/ ~same(j - 1))
                n == i - first + 1
            IN Cardinality(answers[i].img) = (n * (n + 1)) \div 2
Grows == \A i \in 2..Len(answers) : IF answers[i].view = answers[i - 1].view
                                    THEN answers[i - 1].img \subseteq answers[i].img
                                    ELSE answers[i - 1].img \cap answers[i].img = {}
NeverStuck == [](running # Nobody => <>(running = Nobody \/ pass + Base(kept, running).num > MaxPass))
=============================================================================
