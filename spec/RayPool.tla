------------------------------ MODULE RayPool -------------------------------
(* Nested evaluation of rays on one context (C05). A context hands out rays
   and takes them back. An evaluation holds a ray, may hand it to nested
   materials as it is, may take further rays and evaluate them one level
   deeper, and gives them back when done. Storage given back is overwritten at
   any time. Checked: with the rule "given back exactly once, after its last
   use", a ray under evaluation always keeps its value, belongs to one
   evaluation only, and the level returns to where it was.                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Rays, MaxLevel, MaxOps
VARIABLES
  free,    \* rays given back
  val,     \* storage: ray -> value
  stack,   \* evaluations, outermost first: [ray, val, level, own: rays taken and not yet given back]
  level, ops
vars == <<free, val, stack, level, ops>>
Garbage == 0
Init == free = Rays /\ val = [r \in Rays |-> Garbage] /\ stack = <<>> /\ level = 0 /\ ops = 0
Top == stack[Len(stack)]
Count == ops < MaxOps /\ ops' = ops + 1
(* a primary ray, or one taken by the innermost evaluation, is evaluated *)
Start == /\ Count /\ stack = <<>>
         /\ \E r \in free : /\ free' = free \ {r} /\ val' = [val EXCEPT ![r] = 1 + ops]
                            /\ stack' = <<[ray |-> r, val |-> 1 + ops, level |-> 1, own |-> {}, prim |-> TRUE]>>
         /\ level' = 1
Take == /\ Count /\ stack # <<>> /\ Cardinality(Top.own) < 2
        /\ \E r \in free : /\ free' = free \ {r} /\ val' = [val EXCEPT ![r] = 1 + ops]
                           /\ stack' = [stack EXCEPT ![Len(stack)].own = @ \cup {r}]
        /\ UNCHANGED level
Deeper == /\ Count /\ stack # <<>> /\ level < MaxLevel
          /\ \E r \in Top.own : stack' = Append(stack, [ray |-> r, val |-> val[r], level |-> level + 1, own |-> {}, prim |-> FALSE])
          /\ level' = level + 1 /\ UNCHANGED <<free, val>>
Same == /\ Count /\ stack # <<>>         \* the same ray shown to a nested material
        /\ stack' = Append(stack, [ray |-> Top.ray, val |-> Top.val, level |-> level, own |-> {}, prim |-> FALSE])
        /\ UNCHANGED <<free, val, level>>
Give == /\ stack # <<>> /\ \E r \in Top.own : /\ free' = free \cup {r} /\ stack' = [stack EXCEPT ![Len(stack)].own = @ \ {r}]
        /\ UNCHANGED <<val, level, ops>>
End == /\ stack # <<>> /\ Top.own = {}
       /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
       /\ level' = IF stack' = <<>> THEN 0 ELSE stack'[Len(stack')].level
       /\ free' = IF Top.prim THEN free \cup {Top.ray} ELSE free
       /\ UNCHANGED <<val, ops>>
Overwrite == \E r \in free : val[r] # Garbage /\ val' = [val EXCEPT ![r] = Garbage] /\ UNCHANGED <<free, stack, level, ops>>
Next == Start \/ Take \/ Deeper \/ Same \/ Give \/ End \/ Overwrite
Spec == Init /\ [][Next]_vars
Kept == \A i \in 1..Len(stack) : val[stack[i].ray] = stack[i].val /\ stack[i].ray \notin free
Apart == \A i, j \in 1..Len(stack) : stack[i].ray = stack[j].ray => stack[i].level = stack[j].level
Owned == \A i \in 1..Len(stack) : stack[i].own \cap free = {}
Balanced == level = (IF stack = <<>> THEN 0 ELSE Top.level)
=============================================================================
