---------------------------- MODULE SamplerImpl ----------------------------
(* How the sampler does it: the image is cut into tiles, the tiles queue up
   in a channel, each worker takes tiles and walks over their pixels doing all
   passes of a pixel in a row. TLC checks that this refines Sampler.          *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS W, H, Tile, Workers, Ks, MaxTotal
VARIABLES phase, req, total, done, cnt, active,
          queue,  \* tiles not taken yet (sequence)
          tile,   \* tile[w]: pixels of w's tile still to do (sequence)
          quit    \* quit[w]: worker w found the queue empty and returned
vars == <<phase, req, total, done, cnt, active, queue, tile, quit>>

A == INSTANCE Sampler WITH NPix <- W * H

Pix(x, y) == y * W + x + 1
MinI(a, b) == IF a < b THEN a ELSE b
RECURSIVE Cells(_, _, _, _, _, _)
Cells(x, y, x0, y0, x1, y1) ==   \* row by row
   IF y >= y1 THEN <<>>
   ELSE IF x >= x1 THEN Cells(x0, y + 1, x0, y0, x1, y1)
   ELSE <<Pix(x, y)>> \o Cells(x + 1, y, x0, y0, x1, y1)
RECURSIVE Tiles(_, _)
Tiles(x0, y0) ==
   IF x0 >= W THEN <<>>
   ELSE IF y0 >= H THEN Tiles(x0 + Tile, 0)
   ELSE <<Cells(x0, y0, x0, y0, MinI(x0 + Tile, W), MinI(y0 + Tile, H))>> \o Tiles(x0, y0 + Tile)
AllTiles == Tiles(0, 0)

Init == /\ A!SInit /\ queue = <<>> /\ tile = [w \in Workers |-> <<>>]
        /\ quit = [w \in Workers |-> TRUE]
CallI(k) == /\ total + k <= MaxTotal /\ A!Call(k)
            /\ queue' = AllTiles
            /\ quit' = [w \in Workers |-> FALSE] /\ UNCHANGED tile
Take(w) == /\ ~quit[w] /\ tile[w] = <<>> /\ active[w] = 0 /\ queue # <<>>
           /\ tile' = [tile EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue)
           /\ UNCHANGED <<phase, req, total, done, cnt, active, quit>>
(* finished with a pixel: go to the next one *)
Skip(w) == /\ tile[w] # <<>> /\ active[w] = 0 /\ done[Head(tile[w])] = req
           /\ tile' = [tile EXCEPT ![w] = Tail(@)]
           /\ UNCHANGED <<phase, req, total, done, cnt, active, queue, quit>>
BeginI(w) == /\ tile[w] # <<>> /\ A!Begin(w, Head(tile[w])) /\ UNCHANGED <<queue, tile, quit>>
EndI(w) == /\ tile[w] # <<>> /\ A!End(w, Head(tile[w])) /\ UNCHANGED <<queue, tile, quit>>
Quit(w) == /\ ~quit[w] /\ phase = "busy" /\ tile[w] = <<>> /\ queue = <<>>
           /\ quit' = [quit EXCEPT ![w] = TRUE]
           /\ UNCHANGED <<phase, req, total, done, cnt, active, queue, tile>>
(* The request returns when all workers have quit. That every pixel is done by
   then is NOT assumed here: it follows (invariant ExactAtReturn).            *)
ReturnI == /\ phase = "busy" /\ \A w \in Workers : quit[w]
           /\ phase' = "idle"
           /\ UNCHANGED <<req, total, done, cnt, active, queue, tile, quit>>
Next == \/ \E k \in Ks : CallI(k)
        \/ \E w \in Workers : Take(w) \/ Skip(w) \/ BeginI(w) \/ EndI(w) \/ Quit(w)
        \/ ReturnI
Spec == Init /\ [][Next]_vars
(* every pixel belongs to exactly one tile *)
Partition == LET all == UNION {{<<i, j>> : j \in 1..Len(AllTiles[i])} : i \in 1..Len(AllTiles)}
             IN /\ Cardinality(all) = W * H
                /\ {AllTiles[t[1]][t[2]] : t \in all} = 1..(W * H)
ExactAtReturn == A!ExactAtReturn
Exclusive == A!Exclusive
VarNonNegative == A!VarNonNegative
MeanInRange == A!MeanInRange
Refines == A!Spec
=============================================================================
