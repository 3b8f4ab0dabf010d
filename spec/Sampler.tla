------------------------------ MODULE Sampler ------------------------------
(* Sampling accounting (property C01). Abstract specification: a request for
   k passes makes workers evaluate every pixel exactly k times, one evaluation
   of a pixel at a time, before it returns. Pixels are numbered from 1.       *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS NPix, Workers, Ks, MaxTotal
VARIABLES phase,   \* "idle" or "busy" (a request is running)
          req,     \* passes asked for by the running request
          total,   \* passes asked for so far, all requests
          done,    \* done[p]: evaluations of p completed by the running request
          cnt,     \* cnt[p]: evaluations of p completed so far
          active   \* active[w]: pixel that worker w is evaluating, or 0

vars == <<phase, req, total, done, cnt, active>>
Pix == 1..NPix

SInit == /\ phase = "idle" /\ req = 0 /\ total = 0
         /\ done = [p \in Pix |-> 0] /\ cnt = [p \in Pix |-> 0]
         /\ active = [w \in Workers |-> 0]

Call(k) == /\ phase = "idle"
           /\ phase' = "busy" /\ req' = k /\ total' = total + k
           /\ done' = [p \in DOMAIN done |-> 0]
           /\ UNCHANGED <<cnt, active>>

Idle(w) == IF w \in DOMAIN active THEN active[w] = 0 ELSE TRUE

Begin(w, p) == /\ phase = "busy" /\ Idle(w)
               /\ done[p] < req
               /\ \A v \in DOMAIN active : active[v] # p
               /\ active' = [v \in DOMAIN active \cup {w} |-> IF v = w THEN p ELSE active[v]]
               /\ UNCHANGED <<phase, req, total, done, cnt>>

End(w, p) == /\ phase = "busy" /\ ~Idle(w) /\ active[w] = p
             /\ done' = [done EXCEPT ![p] = @ + 1]
             /\ cnt' = [cnt EXCEPT ![p] = @ + 1]
             /\ active' = [active EXCEPT ![w] = 0]
             /\ UNCHANGED <<phase, req, total>>

Return == /\ phase = "busy"
          /\ \A p \in DOMAIN done : done[p] = req
          /\ \A w \in DOMAIN active : active[w] = 0
          /\ phase' = "idle"
          /\ UNCHANGED <<req, total, done, cnt, active>>

SNext == \/ \E k \in Ks : total + k <= MaxTotal /\ Call(k)
         \/ \E w \in Workers, p \in Pix : Begin(w, p) \/ End(w, p)
         \/ Return
Spec == SInit /\ [][SNext]_vars

----------------------------------------------------------------------------
(* Sample values. The drivers' image function returns, for evaluation j (from
   0) of pixel p, channel c, a small integer or NaN; here is its meaning.     *)
NaNAt(nan, p, j) == nan = 1 /\ (p + 2 * j) % 7 = 3
Val(nan, p, j, c) == IF NaNAt(nan, p, j) THEN 0 ELSE ((p * (c + 3) + (IF nan = 3 THEN 0 ELSE j) * (5 + c)) % 17) - 4  \* nan = 3: all samples of a pixel are the same

(* nan = 2: some samples have an infinite channel, which makes the mean of that channel infinite *)
InfAt(nan, p, j, c) == nan = 2 /\ (p + j) % 5 = 2 /\ c = p % 3
Infinite == 2000000002
InfImage(nan, p, n, c) == \E j \in 0..(n - 1) : InfAt(nan, p, j, c)

RECURSIVE Sum(_, _, _, _), SumSq(_, _, _, _)
Sum(nan, p, n, c) == IF n = 0 THEN 0 ELSE Val(nan, p, n - 1, c) + Sum(nan, p, n - 1, c)
SumSq(nan, p, n, c) == IF n = 0 THEN 0 ELSE Val(nan, p, n - 1, c) * Val(nan, p, n - 1, c) + SumSq(nan, p, n - 1, c)

(* The image is the mean, the deviation image the sample deviation: reported
   as mean * n and deviation^2 * n * (n-1), which are integers.               *)
ImageTimesN(nan, p, n, c) == IF InfImage(nan, p, n, c) THEN Infinite ELSE Sum(nan, p, n, c)
VarTimesNN(nan, p, n, c) == n * SumSq(nan, p, n, c) - Sum(nan, p, n, c) * Sum(nan, p, n, c)

(* The values repeat after 119 evaluations, which makes long sums cheap.      *)
Period == 119
LongSum(nan, p, n, c) == (n \div Period) * Sum(nan, p, Period, c) + Sum(nan, p, n % Period, c)
LongSumSq(nan, p, n, c) == (n \div Period) * SumSq(nan, p, Period, c) + SumSq(nan, p, n % Period, c)
RECURSIVE Total(_)
Total(ks) == IF ks = <<>> THEN 0 ELSE Head(ks) + Total(Tail(ks))
(* A whole history of requests ks on an image of npix pixels: lo[i] and hi[i]
   are the fewest and most evaluations of any pixel during request i, pix the
   final values of some of the pixels.                                        *)
BulkOK(nan, npix, ks, lo, hi, pix) ==
   /\ Len(lo) = Len(ks) /\ Len(hi) = Len(ks)
   /\ \A i \in 1..Len(ks) : lo[i] = ks[i] /\ hi[i] = ks[i]
   /\ \A q \in 1..Len(pix) : \A c \in 1..3 :
        LET p == pix[q].p  n == Total(ks)
            s == LongSum(nan, p, n, c - 1)
        IN /\ p \in 1..npix
           /\ pix[q].img[c] = s
           /\ n > 1 => pix[q].dev[c] = n * LongSumSq(nan, p, n, c - 1) - s * s

----------------------------------------------------------------------------
TypeOK == /\ phase \in {"idle", "busy"}
          /\ \A p \in Pix : done[p] \in 0..req /\ cnt[p] \in 0..MaxTotal
(* at every return all pixels have the same, requested number of samples      *)
ExactAtReturn == phase = "idle" => \A p \in Pix : cnt[p] = total
NeverTooMany == \A p \in Pix : cnt[p] <= total
Exclusive == \A v, w \in Workers : v # w /\ active[v] # 0 => active[v] # active[w]
MeanInRange == \A p \in Pix, c \in 0..2 : cnt[p] > 0 =>
                  ImageTimesN(1, p, cnt[p], c) \in -4 * cnt[p] .. 12 * cnt[p]
LongAgrees == \A nan \in {0, 1, 3}, p \in 1..20, c \in 0..2 : \A n \in {0, 1, 118, 119, 120, 240, 357} :
                 /\ LongSum(nan, p, n, c) = Sum(nan, p, n, c)
                 /\ LongSumSq(nan, p, n, c) = SumSq(nan, p, n, c)
ASSUME LongAgrees
VarNonNegative == \A p \in Pix, c \in 0..2 : VarTimesNN(1, p, cnt[p], c) >= 0
=============================================================================
