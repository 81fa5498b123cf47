-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* Exact arithmetic in Z[w], w = exp(i*pi/4), w^4 = -1.  An element is a   *)
(* 4-tuple <<a,b,c,d>> = a + b*w + c*w^2 + d*w^3.  Clifford+T amplitudes   *)
(* (and rational rotations such as (3+4i)/5) live in this ring up to a     *)
(* common positive real factor, so quantum states are exact values here    *)
(* and no tolerance is needed anywhere in the specification.               *)
(***************************************************************************)
EXTENDS Integers, Sequences

RZ    == <<0,0,0,0>>
ROne  == <<1,0,0,0>>
RNeg1 == <<-1,0,0,0>>
RI    == <<0,0,1,0>>
RNegI == <<0,0,-1,0>>
RW    == <<0,1,0,0>>
RS2   == <<0,1,0,-1>>       \* sqrt(2) = w - w^3
RInt(k) == <<k,0,0,0>>

RAdd(a,b) == <<a[1]+b[1], a[2]+b[2], a[3]+b[3], a[4]+b[4]>>
RSub(a,b) == <<a[1]-b[1], a[2]-b[2], a[3]-b[3], a[4]-b[4]>>
RNeg(a)   == <<-a[1], -a[2], -a[3], -a[4]>>
RConj(a)  == <<a[1], -a[4], -a[3], -a[2]>>
RMul(a,b) == IF a = RZ \/ b = RZ THEN RZ
             ELSE IF a = ROne THEN b
             ELSE
  << a[1]*b[1] - a[2]*b[4] - a[3]*b[3] - a[4]*b[2],
     a[1]*b[2] + a[2]*b[1] - a[3]*b[4] - a[4]*b[3],
     a[1]*b[3] + a[2]*b[2] + a[3]*b[1] - a[4]*b[4],
     a[1]*b[4] + a[2]*b[3] + a[3]*b[2] + a[4]*b[1] >>

\* w^k for any integer k
RPow(k) == LET j == k % 8 IN
   CASE j = 0 -> ROne [] j = 1 -> <<0,1,0,0>> [] j = 2 -> <<0,0,1,0>> [] j = 3 -> <<0,0,0,1>>
     [] j = 4 -> RNeg1 [] j = 5 -> <<0,-1,0,0>> [] j = 6 -> <<0,0,-1,0>> [] j = 7 -> <<0,0,0,-1>>

\* |a|^2 = x + y*sqrt(2), returned as <<x, y>>: the real subring Z[sqrt 2]
RN2(a) == IF a = RZ THEN <<0,0>>
          ELSE << a[1]*a[1] + a[2]*a[2] + a[3]*a[3] + a[4]*a[4],
                  a[1]*a[2] + a[2]*a[3] + a[3]*a[4] - a[4]*a[1] >>
\* Real subring Z[sqrt 2], pairs <<x,y>>
SZ == <<0,0>>
SAdd(p,q) == <<p[1]+q[1], p[2]+q[2]>>
SSub(p,q) == <<p[1]-q[1], p[2]-q[2]>>
SMul(p,q) == <<p[1]*q[1] + 2*p[2]*q[2], p[1]*q[2] + p[2]*q[1]>>
SScale(k,p) == <<k*p[1], k*p[2]>>

RReal2(a) == RAdd(a, RConj(a))                       \* 2 Re a
RImag2(a) == RMul(RNegI, RSub(a, RConj(a)))          \* 2 Im a
\* real ring element <<a,b,0,-b>> as a Z[sqrt 2] pair
RToS(a) == <<a[1], a[2]>>

RAbsMax(a) == LET m(x) == IF x < 0 THEN -x ELSE x
                  M(x,y) == IF x > y THEN x ELSE y
              IN M(M(m(a[1]),m(a[2])), M(m(a[3]),m(a[4])))
=============================================================================
