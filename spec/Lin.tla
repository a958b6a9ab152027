-------------------------------- MODULE Lin --------------------------------
(* Exact integer linear algebra for rigid placements: vectors are 3-tuples,  *)
(* matrices 3-tuples of 3-tuples, placements [R |-> matrix, t |-> vector].    *)
EXTENDS Integers, Sequences, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Sqrt(n) == CHOOSE r \in 0..100 : r * r = n
IsSquare(n) == \E r \in 0..100 : r * r = n

VAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
VSub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
VNeg(a) == <<-a[1], -a[2], -a[3]>>
VScale(k, a) == <<k * a[1], k * a[2], k * a[3]>>
VDiv(a, k) == <<a[1] \div k, a[2] \div k, a[3] \div k>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2],
                 a[3] * b[1] - a[1] * b[3],
                 a[1] * b[2] - a[2] * b[1]>>
Zero3 == <<0, 0, 0>>

I3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Col(M, j) == <<M[1][j], M[2][j], M[3][j]>>
Tr(M) == <<Col(M, 1), Col(M, 2), Col(M, 3)>>
MV(M, v) == <<Dot(M[1], v), Dot(M[2], v), Dot(M[3], v)>>
MM(A, B) == LET T == Tr(B) IN
  <<<<Dot(A[1], T[1]), Dot(A[1], T[2]), Dot(A[1], T[3])>>,
    <<Dot(A[2], T[1]), Dot(A[2], T[2]), Dot(A[2], T[3])>>,
    <<Dot(A[3], T[1]), Dot(A[3], T[2]), Dot(A[3], T[3])>>>>
Det(M) == Dot(M[1], Cross(M[2], M[3]))

(* placements *)
Id == [R |-> I3, t |-> Zero3]
Comp(A, B) == [R |-> MM(A.R, B.R), t |-> VAdd(MV(A.R, B.t), A.t)]
Inv(A) == LET T == Tr(A.R) IN [R |-> T, t |-> VNeg(MV(T, A.t))]
Trans(v) == [R |-> I3, t |-> v]
Act(A, p) == VAdd(MV(A.R, p), A.t)
Proper(A) == MM(A.R, Tr(A.R)) = I3 /\ Det(A.R) = 1

Skew(a) == <<<<0, -a[3], a[2]>>, <<a[3], 0, -a[1]>>, <<-a[2], a[1], 0>>>>
Outer(a) == <<VScale(a[1], a), VScale(a[2], a), VScale(a[3], a)>>
MComb(p, A, q, B, r, C, d) ==   (* (p A + q B + r C) / d *)
  [i \in 1..3 |-> [j \in 1..3 |-> (p * A[i][j] + q * B[i][j] + r * C[i][j]) \div d]]
ToTuple(M) == <<<<M[1][1], M[1][2], M[1][3]>>, <<M[2][1], M[2][2], M[2][3]>>,
                <<M[3][1], M[3][2], M[3][3]>>>>

(* Rotation by deg about an axis that need not be normalised; zero axis = no  *)
(* rotation.  Exact for quarter turns about axes of integral length, half     *)
(* turns about any axis with integral result and third turns about (k,k,k).   *)
RotM(a, deg) ==
  LET d == deg % 360
      n2 == Dot(a, a)
  IN IF n2 = 0 \/ d = 0 THEN I3
     ELSE IF d = 180 THEN ToTuple(MComb(-n2, I3, 0, I3, 2, Outer(a), n2))
     ELSE IF d \in {90, 270}
       THEN LET n == Sqrt(n2)
                s == IF d = 90 THEN 1 ELSE -1
            IN ToTuple(MComb(0, I3, s * n, Skew(a), 1, Outer(a), n2))
     ELSE LET k == Abs(a[1])               \* 120 / 240 about (+-k,+-k,+-k)
              s == IF d = 120 THEN 1 ELSE -1
          IN ToTuple(MComb(-(k * k), I3, s * k, Skew(a), 1, Outer(a), 2 * k * k))
Rot(a, deg) == [R |-> RotM(a, deg), t |-> Zero3]

(* translation by val along the direction of a *)
Slide(a, val) == LET n2 == Dot(a, a)
                 IN IF n2 = 0 THEN Id
                    ELSE Trans(VDiv(VScale(val, a), Sqrt(n2)))
(* intrinsic XYZ Euler angles, quarter turns *)
Euler(rx, ry, rz) == Comp(Rot(<<1, 0, 0>>, rx), Comp(Rot(<<0, 1, 0>>, ry), Rot(<<0, 0, 1>>, rz)))
=============================================================================
