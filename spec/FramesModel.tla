---------------------------- MODULE FramesModel ----------------------------
(* The laws of the frames on an exact model: angles are the twelve rational     *)
(* points of the unit circle with denominator 5, vectors are integer triples,   *)
(* so every law is decided by integer arithmetic (everything is scaled by       *)
(* powers of 5 instead of divided).                                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Reach
VARIABLES v, a, b, w
vars == << v, a, b, w >>
D == 5
Angles == { p \in (-5..5) \X (-5..5) : p[1] * p[1] + p[2] * p[2] = 25 }       \* << 5 cos, 5 sin >>
Vecs == (-Reach..Reach) \X (-Reach..Reach) \X (-Reach..Reach)
Dot(p, q) == p[1] * q[1] + p[2] * q[2] + p[3] * q[3]
Scale(k, p) == << k * p[1], k * p[2], k * p[3] >>
Plus(p, q) == << p[1] + q[1], p[2] + q[2], p[3] + q[3] >>
Cross(p, q) == << p[2] * q[3] - p[3] * q[2], p[3] * q[1] - p[1] * q[3], p[1] * q[2] - p[2] * q[1] >>

ToFixed(p, g)    == << g[1] * p[1] + g[2] * p[2], g[1] * p[2] - g[2] * p[1], D * p[3] >>
ToInertial(p, g) == << g[1] * p[1] - g[2] * p[2], g[2] * p[1] + g[1] * p[2], D * p[3] >>
Sum(g, h) == << g[1] * h[1] - g[2] * h[2], g[2] * h[1] + g[1] * h[2] >>        \* scaled by 25
ToFixed25(p, g) == << g[1] * p[1] + g[2] * p[2], g[1] * p[2] - g[2] * p[1], 25 * p[3] >>

Init == v \in Vecs /\ a \in Angles /\ b \in Angles /\ w = << 1, 2, -1 >>
Next == UNCHANGED vars

(* C18 *)
Inverse     == ToInertial(ToFixed(v, a), a) = Scale(25, v) /\ ToFixed(ToInertial(v, a), a) = Scale(25, v)
Isometry    == Dot(ToFixed(v, a), ToFixed(v, a)) = 25 * Dot(v, v) /\ ToFixed(v, a)[3] = D * v[3]
AnglesAdd   == ToFixed(ToFixed(v, a), b) = ToFixed25(v, Sum(a, b))
(* turning from angle a by the small positive angle with sine 4/5: eastward *)
Eastward    == LET q == ToInertial(v, a)
                   r == ToInertial(v, Sum(a, << 3, 4 >>))
               IN Cross(<< q[1], q[2], 0 >>, << r[1], r[2], 0 >>)[3] >= 0
(* C20: a latitude (cosine not negative), b longitude *)
South == << a[2] * b[1], a[2] * b[2], -5 * a[1] >>                             \* scaled by 25
East  == << -5 * b[2], 5 * b[1], 0 >>
Up    == << a[1] * b[1], a[1] * b[2], 5 * a[2] >>
Axes  == a[1] >= 0 =>
         /\ Dot(South, South) = 625 /\ Dot(East, East) = 625 /\ Dot(Up, Up) = 625
         /\ Dot(South, East) = 0 /\ Dot(East, Up) = 0 /\ Dot(South, Up) = 0
         /\ Cross(South, East) = Scale(25, Up)
         /\ South[3] <= 0                                                       \* south goes towards the south pole
         /\ Dot(East, Cross(<< 0, 0, 1 >>, Up)) >= 0                            \* east goes with the Earth's rotation
LocalKeepsLength == Dot(South, v) * Dot(South, v) + Dot(East, v) * Dot(East, v) + Dot(Up, v) * Dot(Up, v)
                    = 625 * Dot(v, v)
(* C21: approaching before and after a common rotation *)
Closer(p, q) == Dot(Plus(p, q), Plus(p, q)) < Dot(p, p)
RotationFree == Closer(v, w) <=> Closer(ToFixed(v, a), ToFixed(w, a))
=============================================================================
