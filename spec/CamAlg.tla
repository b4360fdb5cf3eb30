------------------------------- MODULE CamAlg -------------------------------
(* Laws of the cameras for every small image: the middle looks at the        *)
(* target; to the right on the image is to the right of the camera, down is  *)
(* down; pixels are square; the frame is not mirrored.                       *)
EXTENDS Camera, TLC
CONSTANTS Max_
VARIABLES c, x, y
Q == {<<1, 0, 0, 0>>, <<1, 1, 0, 0>>, <<1, 0, 2, 0>>, <<2, 1, 0, 1>>, <<1, 1, 1, 1>>, <<0, 1, 0, 0>>, <<3, 0, 1, 2>>}
Init == /\ \E k \in {"persp", "ortho"}, q \in Q, w \in 1..Max_, h \in 1..Max_ :
             LET f == Frame(q[1], q[2], q[3], q[4]) IN
             c = [kind |-> k, r |-> f.r, u |-> f.u, f |-> f.f, n |-> f.n, w |-> w, h |-> h, p |-> 2, q |-> 3]
        /\ x = 0 /\ y = 0
Next == /\ x' \in {x, x + 4} /\ y' \in {y, y + 4} /\ x' <= 8 * c.w /\ y' <= 8 * c.h /\ UNCHANGED c
FrameOk == /\ Dot(c.r, c.u) = 0 /\ Dot(c.r, c.f) = 0 /\ Dot(c.u, c.f) = 0
           /\ Dot(c.f, c.f) = c.n * c.n /\ Dot(c.u, c.u) = c.n * c.n
           /\ Cross(c.u, c.f) = Vec(c.n, c.r)
R == Ray(c, x, y)
V(k) == IF c.kind = "persp" THEN Ray(c, x + k[1], y + k[2]).d ELSE Ray(c, x + k[1], y + k[2]).o
Diff(a, b) == Plus(a, Vec(-1, b))
Middle == (2 * x = 8 * c.w /\ 2 * y = 8 * c.h) => Cross(R.d, c.f) = <<0, 0, 0>> /\ Dot(R.d, c.f) > 0 /\ R.o = <<0, 0, 0>>
Ahead == Dot(R.d, c.f) > 0
Sides == LET a == Diff(V(<<8, 0>>), V(<<0, 0>>)) b == Diff(V(<<0, 8>>), V(<<0, 0>>)) IN
         /\ Dot(a, c.r) > 0 /\ Dot(a, c.u) = 0 /\ Dot(b, c.u) < 0 /\ Dot(b, c.r) = 0
         /\ Dot(a, c.r) = -Dot(b, c.u)
=============================================================================
