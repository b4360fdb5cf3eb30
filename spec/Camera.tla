------------------------------- MODULE Camera -------------------------------
(* Cameras.  A camera stands at pos and looks along f, with u upwards and r  *)
(* to the right: an orthogonal frame of integer vectors of length n.  An     *)
(* image of w x h pixels; a sample at (x, y), in eighths of pixels, from the *)
(* left and from the top.  The shorter side of the image spans 2 units (the  *)
(* angle of view, of half tangent p/q).                                      *)
EXTENDS Integers, Sequences
Min(a, b) == IF a < b THEN a ELSE b
Vec(a, v) == <<a * v[1], a * v[2], a * v[3]>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
(* where the sample lies on the screen, over Unit *)
Unit(c) == 8 * Min(c.w, c.h)
Right(c, x) == 2 * x - 8 * c.w
Up(c, y) == 8 * c.h - 2 * y
(* frames from integer quaternions *)
Frame(a, b, d, e) ==
  [r |-> <<a*a+b*b-d*d-e*e, 2*(b*d+a*e), 2*(b*e-a*d)>>,
   u |-> <<2*(b*d-a*e), a*a-b*b+d*d-e*e, 2*(d*e+a*b)>>,
   f |-> <<2*(b*e+a*d), 2*(d*e-a*b), a*a-b*b-d*d+e*e>>,
   n |-> a*a+b*b+d*d+e*e]
InFrame(c, x, y, z) == Plus(Plus(Vec(x, c.r), Vec(y, c.u)), Vec(z, c.f))
(* the ray of a sample: its direction d (any length), and the offset of its  *)
(* origin from pos, o / od; panoramas: angles in fractions of a turn         *)
(* (clockwise from straight ahead; downwards from the zenith)                *)
Ray(c, x, y) ==
  CASE c.kind = "persp" -> [d |-> InFrame(c, Right(c, x) * c.p, Up(c, y) * c.p, Unit(c) * c.q),
                            o |-> <<0, 0, 0>>, od |-> 1]
    [] c.kind = "ortho" -> [d |-> c.f, o |-> InFrame(c, Right(c, x), Up(c, y), 0), od |-> Unit(c) * c.n]
    [] OTHER -> [az |-> <<x - 4 * c.w, 8 * c.w>>, ze |-> <<y, 16 * c.h>>,
                 o |-> <<0, 0, 0>>, od |-> 1]
Rays(c, x, y) == <<Ray(c, x, y), Ray(c, x + 8, y), Ray(c, x, y + 8)>>
=============================================================================
