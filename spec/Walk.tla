-------------------------------- MODULE Walk --------------------------------
(* The walk of a sampler over its tile [sx, ex) x [sy, ey): one batch of spp *)
(* samples for every pixel, in any order, then exhaustion for good.  A       *)
(* stratified sampler cuts a pixel in Cols x Rows cells, one sample each.    *)
EXTENDS Integers, FiniteSets
Pixels(t) == {<<x, y>> : x \in t.sx..(t.ex - 1), y \in t.sy..(t.ey - 1)}
Divisors(n) == {d \in 1..n : n % d = 0}
(* the grid nearest to a square with as many cells as samples *)
Cols(n) == CHOOSE d \in Divisors(n) : d * d <= n /\ \A e \in Divisors(n) : e * e <= n => e <= d
Rows(n) == n \div Cols(n)
Cells(n) == {<<c, r>> : c \in 0..(Cols(n) - 1), r \in 0..(Rows(n) - 1)}
(* one step of the walk: the pixels still to visit *)
MayVisit(t, left) == left
AfterBatch(left, p) == left \ {p}
Exhausted(left) == left = {}
=============================================================================
