--------------------------------- MODULE SpecHist ---------------------------------
(* Histories of spectra: three registers of 16 components (the default build   *)
(* keeps three of them), the four operations with a spectrum or a number, in   *)
(* place or not, the operands being possibly the same register. Components are *)
(* multiples of 1/256 small enough for every result to be exact.               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Steps
VARIABLES reg, hist
Unit == 256
Limit == 256 * 2048
R(S, k) == RandomElement({x \in S : k >= 0})
N == 16
Zeros == [i \in 1..N |-> 0]
Init == reg = [r \in 1..3 |-> Zeros] /\ hist = <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
Ops == {"+", "-", "*", "/"}
(* whether a op b is exact and small *)
Fine(op, a, b) == CASE op = "*" -> IF b = 0 THEN TRUE ELSE Abs(a) < 65536 /\ Abs(b) < 32768 /\ Abs(a * b) <= Limit * Unit /\ (a * b) % Unit = 0
                    [] op = "/" -> b # 0 /\ Abs(a) < 2097152 /\ (Abs(a) * Unit) % Abs(b) = 0 /\ (Abs(a) * Unit) \div Abs(b) <= Limit
                    [] OTHER -> Abs(a) + Abs(b) <= Limit
Do(op, a, b) == CASE op = "+" -> a + b [] op = "-" -> a - b
                  [] op = "*" -> (a * b) \div Unit
                  [] OTHER -> Sign(a) * Sign(b) * ((Abs(a) * Unit) \div Abs(b))
AllFine(op, x, y) == \A i \in 1..N : Fine(op, x[i], y[i])
All(op, x, y) == [i \in 1..N |-> Do(op, x[i], y[i])]
Same(v) == [i \in 1..N |-> v]
Step(name, r, a, b, v, new) ==
    /\ Len(hist) < Steps
    /\ reg' = [reg EXCEPT ![r] = new]
    /\ hist' = Append(hist, [op |-> name, r |-> r, a |-> a, b |-> b, v |-> v, w |-> [k \in 1..3 |-> reg'[k]],
                             black |-> [k \in 1..3 |-> \A i \in 1..N : reg'[k][i] = 0],
                             rgb |-> [k \in 1..3 |-> \A i \in 1..3 : reg'[k][i] = 0]])
(* small multiples of an eighth, or powers of two *)
Num(k) == IF R({TRUE, FALSE}, k) THEN 32 * R(-40..40, k) ELSE R({-1, 1}, k) * Unit * R({1, 2, 4}, k)
(* dense, a single component, or powers of two *)
Vals(k) == LET m == R(1..4, k)  at == R(1..N, k) IN
           CASE m = 1 -> [i \in 1..N |-> 32 * R(-40..40, k * N + i)]
             [] m = 2 -> [i \in 1..N |-> IF i = at THEN 256 ELSE 0]
             [] m = 3 -> [i \in 1..N |-> R({-1, 1}, k * N + i) * R({64, 128, 256, 512, 1024}, k * N + i)]
             [] OTHER -> [i \in 1..N |-> 8 * R(1..100, k * N + i)]
K == Len(hist)
Set == \E r \in {R(1..3, K)} : \E w \in {Vals(K)} : Step("set", r, 0, 0, w, w)
Fill == \E r \in {R(1..3, K)} : \E v \in {IF R(1..4, K) = 1 THEN 0 ELSE Num(K)} : Step("fill", r, 0, 0, v, Same(v))
Copy == \E r \in {R(1..3, K)} : \E a \in {R(1..3, K)} : Step("copy", r, a, 0, 0, reg[a])
Bin == \E op \in {R(Ops, K)} : \E r \in {R(1..3, K)} : \E a \in {R(1..3, K)} : \E b \in {R(1..3, K)} :
       AllFine(op, reg[a], reg[b]) /\ Step(op, r, a, b, 0, All(op, reg[a], reg[b]))
InPlace == \E op \in {R(Ops, K)} : \E a \in {R(1..3, K)} : \E b \in {R(1..3, K)} :
           AllFine(op, reg[a], reg[b]) /\ Step(op \o "=", a, a, b, 0, All(op, reg[a], reg[b]))
BinV == \E op \in {R(Ops, K)} : \E r \in {R(1..3, K)} : \E a \in {R(1..3, K)} : \E v \in {Num(K)} :
        AllFine(op, reg[a], Same(v)) /\ Step(op \o "v", r, a, 0, v, All(op, reg[a], Same(v)))
InPlaceV == \E op \in {R(Ops, K)} : \E a \in {R(1..3, K)} : \E v \in {Num(K)} :
            AllFine(op, reg[a], Same(v)) /\ Step(op \o "=v", a, a, 0, v, All(op, reg[a], Same(v)))
(* a component becomes infinite or not a number: told, and then mended *)
Poison == \E r \in {R(1..3, K)} : \E i \in {R(1..N, K)} : \E v \in {R(1..3, K)} : Step("poison", r, i, 0, v, reg[r])
Next == Set \/ Fill \/ Copy \/ Bin \/ InPlace \/ BinV \/ InPlaceV \/ Poison
Small == \A r \in 1..3 : \A i \in 1..N : Abs(reg[r][i]) <= Limit
(* adding and taking away, multiplying and dividing: back where it was *)
Inverse == \A r \in 1..3 : \A s \in 1..3 : \A i \in 1..N :
           LET a == reg[r][i] b == reg[s][i] IN
           /\ Fine("+", a, b) => Do("-", Do("+", a, b), b) = a
           /\ (Fine("*", a, b) /\ b # 0 /\ Fine("/", Do("*", a, b), b)) => Do("/", Do("*", a, b), b) = a
Emit == Len(hist) = Steps => PrintT("@@" \o ToJson(hist))
=============================================================================
