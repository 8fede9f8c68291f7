------------------------------- MODULE Machine -------------------------------
(* The ideal machine of the sharing engines: registers hold secrets, every   *)
(* operation acts on the secrets as its mathematical definition says.        *)
(* Group elements are held as their discrete logarithms modulo the group     *)
(* order p, which is also the order of the scalar field.                     *)
(* Result(p, op, A, B, C): the effect of op on operand values A, B (values   *)
(* of shared registers) and public constants C.                              *)
EXTENDS Field
Ok(out, open) == [ok |-> TRUE, out |-> out, open |-> open]
Fails == [ok |-> FALSE, out |-> <<>>, open |-> <<>>]
Result(p, op, A, B, C) ==
  CASE op \in {"input", "ginput", "promote", "gpromote"} -> Ok([j \in 1..Len(C) |-> C[j] % p], <<>>)
    [] op = "zero" -> Ok(<<0>>, <<>>)
    [] op \in {"add", "gadd"} -> Ok(<<(A[1] + B[1]) % p>>, <<>>)
    [] op \in {"sub", "gsub"} -> Ok(<<(A[1] - B[1]) % p>>, <<>>)
    [] op = "addv" -> Ok([j \in 1..Len(A) |-> (A[j] + B[j]) % p], <<>>)
    [] op = "subv" -> Ok([j \in 1..Len(A) |-> (A[j] - B[j]) % p], <<>>)
    [] op \in {"addp", "gaddp"} -> Ok(<<(A[1] + C[1]) % p>>, <<>>)
    [] op = "gsubp" -> Ok(<<(A[1] - C[1]) % p>>, <<>>)
    [] op \in {"mulp", "gmulpp", "gmulps"} -> Ok(<<(A[1] * (C[1] % p)) % p>>, <<>>)
    [] op = "neg" -> Ok(<<(-A[1]) % p>>, <<>>)
    [] op = "evalpoly" -> Ok(<<PolyEval(p, A, C[1] % p)>>, <<>>)
    [] op \in {"mul", "gmul"} -> Ok(<<(A[1] * B[1]) % p>>, <<>>)
    [] op \in {"mulv", "mull"} -> Ok([j \in 1..Len(A) |-> (A[j] * B[j]) % p], <<>>)
    [] op \in {"inv", "invv"} -> IF \E j \in 1..Len(A) : A[j] = 0 THEN Fails ELSE Ok([j \in 1..Len(A) |-> FInv(p, A[j])], <<>>)
    [] op = "div" -> IF B[1] = 0 THEN Fails ELSE Ok(<<FDiv(p, A[1], B[1])>>, <<>>)
    [] op = "divsp" -> IF C[1] % p = 0 THEN Fails ELSE Ok(<<FDiv(p, A[1], C[1] % p)>>, <<>>)
    [] op = "divps" -> IF A[1] = 0 THEN Fails ELSE Ok(<<FDiv(p, C[1] % p, A[1])>>, <<>>)
    [] op = "gmsm" -> Ok(<<FDot(p, A, [j \in 1..Len(C) |-> C[j] % p])>>, <<>>)
    [] op \in {"open", "openv", "gopen", "gopenv"} -> Ok(<<>>, A)
    [] op = "mulopenv" -> Ok(<<>>, [j \in 1..Len(A) |-> (A[j] * B[j]) % p])
    [] op = "gopenhalf" -> Ok(<<>>, <<(A[1] * B[1]) % p>>)
    [] op \in {"gopenf", "gopenfv"} -> Ok(<<>>, A \o B)
    [] op \in {"buffer", "fork", "use"} -> Ok(<<>>, <<>>)
    [] OTHER -> Fails
(* operations whose result is a fresh random value *)
Random == {"rand", "pair"}
(* operations that need no communication *)
Local == {"input", "ginput", "promote", "gpromote", "zero", "add", "gadd", "sub", "gsub", "addv", "subv", "addp", "gaddp",
          "gsubp", "mulp", "gmulpp", "gmulps", "neg", "evalpoly", "divsp", "gmsm"}
(* operations that mask with a random value and may fail if that is zero *)
Masked == {"inv", "invv", "div", "divps"}
=============================================================================
