------------------------------ MODULE RealMath ------------------------------
(***************************************************************************)
(* Real arithmetic for the specification.                                  *)
(*                                                                         *)
(* TLC's integers have 32 bits and it has no reals, so a real number is    *)
(* held here as its decimal string (as the traces record it), and TLC      *)
(* evaluates these operators with java/RealMath.java on IEEE-754 doubles.  *)
(* The definitions below only give the operators their arities and types;  *)
(* TLC replaces them.  Integers may be given wherever a real is expected.  *)
(***************************************************************************)
EXTENDS Integers, Sequences

RAdd(a, b) == CHOOSE r \in STRING : TRUE
RSub(a, b) == CHOOSE r \in STRING : TRUE
RMul(a, b) == CHOOSE r \in STRING : TRUE
RDiv(a, b) == CHOOSE r \in STRING : TRUE
RNeg(a)    == CHOOSE r \in STRING : TRUE
RAbs(a)    == CHOOSE r \in STRING : TRUE
RExp(a)    == CHOOSE r \in STRING : TRUE
RExpm1(a)  == CHOOSE r \in STRING : TRUE      \* e^a - 1
RLn1p(a)   == CHOOSE r \in STRING : TRUE      \* ln(1 + a)
RLn(a)     == CHOOSE r \in STRING : TRUE
RSqrt(a)   == CHOOSE r \in STRING : TRUE
RPow(a, b) == CHOOSE r \in STRING : TRUE
RMin(a, b) == CHOOSE r \in STRING : TRUE
RMax(a, b) == CHOOSE r \in STRING : TRUE
RFloor(a)  == CHOOSE n \in Int : TRUE
RSum(q)    == CHOOSE r \in STRING : TRUE       \* sum of a sequence
RDot(p, q) == CHOOSE r \in STRING : TRUE       \* sum of products
RLe(a, b)  == CHOOSE t \in BOOLEAN : TRUE
RLt(a, b)  == CHOOSE t \in BOOLEAN : TRUE
REq(a, b)  == CHOOSE t \in BOOLEAN : TRUE
RFinite(a) == CHOOSE t \in BOOLEAN : TRUE
\* |a - b| <= abs + rel * max(|a|, |b|)
RClose(a, b, rel, abs) == CHOOSE t \in BOOLEAN : TRUE
\* As infix operators, for the formulas
a (+) b == RAdd(a, b)
a (-) b == RSub(a, b)
a (.) b == RMul(a, b)
a (/) b == RDiv(a, b)

RNormPdf(a) == CHOOSE r \in STRING : TRUE
RNormCdf(a) == CHOOSE r \in STRING : TRUE
RNormInv(p) == CHOOSE r \in STRING : TRUE      \* the quantile function
RLnGamma(a) == CHOOSE r \in STRING : TRUE
RCos(a)     == CHOOSE r \in STRING : TRUE
RSin(a)     == CHOOSE r \in STRING : TRUE
RTanh(a)    == CHOOSE r \in STRING : TRUE
RAtan2(a, b) == CHOOSE r \in STRING : TRUE

\* Complex numbers are pairs <<re, im>>; a real may be given for one
CAdd(a, b) == CHOOSE z \in STRING \X STRING : TRUE
CSub(a, b) == CHOOSE z \in STRING \X STRING : TRUE
CMul(a, b) == CHOOSE z \in STRING \X STRING : TRUE
CDiv(a, b) == CHOOSE z \in STRING \X STRING : TRUE
CExp(a)    == CHOOSE z \in STRING \X STRING : TRUE
CLn(a)     == CHOOSE z \in STRING \X STRING : TRUE
CSqrt(a)   == CHOOSE z \in STRING \X STRING : TRUE
CRe(a)     == CHOOSE r \in STRING : TRUE
CIm(a)     == CHOOSE r \in STRING : TRUE
CAbs(a)    == CHOOSE r \in STRING : TRUE
CClose(a, b, rel, abs) == CHOOSE t \in BOOLEAN : TRUE
=============================================================================
