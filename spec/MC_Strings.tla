----------------------------- MODULE MC_Strings -----------------------------
(* The loops of StringView.h and Split.h, one test of a character (sequence) *)
(* per step, on all short texts: they read nothing outside of the text and   *)
(* end with what Strings defines.  Positions of the text count from 0; the   *)
(* biggest one of all stands for npos.                                       *)
EXTENDS Strings
CONSTANTS MAX, NMAX, CH
Npos == MAX + 3
VARIABLES alg, s, t, p,    \* what to do: text, sought text or characters, position
          i, j,            \* loop variables
          out,             \* pieces so far
          res              \* result (<< >> before the end)
vars == <<alg, s, t, p, i, j, out, res>>
Texts(n) == UNION {[1 .. k -> CH] : k \in 0 .. n}
Algs == {"find", "rfind", "first", "firstNot", "last", "lastNot", "ltrim", "rtrim", "trim", "split", "splitSome", "compare"}
Init == /\ alg \in Algs /\ s \in Texts(MAX) /\ t \in Texts(NMAX)
        /\ p \in (IF alg \in {"ltrim", "rtrim", "trim", "split", "splitSome", "compare"} THEN {0} ELSE 0 .. Npos)
        /\ i = -1 /\ j = -1 /\ out = << >> /\ res = << >>
n == Len(s)
m == Len(t)
Ch(k) == s[k + 1]       \* (an error of TLC outside)
In(k) == Has(t, Ch(k))
Same(q) == \A k \in 1 .. m : s[q + k] = t[k]
Done(r) == res' = <<r>> /\ UNCHANGED <<i, j, out>>
To(a, b) == i' = a /\ j' = b /\ UNCHANGED <<out, res>>
Piece(a, b) == SubSeq(s, a + 1, b)
FindStep ==
  IF m = 0 THEN Done(IF p <= n THEN p ELSE None)
  ELSE IF m > n THEN Done(None)
  ELSE IF i < 0 THEN To(p, -1)
  ELSE IF i > n - m THEN Done(None)
  ELSE IF Same(i) THEN Done(i) ELSE To(i + 1, -1)
RFindStep ==
  IF m > n THEN Done(None)
  ELSE IF i < 0 THEN To(IF n - m < p THEN n - m ELSE p, -1)
  ELSE IF Same(i) THEN Done(i)
  ELSE IF i <= 0 THEN Done(None) ELSE To(i - 1, -1)
FirstStep(in) ==
  IF i < 0 THEN To(p, -1)
  ELSE IF i >= n THEN Done(None)
  ELSE IF In(i) = in THEN Done(i) ELSE To(i + 1, -1)
LastStep(in) ==
  IF n = 0 THEN Done(None)
  ELSE IF i < 0 THEN To(Min(n - 1, p) + 1, -1)
  ELSE IF i = 0 THEN Done(None)
  ELSE IF In(i - 1) = in THEN Done(i - 1) ELSE To(i - 1, -1)
LTrimStep ==
  IF i < 0 THEN To(0, -1)
  ELSE IF i >= n THEN Done(<< >>)
  ELSE IF ~ In(i) THEN Done(Piece(i, n)) ELSE To(i + 1, -1)
RTrimStep ==
  IF i < 0 THEN To(n, -1)
  ELSE IF i = 0 THEN Done(<< >>)
  ELSE IF ~ In(i - 1) THEN Done(Piece(0, i)) ELSE To(i - 1, -1)
TrimStep ==
  IF i < 0 THEN To(0, -1)
  ELSE IF j >= 0 THEN (IF ~ In(j) THEN Done(Piece(i, j + 1)) ELSE To(i, j - 1))
  ELSE IF i >= n THEN Done(<< >>)
  ELSE IF ~ In(i) THEN To(i, n - 1) ELSE To(i + 1, -1)
\* i: first, j: it
SplitStep ==
  IF i < 0 THEN To(0, -1)
  ELSE IF j < 0 THEN (IF i = n THEN Done(Append(out, << >>)) ELSE To(i, i))
  ELSE IF In(j) THEN out' = Append(out, Piece(i, j)) /\ i' = j + 1 /\ j' = -1 /\ UNCHANGED res
  ELSE IF j + 1 = n THEN Done(Append(out, Piece(i, n))) ELSE To(i, j + 1)
SplitSomeStep ==
  IF i < 0 THEN To(0, -1)
  ELSE IF j < 0 THEN (IF i = n THEN Done(out) ELSE IF In(i) THEN To(i + 1, -1) ELSE To(i, i))
  ELSE IF j + 1 = n THEN Done(Append(out, Piece(i, n)))
  ELSE IF In(j + 1) THEN out' = Append(out, Piece(i, j + 1)) /\ i' = j + 2 /\ j' = -1 /\ UNCHANGED res
  ELSE To(i, j + 1)
CompareStep ==
  IF i < 0 THEN To(0, -1)
  ELSE IF i < Min(n, m) THEN (IF s[i + 1] # t[i + 1] THEN Done(IF s[i + 1] < t[i + 1] THEN -1 ELSE 1) ELSE To(i + 1, -1))
  ELSE Done(IF n = m THEN 0 ELSE IF n < m THEN -1 ELSE 1)
Next == /\ res = << >> /\ UNCHANGED <<alg, s, t, p>>
        /\ CASE alg = "find" -> FindStep [] alg = "rfind" -> RFindStep
             [] alg = "first" -> FirstStep(TRUE) [] alg = "firstNot" -> FirstStep(FALSE)
             [] alg = "last" -> LastStep(TRUE) [] alg = "lastNot" -> LastStep(FALSE)
             [] alg = "ltrim" -> LTrimStep [] alg = "rtrim" -> RTrimStep [] alg = "trim" -> TrimStep
             [] alg = "split" -> SplitStep [] alg = "splitSome" -> SplitSomeStep [] alg = "compare" -> CompareStep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Result ==
  CASE alg = "find" -> Find(s, t, p) [] alg = "rfind" -> RFind(s, t, p)
    [] alg = "first" -> First(s, t, TRUE, p) [] alg = "firstNot" -> First(s, t, FALSE, p)
    [] alg = "last" -> Last(s, t, TRUE, p) [] alg = "lastNot" -> Last(s, t, FALSE, p)
    [] alg = "ltrim" -> LTrim(s, t) [] alg = "rtrim" -> RTrim(s, t) [] alg = "trim" -> Trim(s, t)
    [] alg = "split" -> Split(s, t) [] alg = "splitSome" -> SplitSome(s, t) [] alg = "compare" -> Compare(s, t)
Right_ == res # << >> => res[1] = Result
\* Delimiters put back between the pieces give the text again.
Pieces == alg = "split" /\ res # << >> =>
  Len(res[1]) = 1 + Cardinality(Where(s, t, TRUE)) /\ \A k \in 1 .. Len(res[1]) : \A c \in 1 .. Len(res[1][k]) : ~ Has(t, res[1][k][c])
Ends_ == <>(res # << >>)
=============================================================================
