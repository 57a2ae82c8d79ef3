-------------------------------- MODULE MCNum --------------------------------
(* The arithmetic on digits against TLC's own integers.                       *)
EXTENDS Num
VARIABLE x
CeilDiv(a, b) == (a + b - 1) \div b
ASSUME \A a, b \in 0..40 : NumCmp(NumOf(ToString(a)), NumOf(ToString(b))) = IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
ASSUME \A a \in {0, 1, 9, 10, 99, 100, 12345}, k \in {0, 1, 2, 9, 10, 11, 99, 131073} :
           a * k < 2000000000 => MulSmall(NumOf(ToString(a)), k) = NumOf(ToString(a * k))
ASSUME \A s \in 0..60, b \in 1..20, k \in 0..61 :
           NumBlocksIs(NumOf(ToString(s)), NumOf(ToString(b)), k) <=> k = CeilDiv(s, b)
ASSUME NumOf("00120") = <<1, 2, 0>> /\ NumOf("0") = <<0>> /\ NumOf("000") = <<0>>
ASSUME FitsU64(NumOf("18446744073709551615")) /\ ~FitsU64(NumOf("18446744073709551616"))
ASSUME DecStr(NumOf("007")) = "7"
ASSUME \A b \in 0..255 : Unescape(Escape(<<b>>)) = <<b>> /\ AsciiClean(Escape(<<b>>)) /\ CanonicalToken(Escape(<<b>>))
ASSUME \A a, b \in {0, 32, 33, 47, 48, 65, 92, 97, 120, 126, 127, 255} :
           Unescape(Escape(<<92, a, b>>)) = <<92, a, b>> /\ Unescape(Escape(<<92, 120, a, b>>)) = <<92, 120, a, b>>
Init == x = 0
Spec == Init /\ [][UNCHANGED x]_x
=============================================================================
