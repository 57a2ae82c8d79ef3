------------------------------- MODULE Blocks -------------------------------
(* Hashing a stream block by block, and checking it against digests. A        *)
(* digest is uninterpreted: it is the content it was made of.                 *)
EXTENDS Integers, Sequences

\* the blocks of a content
RECURSIVE BlocksOf(_, _)
BlocksOf(c, bs) == IF c = <<>> THEN <<>>
                   ELSE IF Len(c) <= bs THEN <<c>>
                   ELSE <<SubSeq(c, 1, bs)>> \o BlocksOf(SubSeq(c, bs + 1, Len(c)), bs)
NumBlocks(n, bs) == (n + bs - 1) \div bs
=============================================================================
