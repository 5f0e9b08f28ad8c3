--------------------------------- MODULE Fnv --------------------------------
(* The hash of the recent bytes.                                             *)
EXTENDS Word64, SequencesExt

\* FNV-1a, 64 bits: offset basis 14695981039346656037, prime 1099511628211
Basis == W64(52210, 40164, 33826, 8997)
Prime == W64(0, 256, 0, 435)
Fnv(data) == FoldLeft(LAMBDA h, x : WTimes([h EXCEPT ![1] = @ ^^ x], Prime), Basis, data)
\* published values: the empty string and "a"
ASSUME Fnv(<< >>) = << 37, 35, 34, 132, 228, 156, 242, 203 >>
ASSUME Fnv(<< 97 >>) = << 140, 236, 1, 134, 76, 220, 99, 175 >>
\* folded
Fold32(h) == << h[1] ^^ h[5], h[2] ^^ h[6], h[3] ^^ h[7], h[4] ^^ h[8] >>
Fold16(h) == LET f == Fold32(h) IN (f[1] ^^ f[3]) + 256 * (f[2] ^^ f[4])
=============================================================================
