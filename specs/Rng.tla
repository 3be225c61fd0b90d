-------------------------------- MODULE Rng --------------------------------
(* A seeded pseudo random number generator inside the specification: the    *)
(* sampling behaviours of the other modules are deterministic functions of  *)
(* (seed, num), so that every run of a check is reproducible.                *)
(* Combination of three 16 bit multiplicative generators (L'Ecuyer 1988):   *)
(* every intermediate value fits into the 32 bit integers of TLC.           *)
EXTENDS Integers, Sequences

RngInit(seed, num) ==
  << 1 + ((((seed % 20011) * 7) + (num * 31)) % 32361),
     1 + ((((seed % 10007) * 13) + ((num % 15013) * 101) + (num \div 15013)) % 31725),
     1 + ((((seed \div 10007) % 5003) + ((num % 3001) * 401) + (seed % 97)) % 31655) >>

RngNext(r) == << (157 * r[1]) % 32363, (146 * r[2]) % 31727, (142 * r[3]) % 31657 >>

RECURSIVE RngSkip(_, _)
RngSkip(r, n) == IF n = 0 THEN r ELSE RngSkip(RngNext(r), n - 1)

RngStart(seed, num) == RngSkip(RngInit(seed, num), 3)

(* a value in 0..n-1 drawn from the generator state *)
RngVal(r, n) == ((r[1] - r[2] + r[3]) % 32362) % n
=============================================================================
