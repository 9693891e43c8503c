-------------------------------- MODULE Fft ---------------------------------
(* The transform block: loading a window, taking c.n samples, delivering the  *)
(* c.n bins of the discrete Fourier transform (divided by c.n) in order.      *)
(* c.w: sample width;  c.ct, c.st: cosine and sine of 2*pi*k/n scaled by      *)
(* 2^c.ts;  c.w0: default window (real), scaled by 2^(w-1);  c.tol: tolerance *)
EXTENDS Dsp
Cut(x) == x          \* values as they come
Abs(x) == IF x < 0 THEN 0 - x ELSE x
(* Window product, rounded down as any fixed point product.                   *)
Cook(c, w, x) == LET f == c.w - 1
                 IN [r |-> MulShift(x.r, w.r, f) - MulShift(x.i, w.i, f),
                     i |-> MulShift(x.i, w.r, f) + MulShift(x.r, w.i, f)]
(* Bin k of the transform of sequence q, times 2^ts.                          *)
Cs(c, j, k) == c.ct[((j * k) % c.n) + 1]
Sn(c, j, k) == c.st[((j * k) % c.n) + 1]
BinR(c, q, k) == Sum([j \in 1..c.n |-> q[j].r * Cs(c, j - 1, k) + q[j].i * Sn(c, j - 1, k)])
BinI(c, q, k) == Sum([j \in 1..c.n |-> q[j].i * Cs(c, j - 1, k) - q[j].r * Sn(c, j - 1, k)])
Down(c, v) == (v \div c.n) \div Pow2(c.ts)
FftInit(c) == [ph |-> "idle", win |-> [j \in 1..c.n |-> [r |-> c.w0[j], i |-> 0]], q |-> <<>>, k |-> 0]
FftStep(c, s, e) ==
    CASE e.k = "start" ->
           [s |-> [s EXCEPT !.ph = "take", !.q = <<>>, !.k = 0],
            v |-> Judge(<< <<"started when idle", s.ph = "idle">> >>)]
      [] e.k = "wstart" ->
           [s |-> [s EXCEPT !.ph = "load", !.k = 0],
            v |-> Judge(<< <<"started when idle", s.ph = "idle">> >>)]
      [] e.k = "w" ->
           LET j == s.k + 1
           IN [s |-> [s EXCEPT !.win[j] = [r |-> e.r, i |-> e.i], !.k = j,
                               !.ph = IF j = c.n THEN "fin" ELSE "load"],
               v |-> Judge(<< <<"busy while the window is loaded", e.done = 0>> >>)]
      [] e.k = "in" ->
           LET q2 == Append(s.q, Cook(c, s.win[Len(s.q) + 1], [r |-> e.r, i |-> e.i]))
           IN [s |-> [s EXCEPT !.q = q2, !.ph = IF Len(q2) = c.n THEN "give" ELSE "take"],
               v |-> Judge(<< <<"busy while samples are taken", e.done = 0>> >>)]
      [] e.k = "out" ->
           [s |-> [s EXCEPT !.k = s.k + 1, !.ph = IF s.k + 1 = c.n THEN "fin" ELSE s.ph],
            v |-> IF s.ph # "give" THEN "outputs only after all samples, n of them"
                  ELSE Judge(<<
                    <<"busy until all bins are out", e.done = 0>>,
                    <<"real part of the bin", Abs(e.r - Down(c, BinR(c, s.q, s.k))) <= c.tol>>,
                    <<"imaginary part of the bin", Abs(e.i - Down(c, BinI(c, s.q, s.k))) <= c.tol>> >>)]
      [] e.k = "done" ->
           [s |-> [s EXCEPT !.ph = "idle"],
            v |-> Judge(<< <<"done after everything has been delivered", s.ph = "fin">> >>)]
      [] e.k = "idle" ->
           [s |-> s, v |-> Judge(<< <<"done while idle", s.ph = "idle" /\ e.done = 1>>,
                                    <<"no output while idle", e.so = 0>> >>)]
=============================================================================
