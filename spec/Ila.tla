-------------------------------- MODULE Ila ---------------------------------
(* Logic analyzer core: c.p samples before the trigger, then the trigger      *)
(* cycle and so on, c.depth samples in all; with c.en only enabled samples.   *)
EXTENDS Kit
Any == -1                         \* samples from before the beginning
Shove(q, v, n) == LET a == Append(q, v) IN IF Len(a) > n THEN SubSeq(a, Len(a) - n + 1, Len(a)) ELSE a
Last(q, n) == IF n >= Len(q) THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))
RECURSIVE Ones(_)
Ones(q) == IF q = <<>> THEN 0 ELSE Head(q) + Ones(Tail(q))
(* prev: the last c.p enabled samples; near: enable in the last c.p cycles;   *)
(* ks: how many samples of prev the capture may begin with.  At least those   *)
(* of the last c.p cycles are due; when fewer of these cycles were enabled,   *)
(* enabled samples from before may be kept instead.                           *)
IlaInit(c) == [prev |-> IF c.en THEN <<>> ELSE Rep(Any, c.p), near |-> IF c.en THEN Rep(0, c.p) ELSE Rep(1, c.p),
               busy |-> FALSE, base |-> <<>>, post |-> <<>>, ks |-> {}, mem |-> <<>>, complete |-> FALSE,
               n |-> 0, age |-> 0, ra |-> -1, lim |-> c.p + 6]
Content(base, post, k, depth) == Take(Last(base, k) \o post, depth)
Match(m, o) == m = Any \/ m = o
IlaStep(c, s, e) ==
    LET en    == ~c.en \/ T(e.en)
        start == ~s.busy /\ T(e.trig)
        done  == s.busy /\ T(e.complete)          \* seen complete: the capture has ended
        busy0 == s.busy /\ ~done
        ks1   == IF done THEN {k \in s.ks : k + Len(s.post) >= c.depth} ELSE s.ks
        go    == ~busy0 /\ T(e.trig)
        (* a read of the cycle before, with no capture at either end          *)
        rd    == s.ra >= 0 /\ ~busy0 /\ T(e.complete)
        ks2   == IF rd THEN {k \in ks1 : Match(Content(s.base, s.post, k, c.depth)[s.ra + 1], e.data)} ELSE ks1
        base  == s.prev
        post1 == IF go THEN IF en THEN <<e.in>> ELSE <<>>
                 ELSE IF en /\ Len(s.post) < c.depth /\ busy0 THEN Append(s.post, e.in) ELSE s.post
        kmin  == IF go THEN Ones(s.near) ELSE IF ks2 = {} THEN 0 ELSE CHOOSE k \in ks2 : \A j \in ks2 : k <= j
        now   == busy0 \/ go
        (* nothing leaves the delay line before c.p samples have gone in      *)
        full  == Len(s.prev) + B(en) >= c.p
        due   == now /\ full /\ kmin + Len(post1) >= c.depth
    IN [s |-> [prev |-> IF en THEN Shove(s.prev, e.in, c.p) ELSE s.prev,
               near |-> Shove(s.near, B(en), c.p),
               busy |-> now,
               base |-> IF go THEN base ELSE s.base,
               post |-> post1,
               ks   |-> IF go THEN Ones(s.near)..Len(s.prev) ELSE ks2,
               mem  |-> <<>>,
               complete |-> IF go THEN FALSE ELSE T(e.complete),
               n    |-> IF go THEN 0 ELSE s.n + B(T(e.sampling)),
               age  |-> IF due /\ ~go THEN Min2(s.age + 1, s.lim + 1) ELSE 0,
               ra   |-> IF ~now /\ T(e.complete) /\ e.addr < c.depth THEN e.addr ELSE -1,
               lim  |-> s.lim],
        v |-> Judge(<<
          <<"complete stays until the next trigger", (~s.busy /\ s.complete) => T(e.complete)>>,
          <<"no completion without a capture", (~s.busy /\ ~s.complete) => ~T(e.complete)>>,
          <<"capturing from the trigger to completion", T(e.capturing) <=> busy0>>,
          <<"samples are only written while capturing", T(e.sampling) => T(e.capturing)>>,
          <<"complete only when all samples are there", done => ks1 # {}>>,
          <<"exactly depth samples are written", done => s.n = c.depth>>,
          <<"complete in time", s.age <= s.lim>>,
          <<"the memory holds the samples around the trigger", rd => ks2 # {}>> >>)]
=============================================================================
