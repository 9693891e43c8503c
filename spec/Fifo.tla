-------------------------------- MODULE Fifo --------------------------------
(* amlib.utils.fifo.TransactionalizedFIFO, one step per clock cycle.         *)
(*                                                                           *)
(*  q  everything written and not yet finally consumed (oldest first)        *)
(*  r  how many of them have been read but not committed by the reader       *)
(*  w  how many of them are committed by the writer (visible to the reader)  *)
(* Configuration c: depth.  An event carries the cycle's inputs              *)
(*  we wc wd d  / re rc rd   and the outputs em fu sp qd sampled in it.      *)
EXTENDS Kit

FInit(c) == [q |-> <<>>, r |-> 0, w |-> 0]

Empty(s)      == s.r = s.w
Full(c, s)    == Len(s.q) = c.depth
Space(c, s)   == c.depth - Len(s.q)

(* The environment never asks for commit and discard of one port at once.    *)
Legal(i) == ~(T(i.wc) /\ T(i.wd)) /\ ~(T(i.rc) /\ T(i.rd))

DoWrite(c, s, i) == T(i.we) /\ ~Full(c, s)
DoRead(s, i)     == T(i.re) /\ ~Empty(s)

FNext(c, s, i) ==
  LET written == IF T(i.wd) THEN Take(s.q, s.w)                  \* roll back
                 ELSE IF DoWrite(c, s, i) THEN Append(s.q, i.d) ELSE s.q
      w1      == IF T(i.wc) THEN Len(s.q) ELSE s.w               \* publish what was written before
      r1      == IF T(i.rd) THEN 0                               \* rewind
                 ELSE IF DoRead(s, i) THEN s.r + 1 ELSE s.r
      gone    == IF T(i.rc) THEN s.r ELSE 0                      \* finally consumed
  IN  [q |-> Drop(written, gone), r |-> r1 - gone, w |-> w1 - gone]

FStep(c, s, e) ==
  [s |-> IF Legal(e) THEN FNext(c, s, e) ELSE s,
   v |-> Judge(<< <<"environment", Legal(e)>>,
                  <<"empty flag", T(e.em) = Empty(s)>>,
                  <<"full flag", T(e.fu) = Full(c, s)>>,
                  <<"space_available", e.sp = Space(c, s)>>,
                  <<"read data is the oldest unread committed entry",
                    Empty(s) \/ s.r >= Len(s.q) \/ e.qd = s.q[s.r + 1]>> >>)]
=============================================================================
