------------------------------- MODULE Buddy -------------------------------
(* The memory manager and its buddy pool.  Memory comes in segments of a     *)
(* power of two of units; a request takes a block of the smallest order that *)
(* is large enough, any free block may be split for it, and blocks coming    *)
(* back are merged with their free buddy.  Blocks of listed sizes are kept   *)
(* aside and handed out again for the same size.  Very large requests go to  *)
(* the system.  Which free block is taken is left open.                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Cfg,       \* [unit, first, threshold (0: no pool), listed]
          Sizes, Lists, MaxLive, MaxSegs
VARIABLES cfg, segs,     \* sequence of segment orders
          free, live,    \* free blocks [seg, off, ord]; live: handle -> [seg, off, ord, size]
          kept,          \* blocks kept aside: set of [seg, off, ord, size]
          act
vars == <<cfg, segs, free, live, kept>>

Rounded(n) == ((n + 63) \div 64) * 64
OrderOf(u, n) == CHOOSE o \in 0..40 : u * 2^o >= Rounded(n) /\ (o > 0 => u * 2^(o-1) < Rounded(n))
Order(n) == OrderOf(cfg.unit, n)
Direct(n) == Rounded(n) >= cfg.threshold
Whole(ss) == {[seg |-> i, off |-> 0, ord |-> ss[i]] : i \in 1..Len(ss)}
In(b, seg, off, o) == b.seg = seg /\ b.ord >= o /\ off >= b.off /\ off < b.off + 2^b.ord
(* what remains of block b when the block of order o at off is taken out *)
RECURSIVE Rest(_, _, _)
Rest(b, off, o) ==
  IF b.ord = o THEN {}
  ELSE LET lo == [b EXCEPT !.ord = @ - 1]
           hi == [lo EXCEPT !.off = @ + 2^lo.ord]
       IN IF off < hi.off THEN {hi} \cup Rest(lo, off, o) ELSE {lo} \cup Rest(hi, off, o)
BuddyOf(b) == [b EXCEPT !.off = IF (b.off \div 2^b.ord) % 2 = 0 THEN @ + 2^b.ord ELSE @ - 2^b.ord]
RECURSIVE Merge(_, _)
Merge(f, b) ==
  LET y == BuddyOf(b) IN
  IF y \in f THEN Merge(f \ {y}, [b EXCEPT !.ord = @ + 1, !.off = IF y.off < b.off THEN y.off ELSE b.off])
  ELSE f \cup {b}
RECURSIVE MergeAll(_, _)
MergeAll(f, bs) == IF bs = {} THEN f
                   ELSE LET b == CHOOSE x \in bs : TRUE IN MergeAll(Merge(f, [seg |-> b.seg, off |-> b.off, ord |-> b.ord]), bs \ {b})

Start(c) == /\ cfg = c /\ segs = <<c.first>> /\ free = Whole(<<c.first>>) /\ live = <<>> /\ kept = {}

Give(h, n, seg, off, o) == live' = (h :> [seg |-> seg, off |-> off, ord |-> o, size |-> Rounded(n)]) @@ live
AllocDirect(h, n) == /\ Direct(n) /\ Give(h, n, 0, 0, 0) /\ UNCHANGED <<cfg, segs, free, kept>>
Fits(f, o) == \E b \in f : b.ord >= o
AllocKept(h, n, seg, off) ==
  /\ ~Direct(n) /\ Rounded(n) \in cfg.listed
  /\ \E b \in kept : /\ b.seg = seg /\ b.off = off /\ b.size = Rounded(n)
                     /\ kept' = kept \ {b} /\ Give(h, n, seg, off, b.ord)
  /\ UNCHANGED <<cfg, segs, free>>
NoneKept(n) == Rounded(n) \in cfg.listed => \A b \in kept : b.size # Rounded(n)
(* the segments grow only when nothing fits *)
AllocBlock(h, n, seg, off, ss) ==
  /\ ~Direct(n) /\ NoneKept(n)
  /\ LET o == Order(n)
         all == free \cup {b \in Whole(ss) : b.seg > Len(segs)}
     IN /\ SubSeq(ss, 1, Len(segs)) = segs
        /\ ss = segs \/ ~Fits(free, o)
        /\ off % 2^o = 0
        /\ \E b \in all : In(b, seg, off, o) /\ free' = (all \ {b}) \cup Rest(b, off, o)
        /\ segs' = ss
        /\ Give(h, n, seg, off, o)
        /\ UNCHANGED <<cfg, kept>>
Drop(h) == live' = [x \in DOMAIN live \ {h} |-> live[x]]
Free(h) ==
  /\ h \in DOMAIN live /\ Drop(h)
  /\ LET b == live[h] IN
     IF b.seg = 0 THEN UNCHANGED <<free, kept>>
     ELSE IF b.size \in cfg.listed THEN kept' = kept \cup {b} /\ UNCHANGED free
     ELSE free' = Merge(free, [seg |-> b.seg, off |-> b.off, ord |-> b.ord]) /\ UNCHANGED kept
  /\ UNCHANGED <<cfg, segs>>
List(l) ==
  /\ cfg' = [cfg EXCEPT !.listed = l]
  /\ LET gone == {b \in kept : b.size \notin l} IN
     /\ kept' = kept \ gone /\ free' = MergeAll(free, gone)
  /\ UNCHANGED <<segs, live>>

----------------------------------------------------------------------------
(* bounded exploration *)
RECURSIVE Grown(_, _)
Grown(ss, o) == IF Fits(Whole(ss), o) /\ ss[Len(ss)] >= o THEN ss ELSE Grown(Append(ss, ss[Len(ss)] + 1), o)
Growth(o) == IF Fits(free, o) THEN segs ELSE Grown(Append(segs, segs[Len(segs)] + 1), o)
Do(op, h, n) == act' = [op |-> op, args |-> [h |-> h, n |-> n], res |-> [ok |-> TRUE]]
Handle == CHOOSE h \in 1..(MaxLive+1) : h \notin DOMAIN live
Init == /\ Start(Cfg) /\ act = [op |-> "init", args |-> [h |-> 0, n |-> 0], res |-> [ok |-> TRUE]]
Alloc(n) ==
  /\ Cardinality(DOMAIN live) < MaxLive
  /\ LET h == Handle  o == Order(n)  ss == Growth(o) IN
     /\ Do("alloc", h, n)
     /\ \/ AllocDirect(h, n)
        \/ \E b \in kept : AllocKept(h, n, b.seg, b.off)
        \/ /\ Len(ss) <= MaxSegs
           /\ \E seg \in 1..Len(ss) : \E k \in 0..(2^ss[seg] - 1) : AllocBlock(h, n, seg, k, ss)
Next == \/ \E n \in Sizes : Alloc(n)
        \/ \E h \in DOMAIN live : Free(h) /\ Do("free", h, 0)
        \/ \E l \in Lists : l # cfg.listed /\ List(l) /\ act' = [op |-> "list", args |-> [l |-> l], res |-> [ok |-> TRUE]]
(* the same with the lowest block of the smallest order that fits *)
Pick(f, o) == CHOOSE b \in f : /\ b.ord >= o
                               /\ \A c \in f : c.ord >= o => b.ord < c.ord \/ (b.ord = c.ord /\ (b.seg < c.seg \/ (b.seg = c.seg /\ b.off <= c.off)))
AllocFirst(n) ==
  /\ Cardinality(DOMAIN live) < MaxLive
  /\ LET h == Handle  o == Order(n)  ss == Growth(o) IN
     /\ Do("alloc", h, n)
     /\ \/ AllocDirect(h, n)
        \/ \E b \in kept : AllocKept(h, n, b.seg, b.off)
        \/ /\ Len(ss) <= MaxSegs
           /\ LET b == Pick(free \cup {x \in Whole(ss) : x.seg > Len(segs)}, o) IN AllocBlock(h, n, b.seg, b.off, ss)
FirstNext == \/ \E n \in Sizes : AllocFirst(n)
             \/ \E h \in DOMAIN live : Free(h) /\ Do("free", h, 0)
             \/ \E l \in Lists : l # cfg.listed /\ List(l) /\ act' = [op |-> "list", args |-> [l |-> l], res |-> [ok |-> TRUE]]

----------------------------------------------------------------------------
Block(b) == [seg |-> b.seg, off |-> b.off, ord |-> b.ord]
Given == {h \in DOMAIN live : live[h].seg # 0}
Clash(a, b) == a.seg = b.seg /\ a.off < b.off + 2^b.ord /\ b.off < a.off + 2^a.ord
NoOverlap == /\ \A g, h \in Given : g # h => ~Clash(live[g], live[h])
             /\ \A h \in Given, b \in kept \cup free : ~Clash(live[h], b)
             /\ \A b \in kept, c \in free : ~Clash(b, c)
             /\ \A b, c \in free : b # c => ~Clash(b, c)
             /\ \A b, c \in kept : b # c => ~Clash(b, c)
LargeEnough == \A h \in Given : cfg.unit * 2^live[h].ord >= live[h].size
Aligned == \A b \in free \cup kept \cup {live[h] : h \in Given} : b.off % 2^b.ord = 0 /\ b.off + 2^b.ord <= 2^segs[b.seg]
RECURSIVE Total(_)
Total(s) == IF s = {} THEN 0 ELSE LET b == CHOOSE x \in s : TRUE IN 2^b.ord + Total(s \ {b})
NothingLost == Total(free) + Total({Block(b) : b \in kept}) + Total({Block(live[h]) : h \in Given})
               = Total(Whole(segs))
Merged == \A b \in free : BuddyOf(b) \notin free
AllBack == (Given = {} /\ kept = {}) => free = Whole(segs)
=============================================================================
