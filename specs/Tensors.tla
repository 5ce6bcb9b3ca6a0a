------------------------------ MODULE Tensors ------------------------------
(* Operations on tensors.  A tensor is a shape and, in row-major order, the   *)
(* cells of memory its elements are kept in; views share cells.  Operations  *)
(* that make values take new cells; some write into cells that exist.        *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Shapes,      \* shapes of tensors that are made
          Ops,         \* names of the operations used
          MaxLive, MaxElems, MaxSteps
VARIABLES mem,         \* cell -> value
          ts,          \* live tensors: [id, shape, at, plain]; plain: elements follow each other in memory
          n, steps, act
vars == <<mem, ts, n, steps>>
Masked == -1
Fill == 77
-----------------------------------------------------------------------------
RECURSIVE Prod(_), Sum(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
After(s, d) == SubSeq(s, d + 1, Len(s))
Before(s, d) == SubSeq(s, 1, d - 1)
With(s, d, x) == [s EXCEPT ![d] = x]
\* multi-index (from 0) of the k-th element (from 0), and back
Unflat(s, k) == [d \in 1..Len(s) |-> (k \div Prod(After(s, d))) % s[d]]
Flat(s, ix) == Sum([d \in 1..Len(s) |-> ix[d] * Prod(After(s, d))])
Cell(t, ix) == t.at[Flat(t.shape, ix) + 1]
Val(t, ix) == mem[Cell(t, ix)]
Table(s, F(_)) == [k \in 1..Prod(s) |-> F(Unflat(s, k - 1))]
Vals(m, t) == [k \in 1..Len(t.at) |-> m[t.at[k]]]
Rank(t) == Len(t.shape)
Cells(t) == {t.at[k] : k \in 1..Len(t.at)}
Apart(a, b) == Cells(a) \cap Cells(b) = {}
Distinct(t) == \A i, j \in 1..Len(t.at) : mem[t.at[i]] = mem[t.at[j]] => i = j
Min(a, b) == IF a < b THEN a ELSE b
-----------------------------------------------------------------------------
Shown(m, t) == <<t.id, t.shape, Vals(m, t)>>
\* outs: new tensors without their ids; they take ids n+1..; flat: results that are not kept
Done(op, args, m, outs, flat) ==
  LET new == [k \in 1..Len(outs) |-> [id |-> n + k, shape |-> outs[k].shape, at |-> outs[k].at, plain |-> outs[k].plain]]
      all == ts \o new
      kept == IF Len(all) > MaxLive THEN SubSeq(all, Len(all) - MaxLive + 1, Len(all)) ELSE all
  IN /\ mem' = m /\ ts' = kept /\ n' = n + Len(outs) /\ steps' = steps + 1
     /\ act' = [op |-> op, args |-> args, res |-> [outs |-> flat, live |-> [k \in 1..Len(kept) |-> Shown(m, kept[k])]]]
\* one new tensor with values of its own
Make(op, args, shape, v) ==
  /\ Prod(shape) <= MaxElems
  /\ Done(op, args, mem \o v, <<[shape |-> shape, at |-> [k \in 1..Len(v) |-> Len(mem) + k], plain |-> TRUE]>>, <<>>)

Init == mem = <<>> /\ ts = <<>> /\ n = 0 /\ steps = 0 /\ act = [op |-> "init", args |-> <<>>, res |-> [x |-> 0]]
New(s) == Make("new", <<s, [k \in 1..Prod(s) |-> ((k + 3 * n) * 37) % 113]>>, s, [k \in 1..Prod(s) |-> ((k + 3 * n) * 37) % 113])
-----------------------------------------------------------------------------
(* Views.  A slice of one dimension is <<first, end, step>>; 99: left open,  *)
(* negative: from the end.                                                   *)
First(p, z) == IF p[1] = 99 THEN 0 ELSE IF p[1] < 0 THEN p[1] + z ELSE p[1]
Last(p, z) == IF p[2] = 99 THEN z ELSE IF p[1] < 0 /\ p[2] - p[1] = 1 THEN p[2] + z ELSE IF p[2] < 0 THEN p[2] + z ELSE p[2]
Fits(p, z) == First(p, z) >= 0 /\ First(p, z) < Last(p, z) /\ Last(p, z) <= z
Slice(t, ps) ==
  LET shape == [d \in 1..Rank(t) |-> (Last(ps[d], t.shape[d]) - First(ps[d], t.shape[d]) + ps[d][3] - 1) \div ps[d][3]]
      at == Table(shape, LAMBDA ix : Cell(t, [d \in 1..Rank(t) |-> First(ps[d], t.shape[d]) + ix[d] * ps[d][3]]))
      plain == t.plain /\ ps[1][3] = 1 /\ \A d \in 2..Rank(t) : shape[d] = t.shape[d] /\ ps[d][3] = 1
  IN /\ \A d \in 1..Rank(t) : Fits(ps[d], t.shape[d])
     /\ Done("slice", <<t.id, ps>>, mem, <<[shape |-> shape, at |-> at, plain |-> plain]>>, <<>>)
Part(t, d, from, size) ==
  LET shape == With(t.shape, d, size)
  IN [shape |-> shape, at |-> Table(shape, LAMBDA ix : Cell(t, With(ix, d, ix[d] + from))), plain |-> t.plain /\ (d = 1 \/ size = t.shape[d])]
\* sizes: one size for all parts, or the size of each; neg: the dimension is counted from the end
Split(t, d, sizes, neg) ==
  LET each == IF Len(sizes) = 1 THEN [k \in 1..t.shape[d] \div sizes[1] |-> sizes[1]] ELSE sizes
  IN /\ (Len(sizes) = 1 => t.shape[d] % sizes[1] = 0) /\ Sum(each) = t.shape[d]
     /\ Done("split", <<t.id, IF neg THEN d - 1 - Rank(t) ELSE d - 1, sizes>>, mem, [k \in 1..Len(each) |-> Part(t, d, Sum(SubSeq(each, 1, k - 1)), each[k])], <<>>)
\* hole: 0, or the dimension left to be worked out
Reshape(t, shape, hole) ==
  /\ t.plain /\ Prod(shape) = Len(t.at)
  /\ Done("view", <<t.id, IF hole = 0 THEN shape ELSE With(shape, hole, -1)>>, mem, <<[shape |-> shape, at |-> t.at, plain |-> TRUE]>>, <<>>)
-----------------------------------------------------------------------------
(* Values *)
Copied(op, t) == (op = "contiguous" \/ t.plain) /\ Make(op, <<t.id>>, t.shape, Vals(mem, t))
Concat(xs, d, neg) ==
  LET size == Sum([k \in 1..Len(xs) |-> xs[k].shape[d]])
      upto(k) == Sum([j \in 1..k |-> xs[j].shape[d]])
      who(i) == CHOOSE k \in 1..Len(xs) : i < upto(k) /\ i >= upto(k - 1)
      shape == With(xs[1].shape, d, size)
  IN /\ \A k \in 1..Len(xs) : Rank(xs[k]) = Rank(xs[1]) /\ \A e \in 1..Rank(xs[1]) : e = d \/ xs[k].shape[e] = xs[1].shape[e]
     /\ Make("concat", <<[k \in 1..Len(xs) |-> xs[k].id], IF neg THEN d - 1 - Rank(xs[1]) ELSE d - 1>>, shape,
             Table(shape, LAMBDA ix : Val(xs[who(ix[d])], With(ix, d, ix[d] - upto(who(ix[d]) - 1)))))
Stack(xs, d, neg) ==
  LET shape == Before(xs[1].shape, d) \o <<Len(xs)>> \o After(xs[1].shape, d - 1)
  IN /\ \A k \in 1..Len(xs) : xs[k].shape = xs[1].shape
     /\ Make("stack", <<[k \in 1..Len(xs) |-> xs[k].id], IF neg THEN d - 2 - Rank(xs[1]) ELSE d - 1>>, shape,
             Table(shape, LAMBDA ix : Val(xs[ix[d] + 1], Before(ix, d) \o After(ix, d))))
\* is: shape of the indices; iv: the indices
Gather(t, is, iv, d, neg) ==
  LET shape == Before(t.shape, d) \o is \o After(t.shape, d)
      row(ix) == LET v == iv[Flat(is, SubSeq(ix, d, d + Len(is) - 1)) + 1] IN IF v < 0 THEN v + t.shape[d] ELSE v
  IN t.plain /\ Make("gather", <<t.id, is, iv, IF neg THEN d - 1 - Rank(t) ELSE d - 1>>, shape,
                     Table(shape, LAMBDA ix : Val(t, Before(ix, d) \o <<row(ix)>> \o SubSeq(ix, d + Len(is), Len(ix)))))
Repeat(t, d, m) ==
  LET shape == With(t.shape, d, t.shape[d] * m)
  IN t.plain /\ Make("repeat", <<t.id, d - 1, m>>, shape, Table(shape, LAMBDA ix : Val(t, With(ix, d, ix[d] \div m))))
\* the k-th dimension of the result is the p[k]-th
Permute(op, args, t, p) ==
  LET shape == [d \in 1..Rank(t) |-> t.shape[p[d]]]
      back(d) == CHOOSE e \in 1..Rank(t) : p[e] = d
  IN t.plain /\ Make(op, args, shape, Table(shape, LAMBDA ix : Val(t, [d \in 1..Rank(t) |-> ix[back(d)]])))
Permuted(t, p) == Permute("permute", <<t.id, [d \in 1..Rank(t) |-> p[d] - 1]>>, t, p)
Swapped(t, d, e, neg) ==
  Permute("transpose", <<t.id, IF neg THEN d - 1 - Rank(t) ELSE d - 1, e - 1>>, t, [k \in 1..Rank(t) |-> IF k = d THEN e ELSE IF k = e THEN d ELSE k])
\* of each dimension a part, <<0, first, end, step>>, or those listed: <<1, ...>>, or <<2, ...>> as a tensor
Index(t, sel) ==
  LET cut(d) == <<sel[d][2], sel[d][3], sel[d][4]>>
      pos(d, i) == IF sel[d][1] = 0 THEN First(cut(d), t.shape[d]) + i * sel[d][4] ELSE sel[d][i + 2]
      shape == [d \in 1..Rank(t) |-> IF sel[d][1] = 0 THEN (Last(cut(d), t.shape[d]) - First(cut(d), t.shape[d]) + sel[d][4] - 1) \div sel[d][4] ELSE Len(sel[d]) - 1]
  IN t.plain /\ (\E d \in 1..Rank(t) : sel[d][1] # 0)
     /\ Make("index", <<t.id, sel>>, shape, Table(shape, LAMBDA ix : Val(t, [d \in 1..Rank(t) |-> pos(d, ix[d])])))
\* kind 0: zeros, 1: ones, 2: a value, 3: a value and then further by step
Filled(kind, size, x, step) ==
  Make("fill", <<kind, size, x, step>>, <<size>>, [k \in 1..size |-> CASE kind = 0 -> 0 [] kind = 1 -> 1 [] kind = 2 -> x [] OTHER -> x + (k - 1) * step])
\* padding: <<before, after>> for the last dimensions, the last one first
Reflected(x, z) == IF z = 1 THEN 0 ELSE LET p == 2 * (z - 1) r == (IF x < 0 THEN -x ELSE x) % p IN IF r >= z THEN p - r ELSE r
From(mode, x, z) == CASE mode = 1 -> Reflected(x, z) [] mode = 2 -> IF x < 0 THEN 0 ELSE IF x >= z THEN z - 1 ELSE x [] OTHER -> ((x % z) + z) % z
Pad(t, pads, mode) ==
  LET r == Rank(t)
      has(d) == r + 1 - d <= Len(pads)
      lo(d) == IF has(d) THEN pads[r + 1 - d][1] ELSE 0
      hi(d) == IF has(d) THEN pads[r + 1 - d][2] ELSE 0
      shape == [d \in 1..r |-> t.shape[d] + lo(d) + hi(d)]
      out(ix) == \E d \in 1..r : ix[d] < lo(d) \/ ix[d] >= lo(d) + t.shape[d]
  IN t.plain /\ Make("pad", <<t.id, pads, mode>>, shape,
                     Table(shape, LAMBDA ix : IF mode = 0 /\ out(ix) THEN Fill
                                              ELSE Val(t, [d \in 1..r |-> IF mode = 0 THEN ix[d] - lo(d) ELSE From(mode, ix[d] - lo(d), t.shape[d])])))
\* places of a (batch, head, row, column) tensor a row may not see; win = 0: all that came before are seen
Causal(t, win) ==
  LET S == t.shape[3] D == t.shape[4]
      seen(ix) == LET now == D - S + ix[3] IN ix[4] <= now /\ (win = 0 \/ ix[4] > now - win)
  IN /\ Rank(t) = 4 /\ S <= D /\ t.plain /\ (S = 1 /\ win > 0 => win >= D)
     /\ Make("causal", <<t.id, win>>, t.shape, Table(t.shape, LAMBDA ix : IF seen(ix) THEN Val(t, ix) ELSE Masked))
-----------------------------------------------------------------------------
(* Results that are not kept: order of the elements along a dimension *)
Lane(t, ix, d) == [i \in 1..t.shape[d] |-> Val(t, With(ix, d, i - 1))]
Nth(s, k, down) == CHOOSE i \in 1..Len(s) : \E less \in {IF down THEN {j \in 1..Len(s) : s[j] > s[i]} ELSE {j \in 1..Len(s) : s[j] < s[i]}} :
                     LET RECURSIVE card(_)
                         card(X) == IF X = {} THEN 0 ELSE 1 + card(X \ {CHOOSE x \in X : TRUE})
                     IN card(less) = k - 1
Sort(t, d, down, neg) ==
  /\ t.plain /\ Distinct(t)
  /\ Done("argsort", <<t.id, IF neg THEN d - 1 - Rank(t) ELSE d - 1, down>>, mem, <<>>,
          <<<<t.shape, Table(t.shape, LAMBDA ix : Nth(Lane(t, ix, d), ix[d] + 1, down) - 1)>>>>)
RECURSIVE Card(_), Smallest(_, _)
Card(X) == IF X = {} THEN 0 ELSE 1 + Card(X \ {CHOOSE x \in X : TRUE})
Smallest(X, k) == LET m == CHOOSE x \in X : \A y \in X : x <= y IN IF k = 1 THEN m ELSE Smallest(X \ {m}, k - 1)
Top(t, d, k, down, sorted, neg) ==
  LET shape == With(t.shape, d, k)
      pos(ix) == LET l == Lane(t, ix, d) IN
                 IF sorted THEN Nth(l, ix[d] + 1, down) ELSE Smallest({Nth(l, j, down) : j \in 1..k}, ix[d] + 1)
  IN /\ t.plain /\ Distinct(t) /\ k <= t.shape[d]
     /\ Done("topk", <<t.id, IF neg THEN d - 1 - Rank(t) ELSE d - 1, k, down, sorted>>, mem, <<>>,
             <<<<shape, Table(shape, LAMBDA ix : Lane(t, ix, d)[pos(ix)])>>, <<shape, Table(shape, LAMBDA ix : pos(ix) - 1)>>>>)
Shards(t, d) ==
  LET rest == Before(t.shape, d) \o After(t.shape, d)
  IN t.plain /\ Rank(t) > 1 /\ Done("shards", <<t.id, d - 1>>, mem, <<>>,
                     [i \in 1..t.shape[d] |-> <<rest, Table(rest, LAMBDA ix : Val(t, Before(ix, d) \o <<i - 1>> \o After(ix, d - 1)))>>])
-----------------------------------------------------------------------------
(* Resizing the last dimensions, all but the first two.  Where the o-th      *)
(* element of z comes from among i, as a fraction; corners: the ends stay    *)
(* where they are.                                                           *)
Source(corners, o, i, z) == IF corners THEN IF z = 1 THEN <<0, 1>> ELSE <<o * (i - 1), z - 1>> ELSE <<(2 * o + 1) * i - z, 2 * z>>
Inside(x, i) == IF x < 0 THEN 0 ELSE IF x >= i THEN i - 1 ELSE x
Nearest(p, i) == Inside((2 * p[1] + p[2]) \div (2 * p[2]), i)
\* halfway between two, or on the edge of what floating point tells apart
Tied(p) == p[2] \notin {1, 2, 4, 8, 16} /\ (2 * p[1] + p[2]) % (2 * p[2]) = 0
\* elements an element is mixed from: distance from the one before it, and weight
Mixed(mode, p) ==
  LET r == p[1] % p[2] q == p[2] IN
  IF mode = "linear" THEN <<<<0, q - r>>, <<1, r>>>>
  ELSE <<<<-1, 2 * r * r * q - r * r * r - r * q * q>>, <<0, 3 * r * r * r - 5 * r * r * q + 2 * q * q * q>>,
         <<1, 4 * r * r * q - 3 * r * r * r + r * q * q>>, <<2, r * r * r - r * r * q>>>>
Whole1(mode, corners, i, z) == LET q == Source(corners, 0, i, z)[2] IN IF mode = "linear" THEN q ELSE 2 * q * q * q
RECURSIVE Mix(_, _, _, _, _)
Mix(t, mode, corners, ix, sizes) ==   \* sizes: those dimensions that are still to do, the last one first
  IF sizes = <<>> THEN Val(t, ix)
  ELSE LET d == Rank(t) + 1 - Len(sizes)
           p == Source(corners, ix[d], t.shape[d], Head(sizes))
           m == Mixed(mode, p)
       IN Sum([k \in 1..Len(m) |-> IF m[k][2] = 0 THEN 0 ELSE m[k][2] * Mix(t, mode, corners, With(ix, d, Inside(p[1] \div p[2] + m[k][1], t.shape[d])), Tail(sizes))])
Resized(t, sizes, mode, corners) ==
  LET shape == SubSeq(t.shape, 1, 2) \o sizes
      src(ix, d) == Source(corners, ix[d], t.shape[d], shape[d])
      scale == Prod([k \in 1..Len(sizes) |-> Whole1(mode, corners, t.shape[k + 2], sizes[k])])
  IN /\ t.plain /\ Rank(t) = Len(sizes) + 2
     /\ \A d \in 3..Rank(t) : (~corners /\ shape[d] = 1 => t.shape[d] = 1)
     /\ IF mode = "nearest"
        THEN /\ \A d \in 3..Rank(t), o \in 0..Prod(shape) : o < shape[d] => ~Tied(Source(corners, o, t.shape[d], shape[d]))
             /\ Make("resize", <<t.id, sizes, mode, corners, 1>>, shape, Table(shape, LAMBDA ix : Val(t, [d \in 1..Rank(t) |-> IF d < 3 THEN ix[d] ELSE Nearest(src(ix, d), t.shape[d])])))
        ELSE /\ \A k \in 1..Len(t.at) : mem[t.at[k]] # Masked
             /\ scale < 20000   \* what floating point holds exactly
             /\ mode = "cubic" => Len(sizes) = 2 /\ \A d \in 3..4 : Source(corners, 0, t.shape[d], shape[d])[2] \in {1, 2, 4, 8}
             /\ Done("resize", <<t.id, sizes, mode, corners, scale>>, mem, <<>>, <<<<shape, Table(shape, LAMBDA ix : Mix(t, mode, corners, ix, sizes))>>>>)
-----------------------------------------------------------------------------
(* Writing into tensors that exist *)
Put(t, v) == LET cells == TLCEval(Cells(t)) new == TLCEval([c \in cells |-> v[CHOOSE k \in 1..Len(t.at) : t.at[k] = c]]) IN TLCEval([c \in 1..Len(mem) |-> IF c \in cells THEN new[c] ELSE mem[c]])
Copy(a, b) ==
  /\ a.id # b.id /\ Len(a.at) = Len(b.at) /\ Apart(a, b)
  /\ Done("copy", <<a.id, b.id>>, Put(b, Vals(mem, a)), <<>>, <<>>)
\* where the mask is set, elements of a are put into b; a's and the mask's sizes of 1 stretch
Over(s, ix) == [d \in 1..Len(s) |-> ix[Len(ix) - Len(s) + d] % s[d]]
Stretches(s, to) == Len(s) <= Len(to) /\ \A d \in 1..Len(s) : s[d] \in {1, to[Len(to) - Len(s) + d]}
Scatter(b, ms, mv, a) ==
  /\ a.plain /\ b.plain /\ a.id # b.id /\ Apart(a, b) /\ Stretches(ms, b.shape) /\ Stretches(a.shape, b.shape)
  /\ LET new(k) == LET ix == Unflat(b.shape, k - 1) IN IF mv[Flat(ms, Over(ms, ix)) + 1] = 1 THEN Val(a, Over(a.shape, ix)) ELSE mem[b.at[k]]
     IN Done("scatter", <<b.id, ms, mv, a.id>>, Put(b, [k \in 1..Len(b.at) |-> new(k)]), <<>>, <<>>)
\* rotary embedding: element d and element half + d of a row are the plane that is turned, by an angle of the
\* row's batch and place; what lies beyond the planes stays.  heads: dimension of the heads, 2 or 3.
Rotated(t, heads, half, sn, cs, inplace) ==
  LET d4 == t.shape[4] place == 5 - heads
      turned(ix) ==
        LET d == ix[4] % half
            a == Flat(<<t.shape[1], t.shape[place], half>>, <<ix[1], ix[place], d>>) + 1
            x == Val(t, With(ix, 4, d)) y == Val(t, With(ix, 4, d + half))
        IN IF ix[4] >= 2 * half THEN Val(t, ix) ELSE IF ix[4] < half THEN x * cs[a] - y * sn[a] ELSE x * sn[a] + y * cs[a]
      v == TLCEval(Table(t.shape, turned))
      args == <<t.id, heads, IF half = d4 \div 2 THEN -1 ELSE 2 * half, sn, cs, inplace>>
  IN /\ \A k \in 1..Len(t.at) : mem[t.at[k]] # Masked
     /\ {k \in 1..Len(t.at) - 1 : k % d4 # 0 /\ t.at[k + 1] # t.at[k] + 1} = {}   \* rows have no gaps
     /\ IF inplace THEN Done("rotate", args, Put(t, v), <<>>, <<>>)
        ELSE Done("rotate", args, mem, <<>>, <<<<t.shape, v>>>>)
-----------------------------------------------------------------------------
(* Every operation on small tensors: one is made, part of it is taken, and  *)
(* the part is worked on.                                                    *)
Cuts(z) == {<<a, e, s>> : a \in 0..z - 1, e \in 1..z, s \in 1..2} \cup {<<99, 99, 1>>, <<-1, 0, 1>>, <<-1, 99, 1>>, <<99, -1, 1>>}
Works(t) ==
  \/ \E op \in {"contiguous", "clone"} \cap Ops : Copied(op, t)
  \/ "split" \in Ops /\ \E d \in 1..Rank(t) : Split(t, d, <<1>>, d = 1)
  \/ "concat" \in Ops /\ \E d \in 1..Rank(t) : Concat(<<t, t>>, d, d = 1)
  \/ "stack" \in Ops /\ \E d \in 1..Rank(t) + 1 : Stack(<<t, t>>, d, d = 1)
  \/ "gather" \in Ops /\ \E d \in 1..Rank(t), x \in -1..0 : Gather(t, <<2>>, <<x, t.shape[d] - 1>>, d, FALSE)
  \/ "repeat" \in Ops /\ \E d \in 1..Rank(t) : Repeat(t, d, 2)
  \/ "pad" \in Ops /\ \E a \in 0..2, mode \in 0..3 : Pad(t, <<<<a, 1>>, <<2, a>>>>, mode)
  \/ "causal" \in Ops /\ \E win \in 0..3 : Causal(t, win)
  \/ "argsort" \in Ops /\ \E d \in 1..Rank(t), down \in BOOLEAN : Sort(t, d, down, d = Rank(t))
  \/ "topk" \in Ops /\ \E d \in 1..Rank(t), k \in 1..2, down, sorted \in BOOLEAN : Top(t, d, k, down, sorted, d = Rank(t))
  \/ "transpose" \in Ops /\ \E d, e \in 1..Rank(t), neg \in BOOLEAN : Swapped(t, d, e, neg)
  \/ "permute" \in Ops /\ \E p \in {q \in [1..Rank(t) -> 1..Rank(t)] : \A d, e \in 1..Rank(t) : q[d] = q[e] => d = e} : Permuted(t, p)
  \/ "index" \in Ops /\ \E d \in 1..Rank(t), k \in 1..2 : Index(t, [e \in 1..Rank(t) |-> IF e = d THEN <<k, t.shape[d] - 1, 0>> ELSE <<0, 99, 99, 1>>])
  \/ "resize" \in Ops /\ \E a \in 1..4, b \in 1..5, mode \in {"nearest", "linear", "cubic"}, corners \in BOOLEAN : Resized(t, <<a, b>>, mode, corners)
  \/ "rotate" \in Ops /\ \E heads \in 2..3, half \in 1..3, inplace \in BOOLEAN, x \in 1..3 :
       Rank(t) = 4 /\ 2 * half <= t.shape[4] /\ Rotated(t, heads, half, [k \in 1..t.shape[1] * t.shape[5 - heads] * half |-> IF inplace THEN (k + x) % 2 ELSE ((x * k) % 5) - 2],
                                                       [k \in 1..t.shape[1] * t.shape[5 - heads] * half |-> IF inplace THEN (k + x + 1) % 2 ELSE (3 * k + x) % 4], inplace)
  \/ "shards" \in Ops /\ \E d \in 1..Rank(t) : Shards(t, d)
Next ==
  \/ steps = 0 /\ \E s \in Shapes : New(s)
  \/ "slice" \in Ops /\ steps = 1 /\ \E ps \in [1..Rank(ts[1]) -> UNION {Cuts(z) : z \in 1..4}] : (\A d \in 1..Rank(ts[1]) : ps[d] \in Cuts(ts[1].shape[d])) /\ Slice(ts[1], ps)
  \/ steps \in 1..2 /\ steps < MaxSteps /\ Works(ts[Len(ts)])
Spec == Init /\ [][Next]_<<vars, act>>
-----------------------------------------------------------------------------
R(S) == RandomElement(S)
\* a slice of a dimension of size z, written in one of the possible ways
Written(z, a, e, s, w) ==
  CASE w = 1 -> <<99, 99, s>> [] w = 2 -> <<a, e, s>> [] w = 3 -> <<a - z, IF e = z THEN (IF a = z - 1 THEN 0 ELSE 99) ELSE e - z, s>>
    [] OTHER -> <<IF a = 0 THEN 99 ELSE a, IF e = z THEN 99 ELSE e - z, s>>
RandCut(z) == R(UNION {{Written(z, a, e, s, w) : e \in a + 1..z, s \in 1..3, w \in 1..4} : a \in 0..z - 1})
Sized(sz) == {ts[k] : k \in {j \in 1..Len(ts) : Len(ts[j].at) <= sz}}
Same(t) == {ts[k] : k \in {j \in 1..Len(ts) : Rank(ts[j]) = Rank(t)}}
RandList(t) == R(UNION {[1..m -> Same(t)] : m \in 0..2})
Live == {ts[k] : k \in 1..Len(ts)}
\* tensors another one can be scattered into, if there are any
Receivers == LET can == {x \in Live : x.plain /\ \E y \in Live : y.id # x.id /\ y.plain /\ Apart(x, y) /\ Stretches(y.shape, x.shape)} IN IF can = {} THEN Live ELSE can
Else == \E s \in {R(Shapes)} : New(s)
SimNext ==
  IF ts = <<>> THEN Else
  ELSE \E op \in {R(Ops)}, t \in {R(Live)}, u \in {R(Receivers)}, b \in {R(BOOLEAN)}, c \in {R(BOOLEAN)} :
       \E d \in {R(1..Rank(t))} :
       CASE op = "new" -> Else
         [] op = "slice" -> (\E ps \in {TLCEval([e \in 1..Rank(t) |-> RandCut(t.shape[e])])} : Slice(t, ps))
         [] op = "split" -> (\E x \in {R(1..t.shape[d])} : IF b \/ x = t.shape[d] THEN Split(t, d, <<IF t.shape[d] % x = 0 THEN x ELSE 1>>, c) ELSE Split(t, d, <<x, t.shape[d] - x>>, c))
         [] op = "view" -> IF t.plain THEN (\E e \in {R(1..3)} : IF e = 1 \/ Rank(t) = 1 THEN Reshape(t, <<Len(t.at)>>, IF b THEN 1 ELSE 0)
                                    ELSE IF e = 2 /\ Rank(t) < 5 THEN Reshape(t, Before(t.shape, d) \o <<1>> \o After(t.shape, d - 1), IF b THEN d ELSE 0)
                                    ELSE Reshape(t, <<t.shape[1] * t.shape[2]>> \o After(t.shape, 2), IF b THEN 1 ELSE 0)) ELSE Copied("contiguous", t)
         [] op = "contiguous" -> Copied(op, t)
         [] op = "clone" -> IF t.plain THEN Copied(op, t) ELSE Else
         [] op = "concat" -> (\E xs \in {RandList(t)} : LET ys == <<t>> \o SelectSeq(xs, LAMBDA x : \A e \in 1..Rank(t) : e = d \/ x.shape[e] = t.shape[e])
                                                            sz == Sum([k \in 1..Len(ys) |-> Len(ys[k].at)]) IN IF sz <= MaxElems THEN Concat(ys, d, c) ELSE Else)
         [] op = "stack" -> (\E xs \in {RandList(t)}, e \in {R(1..Rank(t) + 1)} : LET ys == <<t>> \o SelectSeq(xs, LAMBDA x : x.shape = t.shape) IN
                               IF Rank(t) < 5 /\ Len(ys) * Len(t.at) <= MaxElems THEN Stack(ys, e, c) ELSE Else)
         [] op = "gather" -> (\E is \in {R({<<1>>, <<2>>, <<3>>, <<2, 2>>, <<1, 3>>})} :
                               IF t.plain /\ Rank(t) + Len(is) <= 6 /\ (Len(t.at) \div t.shape[d]) * Prod(is) <= MaxElems
                               THEN (\E iv \in {TLCEval([k \in 1..Prod(is) |-> R(-t.shape[d]..t.shape[d] - 1)])} : Gather(t, is, iv, d, c)) ELSE Else)
         [] op = "repeat" -> (\E m \in {R(1..3)} : IF t.plain /\ Len(t.at) * m <= MaxElems THEN Repeat(t, d, m) ELSE Else)
         [] op = "pad" -> (\E p \in {TLCEval([k \in 1..u2 |-> <<R(0..2), R(0..2)>>]) : u2 \in {R(1..Rank(t))}}, mode \in {R(0..3)} :
                            IF t.plain /\ Prod([e \in 1..Rank(t) |-> t.shape[e] + (IF Rank(t) + 1 - e <= Len(p) THEN p[Rank(t) + 1 - e][1] + p[Rank(t) + 1 - e][2] ELSE 0)]) <= MaxElems
                            THEN Pad(t, p, mode) ELSE Else)
         [] op = "causal" -> (\E win \in {R(0..6)} : IF Rank(t) = 4 /\ t.plain /\ t.shape[3] <= t.shape[4] /\ (t.shape[3] = 1 /\ win > 0 => win >= t.shape[4]) THEN Causal(t, win) ELSE Else)
         [] op = "transpose" -> (\E e \in {R(1..Rank(t))} : IF t.plain THEN Swapped(t, d, e, c) ELSE Else)
         [] op = "permute" -> (\E p \in {R({q \in [1..Rank(t) -> 1..Rank(t)] : \A x, y \in 1..Rank(t) : q[x] = q[y] => x = y})} : IF t.plain THEN Permuted(t, p) ELSE Else)
         [] op = "index" -> (\E sel \in {TLCEval([e \in 1..Rank(t) |-> IF e = d \/ R(BOOLEAN) THEN <<R(1..2)>> \o TLCEval(R([1..R(1..3) -> 0..t.shape[e] - 1]))
                                                                      ELSE R({<<0, 99, 99, 1>>, <<0, t.shape[e] - 1, 99, 1>>, <<0, 99, 1, 1>>, <<0, 0, t.shape[e], 2>>})])} :
                              IF t.plain /\ 3 ^ Rank(t) <= MaxElems THEN Index(t, sel) ELSE Else)
         [] op = "fill" -> (\E kind \in {R(0..3)}, size \in {R({1, 5, 7, 8, 16, 17, 31, MaxElems})}, x \in {R(0..40)}, st \in {R({1, 1, 2})} : IF x + size * st <= 120 THEN Filled(kind, size, x, st) ELSE Else)
         [] op = "resize" -> (\E sizes \in {TLCEval([k \in 1..Rank(t) - 2 |-> R(1..4)])}, mode \in {R({"nearest", "linear", "cubic"})} :
                               IF Rank(t) \in 3..5 /\ t.plain /\ t.shape[1] * t.shape[2] * Prod(sizes) <= MaxElems /\ (\A x \in 3..Rank(t) : t.shape[x] <= 8 /\ (~c /\ sizes[x - 2] = 1 => t.shape[x] = 1))
                                  /\ (mode # "nearest" => \A k \in 1..Len(t.at) : mem[t.at[k]] # Masked)
                                  /\ (mode = "cubic" => Rank(t) = 4 /\ \A x \in 1..2 : Source(c, 0, t.shape[x + 2], sizes[x])[2] \in {1, 2, 4, 8})
                                  /\ (mode # "nearest" => Prod([k \in 1..Len(sizes) |-> Whole1(mode, c, t.shape[k + 2], sizes[k])]) < 20000)
                                  /\ (mode = "nearest" => \A x \in 3..Rank(t) : \A o \in 0..sizes[x - 2] - 1 : ~Tied(Source(c, o, t.shape[x], sizes[x - 2])))
                               THEN Resized(t, sizes, mode, c) ELSE Else)
         [] op = "rotate" -> IF Rank(t) # 4 \/ t.shape[4] = 1 THEN Else ELSE
                               (\E heads \in {R(2..3)}, half \in {R({t.shape[4] \div 2} \cup R({1..t.shape[4] \div 2, {}}))} :
                                LET z == t.shape[1] * t.shape[5 - heads] * half IN
                                \E turn \in {TLCEval([k \in 1..z |-> R(0..3)])}, sn \in {TLCEval([k \in 1..z |-> R(-3..3)])}, cs \in {TLCEval([k \in 1..z |-> R(-3..3)])} :
                                IF ~(\A k \in 1..Len(t.at) : mem[t.at[k]] # Masked /\ (k % t.shape[4] = 0 \/ t.at[k + 1] = t.at[k] + 1)) THEN Else
                                ELSE IF c THEN Rotated(t, heads, half, [k \in 1..z |-> <<0, 1, 0, -1>>[turn[k] + 1]], [k \in 1..z |-> <<1, 0, -1, 0>>[turn[k] + 1]], TRUE)
                                ELSE Rotated(t, heads, half, sn, cs, FALSE))
         [] op = "argsort" -> IF t.plain /\ Distinct(t) THEN Sort(t, d, b, c) ELSE Else
         [] op = "topk" -> (\E k \in {R(1..t.shape[d])}, s \in {R(BOOLEAN)} : IF t.plain /\ Distinct(t) THEN Top(t, d, k, b, s, c) ELSE Else)
         [] op = "shards" -> IF t.plain /\ Rank(t) > 1 THEN Shards(t, d) ELSE Else
         [] op = "copy" -> LET to == {x \in Live : t.id # x.id /\ Len(t.at) = Len(x.at) /\ Apart(t, x)} IN IF to = {} THEN Else ELSE \E x \in {R(to)} : Copy(t, x)
         [] op = "scatter" -> (\E ms \in {R({u.shape, <<1>>, After(u.shape, 1), [e \in 1..Rank(u) |-> IF e = 1 THEN 1 ELSE u.shape[e]], [e \in 1..Rank(u) |-> IF e = Rank(u) THEN 1 ELSE u.shape[e]]} \ {<<>>})} :
                               LET from == {x \in Live : x.plain /\ u.plain /\ x.id # u.id /\ Apart(x, u) /\ Stretches(x.shape, u.shape)} IN
                               IF from # {}
                               THEN (\E x \in {R(from)} : \E mv \in {TLCEval([k \in 1..Prod(ms) |-> R(0..1)])} : Scatter(u, ms, mv, x)) ELSE Else)
-----------------------------------------------------------------------------
Whole == \A k \in 1..Len(ts) : Len(ts[k].at) = Prod(ts[k].shape) /\ Cells(ts[k]) \subseteq 1..Len(mem)
\* the elements of a plain tensor follow each other
Plain == \A k \in 1..Len(ts) : ts[k].plain => \A i \in 1..Len(ts[k].at) : ts[k].at[i] = ts[k].at[1] + i - 1
\* no two elements of a tensor share a cell; what makes values never touches those that exist
Unshared == \A k \in 1..Len(ts) : \A i, j \in 1..Len(ts[k].at) : ts[k].at[i] = ts[k].at[j] => i = j
=============================================================================
