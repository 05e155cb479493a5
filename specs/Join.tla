------------------------------- MODULE Join -------------------------------
(* The join of two tables on a key, and its evaluation by ranges of the key.*)
(* A side is a sequence of files; a file is [rows, known]: known tells      *)
(* whether there are statistics of its keys.                                *)
EXTENDS Rows

\* The inner join on columns kl and kr: <<l, r>> for all pairs of rows with
\* the same non-null key, projected to columns cl and cr.
RECURSIVE JoinRow(_, _, _, _, _, _)
JoinRow(l, rs, kl, kr, cl, cr) ==
  IF rs = <<>> THEN <<>>
  ELSE (IF l[kl] # NULL /\ l[kl] = Head(rs)[kr]
        THEN <<Project(l, cl) \o Project(Head(rs), cr)>> ELSE <<>>)
       \o JoinRow(l, Tail(rs), kl, kr, cl, cr)

RECURSIVE InnerJoin(_, _, _, _, _, _)
InnerJoin(ls, rs, kl, kr, cl, cr) ==
  IF ls = <<>> THEN <<>>
  ELSE JoinRow(Head(ls), rs, kl, kr, cl, cr) \o InnerJoin(Tail(ls), rs, kl, kr, cl, cr)

---------------------------------------------------------------------------
(* Evaluation by ranges.                                                    *)
KeysOf(f, k) == {f.rows[i][k] : i \in 1..Len(f.rows)} \ {NULL}
SetMin(s) == CHOOSE x \in s : \A y \in s : x <= y
SetMax(s) == CHOOSE x \in s : \A y \in s : x >= y

\* The range of the keys of a side.  Files without statistics have to be read.
SideKeys(fs, k) == UNION {KeysOf(fs[i], k) : i \in 1..Len(fs)}
HasRange(fs, k) == SideKeys(fs, k) # {}
Lo(fs, k) == SetMin(SideKeys(fs, k))
Hi(fs, k) == SetMax(SideKeys(fs, k))

AllRows(fs) == Flatten([i \in 1..Len(fs) |-> fs[i].rows])

\* A range is [lo, hi, incl].
InRange(x, r) == x # NULL /\ x >= r.lo /\ (x < r.hi \/ (r.incl /\ x = r.hi))
Part(rows, k, r) == SelectSeq(rows, LAMBDA x : InRange(x[k], r))

JoinRange(ls, rs, kl, kr) ==
  [lo |-> IF Lo(ls, kl) >= Lo(rs, kr) THEN Lo(ls, kl) ELSE Lo(rs, kr),
   hi |-> IF Hi(ls, kl) <= Hi(rs, kr) THEN Hi(ls, kl) ELSE Hi(rs, kr), incl |-> TRUE]

\* ranges: how the range to join is partitioned
RECURSIVE JoinParts(_, _, _, _, _, _, _)
JoinParts(L, R, kl, kr, cl, cr, ranges) ==
  IF ranges = <<>> THEN <<>>
  ELSE InnerJoin(Part(L, kl, Head(ranges)), Part(R, kr, Head(ranges)), kl, kr, cl, cr)
       \o JoinParts(L, R, kl, kr, cl, cr, Tail(ranges))

\* cuts: increasing points within the range
Cut(r, cuts) ==
  [i \in 1..Len(cuts) + 1 |-> [lo |-> IF i = 1 THEN r.lo ELSE cuts[i - 1],
                               hi |-> IF i = Len(cuts) + 1 THEN r.hi ELSE cuts[i],
                               incl |-> i = Len(cuts) + 1]]
=============================================================================
