------------------------------ MODULE Join_mc ------------------------------
(* Rows are added to the files of two sides; whatever the sides hold and    *)
(* however the key range is cut, the join by ranges is the inner join.      *)
EXTENDS Join, TLC
CONSTANTS KeySet, MaxRows, MaxFiles
VARIABLES left, right, cuts

Row == {<<k, v>> : k \in KeySet \cup {NULL}, v \in {1}}
Init == left = <<>> /\ right = <<>> /\ cuts = <<>>

Total(fs) == SumSeq([i \in 1..Len(fs) |-> Len(fs[i].rows)])
Grow(fs) ==
  {fs2 \in ({Append(fs, [rows |-> <<r>>]) : r \in Row} \cup
            {[fs EXCEPT ![i].rows = Append(@, r)] : i \in 1..Len(fs), r \in Row}) :
     Total(fs2) <= MaxRows /\ Len(fs2) <= MaxFiles}
Next == \/ \E f \in Grow(left) : left' = f /\ UNCHANGED <<right, cuts>>
        \/ \E f \in Grow(right) : right' = f /\ UNCHANGED <<left, cuts>>
        \/ \E c \in KeySet : /\ IF cuts = <<>> THEN TRUE ELSE c > cuts[Len(cuts)]
                             /\ cuts' = Append(cuts, c) /\ UNCHANGED <<left, right>>
Spec == Init /\ [][Next]_<<left, right, cuts>>

L == AllRows(left)
R == AllRows(right)
Full == InnerJoin(L, R, 1, 1, <<1, 2>>, <<2>>)
ByRanges ==
  IF ~HasRange(left, 1) \/ ~HasRange(right, 1) THEN <<>>
  ELSE LET r == JoinRange(left, right, 1, 1)
           inner == SelectSeq(cuts, LAMBDA c : c >= r.lo /\ c <= r.hi)
       IN  IF r.lo > r.hi THEN <<>> ELSE JoinParts(L, R, 1, 1, <<1, 2>>, <<2>>, Cut(r, inner))
RangesSound == SameBag(Full, ByRanges)
NullsNeverJoin == \A i \in 1..Len(Full) : Full[i][1] # NULL
CountOk == Len(Full) = SumSeq([i \in 1..Len(L) |-> IF L[i][1] = NULL THEN 0
                                                    ELSE Count(ProjectAll(R, <<1>>), <<L[i][1]>>)])
=============================================================================
