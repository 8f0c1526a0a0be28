------------------------------- MODULE MC_Scan -------------------------------
(* The handle interface of one fiber as a machine: a scan set up at a base and  *)
(* stepped, for each format, with the binary search of a coordinate list and    *)
(* the count-left of a bit vector; any number of scans after another.           *)
EXTENDS Codec
CONSTANTS N, Scans
VARIABLES cs, f, base, h, p, lo, hi, mid, got, mode, left
vars == <<cs, f, base, h, p, lo, hi, mid, got, mode, left>>
Init == /\ cs \in {SetToSortSeq(S, <) : S \in SUBSET (0..(N - 1))}
        /\ f \in {"U", "C", "B"}
        /\ f = "U" => cs = [i \in 1..N |-> i - 1]
        /\ base = 0 /\ h = 0 /\ p = 0 /\ lo = 0 /\ hi = 0 /\ mid = 0 /\ got = <<>> /\ mode = "idle" /\ left = Scans
In(c) == \E i \in DOMAIN cs : cs[i] = c
CountLeft(c) == Cardinality({x \in 0..(c - 1) : In(x)})
Setup == /\ mode = "idle" /\ left > 0
         /\ left' = left - 1
         /\ base' \in 0..(N - 1)
         /\ got' = <<>>
         /\ CASE f = "U" -> h' = base' /\ p' = base' /\ mode' = "scan" /\ UNCHANGED <<lo, hi, mid>>
              [] f = "B" -> h' = base' /\ p' = CountLeft(base') /\ mode' = "scan" /\ UNCHANGED <<lo, hi, mid>>
              [] f = "C" -> IF cs = <<>> \/ base' > Last(cs) THEN h' = Len(cs) /\ mode' = "scan" /\ UNCHANGED <<p, lo, hi, mid>>
                            ELSE IF base' <= cs[1] THEN h' = 0 /\ mode' = "scan" /\ UNCHANGED <<p, lo, hi, mid>>
                            ELSE lo' = 0 /\ hi' = Len(cs) - 1 /\ mid' = 0 /\ mode' = "search" /\ UNCHANGED <<h, p>>
         /\ UNCHANGED <<cs, f>>
Search == /\ mode = "search"
          /\ IF lo > hi THEN h' = (IF base > cs[mid + 1] THEN mid + 1 ELSE mid) /\ mode' = "scan" /\ UNCHANGED <<lo, hi, mid>>
             ELSE LET m == (lo + hi + 1) \div 2 IN
                  /\ mid' = m
                  /\ IF cs[m + 1] = base THEN h' = m /\ mode' = "scan" /\ UNCHANGED <<lo, hi>>
                     ELSE IF cs[m + 1] < base THEN lo' = m + 1 /\ UNCHANGED <<h, hi, mode>>
                     ELSE hi' = m - 1 /\ UNCHANGED <<h, lo, mode>>
          /\ UNCHANGED <<cs, f, base, p, got, left>>
Next1 == /\ mode = "scan"
         /\ CASE f \in {"U", "C"} -> IF h >= Len(cs) THEN mode' = "idle" /\ UNCHANGED <<h, p, got>>
                                     ELSE h' = h + 1 /\ got' = Append(got, h) /\ UNCHANGED <<p, mode>>
              [] f = "B" -> IF h >= N \/ p >= Len(cs) THEN mode' = "idle" /\ UNCHANGED <<h, p, got>>
                            ELSE IF ~In(h) THEN h' = h + 1 /\ UNCHANGED <<p, got, mode>>
                            ELSE h' = h + 1 /\ p' = p + 1 /\ got' = Append(got, p) /\ UNCHANGED mode
         /\ UNCHANGED <<cs, f, base, lo, hi, mid, left>>
Spec == Init /\ [][Setup \/ Search \/ Next1]_vars /\ WF_vars(Setup \/ Search \/ Next1)
(* a search ends at the first stored coordinate not below the base *)
Found == (mode = "scan" /\ got = <<>> /\ f # "B") => Lookup(cs, base) = (IF h = Len(cs) THEN -1 ELSE h)
(* what a finished scan delivered: the indexes of all elements from the base on *)
Delivered == (mode = "idle" /\ left < Scans) => got = SelectSeq([i \in DOMAIN cs |-> i - 1], LAMBDA i : cs[i + 1] >= base)
Done == <>(mode = "idle" /\ left = 0)
=============================================================================
