----------------------------- MODULE MCSaltelli -----------------------------
EXTENDS Saltelli
CONSTANTS MaxD, MaxN
MCInit == /\ \E d \in 1..MaxD : grp \in {Effective(p) : p \in Partitions(d)}
          /\ so \in BOOLEAN /\ n \in 1..MaxN
          /\ blk = 1 /\ pos = 0 /\ last = NoRow
MCSpec == MCInit /\ [][SNext]_svars /\ WF_svars(SNext)
Terminates == <>(blk = n + 1 /\ Emitted = TotalRows)
=============================================================================
