---- MODULE MCStatsPlans ----
EXTENDS MCStats
P == << 9, 1, 9, 2 >>
====
