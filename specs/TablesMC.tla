---- MODULE TablesMC ----
EXTENDS Tables
CONSTANTS CAPQ, CAPG, CAPS, CAPV
CapsOne == {[q |-> CAPQ, g |-> CAPG, s |-> CAPS, v |-> CAPV]}
====
