-------------------------- MODULE SpaceStore_sim --------------------------
(* SpaceStore restricted for the generation of behaviours that are replayed *)
(* into the implementation: few steps that change nothing.                  *)
EXTENDS SpaceStore

\* How often (1 in n) an enabled step of a kind may be taken.
Rare == [add_tag |-> 14, add_branch |-> 3, remove_tag |-> 2, remove_branch |-> 3, set_branch |-> 1, read |-> 4,
         crash |-> 3, begin |-> 4, commit |-> 1]

NextSim == /\ Next
           /\ act'.op \notin {"begin", "commit", "crash"} => Cur(st') # Cur(st) \/ st'.h # st.h
           /\ RandomElement(1..Rare[act'.op]) = 1

SpecSim == Init /\ [][NextSim]_vars
===========================================================================
