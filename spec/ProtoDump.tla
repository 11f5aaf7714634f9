------------------------------ MODULE ProtoDump ------------------------------
(* Hands the layout of both protocol generations to the input generator.    *)
EXTENDS Proto, Json, TLC, Sequences
ASSUME PrintT("@SCHEMA " \o ToJson([new |-> Schema87702, old |-> Schema75689]))
=============================================================================
