---------------------------------- MODULE Env ----------------------------------
(* Configuration environments and the documents they are exported to and loaded *)
(* from.                                                                        *)
(*   env   id -> [k kind, p properties]; a property is addressed by its type    *)
(*         and its full key (key below root)                                    *)
(*   doc   id -> [ok well formed, bad types with values of another type,        *)
(*         sec sections (types) it has, p properties]                           *)
(* kinds: "config" (ConfigurationEnvironment), "mem" (MemEnv), "file"           *)
(* (PropertyFileEnvironment, read only), "dyn" (DynamicConfigurationProperties, *)
(* one value of whatever type per key)                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fresh(c) == [env |-> <<>>, doc |-> <<>>]
Types == 1..4
Full(k, root) == IF root = "" THEN k ELSE root \o "/" \o k
Put(f, k, v) == (k :> v) @@ f
\* properties below a root, and those of other which are not in own
Below(p, root) == [x \in {<<y[1], Full(y[2], root)>> : y \in DOMAIN p} |->
                     p[CHOOSE y \in DOMAIN p : y[1] = x[1] /\ Full(y[2], root) = x[2]]]
Conflict(own, other) == DOMAIN own \cap DOMAIN other # {}
New(s, e, k, p) == [s EXCEPT !.env = Put(@, e, [k |-> k, p |-> p])]
\* a document of the properties listed as <<type, value>> with keys ks
Listed(vs, ks) == [x \in {<<vs[i][1], ks[i]>> : i \in DOMAIN vs} |->
                     vs[CHOOSE i \in DOMAIN vs : vs[i][1] = x[1] /\ ks[i] = x[2]][2]]
Good(d) == d.ok /\ d.bad = {}
Replaced(p, d) == [x \in {y \in DOMAIN p : y[1] \notin d.sec} \cup DOMAIN d.p |-> IF x[1] \in d.sec THEN d.p[x] ELSE p[x]]
================================================================================
