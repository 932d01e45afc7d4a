----------------------------- MODULE MCCacheA -----------------------------
(* Instances of MCCache: named constants for the configuration files        *)
EXTENDS MCCache
V_ab    == {<<55>>, <<97>>}
V_abc   == {<<55>>, <<57>>, <<97>>}
V_ab_   == {<<97, 98>>, <<>>}
V_num   == {<<48>>, <<57, 57>>, ToText(MaxU64), ToText(Norm(Sub(MaxU64, <<1>>))),
            ToText(Add(MaxU64, <<1>>)), <<57>> \o ToText(MaxU64), <<48, 48, 55>>, <<45, 49>>, <<>>}
P_1     == {<<49>>, <<>>}
P_none  == {<<>>}
T_0     == {0}
T_01    == {0, 1}
T_012   == {0, 1, 2}
D_3     == {<<3>>}
D_num   == {<<0>>, <<1>>, <<9, 9>>, MaxU64, Sub(MaxU64, <<9, 8>>)}
All     == {"set", "add", "replace", "append", "prepend", "cas", "get", "del", "touch", "incr", "decr", "flush", "evict"}
O_store == {"set", "add", "replace", "append", "del", "get"}
O_cond  == {"set", "add", "replace", "append", "prepend", "del", "touch", "get"}
O_cas   == {"set", "cas", "get", "append", "incr", "del", "touch"}
O_arith == {"set", "incr", "decr", "get", "touch"}
O_ttl   == {"set", "add", "replace", "append", "incr", "touch", "get", "del", "flush"}
===========================================================================
