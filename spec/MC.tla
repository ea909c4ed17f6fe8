--------------------------------- MODULE MC ---------------------------------
(* Bounded instances of Camera.tla for TLC. *)
EXTENDS Camera
AllModels == {640, 641}
\* no data, data of subpage 0 / 1, and with reserved, overwrite and start bits
SomeStatuses == {0, 8, 9, 17}
AllStatuses == {0, 1, 8, 9, 17, 40, 65534}
\* chess and interleave at 18 bits; 19 bits, 16 bits with reserved bits; no subpages; step; hold; repeat
TwoControls == {6401, 2305}
SomeControls == {6401, 2305, 6405, 36609}
AllControls == {6401, 2305, 7425, 40960, 6400, 6403, 6405, 6425}
ExtS == {0, 9}
ExtC == {2305, 7425}
StepControls == {6403, 2307}
GenStatuses == {8, 17}
NoWords == {}
Getters == {<<op, 0>> : op \in GetterOps}
Setters == {<<op, v>> : op \in {"set_overwrite", "set_use_sp", "set_hold", "set_repeat", "set_sel_sp", "set_pat"}, v \in 0..1}
           \cup {<<"set_rate", 2>>, <<"set_rate", 7>>} \cup {<<"set_res", v>> : v \in 0..3}
Images == {<<"raw_sp", 0>>, <<"raw_sp", 1>>, <<"img_sp", 0>>, <<"img_sp", 1>>, <<"img", 0>>, <<"img_ready", 0>>}
Sessions == {<<"em", 2>>, <<"em_default", 0>>, <<"refl", 0>>, <<"refl", 1>>}
News == {<<"new", 0>>, <<"newc", 0>>}
AllOps == News \cup Getters \cup Setters \cup Images \cup Sessions \cup {<<"reset_avail", 0>>, <<"sync", 0>>}
\* representatives, for longer histories
FewOps == {<<"newc", 0>>, <<"pat", 0>>, <<"set_pat", 0>>, <<"set_res", 3>>, <<"set_overwrite", 1>>, <<"raw_sp", 0>>,
           <<"img", 0>>, <<"img_ready", 0>>, <<"em", 2>>, <<"refl", 1>>, <<"sync", 0>>}
RegOps == {<<"newc", 0>>} \cup Getters \cup Setters \cup {<<"reset_avail", 0>>}
CfgOps == {<<"newc", 0>>, <<"pat", 0>>, <<"rate", 0>>, <<"set_pat", 0>>, <<"set_pat", 1>>, <<"set_res", 0>>, <<"set_res", 3>>,
           <<"set_hold", 1>>, <<"raw_sp", 0>>, <<"img", 0>>}
\* for the refinement of Access.tla
AccOps == {<<"new", 0>>, <<"newc", 0>>, <<"pat", 0>>, <<"rate", 0>>, <<"set_pat", 0>>, <<"set_pat", 1>>, <<"set_res", 3>>,
           <<"set_rate", 7>>, <<"set_use_sp", 0>>, <<"set_overwrite", 1>>, <<"reset_avail", 0>>}
ImageOnly == {<<"newc", 0>>} \cup Images
ReadyOps == {<<"newc", 0>>, <<"img_ready", 0>>, <<"img", 0>>, <<"reset_avail", 0>>}
SyncOps == {<<"newc", 0>>, <<"sync", 0>>, <<"avail", 0>>}
SessOps == {<<"newc", 0>>, <<"set_pat", 0>>, <<"raw_sp", 0>>, <<"img_ready", 0>>} \cup Sessions
MixOps == CfgOps \cup Images \cup Sessions \cup {<<"sync", 0>>, <<"avail", 0>>, <<"reset_avail", 0>>, <<"set_overwrite", 1>>}
\* pairs and triples of calls
PairOps == {<<"newc", 0>>, <<"pat", 0>>, <<"set_pat", 0>>, <<"set_pat", 1>>, <<"set_res", 0>>, <<"set_res", 3>>, <<"raw_sp", 0>>,
            <<"img_ready", 0>>, <<"em", 2>>, <<"em_default", 0>>, <<"refl", 1>>, <<"sync", 0>>, <<"reset_avail", 0>>}
StepStatuses == {0, 1, 8, 9, 17}
StepOps == {<<"newc", 0>>, <<"sync", 0>>, <<"img", 0>>, <<"img_ready", 0>>}
=============================================================================
