-------------------------------- MODULE GenData --------------------------------
(* Writes the data cases of the families asked for.                            *)
EXTENDS Cases

Out == G_cose \o G_ext \o G_stmt \o G_ad \o G_ao \o G_pkc \o G_cd \o G_origin \o G_keyobj \o G_names \o G_b64 \o G_json

VARIABLE gen_done
Init == gen_done = FALSE
Next == ~gen_done /\ ndJsonSerialize(IOEnv.OUT, Out) /\ gen_done' = TRUE
Spec == Init /\ [][Next]_gen_done
=============================================================================
