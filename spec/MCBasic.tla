------------------------------- MODULE MCBasic ------------------------------
(* The model with the bounds in a JSON file (environment variable MODEL) *)
EXTENDS HSModel, Json, IOUtils
Conf == JsonDeserialize(IOEnv.MODEL)
\* the clients of each server are sets
MCCfg == [f \in DOMAIN Conf |->
            IF f = "clients" THEN [g \in DOMAIN Conf.clients |-> {Conf.clients[g][k] : k \in DOMAIN Conf.clients[g]}]
            ELSE Conf[f]]
=============================================================================
