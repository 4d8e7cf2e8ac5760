---- MODULE MC_Sessions ----
EXTENDS StoreSessions, IOUtils
MCSessions == 1..atoi(IOEnv.SESSIONS)
MCMaxOps == atoi(IOEnv.MAXOPS)
====
