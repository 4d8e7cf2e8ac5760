----------------------------- MODULE ULogFiles -----------------------------
(***************************************************************************)
(* Runs of the tools in a tree of files (C36).  dir maps paths to          *)
(* contents.  A run reads one log and has                                  *)
(*   tool, logdir, base   the tool; where its log is, and how it is called *)
(*   out   the name given for the output (<<>>: none given)                *)
(*   dir   the directory given for the outputs (<<>>: none given)          *)
(*   all, names   the topics that it was asked for                         *)
(*   instance     the receiver that it was asked for                       *)
(* Relative names start at the directory "work".                           *)
(***************************************************************************)
EXTENDS ULogTools

VARIABLES dir

In(d, base) == d \o S("/") \o base
(* the name of a log without its suffix *)
Stem(base) ==
    LET n == Len(base) IN
    IF n >= 4 /\ base[n - 3] = 46 /\ base[n - 2] \in {85, 117} /\ base[n - 1] \in {76, 108} /\ base[n] \in {71, 103}
    THEN SubSeq(base, 1, n - 4) ELSE base
Or(given, default) == IF given = <<>> THEN default ELSE given

(* topics: the datasets of the log, at least with name and multi *)
OutputsOf(r, topics) ==
    CASE r.tool = "csv" ->
           {In(Or(r.dir, r.logdir), CsvName(Stem(r.base), d)) : d \in {x \in topics : r.all = 1 \/ x.name \in RangeOf(r.names)}}
      [] r.tool = "gps" ->
           IF \E d \in topics : d.name = S("gps_dump")
           THEN {In(Or(r.dir, S("work")), Stem(r.base) \o S("_") \o Digits(r.instance) \o x)
                 : x \in {S("_to_device.dat"), S("_from_device.dat")}}
           ELSE {}
      [] r.tool = "kml" -> {Or(r.out, S("work/track.kml"))}
      [] r.tool \in {"params", "write", "store"} -> {r.out} \ {<<>>}
      [] OTHER -> {}

Over(new, old) == [p \in DOMAIN new \cup DOMAIN old |-> IF p \in DOMAIN new THEN new[p] ELSE old[p]]
(* outputs: what the run makes of its log, whatever is there already *)
Done(outputs) == dir' = Over(outputs, dir)
(* a run that refuses its log or arguments *)
RunRefused == UNCHANGED dir
=============================================================================
