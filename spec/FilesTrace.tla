----------------------------- MODULE FilesTrace -----------------------------
(***************************************************************************)
(* Validation of recorded runs of the tools in a tree of files (C36).  A   *)
(* case has                                                                *)
(*   files  the contents of the logs,  paths  their <<directory, name>>    *)
(*   start  the files before the first run: <<path, content>> (the same    *)
(*          number means the same content)                                 *)
(*   runs   each with its arguments (ULogFiles), log (number), outcome,    *)
(*          said (what it printed or returned), after (the files), and     *)
(*          ref: outcome, said, before, after of the same run by itself,   *)
(*          in a new process and in a tree with nothing but the logs       *)
(* Which files a run makes comes from the bytes of its log by the reader   *)
(* of the specification.                                                   *)
(***************************************************************************)
EXTENDS ULogFiles, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, fi, logs, ri, bad
vars == <<dir, ci, fi, logs, ri, bad>>
Case == Cases[ci]
R == Case.runs[ri]
Tree(lst) == [p \in {lst[i][1] : i \in DOMAIN lst} |-> lst[CHOOSE i \in DOMAIN lst : lst[i][1] = p][2]]

Init == /\ ci \in 1..Len(Cases) /\ fi = 1 /\ logs = <<>> /\ ri = 0 /\ bad = {}
        /\ dir = Tree(Cases[ci].start)
ReadLog == /\ fi <= Len(Case.files)
           /\ logs' = Append(logs, Run(Case.files[fi], DefaultOptions))
           /\ fi' = fi + 1 /\ ri' = (IF fi' > Len(Case.files) THEN 1 ELSE 0)
           /\ UNCHANGED <<dir, ci, bad>>

RunOf(i) == LET r == Case.runs[i] IN
    [tool |-> r.tool, out |-> r.out, dir |-> r.dir, all |-> r.all, names |-> r.names, instance |-> r.instance,
     logdir |-> Case.paths[r.log][1], base |-> Case.paths[r.log][2]]
(* the files of a run (the names that are given are outputs also if the log cannot be read) *)
Outputs(i) == LET l == logs[Case.runs[i].log] IN OutputsOf(RunOf(i), IF l.out = "ok" THEN Datasets(l.log) ELSE {})
Same(d, e, ps) == \A p \in ps : (p \in DOMAIN d <=> p \in DOMAIN e) /\ (p \in DOMAIN d => d[p] = e[p])

(* the run by itself *)
Alone(i) ==
    LET r == Case.runs[i]  b == Tree(r.ref.before)  a == Tree(r.ref.after)  outs == Outputs(i)
        others == (DOMAIN a \cup DOMAIN b) \ outs
    IN Clause(r.ref.outcome # "timeout", "no end")
       \cup Clause(Same(a, b, others), "alone: it changes or makes other files than its outputs")
       \cup (IF r.ref.outcome = "ok" THEN Clause(outs \subseteq DOMAIN a, "alone: an output is missing")
             ELSE IF r.tool \in {"write", "store"} THEN {}
             ELSE Clause(Same(a, b, outs), "alone: it is refused, but it changes files"))
       \cup Clause(r.tool \in {"csv", "load", "params"} /\ r.strict = 0 /\ r.needs = 0 /\ logs[r.log].out = "ok" => r.ref.outcome = "ok",
                   "alone: refused")
(* the run after the others.  A database is judged by what it gives back (said). *)
Made(i) ==
    LET r == Case.runs[i]  a == Tree(r.ref.after)  now == Tree(r.after) IN
    [p \in Outputs(i) \cap (DOMAIN a \cap DOMAIN now) |->
        IF r.tool = "store" \/ (r.tool = "write" /\ r.ref.outcome # "ok") THEN now[p] ELSE a[p]]
DoRun ==
    /\ ri > 0 /\ ri <= Len(Case.runs) /\ bad = {}
    /\ LET now == Tree(R.after) IN
       /\ IF R.ref.outcome = "ok" \/ R.tool \in {"write", "store"} THEN Done(Made(ri)) ELSE RunRefused
       /\ LET outs == Outputs(ri)
              found == Alone(ri)
                   \cup Clause(R.outcome = R.ref.outcome, "another outcome: " \o R.outcome \o ", alone " \o R.ref.outcome)
                   \cup Clause(R.said = R.ref.said, "it says something else than alone")
                   \cup Clause(Same(now, dir', DOMAIN now \cup DOMAIN dir'),
                               IF Same(now, dir', (DOMAIN now \cup DOMAIN dir') \ outs)
                               THEN "an output is not what the run makes alone"
                               ELSE IF R.ref.outcome = "ok" THEN "it changes, makes or removes other files than its outputs"
                               ELSE "it is refused, but files change")
          IN bad' = IF found = {} THEN {} ELSE {"run " \o ToString(ri) \o " (" \o R.tool \o "): " \o x : x \in found}
    /\ ri' = ri + 1 /\ UNCHANGED <<ci, fi, logs>>
Next == ReadLog \/ DoRun
Spec == Init /\ [][Next]_vars

(* two datasets of a log with one file name are open *)
Clash(l) == \E d, e \in Datasets(l.log) : d # e /\ CsvName(<<>>, d) = CsvName(<<>>, e)
Open_ == \E i \in DOMAIN logs : logs[i].out = "unspec" \/ (logs[i].out = "ok" /\ Clash(logs[i]))
Report == (ri > Len(Case.runs) \/ bad # {}) =>
    PrintT(ToJson([case |-> ci, unspec |-> Open_, failed |-> IF Open_ THEN {} ELSE bad]))
=============================================================================
