----------------------------- MODULE MCSession -----------------------------
(* All sessions of a few calls; also the generator of sessions for replay.   *)
EXTENDS DmapSession, Json, SequencesExt

CONSTANTS Files, Writers, Readers, Lists, Fmts, Groups, MaxOps, Record

VARIABLES s, hist, prev, pre
vars == <<s, hist, prev, pre>>

(* good: two generic records; bad1/bad2: record 1/2 cannot be encoded; nobuild: the dictionaries
   cannot be converted; void: no records; twin and fit2: as many bytes as good
   and fit, other values; fit: fits the first file type; misfit: record 2 breaks it *)
Cat == [id \in Lists |->
    LET fits(F) == [f \in Fmts |-> F[f]] IN
    CASE id \in {"good", "twin"} -> [n |-> 2, build |-> TRUE,  bad |-> 0, misfit |-> [f \in Fmts |-> 1]]
      [] id = "good1"   -> [n |-> 1, build |-> TRUE,  bad |-> 0, misfit |-> [f \in Fmts |-> 1]]
      [] id = "bad1"    -> [n |-> 1, build |-> TRUE,  bad |-> 1, misfit |-> [f \in Fmts |-> 1]]
      [] id = "bad2"    -> [n |-> 2, build |-> TRUE,  bad |-> 2, misfit |-> [f \in Fmts |-> 1]]
      [] id = "nobuild" -> [n |-> 1, build |-> FALSE, bad |-> 0, misfit |-> [f \in Fmts |-> 1]]
      [] id = "void"    -> [n |-> 0, build |-> TRUE,  bad |-> 0, misfit |-> [f \in Fmts |-> 0]]
      [] id \in {"fit", "fit2"} -> [n |-> 2, build |-> TRUE,  bad |-> 0, misfit |-> [f \in Fmts |-> IF f = "A" THEN 0 ELSE 1]]
      [] id = "misfit"  -> [n |-> 2, build |-> TRUE,  bad |-> 0, misfit |-> [f \in Fmts |-> IF f = "A" THEN 2 ELSE 1]]
      [] id = "fitbad"  -> [n |-> 2, build |-> TRUE,  bad |-> 2, misfit |-> [f \in Fmts |-> IF f = "A" THEN 0 ELSE 1]]]

O(op, w, r, kind, id, f, fmt) == [op |-> op, w |-> w, r |-> r, kind |-> kind, id |-> id, f |-> f, fmt |-> fmt]
Real == Files \ {"nodir"}
Ops == { O("newwriter", w, NONE, k, id, f, NONE) : w \in Writers, k \in {"dmap", "sdarn"}, id \in Lists \cup {NONE}, f \in Files \cup {NONE} }
  \cup { O("writefile", w, NONE, NONE, NONE, f, fmt) : w \in Writers, f \in Files \cup {NONE}, fmt \in Fmts \cup {NONE} }
  \cup { O("writestream", w, NONE, NONE, id, NONE, NONE) : w \in Writers, id \in Lists \cup {NONE} }
  \cup { O("newreader", NONE, r, k, NONE, f, NONE) : r \in Readers, k \in {"dmap", "sdarn"}, f \in Files }
  \cup { O("read", NONE, r, NONE, NONE, NONE, fmt) : r \in Readers, fmt \in Fmts \cup {NONE} }
  \cup { O("prefill", NONE, NONE, NONE, NONE, f, NONE) : f \in Real }
  \cup { O("remove", NONE, NONE, NONE, NONE, f, NONE) : f \in Real }
  \cup UNION { { O("change", NONE, NONE, NONE, id, c, NONE) : id \in G, c \in G } : G \in Groups }
  \cup { O("scribble", NONE, NONE, NONE, NONE, NONE, NONE) }

Init == /\ \E P \in SUBSET Real : /\ s = SessionInit(Files, Writers, Readers, Lists, P)
                                  /\ pre = IF Record THEN P ELSE {}
        /\ hist = << >> /\ prev = s.disk

(* In the exhaustive model the state is what matters; histories are kept only for replay.
   One action per kind of call (the simulator picks the kind first). *)
Worthwhile(o) ==     \* keeps generated sessions from being mostly calls that do nothing
    ~Record \/ CASE o.op = "newreader" -> o.f = "nodir" \/ s.disk[o.f] # Absent \/ Len(hist) % 5 = 0
                 [] o.op = "remove"    -> s.disk[o.f] # Absent /\ Len(hist) % 3 = 0
                 [] o.op = "prefill"   -> Len(hist) % 3 = 0
                 [] o.op = "change"    -> \E w \in Writers : s.wr[w].obj = o.id
                 [] o.op = "scribble"  -> hist # << >> /\ hist[Len(hist)].op \in {"read", "writestream"}
                 [] OTHER -> TRUE
Begin(kind) ==
    /\ s.call = Idle /\ (Record => Len(hist) < MaxOps)
    /\ \E o \in Ops : /\ o.op = kind /\ Enabled(s, o) /\ Worthwhile(o)
                      /\ s' = Start(s, o, Cat)
                      /\ hist' = IF Record THEN Append(hist, o) ELSE hist
    /\ prev' = s.disk /\ UNCHANGED pre
BeginNewWriter   == Begin("newwriter")
BeginWriteFile   == Begin("writefile")
BeginWriteStream == Begin("writestream")
BeginNewReader   == Begin("newreader")
BeginRead        == Begin("read")
BeginEnvironment == Begin("prefill") \/ Begin("remove")
BeginCaller      == Begin("change") \/ Begin("scribble")
Work == /\ s.call # Idle
        /\ s' = Micro(s, Cat)
        /\ UNCHANGED <<hist, prev, pre>>
Next == \/ BeginNewWriter \/ BeginWriteFile \/ BeginWriteStream \/ BeginNewReader \/ BeginRead
        \/ BeginEnvironment \/ BeginCaller \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

Depth == TLCGet("level") <= MaxOps

--------------------------------------------------------------------------------
Encodable == { id \in Lists : Cat[id].bad = 0 /\ Cat[id].n > 0 }

(* P05: between calls every file is untouched junk, absent, or exactly one whole list *)
DiskClean == s.call = Idle =>
    \A f \in Files : \/ s.disk[f] \in {Absent, Junk}
                     \/ \E id \in Encodable : s.disk[f] = Data(Whole(id, Cat))

(* P05: a refused call changes no file *)
RefusedChangesNothing ==
    [][(s'.call = Idle /\ s'.last.res # "ok") => s'.disk = prev']_vars

(* P04: what a write hands out is the encoding of exactly the writer's records *)
OutputIsOwnRecords ==
    [][(s.call # Idle /\ s'.call = Idle /\ s'.last.res = "ok")
          => s'.last.out = Whole(s.wr[s.call.w].recs, Cat)]_vars

(* P04: other writers and all readers are not affected by a write *)
Isolation ==
    [][(s.call # Idle) => /\ s'.rd = s.rd
                          /\ \A w \in Writers : w # s.call.w => s'.wr[w] = s.wr[w]]_vars

(* P04: a writer that can be used holds what its list object held when it was given *)
WriterHoldsItsObject == s.call = Idle =>
    \A w \in Writers : s.wr[w].live /\ s.wr[w].recs # NONE => s.wr[w].recs = s.obj[s.wr[w].obj]

CallsEnd == s.call # Idle ~> s.call = Idle

Emit == (Record /\ s.call = Idle /\ Len(hist) = MaxOps) =>
           PrintT("SESSION " \o ToJson([ops |-> hist, pre |-> SetToSeq(pre)]))
=============================================================================
