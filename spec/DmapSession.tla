---------------------------- MODULE DmapSession ----------------------------
(***************************************************************************)
(* Sessions with DMAP / SuperDARN writers and readers over a few files.     *)
(*                                                                         *)
(* A session is a sequence of calls.  A call is executed in the small steps *)
(* the library takes (name check, record check, checking and encoding one   *)
(* record at a time into the writer's buffer, opening = emptying the file,  *)
(* writing the buffer), so that what is on disk after a refusal and what a  *)
(* second call produces are consequences of the order of those steps.       *)
(*                                                                         *)
(* Record lists are abstract: list `id` has Cat[id].n records; record k can  *)
(* be checked and encoded unless k = Cat[id].bad; Cat[id].fits is the set    *)
(* of file types whose field rules record lists satisfies up to and         *)
(* including record Cat[id].misfit[fmt] - 1.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NONE == "none"

(* One catalogue entry:                                                    *)
(*   n       number of records (0: the empty list)                         *)
(*   build   can a writer be built from it (dictionary conversion works)   *)
(*   bad     first record that cannot be encoded (0: none)                 *)
(*   misfit  [fmt |-> first record that breaks the field rules (0: none)]  *)

Absent == [st |-> "absent", recs |-> << >>]
Junk   == [st |-> "junk",   recs |-> << >>]
Data(s) == [st |-> "data",  recs |-> s]

Whole(id, cat) == [k \in 1..cat[id].n |-> <<id, k>>]

NoWriter == [live |-> FALSE, kind |-> "dmap", recs |-> NONE, obj |-> NONE, file |-> NONE, buf |-> << >>]
NoReader == [live |-> FALSE, src |-> Absent, kind |-> "dmap", fmt |-> NONE, got |-> NONE, read |-> FALSE]
Idle == [pc |-> "idle"]

(* The caller holds list objects; obj[o] is what object o holds now.  The caller may change an
   object in place.  What a writer made from it earlier writes afterwards is not specified (such
   writers are put aside); every later call that is given the object must use what it holds then. *)
SessionInit(files, writers, readers, lists, prefilled) ==
    [obj  |-> [o \in lists |-> o],
     disk |-> [f \in files |-> IF f \in prefilled THEN Junk ELSE Absent],
     wr   |-> [w \in writers |-> NoWriter],
     rd   |-> [r \in readers |-> NoReader],
     call |-> Idle,
     last |-> [res |-> "ok", out |-> << >>, got |-> NONE]]

(* a path whose directory does not exist cannot be opened *)
Openable(f) == f # "nodir"

Finish(s, res, out) == [s EXCEPT !.call = Idle, !.last = [res |-> res, out |-> out, got |-> NONE]]
FinishRead(s, got)  == [s EXCEPT !.call = Idle, !.last = [res |-> "ok", out |-> << >>, got |-> got]]

(* ---- starting a call ------------------------------------------------- *)
(* op is a record with fields op, w, r, kind, id, f, fmt (unused ones NONE) *)

Held(s, id) == IF id = NONE THEN NONE ELSE s.obj[id]

StartNewWriter(s, o, cat) ==
    LET id == Held(s, o.id) IN
    IF id # NONE /\ ~cat[id].build THEN Finish(s, "refused", << >>)
    ELSE IF o.kind = "sdarn" /\ (id = NONE \/ cat[id].n = 0) THEN Finish(s, "empty", << >>)
    ELSE LET recs == IF id # NONE /\ cat[id].n = 0 THEN NONE ELSE id IN
         Finish([s EXCEPT !.wr[o.w] = [live |-> TRUE, kind |-> o.kind, file |-> o.f, buf |-> << >>,
                   recs |-> recs, obj |-> IF recs = NONE THEN NONE ELSE o.id]], "ok", << >>)

StartWriteFile(s, o) ==
    LET w == s.wr[o.w] IN
    IF o.f = NONE /\ w.file = NONE THEN Finish(s, "no-filename", << >>)
    ELSE [s EXCEPT !.wr[o.w].file = IF o.f # NONE THEN o.f ELSE @,
                   !.call = [pc |-> "check", w |-> o.w, fmt |-> o.fmt, k |-> 1, tofile |-> TRUE]]

StartWriteStream(s, o, cat) ==
    LET id == Held(s, o.id)
        adopt == s.wr[o.w].recs = NONE /\ id # NONE /\ cat[id].n > 0 IN
    IF s.wr[o.w].recs = NONE /\ id # NONE /\ ~cat[id].build THEN Finish(s, "refused", << >>)
    ELSE [s EXCEPT !.wr[o.w].recs = IF adopt THEN id ELSE @,
                   !.wr[o.w].obj  = IF adopt THEN o.id ELSE @,
                   !.call = [pc |-> "check", w |-> o.w, fmt |-> NONE, k |-> 1, tofile |-> FALSE]]

(* a reader takes the bytes when it is created *)
StartNewReader(s, o) ==
    IF ~Openable(o.f) \/ s.disk[o.f].st = "absent" THEN Finish(s, "refused", << >>)
    ELSE Finish([s EXCEPT !.rd[o.r] = [live |-> TRUE, src |-> s.disk[o.f], kind |-> o.kind, fmt |-> NONE,
                                        got |-> NONE, read |-> FALSE]], "ok", << >>)

ListOf(c, cat) == IF c.st = "data" /\ \E id \in DOMAIN cat : c.recs = Whole(id, cat)
                  THEN CHOOSE id \in DOMAIN cat : c.recs = Whole(id, cat) ELSE NONE

(* Reading is one step.  A reader that has read once keeps what it has.  A refused
   read leaves the reader unusable. *)
StartRead(s, o, cat) ==
    LET r == s.rd[o.r]   id == ListOf(r.src, cat) IN
    IF r.read THEN FinishRead(s, r.got)
    ELSE IF id = NONE \/ (o.fmt # NONE /\ cat[id].misfit[o.fmt] # 0)
         THEN Finish([s EXCEPT !.rd[o.r] = NoReader], "refused", << >>)
         ELSE FinishRead([s EXCEPT !.rd[o.r].read = TRUE, !.rd[o.r].got = id], id)

Enabled(s, o) ==
    /\ s.call = Idle
    /\ CASE o.op = "newwriter" -> TRUE
         [] o.op = "writefile" -> s.wr[o.w].live /\ (o.fmt # NONE => s.wr[o.w].kind = "sdarn")
         [] o.op = "writestream" -> s.wr[o.w].live
         [] o.op = "newreader" -> TRUE
         [] o.op = "read" -> /\ s.rd[o.r].live /\ (o.fmt # NONE <=> s.rd[o.r].kind = "sdarn")
                             /\ (s.rd[o.r].read => o.fmt = s.rd[o.r].fmt \/ s.rd[o.r].fmt = NONE)
         [] o.op = "prefill" -> Openable(o.f)
         [] o.op = "remove" -> Openable(o.f)
         [] o.op = "change" -> s.obj[o.id] # o.f
         [] o.op = "scribble" -> TRUE

Start(s, o, cat) ==
    CASE o.op = "newwriter" -> StartNewWriter(s, o, cat)
      [] o.op = "writefile" -> StartWriteFile(s, o)
      [] o.op = "writestream" -> StartWriteStream(s, o, cat)
      [] o.op = "newreader" -> StartNewReader(s, o)
      [] o.op = "read" -> StartRead(s, o, cat)
      [] o.op = "prefill" -> Finish([s EXCEPT !.disk[o.f] = Junk], "ok", << >>)
      [] o.op = "remove" -> Finish([s EXCEPT !.disk[o.f] = Absent], "ok", << >>)
      (* the caller changes object o.id in place: it now holds o.f *)
      [] o.op = "change" -> Finish([s EXCEPT !.obj[o.id] = o.f,
                                             !.wr = [w \in DOMAIN s.wr |-> IF s.wr[w].obj = o.id THEN NoWriter ELSE s.wr[w]]],
                                   "ok", << >>)
      (* the caller overwrites everything the library has handed out: buffers and records read *)
      [] o.op = "scribble" -> Finish([s EXCEPT !.rd = [r \in DOMAIN s.rd |-> IF s.rd[r].read THEN NoReader ELSE s.rd[r]]],
                                     "ok", << >>)

(* ---- the steps of a write -------------------------------------------- *)
Micro(s, cat) ==
    LET c == s.call   w == s.wr[c.w]   id == w.recs IN
    CASE c.pc = "check" ->
           IF id = NONE THEN Finish(s, "empty", << >>)
           ELSE [s EXCEPT !.wr[c.w].buf = << >>, !.call.pc = "encode"]
      [] c.pc = "encode" ->
           IF c.k > cat[id].n
           THEN IF c.tofile THEN [s EXCEPT !.call.pc = "open"]
                ELSE Finish(s, "ok", w.buf)
           ELSE IF c.k = cat[id].bad \/ (c.fmt # NONE /\ cat[id].misfit[c.fmt] = c.k)
           THEN Finish(s, "refused", << >>)
           ELSE [s EXCEPT !.wr[c.w].buf = Append(@, <<id, c.k>>), !.call.k = @ + 1]
      [] c.pc = "open" ->
           IF ~Openable(w.file) THEN Finish(s, "refused", << >>)
           ELSE [s EXCEPT !.disk[w.file] = Data(<< >>), !.call.pc = "flush"]
      [] c.pc = "flush" ->
           Finish([s EXCEPT !.disk[w.file] = Data(w.buf)], "ok", w.buf)

RECURSIVE RunCall(_, _)
RunCall(s, cat) == IF s.call = Idle THEN s ELSE RunCall(Micro(s, cat), cat)

(* a whole call *)
Do(s, o, cat) == RunCall(Start(s, o, cat), cat)
=============================================================================
