------------------------------- MODULE Fault --------------------------------
(* Failures of user components and how they surface.                            *)
(* A public call is a sequence of component calls made inside nested layers;     *)
(* every layer hands an error of the one below to the one above, re-typed.        *)
EXTENDS Integers, Sequences, FiniteSets
IOComps == {"Read", "Write", "Flush", "Seek"}
(* what the component reports *)
Reports(comp) == IF comp = "Merge" THEN {"merge"}
                 ELSE IF comp = "Create" THEN {"io", "version", "codec"} ELSE {"io"}
(* what the public call returns: the same failure *)
Surface(report) == report

(* the component calls of public calls, in order; one repetition of each kind of loop *)
WriteFile == <<"Write", "Write", "Write">>
LoadBlock == <<"Seek", "Read", "Read">>
OpenFile == <<"Seek", "Read", "Seek", "Read">> \o LoadBlock
Spill == <<"Create", "Merge">> \o WriteFile \o <<"Flush">>
MergeAll == <<"Create">> \o OpenFile \o LoadBlock \o <<"Merge">> \o WriteFile \o <<"Flush">>
Calls(op) ==
  CASE op = "w.insert" -> WriteFile
    [] op = "w.finish" -> WriteFile \o <<"Flush">>
    (* into a sink that keeps what it is given until it is flushed or dropped *)
    [] op = "w.finish.staged" -> WriteFile \o <<"Flush">>
    [] op = "r.open" -> OpenFile
    [] op = "r.op" -> LoadBlock
    [] op = "m.start" -> LoadBlock \o LoadBlock
    [] op = "m.next" -> LoadBlock \o <<"Merge">>
    [] op = "m.write" -> LoadBlock \o <<"Merge">> \o WriteFile
    [] op = "s.insert" -> Spill \o MergeAll
    [] op = "s.stream" -> Spill \o OpenFile \o LoadBlock
    [] op = "s.write" -> Spill \o OpenFile \o LoadBlock \o <<"Merge">> \o WriteFile
OpNames == {"w.insert", "w.finish", "w.finish.staged", "r.open", "r.op", "m.start", "m.next", "m.write", "s.insert",
            "s.stream", "s.write"}
(* the layers a component call of a public call sits under *)
Layers(op, comp) ==
  IF op = "w.finish.staged" THEN <<"push">>
  ELSE IF comp \in {"Merge", "Create"} THEN <<"convert">>
  ELSE IF op \in {"w.insert", "w.finish", "r.open", "r.op"} THEN <<"codec">> ELSE <<"codec", "convert">>
(* one layer: an error in, an error out; mutants: *)
(*  "unflushed": what was staged is written when the sink is dropped; "swallow": the codec takes an end-of-file error for the end; "panic": the conversion knows only io errors *)
Through(layer, report, mut) ==
  CASE mut = "swallow" /\ layer = "codec" /\ report = "io" -> "ok"
    [] mut = "panic" /\ layer = "convert" /\ report \in {"version", "codec"} -> "panic"
    [] mut = "unflushed" /\ layer = "push" -> "ok"
    [] OTHER -> report
RECURSIVE Up(_, _, _)
Up(layers, report, mut) ==
  IF layers = <<>> \/ report \in {"ok", "panic"} THEN report
  ELSE Up(Tail(layers), Through(Head(layers), report, mut), mut)
=============================================================================
