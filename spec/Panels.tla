------------------------------- MODULE Panels -------------------------------
(* A user's figures.  Regions are the places of a figure the user made an axes *)
(* for; "shows" is the sequence of analyses drawn there.  A drawing call marks *)
(* the region it was given, or the selected one, and no other; some analyses   *)
(* replace the axes of the region by two of their own, after which the user's  *)
(* handle to it is gone.  A call told not to plot marks nothing.  A dashboard  *)
(* brings its own figure: it stays open unless it was saved and not shown.     *)
EXTENDS Common

CONSTANTS MaxLen, MaxFigs, Dashes

VARIABLES regs, figs, sel, files, hist

vars == <<regs, figs, sel, files, hist>>

Nothing == 0
Step == Len(hist) + 1
NewFig == 1 + Cardinality({h \in 1 .. Len(hist) : hist[h].fig # Nothing /\ hist[h].made})

Init == regs = <<>> /\ figs = {} /\ sel = Nothing /\ files = {} /\ hist = <<>>

Reg(f, k, sh, op) == [fig |-> f, polar |-> k, shows |-> sh, handle |-> op]
Usable(r) == regs[r].handle /\ regs[r].fig \in figs
Record(a, r, f, m, x) == hist' = Append(hist, [act |-> a, reg |-> r, fig |-> f, made |-> m, arg |-> x])

New(k, polar) ==
  /\ Cardinality(figs) < MaxFigs
  /\ regs' = regs \o [i \in 1 .. k |-> Reg(NewFig, polar, <<>>, TRUE)]
  /\ figs' = figs \cup {NewFig}
  /\ sel' = Len(regs) + k
  /\ UNCHANGED files
  /\ Record("new", Len(regs) + 1, NewFig, TRUE, IF polar THEN "polar" ELSE "rect")

Select(r) ==
  /\ Usable(r) /\ r # sel
  /\ sel' = r
  /\ UNCHANGED <<regs, figs, files>>
  /\ Record("select", r, regs[r].fig, FALSE, "")

Kinds(r) == IF regs[r].polar THEN {"polar"} ELSE {"plain", "split"}

\* how = "given": the axes is handed over; how = "current": it was selected last
Draw(r, kind, how) ==
  /\ Usable(r) /\ kind \in Kinds(r)
  /\ how = "current" => sel = r
  /\ regs' = [regs EXCEPT ![r].shows = IF kind = "split" THEN <<Step>> ELSE Append(@, Step),
                          ![r].handle = (kind # "split")]
  /\ sel' = Nothing
  /\ UNCHANGED <<figs, files>>
  /\ Record(IF how = "given" THEN "given" ELSE "current", r, regs[r].fig, FALSE, kind)

\* the sweep over oversampling ratios opens a figure when it is given no axes
Own ==
  /\ Cardinality(figs) < MaxFigs
  /\ regs' = Append(regs, Reg(NewFig, FALSE, <<Step>>, FALSE))
  /\ figs' = figs \cup {NewFig}
  /\ sel' = Nothing
  /\ UNCHANGED files
  /\ Record("own", Len(regs) + 1, NewFig, TRUE, "")

Quiet ==
  /\ regs # <<>>
  /\ UNCHANGED <<regs, figs, sel, files>>
  /\ Record("quiet", Nothing, Nothing, FALSE, "")

Dash(d, mode) ==
  /\ Cardinality(figs) < MaxFigs
  /\ regs' = Append(regs, Reg(NewFig, FALSE, <<Step>>, FALSE))
  /\ figs' = IF mode = "save" THEN figs ELSE figs \cup {NewFig}
  /\ files' = IF mode = "open" THEN files ELSE files \cup {Step}
  /\ sel' = Nothing
  /\ Record("dash-" \o mode, Len(regs) + 1, NewFig, TRUE, d)

Close(f) ==
  /\ f \in figs
  /\ figs' = figs \ {f}
  /\ sel' = IF sel # Nothing /\ regs[sel].fig = f THEN Nothing ELSE sel
  /\ UNCHANGED <<regs, files>>
  /\ Record("close", Nothing, f, FALSE, "")

Next ==
  /\ Len(hist) < MaxLen
  /\ \/ \E k \in 1 .. 2, p \in BOOLEAN : New(k, p)
     \/ \E r \in 1 .. Len(regs) : Select(r)
     \/ \E r \in 1 .. Len(regs), kind \in {"plain", "split", "polar"}, how \in {"given", "current"} : Draw(r, kind, how)
     \/ Own \/ Quiet
     \/ \E d \in Dashes : \E m \in {"open", "save"} \cup (IF "dout" = d THEN {"both"} ELSE {}) : Dash(d, m)
     \/ \E f \in figs : Close(f)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Live == {r \in 1 .. Len(regs) : regs[r].fig \in figs}
\* what is shown came from a drawing call aimed there
Traceable ==
  \A r \in 1 .. Len(regs) : \A i \in 1 .. Len(regs[r].shows) :
    LET h == hist[regs[r].shows[i]] IN h.reg = r /\ h.act \notin {"new", "select", "quiet", "close"}
\* every drawing call is shown somewhere unless a later one replaced the axes
Kept ==
  \A s \in 1 .. Len(hist) :
    hist[s].act \in {"given", "current", "own", "dash-open", "dash-save", "dash-both"} =>
      \/ \E i \in 1 .. Len(regs[hist[s].reg].shows) : regs[hist[s].reg].shows[i] = s
      \/ \E t \in s + 1 .. Len(hist) : hist[t].reg = hist[s].reg /\ hist[t].arg = "split"
\* a step changes the content of at most one region and never that of a closed figure
OneRegion == [][\A r \in 1 .. Len(regs) : regs'[r].shows # regs[r].shows =>
                  /\ hist'[Len(hist')].reg = r
                  /\ regs[r].fig \in figs]_vars
FilesAreAsked == \A s \in files : hist[s].act \in {"dash-save", "dash-both"}

EmitDone == Len(hist) = MaxLen =>
  Emit([hist |-> hist,
        regs |-> [r \in 1 .. Len(regs) |-> [fig |-> regs[r].fig, shows |-> regs[r].shows, live |-> (r \in Live), handle |-> regs[r].handle]],
        figs |-> figs, files |-> files])
=============================================================================
