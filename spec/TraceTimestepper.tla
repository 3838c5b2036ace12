--------------------------- MODULE TraceTimestepper ---------------------------
EXTENDS Timestepper, TraceLib
VARIABLES c, l
\* events: <<"begin", p, len>>, <<"step", fields>>, <<"end">>, <<"restart", day, ok>>, ...
TInit == /\ c \in 1..Len(Cases) /\ l = 0
         /\ idx = 0 /\ first = 0 /\ last = 0 /\ ref = 0 /\ period = [start |-> 0, end |-> 0, freq |-> [kind |-> "D", n |-> 1, wd |-> 6]]
Ev == Cases[c].ev[l + 1]

\* the state of the clock at the step holding day o, if there is one (steps begin at StepFirst)
RECURSIVE Seek(_, _, _, _)
Seek(p, o, i, f) ==      \* first step i beginning at f with f <= o <= its last day, else -1
  IF f > BaseFirst(p.freq, p.end) \/ o < f THEN <<-1, 0>>
  ELSE IF o <= StepLast(p.freq, f) THEN <<i, f>>
  ELSE Seek(p, o, i + 1, StepLast(p.freq, f) + 1)
RECURSIVE NSteps(_, _)
NSteps(p, f) == IF f > BaseFirst(p.freq, p.end) THEN 0 ELSE 1 + NSteps(p, StepLast(p.freq, f) + 1)

Clauses(e) ==
  CASE e.k = "begin" -> [length |-> e.len = NSteps(e.p, StepFirst(e.p)), index_length |-> e.ilen = e.len]
    [] e.k = "step" ->
         [fields |-> [e.f EXCEPT !.days = @ \div 1000, !.dcur = @ \div 1000, !.dnext = @ \div 1000] = FieldsOf(idx', first', last', ref'),
          whole |-> e.f.days % 1000 = 0 /\ e.f.dcur % 1000 = 0 /\ e.f.dnext % 1000 = 0,
          hasstep |-> e.fresh \/ HasNext, datetime |-> e.dt = first', idate |-> e.idx_date = first']
    [] e.k = "end" -> [ended |-> ~HasNext]
    [] e.k = "refused" -> [refused_ok |-> Seek(e.p, e.day, 0, StepFirst(e.p))[1] = -1]
    [] e.k = "restart" -> [restart_ok |-> Seek(e.p, e.day, 0, StepFirst(e.p))[1] # -1]

Place(p, i, f) == /\ period' = p /\ idx' = i /\ first' = f
                  /\ last' = StepLast(p.freq, f) /\ ref' = RefDay(p.freq, f)
Act(e) ==
  CASE e.k = "begin" -> Begin(e.p)
    [] e.k = "step" /\ e.fresh -> UNCHANGED tvars       \* the step the clock was placed on
    [] e.k = "step" /\ ~e.fresh -> Place(period, idx + 1, last + 1)     \* = Advance without its guard (reported as "hasstep")
    [] e.k = "end" -> UNCHANGED tvars
    [] e.k = "refused" -> UNCHANGED tvars
    [] e.k = "restart" -> LET r == Seek(e.p, e.day, 0, StepFirst(e.p)) IN
                            IF r[1] = -1 THEN UNCHANGED tvars ELSE Place(e.p, r[1], r[2])
TNext == /\ l < Len(Cases[c].ev)
         /\ l' = l + 1 /\ c' = c
         /\ Act(Ev)
         /\ Report(c, l', Failed(Clauses(Ev)))
TSpec == TInit /\ [][TNext]_<<c, l, tvars>>
===============================================================================
