-------------------------------- MODULE Csv --------------------------------
(***************************************************************************)
(* The CSV event file.  A file is a sequence of lines, a line a sequence of *)
(* fields [raw, low, num, uid]: the stripped text, its lower case form, its *)
(* blank separated numbers, and the identifier it states ("" if none).      *)
(* Events are separated by empty lines (all fields empty); a line whose     *)
(* first field alone is set states the UID or starts a data type; a line    *)
(* with a field "Name" is the header which says in which column the data    *)
(* of the rows below it are.                                                *)
(* The reader is a state machine with one step per line.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Reader   \* "right", or how it is wrong (negative models)
Field(t) == [raw |-> t, low |-> t, num |-> <<t>>, uid |-> ""]
Empty(l) == \A k \in 1..Len(l) : l[k].raw = ""
Alone(l) == Len(l) >= 1 /\ l[1].raw # "" /\ \A k \in 2..Len(l) : l[k].raw = ""
Header(l) == \E k \in 1..Len(l) : l[k].raw = "Name"
Where(l, n) == CHOOSE k \in 1..Len(l) : l[k].low = n
Columns(l) == [name |-> Where(l, "name"), az |-> Where(l, "azimuth"), toa |-> Where(l, "takeoffangle"), meas |-> Where(l, "measured"), err |-> Where(l, "error")]
NoColumns == [name |-> 0, az |-> 0, toa |-> 0, meas |-> 0, err |-> 0]
Row(l, c) == [name |-> l[c.name].raw, az |-> l[c.az].num, toa |-> l[c.toa].num, meas |-> l[c.meas].num, err |-> l[c.err].num]

NoEvent == [uid |-> "", types |-> <<>>, seen |-> FALSE]
Start == [events |-> <<>>, cur |-> NoEvent, type |-> "", rows |-> <<>>, cols |-> NoColumns]
CloseType(st) == IF st.rows = <<>> THEN st
                 ELSE [st EXCEPT !.cur.types = Append(st.cur.types, [type |-> st.type, rows |-> st.rows]), !.rows = <<>>]
SameData(a, b) == a.types = b.types
Number(st, ev) == IF Reader = "FirstEqual" /\ \E k \in 1..Len(st.events) : SameData(st.events[k], ev)
                  THEN CHOOSE k \in 1..Len(st.events) : SameData(st.events[k], ev) /\ \A j \in 1..(k - 1) : ~SameData(st.events[j], ev)
                  ELSE Len(st.events) + 1
CloseEvent(st0) ==
  LET st == CloseType(st0)
  IN IF ~st.cur.seen THEN st
     ELSE [st EXCEPT !.events = Append(st.events, [uid |-> IF st.cur.uid = "" THEN ToString(Number(st, st.cur)) ELSE st.cur.uid, types |-> st.cur.types]), !.cur = NoEvent]
ReadLine(st, l) ==
  IF Empty(l) THEN CloseEvent(st)
  ELSE LET s == [st EXCEPT !.cur.seen = TRUE]
       IN IF Alone(l) THEN (IF l[1].uid # "" THEN [s EXCEPT !.cur.uid = l[1].uid]
                            ELSE [(IF Reader = "DropsType" THEN [s EXCEPT !.rows = <<>>] ELSE CloseType(s)) EXCEPT !.type = l[1].raw])
          ELSE IF Header(l) THEN (IF Reader = "StickyHeader" /\ s.cols # NoColumns THEN s ELSE [s EXCEPT !.cols = Columns(l)])
          ELSE [s EXCEPT !.rows = Append(s.rows, Row(l, s.cols))]
EndOfFile(st) == IF Reader = "LastLost" THEN st.events ELSE CloseEvent(st).events
RECURSIVE ReadAll(_, _, _)
ReadAll(ls, k, st) == IF k > Len(ls) THEN EndOfFile(st) ELSE ReadAll(ls, k + 1, ReadLine(st, ls[k]))
CsvParse(ls) == ReadAll(ls, 1, Start)
=============================================================================
