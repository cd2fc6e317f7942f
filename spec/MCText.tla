------------------------------- MODULE MCText --------------------------------
(* All the short texts, growing one character at a time.                     *)
EXTENDS Text
CONSTANTS MaxLen
Alpha == {"1", "x", ",", ":", " ", "\n"}
VARIABLE t
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E ch \in Alpha : t' = Append(t, ch)
Spec == Init /\ [][Next]_t
Good(s) == s.r = "data" /\ ~s.any
CSV(x, h, b) == ReadCSV(x, h, b, ",")
Both == BOOLEAN
\* the last newline changes nothing
LastNL == /\ \A h \in Both, b \in Both : CSV(t, h, b) = CSV(Append(t, "\n"), h, b)
          /\ \A h \in Both : ReadSVM(t, h) = ReadSVM(Append(t, "\n"), h)
          /\ ReadNames(t, " ") = ReadNames(Append(t, "\n"), " ")
\* data are rectangular, with one label per sample
Rect == \A s \in {CSV(t, h, TRUE) : h \in Both} \cup {ReadSVM(t, h) : h \in Both} :
            Good(s) => /\ Len(s.labels) = Len(s.data)
                       /\ \A i, j \in DOMAIN s.data : Len(s.data[i]) = Len(s.data[j])
\* what is written reads back as the same (small data sets, taken from the text itself)
RECURSIVE Chars(_)
Chars(n) == IF n < 10 THEN <<ToString(n)>> ELSE Chars(n \div 10) \o <<ToString(n % 10)>>
Join(parts, sep) == IF parts = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, x : a \o <<sep>> \o x, Head(parts), Tail(parts))
WriteCSV(s) == Join([i \in DOMAIN s.data |-> Join(<<Chars(s.labels[i])>> \o [j \in DOMAIN s.data[i] |-> Chars(s.data[i][j])], ",")], "\n")
WriteSVM(s) == Join([i \in DOMAIN s.data |-> Join(<<Chars(s.labels[i])>> \o [j \in DOMAIN s.data[i] |-> Chars(j) \o <<":">> \o Chars(s.data[i][j])], " ")], "\n")
Rewrite == \A s \in {CSV(t, FALSE, TRUE), ReadSVM(t, FALSE)} :
              (Good(s) /\ \A i \in DOMAIN s.data : Len(s.data[i]) <= 3) =>
                 /\ LET z == CSV(WriteCSV(s), FALSE, TRUE) IN z.data = s.data /\ z.labels = s.labels
                 /\ LET z == ReadSVM(WriteSVM(s), FALSE) IN z.data = s.data /\ z.labels = s.labels /\ ~z.open
=============================================================================
