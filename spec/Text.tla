-------------------------------- MODULE Text ---------------------------------
(* The text formats that the library reads, as automata over characters.     *)
(*                                                                           *)
(* A text is a sequence of characters. Reading it gives a result:            *)
(*   [r |-> "error"], [r |-> "data", labels, data, keys], or                 *)
(*   with open |-> TRUE where the format leaves it open: either an error or   *)
(*   exactly these data (any |-> TRUE: an error or any data).                *)
(* Numbers are sequences of digits here.                                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Digits == {"0", "1", "2", "3"}
Val(ch) == CASE ch = "0" -> 0 [] ch = "1" -> 1 [] ch = "2" -> 2 [] OTHER -> 3
IsNum(f) == f # <<>> /\ \A i \in DOMAIN f : f[i] \in Digits
Num(f) == FoldLeft(LAMBDA a, ch : (a * 10) + Val(ch), 0, f)

\* split on a character: n occurrences give n + 1 parts
RECURSIVE Split(_, _)
Split(t, ch) ==
    LET p == SelectInSeq(t, LAMBDA x : x = ch)
    IN IF p = 0 THEN <<t>> ELSE <<SubSeq(t, 1, p - 1)>> \o Split(SubSeq(t, p + 1, Len(t)), ch)
RECURSIVE TrimL(_)
TrimL(f) == IF f # <<>> /\ f[1] = " " THEN TrimL(Tail(f)) ELSE f
\* fields: separated by any number of blanks
Fields(t) == SelectSeq(Split(t, " "), LAMBDA f : f # <<>>)
Lines(t) == Split(t, "\n")   \* a text that ends in a newline has a last, empty, line

Err == [r |-> "error"]
Trailing(f) == f # <<>> /\ f[Len(f)] = " "

\* The state of a reader, that takes one line after the other.
Start == [r |-> "data", labels |-> <<>>, data |-> <<>>, keys |-> <<>>, n |-> 0, rows |-> 0, open |-> FALSE, any |-> FALSE]
Stopped(s) == s.r = "error"

----------------------------------------------------------------------------
\* CSV. The first line (if there is a header) has the names; the label is the
\* first field, if there are labels. Empty lines are skipped. All of the lines
\* have the same number of fields. Blanks at the beginning of a field are not
\* part of it; those at its end are left open.
CSVLine(s, line, hdr, lab, sep) ==
    IF Stopped(s) \/ line = <<>> THEN s
    ELSE LET fs == [i \in DOMAIN Split(line, sep) |-> TrimL(Split(line, sep)[i])]
             from == IF lab THEN 2 ELSE 1
             vals == SubSeq(fs, from, Len(fs))
             op == \E i \in DOMAIN fs : Trailing(fs[i])
         IN IF s.n > 0 /\ Len(fs) # s.n THEN Err
            ELSE IF hdr /\ s.rows = 0
            THEN [s EXCEPT !.n = Len(fs), !.rows = 1, !.keys = vals, !.any = op]
            ELSE IF op THEN [s EXCEPT !.any = TRUE, !.n = Len(fs), !.rows = @ + 1]
            ELSE IF (lab /\ ~IsNum(fs[1])) \/ (\E i \in DOMAIN vals : ~IsNum(vals[i])) THEN Err
            ELSE [s EXCEPT !.n = Len(fs), !.rows = @ + 1,
                           !.labels = IF lab THEN Append(@, Num(fs[1])) ELSE @,
                           !.data = Append(@, [i \in DOMAIN vals |-> Num(vals[i])])]
ReadCSV(t, hdr, lab, sep) ==
    LET s == FoldLeft(LAMBDA a, line : CSVLine(a, line, hdr, lab, sep), Start, Lines(t))
    IN IF hdr /\ ~Stopped(s) /\ s.rows = 0 THEN Err ELSE s

----------------------------------------------------------------------------
\* libSVM: label, then index:value terms. Blank lines are skipped. Indexes
\* are expected to be 1, 2, 3..., anything else is left open.
SVMLine(s, line, hdr) ==
    LET fs == Fields(line)
    IN IF Stopped(s) \/ fs = <<>> THEN s
       ELSE LET terms == Tail(fs)
                ok == \A i \in DOMAIN terms : Len(Split(terms[i], ":")) = 2
                V(i) == Split(terms[i], ":")[2]
                canon == \A i \in DOMAIN terms : Split(terms[i], ":")[1] = (IF i <= 3 THEN <<(<<"1", "2", "3">>)[i]>> ELSE <<>>)
            IN IF ~ok THEN Err
               ELSE IF hdr /\ s.rows = 0
               THEN [s EXCEPT !.rows = 1, !.keys = [i \in DOMAIN terms |-> V(i)], !.open = @ \/ ~canon]
               ELSE IF ~IsNum(fs[1]) \/ (\E i \in DOMAIN terms : ~IsNum(V(i))) THEN Err
               ELSE IF s.data # <<>> /\ Len(terms) # Len(s.data[1]) THEN Err
               ELSE [s EXCEPT !.rows = @ + 1, !.labels = Append(@, Num(fs[1])), !.open = @ \/ ~canon,
                              !.data = Append(@, [i \in DOMAIN terms |-> Num(V(i))])]
ReadSVM(t, hdr) == FoldLeft(LAMBDA a, line : SVMLine(a, line, hdr), Start, Lines(t))

----------------------------------------------------------------------------
\* Names of the labels: number, separator, name. keys holds the names and
\* labels the numbers. More than two fields, or a repeated label: open.
NameLine(s, line, sep) ==
    IF Stopped(s) \/ Fields(line) = <<>> THEN s
    ELSE LET fs == IF sep = " " THEN Fields(line) ELSE Split(line, sep)
         IN IF Len(fs) < 2 THEN Err
            ELSE IF ~IsNum(fs[1])
            THEN (IF Len(Fields(fs[1])) = 1 /\ IsNum(Fields(fs[1])[1]) THEN [s EXCEPT !.any = TRUE] ELSE Err)
            ELSE [s EXCEPT !.labels = Append(@, Num(fs[1])), !.keys = Append(@, fs[2]),
                           !.open = @ \/ Len(fs) > 2 \/ (\E i \in DOMAIN s.labels : s.labels[i] = Num(fs[1]))]
ReadNames(t, sep) == FoldLeft(LAMBDA a, line : NameLine(a, line, sep), Start, Lines(t))
=============================================================================
