------------------------------- MODULE MCCli -------------------------------
EXTENDS SDCli, Json
Num(t, v) == [text |-> t, kind |-> "int", value |-> v]
Real(t, w, p) == [text |-> t, kind |-> "real", value |-> [whole |-> w, part |-> p]]
Word(t) == [text |-> t, kind |-> "word", value |-> t]
MCWords(k) ==
    CASE k = 1 -> {Num("1001", 1001), Num("1044", 1044), Word("one"), Real("2.5", "2", "5")}
      [] k = 2 -> {Num("1003", 1003), Num("1200", 1200), Word("x")}
      [] k = 3 -> {Real("0.25", "0", "25"), Real("0.0625", "0", "0625"), Num("1", 1),
                   Real("0.500", "0", "5"), Real("0.015625", "0", "015625"),
                   Real("12.123456789", "12", "123456789"), Word("dt")}
      [] k = 4 -> {Num("1", 1), Num("3", 3), Num("12", 12), Real("2.0", "2", "0"), Word("many")}
      [] k = 5 -> {Word("ufte"), Word("fte"), Word("fts")}
      [] k = 6 -> {Word("True"), Word("False"), Word("t"), Num("1", 1), Num("0", 0),
                   Word("yes")}
MCDefaults == [setup |-> 1010, input |-> 1020, dt |-> [whole |-> "0", part |-> "125"],
               frames |-> 2, form |-> "ufte", wall |-> FALSE]
Shown == PrintT("VCH " \o ToJson(args))
=============================================================================
