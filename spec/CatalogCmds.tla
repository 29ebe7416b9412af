---------------------------- MODULE CatalogCmds ----------------------------
EXTENDS Catalog
Fresh(ids) == IF ids = {} THEN 0 ELSE Max(ids) + 1
Cols == <<"x", "y">>
KCmds(s) ==
  {[op |-> "createdb", n |-> n] : n \in {"d1", "default"}} \cup {[op |-> "use", n |-> n] : n \in {"default", "d1", "zz"}}
  \cup {[op |-> "table", n |-> n, cols |-> Cols, fk |-> f, how |-> "api"] : n \in {"a", "b"}, f \in {<<>>, <<"a", "x">>, <<"a", "z">>, <<"zz", "x">>}}
  \cup {[op |-> "index", n |-> n, t |-> t, c |-> 0, how |-> "api"] : n \in {"i", "j"}, t \in {"a", "b"}}
  \cup {[op |-> "row", t |-> "a", v |-> <<Len(s.dbs), 1>>, end |-> x] : x \in {"commit", "abort"}}
  \cup {[op |-> "pair", a |-> <<"default", "a", <<1, 2>>>>, b |-> <<"d1", "a", <<3, 4>>>>, ea |-> x, eb |-> y, ord |-> o] : x, y \in {"commit", "abort"}, o \in 0..1}
KOutcomes(s, c) ==
  UNION {CatOutcomes(s, c @@ [r |-> r]) : r \in {<<0, 0>>, <<1, CASE c.op = "createdb" -> Fresh(Ids(s.dbs)) [] c.op = "table" -> Fresh(TableIds(s)) [] c.op = "index" -> Fresh(Ids(Cur(s).ix)) [] OTHER -> 0>>}}
=============================================================================
