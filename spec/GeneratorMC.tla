----------------------------- MODULE GeneratorMC -----------------------------
EXTENDS Generator, TLC
CONSTANTS CP
VARIABLES files, at, carried, out
vars == <<files, at, carried, out>>
Order == <<"Emoji", "InCB", "words", "phrases", "graphemes", "sentences">>
Own(f) == CASE f = "Emoji" -> {"Emoji", "Extended_Pictographic"} [] f = "InCB" -> {"InCB_Consonant", "InCB_Linker", "InCB_Extend"}
            [] f = "Word" -> {"Katakana", "ALetter"} [] f = "Grapheme" -> {"Extend"} [] f = "Sentence" -> {"Lower"} [] f = "Scripts" -> {"HanHiragana"}
Sources == {"Emoji", "InCB", "Word", "Grapheme", "Sentence", "Scripts"}
\* each code point has at most one property of a file; pictographs and consonants exist somewhere
OneOf(f) == Own(f) \cup {"-"}
Init == /\ files \in [CP -> [Sources -> UNION {OneOf(f) : f \in Sources}]]
        /\ \A r \in CP, f \in Sources : files[r][f] \in OneOf(f)
        /\ at = 1 /\ carried = [pict |-> {}, incb |-> [p \in InCBs |-> {}]] /\ out = <<>>
In(f, p) == {r \in CP : files[r][f] = p}
\* names in the order of their numbers (any fixed one)
RECURSIVE Number(_)
Number(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o Number(s \ {x})
RECURSIVE Sum(_, _, _)
Sum(names, sets, r) == IF names = <<>> THEN 0
                       ELSE (IF r \in sets[Head(names)] THEN 1 ELSE 0) + 2 * Sum(Tail(names), sets, r)
Decode(names, v) == {names[i] : i \in {i \in 1..Len(names) : (v \div (2 ^ (i - 1))) % 2 = 1}}
Step ==
  LET p == Order[at] IN
  /\ at' = at + 1 /\ UNCHANGED files
  /\ IF p = "Emoji" THEN carried' = [carried EXCEPT !.pict = In("Emoji", "Extended_Pictographic")] /\ UNCHANGED out
     ELSE IF p = "InCB" THEN carried' = [carried EXCEPT !.incb = [q \in InCBs |-> In("InCB", q)]] /\ UNCHANGED out
     ELSE LET own == [q \in Own(SourceOf(p)) |-> In(SourceOf(p), q)]
              s1 == IF p # "sentences" THEN ("Extended_Pictographic" :> carried.pict) @@ own ELSE own
              s2 == IF p = "graphemes" THEN carried.incb @@ s1 ELSE s1
              s3 == IF p = "words" THEN ("BleveIdeographic" :> (own["Katakana"] \cup In("Scripts", "HanHiragana"))) @@ s2 ELSE s2
              names == Number(DOMAIN s3)
          IN /\ out' = (p :> [names |-> names, table |-> [r \in CP |-> Sum(names, s3, r)]]) @@ out
             /\ UNCHANGED carried
Next == at <= Len(Order) /\ Step
Spec == Init /\ [][Next]_vars
Right == \A p \in DOMAIN out, r \in CP :
           Decode(out[p].names, out[p].table[r]) = Expected(p, LAMBDA f, q : files[r][f] = q, Own)
Done == at > Len(Order) => DOMAIN out = Packages
=============================================================================
