---- MODULE MCStagesSeqs ----
EXTENDS MCStages
Seqs == {<<>>, <<1>>, <<1, 2>>, <<2, 1>>, <<1, 2, 3>>, <<1, 2, 3, 4>>, <<3, 1, 4, 2>>}
====
