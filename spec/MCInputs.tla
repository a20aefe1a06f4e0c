------------------------------ MODULE MCInputs -----------------------------
EXTENDS SDInputs
MCPlaces == {<<0, 0, 0>>, <<2050, 0, 0>>, <<0, 1200, 1600>>, <<1400, 1400, 700>>,
             <<0, 0, 2300>>, <<-700, 300, 500>>, <<9000, 0, 0>>}
MCSizes == {1000, 500}
MCDecays == {5, 20}
=============================================================================
