------------------------------ MODULE MCRaces ------------------------------
EXTENDS Races
Choices == {<<"a">>, <<"a", "a">>, <<"b", "a", "b">>}
=============================================================================
