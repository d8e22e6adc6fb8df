------------------------------- MODULE MapMC -------------------------------
EXTENDS Map, Randomization
All(S) == S
One(S) == IF S = {} THEN {} ELSE RandomSubset(1, S)
CentresMC == <<<<0, 0, 0>>, <<3, 4, 3>>, <<-1, 1, 3>>, <<4, 0, 1>>, <<-4, -2, 3>>, <<-2, 2, 1>>>>
QuatsMC == <<<<1, 0, 0, 0>>, <<4, 1, 0, 0>>, <<5, 0, -1, 1>>, <<1, 1, 1, 1>>, <<3, -1, 0, 2>>, <<0, 1, 0, 1>>>>
PointsMC == <<<<-1, -2, 9>>, <<0, 7, 13>>, <<3, -7, 15>>, <<-2, -7, 12>>, <<-3, -2, 15>>, <<7, -5, 11>>, <<-2, 5, 8>>, <<-2, 2, 16>>>>
SeesMC == <<<<4, 5, 7, 2, 3, 8>>, <<8, 6, 5, 1, 7, 2>>, <<5, 8, 2, 6, 4, 3>>, <<8, 4, 6, 2, 5, 3>>, <<3, 7, 5, 4, 1, 8>>, <<2, 8, 5, 1, 3, 6>>>>
\* the small scene: two features a frame
SeesSmall == << <<1, 2>>, <<2, 1>>, <<1, 2>>, <<3, 1>> >>
SeesThree == << <<1, 2>>, <<2, 1>>, <<1, 3>> >>
SeesJoin == << <<1>>, <<1>>, <<2>>, <<1>>, <<1>>, <<2>> >>
Every(i) == TRUE
Few(i) == RandomElement(0..(199 + i - i)) = 0
=============================================================================
