------------------------------ MODULE CameraMC ------------------------------
EXTENDS Camera, Randomization
All(S) == S
One(S) == RandomSubset(1, S)
FocalsSmall == {-3, 2, 800}
PointsSmall == {0, 7}
SkewsSmall == {0, 3}
SensorsSmall == {<<640, 480>>, <<3, 7>>}
RaysSmall == {<<x, y, z>> : x \in {-3, 0, 2}, y \in {-1, 0, 4}, z \in {-2, -1, 0, 1, 5}} \ {<<0,0,0>>}
K1Small == {<<-1, 5>>, <<1, 4>>, <<1, 1000>>, <<-165, 1000>>}
CellsSmall == {<<a, b, c>> : a \in {-1, 0, 3}, b \in {-2, 0, 1}, c \in {2, 5}}
FocalsBig == {-3000, -31, -1, 1, 2, 5, 17, 100, 799, 800, 1201, 4000}
PointsBig == {-50, -1, 0, 1, 7, 333, 640, 1999}
SkewsBig == {-5, 0, 1, 3, 40}
SensorsBig == {<<1, 1>>, <<640, 480>>, <<3, 7>>, <<1241, 376>>, <<4000, 3000>>, <<2, 4>>}
RaysBig == {<<x, y, z>> : x \in {-30, -3, 0, 1, 9}, y \in {-11, -1, 0, 4, 50}, z \in {-20, -1, 0, 1, 7, 60}} \ {<<0,0,0>>}
K1Big == {<<-1, 5>>, <<1, 4>>, <<3, 10>>, <<-7, 10>>, <<-2, 1>>, <<1, 1>>, <<5, 1>>, <<1, 1000>>, <<-1, 1000>>, <<-16, 100>>}
CellsBig == {<<a, b, c>> : a \in {-4, -1, 0, 2, 3}, b \in {-3, 0, 1, 5}, c \in {2, 5, 9, 31}}
=============================================================================
