------------------------------ MODULE MCPicture ----------------------------
EXTENDS SDPicture
(* The geometry: copies come in opposite pairs, neighbours are always shown *)
(* and the outline is closed.                                               *)
Boxes == {[side |-> s, low |-> l, moved |-> m, mean |-> 8000] :
            s \in {<<8000, 8000, 8000>>, <<4000, 8000, 16000>>, <<16000, 8000, 4000>>},
            l \in {<<0, 0, 0>>, <<-4000, 0, -2000>>}, m \in {0, 1000, 9000, -3000, 40000}}
ASSUME \A b \in Boxes :
    /\ <<0, 0, 0>> \in MustCopy(b)
    /\ MustCopy(b) \subseteq MayCopy(b)
    /\ \A o \in MayCopy(b) : Times(-1, o) \in MayCopy(b)
    /\ \A c \in UNION {{s[1], s[2]} : s \in Outline(b)} :
        Cardinality({s \in Outline(b) : c \in {s[1], s[2]}}) = 2
    /\ \A s \in Outline(b) : s[1][3] # s[2][3] => (s[2][1] - s[1][1]) \in {2 * Top(b)[1], -2 * Top(b)[1]}
=============================================================================
