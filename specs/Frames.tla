------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* Local frames <<north, east, up>> of the directions with rational sines  *)
(* and cosines of the latitude <<s, c, d>> and the longitude <<s, c, e>>,  *)
(* s*s + c*c = d*d.  Types of the frames: 0 geodetic, 1 spherical,         *)
(* 2 Cartesian.  The geodetic and the spherical frame of a place share the *)
(* longitude and differ in the latitude.                                   *)
(***************************************************************************)
EXTENDS Fields

\* rows of the frame matrix times Den
Rows3(la, lo) == << <<-la[1] * lo[2], -la[1] * lo[1], la[2] * lo[3]>>,
                    <<-lo[1] * la[3], lo[2] * la[3], 0>>,
                    <<la[2] * lo[2], la[2] * lo[1], la[1] * lo[3]>> >>
Identity3 == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
\* frame [t |-> type, la |-> latitude] in the longitude lo
Matrix(f, lo) == IF f.t = 2 THEN Identity3 ELSE Rows3(f.la, lo)
Den(f, lo) == IF f.t = 2 THEN 1 ELSE f.la[3] * lo[3]
\* Den(f) times Cartesian components of the components v in the frame f
ToCart(f, lo, v) == MatVec(Transposed(Matrix(f, lo)), v)
\* Den(f) times components in the frame f of the Cartesian components v
FromCart(f, lo, v) == MatVec(Matrix(f, lo), v)
\* Den(f) * Den(g) times the components in the frame g of the components v in f
Rotated(f, g, lo, v) == FromCart(g, lo, ToCart(f, lo, v))
=============================================================================
