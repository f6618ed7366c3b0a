------------------------------ MODULE MCReader ------------------------------
EXTENDS ReaderImpl
\* 0 is the delimiter
Z(d, zl, bad) == [d |-> d, zl |-> zl, bad |-> bad]
MCStreams == {
  << Z(<<1,0,2,3,4,0,0,5>>, 0, "") >>,
  << Z(<<1,2,3,4,5,6>>, 0, "") >>,
  << Z(<<1,0>>, 0, ""), Z(<<2,3,0,4,0,5,0>>, 4, "") >>,
  << Z(<<0>>, 0, ""), Z(<<2,3,0>>, 0, ""), Z(<<4,0,5>>, 2, "") >>,
  << Z(<<1,0>>, 0, ""), Z(<<2,3,4,0,5>>, 5, "") >>,
  << Z(<<1,0>>, 0, ""), Z(<<2,0,3>>, 3, "sum") >>,
  << Z(<<1,0>>, 0, ""), Z(<<2,0,3>>, 3, "trunc") >> }
=============================================================================
