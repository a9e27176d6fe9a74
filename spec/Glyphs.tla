------------------------------- MODULE Glyphs -------------------------------
(* The polygons of every character by its code, in ninths of the text size.   *)
(* Generated by tools/gen_glyphs.py from the pinned commit.                    *)
Glyphs == <<
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<<<<<2, 2>>, <<3, 2>>, <<3, 3>>, <<2, 3>>>>, <<<<2, 4>>, <<3, 4>>, <<3, 5>>, <<3, 6>>, <<3, 7>>, <<3, 8>>, <<3, 9>>, <<2, 9>>, <<2, 8>>, <<2, 7>>, <<2, 6>>, <<2, 5>>>>>>,
  <<<<<<1, 7>>, <<2, 7>>, <<2, 8>>, <<2, 9>>, <<1, 9>>, <<1, 8>>>>, <<<<3, 7>>, <<4, 7>>, <<4, 8>>, <<4, 9>>, <<3, 9>>, <<3, 8>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 2>>, <<2, 2>>, <<2, 3>>, <<2, 4>>, <<2, 5>>, <<3, 5>>, <<3, 4>>, <<2, 4>>, <<2, 3>>, <<3, 3>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<5, 3>>, <<5, 4>>, <<4, 4>>, <<4, 5>>, <<5, 5>>, <<5, 6>>, <<4, 6>>, <<4, 7>>, <<3, 7>>, <<3, 6>>, <<2, 6>>, <<2, 7>>, <<1, 7>>, <<1, 6>>, <<0, 6>>, <<0, 5>>, <<1, 5>>, <<1, 4>>, <<0, 4>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<2, 2>>, <<2, 1>>, <<3, 1>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<3, 4>>, <<4, 4>>, <<4, 5>>, <<3, 5>>, <<3, 6>>, <<3, 7>>, <<4, 7>>, <<5, 7>>, <<5, 8>>, <<4, 8>>, <<3, 8>>, <<3, 9>>, <<2, 9>>, <<2, 8>>, <<1, 8>>, <<1, 7>>, <<2, 7>>, <<2, 6>>, <<1, 6>>, <<1, 5>>, <<2, 5>>, <<2, 4>>, <<2, 3>>, <<1, 3>>, <<0, 3>>>>, <<<<0, 6>>, <<1, 6>>, <<1, 7>>, <<0, 7>>>>, <<<<4, 3>>, <<5, 3>>, <<5, 4>>, <<4, 4>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<0, 4>>, <<0, 3>>>>, <<<<0, 7>>, <<1, 7>>, <<2, 7>>, <<2, 8>>, <<2, 9>>, <<1, 9>>, <<0, 9>>, <<0, 8>>>>, <<<<1, 4>>, <<2, 4>>, <<2, 5>>, <<1, 5>>>>, <<<<2, 5>>, <<3, 5>>, <<3, 6>>, <<2, 6>>>>, <<<<3, 2>>, <<4, 2>>, <<5, 2>>, <<5, 3>>, <<5, 4>>, <<4, 4>>, <<3, 4>>, <<3, 3>>>>, <<<<3, 6>>, <<4, 6>>, <<4, 7>>, <<3, 7>>>>, <<<<4, 7>>, <<5, 7>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<4, 8>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<0, 5>>, <<0, 4>>>>, <<<<0, 6>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<0, 8>>, <<0, 7>>>>, <<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<3, 3>>, <<2, 3>>, <<1, 3>>>>, <<<<1, 5>>, <<2, 5>>, <<3, 5>>, <<3, 6>>, <<3, 7>>, <<3, 8>>, <<2, 8>>, <<2, 7>>, <<2, 6>>, <<1, 6>>>>, <<<<1, 8>>, <<2, 8>>, <<2, 9>>, <<1, 9>>>>, <<<<3, 3>>, <<4, 3>>, <<4, 4>>, <<4, 5>>, <<3, 5>>, <<3, 4>>>>, <<<<4, 2>>, <<5, 2>>, <<5, 3>>, <<4, 3>>>>, <<<<4, 5>>, <<5, 5>>, <<5, 6>>, <<4, 6>>>>>>,
  <<<<<<2, 7>>, <<3, 7>>, <<3, 8>>, <<3, 9>>, <<2, 9>>, <<2, 8>>>>>>,
  <<<<<<1, 4>>, <<2, 4>>, <<2, 5>>, <<2, 6>>, <<2, 7>>, <<1, 7>>, <<1, 6>>, <<1, 5>>>>, <<<<2, 3>>, <<3, 3>>, <<3, 4>>, <<2, 4>>>>, <<<<2, 7>>, <<3, 7>>, <<3, 8>>, <<2, 8>>>>, <<<<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>>>, <<<<3, 8>>, <<4, 8>>, <<4, 9>>, <<3, 9>>>>>>,
  <<<<<<3, 4>>, <<4, 4>>, <<4, 5>>, <<4, 6>>, <<4, 7>>, <<3, 7>>, <<3, 6>>, <<3, 5>>>>, <<<<1, 2>>, <<2, 2>>, <<2, 3>>, <<1, 3>>>>, <<<<1, 8>>, <<2, 8>>, <<2, 9>>, <<1, 9>>>>, <<<<2, 3>>, <<3, 3>>, <<3, 4>>, <<2, 4>>>>, <<<<2, 7>>, <<3, 7>>, <<3, 8>>, <<2, 8>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<1, 3>>, <<0, 3>>>>, <<<<0, 4>>, <<1, 4>>, <<1, 3>>, <<2, 3>>, <<2, 2>>, <<3, 2>>, <<3, 3>>, <<4, 3>>, <<4, 4>>, <<5, 4>>, <<5, 5>>, <<4, 5>>, <<4, 6>>, <<3, 6>>, <<3, 7>>, <<2, 7>>, <<2, 6>>, <<1, 6>>, <<1, 5>>, <<0, 5>>>>, <<<<0, 6>>, <<1, 6>>, <<1, 7>>, <<0, 7>>>>, <<<<4, 2>>, <<5, 2>>, <<5, 3>>, <<4, 3>>>>, <<<<4, 6>>, <<5, 6>>, <<5, 7>>, <<4, 7>>>>>>,
  <<<<<<0, 4>>, <<1, 4>>, <<2, 4>>, <<2, 3>>, <<2, 2>>, <<3, 2>>, <<3, 3>>, <<3, 4>>, <<4, 4>>, <<5, 4>>, <<5, 5>>, <<4, 5>>, <<3, 5>>, <<3, 6>>, <<3, 7>>, <<2, 7>>, <<2, 6>>, <<2, 5>>, <<1, 5>>, <<0, 5>>>>>>,
  <<<<<<1, 0>>, <<2, 0>>, <<2, 1>>, <<1, 1>>>>, <<<<2, 1>>, <<3, 1>>, <<3, 2>>, <<3, 3>>, <<2, 3>>, <<2, 2>>>>>>,
  <<<<<<0, 4>>, <<1, 4>>, <<2, 4>>, <<3, 4>>, <<4, 4>>, <<5, 4>>, <<5, 5>>, <<4, 5>>, <<3, 5>>, <<2, 5>>, <<1, 5>>, <<0, 5>>>>>>,
  <<<<<<2, 2>>, <<3, 2>>, <<3, 3>>, <<2, 3>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<0, 4>>, <<0, 3>>>>, <<<<1, 4>>, <<2, 4>>, <<2, 5>>, <<1, 5>>>>, <<<<2, 5>>, <<3, 5>>, <<3, 6>>, <<2, 6>>>>, <<<<3, 6>>, <<4, 6>>, <<4, 7>>, <<3, 7>>>>, <<<<4, 7>>, <<5, 7>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<4, 8>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<2, 4>>, <<2, 5>>, <<1, 5>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>>>, <<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>>>, <<<<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>>>, <<<<2, 5>>, <<3, 5>>, <<3, 6>>, <<2, 6>>>>, <<<<3, 6>>, <<4, 6>>, <<4, 5>>, <<4, 4>>, <<4, 3>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<4, 8>>, <<4, 7>>, <<3, 7>>>>>>,
  <<<<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<3, 4>>, <<3, 5>>, <<3, 6>>, <<3, 7>>, <<3, 8>>, <<3, 9>>, <<2, 9>>, <<2, 8>>, <<1, 8>>, <<1, 7>>, <<2, 7>>, <<2, 6>>, <<2, 5>>, <<2, 4>>, <<2, 3>>, <<1, 3>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<5, 2>>, <<5, 3>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>, <<1, 4>>, <<0, 4>>, <<0, 3>>>>, <<<<0, 7>>, <<1, 7>>, <<1, 8>>, <<0, 8>>>>, <<<<1, 4>>, <<2, 4>>, <<3, 4>>, <<3, 5>>, <<2, 5>>, <<1, 5>>>>, <<<<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>>>, <<<<3, 5>>, <<4, 5>>, <<4, 6>>, <<3, 6>>>>, <<<<4, 6>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<4, 8>>, <<4, 7>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>, <<0, 3>>>>, <<<<0, 8>>, <<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>, <<0, 9>>>>, <<<<1, 5>>, <<2, 5>>, <<3, 5>>, <<4, 5>>, <<4, 6>>, <<3, 6>>, <<2, 6>>, <<1, 6>>>>, <<<<4, 3>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<4, 5>>, <<4, 4>>>>, <<<<4, 6>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<4, 8>>, <<4, 7>>>>>>,
  <<<<<<0, 4>>, <<1, 4>>, <<2, 4>>, <<3, 4>>, <<3, 3>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<4, 4>>, <<5, 4>>, <<5, 5>>, <<4, 5>>, <<4, 6>>, <<4, 7>>, <<4, 8>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<2, 8>>, <<3, 8>>, <<3, 7>>, <<3, 6>>, <<3, 5>>, <<2, 5>>, <<1, 5>>, <<1, 6>>, <<0, 6>>, <<0, 5>>>>, <<<<1, 6>>, <<2, 6>>, <<2, 7>>, <<2, 8>>, <<1, 8>>, <<1, 7>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>, <<0, 3>>>>, <<<<0, 5>>, <<1, 5>>, <<2, 5>>, <<3, 5>>, <<4, 5>>, <<4, 6>>, <<3, 6>>, <<2, 6>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>, <<0, 9>>, <<0, 8>>, <<0, 7>>, <<0, 6>>>>, <<<<4, 3>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<4, 5>>, <<4, 4>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<2, 5>>, <<3, 5>>, <<4, 5>>, <<4, 6>>, <<3, 6>>, <<2, 6>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>>>, <<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>>>, <<<<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>>>, <<<<4, 3>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<4, 5>>, <<4, 4>>>>>>,
  <<<<<<0, 8>>, <<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<4, 7>>, <<4, 6>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>, <<0, 9>>>>, <<<<2, 2>>, <<3, 2>>, <<3, 3>>, <<3, 4>>, <<3, 5>>, <<2, 5>>, <<2, 4>>, <<2, 3>>>>, <<<<3, 5>>, <<4, 5>>, <<4, 6>>, <<3, 6>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<0, 5>>, <<0, 4>>>>, <<<<0, 6>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<0, 8>>, <<0, 7>>>>, <<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>>>, <<<<1, 5>>, <<2, 5>>, <<3, 5>>, <<4, 5>>, <<4, 6>>, <<3, 6>>, <<2, 6>>, <<1, 6>>>>, <<<<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>>>, <<<<4, 3>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<4, 5>>, <<4, 4>>>>, <<<<4, 6>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<4, 8>>, <<4, 7>>>>>>,
  <<<<<<0, 6>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<0, 8>>, <<0, 7>>>>, <<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>>>, <<<<1, 5>>, <<2, 5>>, <<3, 5>>, <<4, 5>>, <<4, 4>>, <<4, 3>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<4, 8>>, <<4, 7>>, <<4, 6>>, <<3, 6>>, <<2, 6>>, <<1, 6>>>>, <<<<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>>>>>,
  <<<<<<2, 2>>, <<3, 2>>, <<3, 3>>, <<2, 3>>>>, <<<<2, 5>>, <<3, 5>>, <<3, 6>>, <<2, 6>>>>>>,
  <<<<<<1, 0>>, <<2, 0>>, <<2, 1>>, <<1, 1>>>>, <<<<2, 1>>, <<3, 1>>, <<3, 2>>, <<3, 3>>, <<2, 3>>, <<2, 2>>>>, <<<<2, 4>>, <<3, 4>>, <<3, 5>>, <<2, 5>>>>>>,
  <<<<<<0, 5>>, <<1, 5>>, <<1, 6>>, <<0, 6>>>>, <<<<1, 4>>, <<2, 4>>, <<2, 5>>, <<1, 5>>>>, <<<<1, 6>>, <<2, 6>>, <<2, 7>>, <<1, 7>>>>, <<<<2, 3>>, <<3, 3>>, <<4, 3>>, <<4, 4>>, <<3, 4>>, <<2, 4>>>>, <<<<2, 7>>, <<3, 7>>, <<4, 7>>, <<4, 8>>, <<3, 8>>, <<2, 8>>>>, <<<<4, 2>>, <<5, 2>>, <<5, 3>>, <<4, 3>>>>, <<<<4, 8>>, <<5, 8>>, <<5, 9>>, <<4, 9>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<2, 3>>, <<3, 3>>, <<4, 3>>, <<5, 3>>, <<5, 4>>, <<4, 4>>, <<3, 4>>, <<2, 4>>, <<1, 4>>, <<0, 4>>>>, <<<<0, 5>>, <<1, 5>>, <<2, 5>>, <<3, 5>>, <<4, 5>>, <<5, 5>>, <<5, 6>>, <<4, 6>>, <<3, 6>>, <<2, 6>>, <<1, 6>>, <<0, 6>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<1, 3>>, <<0, 3>>>>, <<<<0, 8>>, <<1, 8>>, <<1, 9>>, <<0, 9>>>>, <<<<1, 3>>, <<2, 3>>, <<3, 3>>, <<3, 4>>, <<2, 4>>, <<1, 4>>>>, <<<<1, 7>>, <<2, 7>>, <<3, 7>>, <<3, 8>>, <<2, 8>>, <<1, 8>>>>, <<<<3, 4>>, <<4, 4>>, <<4, 5>>, <<3, 5>>>>, <<<<3, 6>>, <<4, 6>>, <<4, 7>>, <<3, 7>>>>, <<<<4, 5>>, <<5, 5>>, <<5, 6>>, <<4, 6>>>>>>,
  <<<<<<0, 7>>, <<1, 7>>, <<1, 8>>, <<0, 8>>>>, <<<<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>>>, <<<<2, 2>>, <<3, 2>>, <<3, 3>>, <<2, 3>>>>, <<<<2, 4>>, <<3, 4>>, <<3, 5>>, <<2, 5>>>>, <<<<3, 5>>, <<4, 5>>, <<4, 6>>, <<3, 6>>>>, <<<<4, 6>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<4, 8>>, <<4, 7>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>>>, <<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>>>, <<<<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>>>, <<<<2, 4>>, <<3, 4>>, <<4, 4>>, <<4, 5>>, <<3, 5>>, <<3, 6>>, <<3, 7>>, <<2, 7>>, <<2, 6>>, <<2, 5>>>>, <<<<4, 5>>, <<5, 5>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<4, 8>>, <<4, 7>>, <<4, 6>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 4>>, <<3, 4>>, <<4, 4>>, <<4, 3>>, <<4, 2>>, <<5, 2>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<4, 8>>, <<4, 7>>, <<4, 6>>, <<4, 5>>, <<3, 5>>, <<2, 5>>, <<1, 5>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>, <<0, 3>>>>, <<<<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<2, 5>>, <<3, 5>>, <<4, 5>>, <<4, 6>>, <<3, 6>>, <<2, 6>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>, <<0, 9>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>, <<0, 3>>>>, <<<<4, 3>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<4, 5>>, <<4, 4>>>>, <<<<4, 6>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<4, 8>>, <<4, 7>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>>>, <<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<5, 2>>, <<5, 3>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>>>, <<<<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<2, 2>>, <<3, 2>>, <<3, 3>>, <<2, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<2, 8>>, <<3, 8>>, <<3, 9>>, <<2, 9>>, <<1, 9>>, <<0, 9>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>, <<0, 3>>>>, <<<<3, 3>>, <<4, 3>>, <<4, 4>>, <<3, 4>>>>, <<<<3, 7>>, <<4, 7>>, <<4, 8>>, <<3, 8>>>>, <<<<4, 4>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<5, 7>>, <<4, 7>>, <<4, 6>>, <<4, 5>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<5, 2>>, <<5, 3>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<2, 5>>, <<3, 5>>, <<4, 5>>, <<4, 6>>, <<3, 6>>, <<2, 6>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>, <<0, 9>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>, <<0, 3>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<2, 5>>, <<3, 5>>, <<4, 5>>, <<4, 6>>, <<3, 6>>, <<2, 6>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>, <<0, 9>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>, <<0, 3>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>>>, <<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<5, 2>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<4, 6>>, <<3, 6>>, <<2, 6>>, <<2, 5>>, <<3, 5>>, <<4, 5>>, <<4, 4>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>>>, <<<<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<2, 5>>, <<3, 5>>, <<4, 5>>, <<4, 4>>, <<4, 3>>, <<4, 2>>, <<5, 2>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<4, 8>>, <<4, 7>>, <<4, 6>>, <<3, 6>>, <<2, 6>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<1, 9>>, <<0, 9>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>, <<0, 3>>>>>>,
  <<<<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<3, 4>>, <<3, 5>>, <<3, 6>>, <<3, 7>>, <<3, 8>>, <<4, 8>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>, <<1, 8>>, <<2, 8>>, <<2, 7>>, <<2, 6>>, <<2, 5>>, <<2, 4>>, <<2, 3>>, <<1, 3>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<0, 4>>>>, <<<<0, 8>>, <<1, 8>>, <<2, 8>>, <<3, 8>>, <<3, 7>>, <<3, 6>>, <<3, 5>>, <<3, 4>>, <<3, 3>>, <<4, 3>>, <<4, 4>>, <<4, 5>>, <<4, 6>>, <<4, 7>>, <<4, 8>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>, <<0, 9>>>>, <<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<3, 3>>, <<2, 3>>, <<1, 3>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<2, 5>>, <<2, 6>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<1, 9>>, <<0, 9>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>, <<0, 3>>>>, <<<<2, 4>>, <<3, 4>>, <<3, 5>>, <<2, 5>>>>, <<<<2, 6>>, <<3, 6>>, <<3, 7>>, <<2, 7>>>>, <<<<3, 3>>, <<4, 3>>, <<4, 4>>, <<3, 4>>>>, <<<<3, 7>>, <<4, 7>>, <<4, 8>>, <<3, 8>>>>, <<<<4, 2>>, <<5, 2>>, <<5, 3>>, <<4, 3>>>>, <<<<4, 8>>, <<5, 8>>, <<5, 9>>, <<4, 9>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<5, 2>>, <<5, 3>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<1, 9>>, <<0, 9>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>, <<0, 3>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<1, 7>>, <<2, 7>>, <<2, 8>>, <<1, 8>>, <<1, 9>>, <<0, 9>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>, <<0, 3>>>>, <<<<2, 5>>, <<3, 5>>, <<3, 6>>, <<3, 7>>, <<2, 7>>, <<2, 6>>>>, <<<<3, 7>>, <<4, 7>>, <<4, 6>>, <<4, 5>>, <<4, 4>>, <<4, 3>>, <<4, 2>>, <<5, 2>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<4, 8>>, <<3, 8>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<1, 7>>, <<2, 7>>, <<2, 8>>, <<1, 8>>, <<1, 9>>, <<0, 9>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>, <<0, 3>>>>, <<<<2, 5>>, <<3, 5>>, <<3, 6>>, <<3, 7>>, <<2, 7>>, <<2, 6>>>>, <<<<3, 4>>, <<4, 4>>, <<4, 3>>, <<4, 2>>, <<5, 2>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<4, 8>>, <<4, 7>>, <<4, 6>>, <<4, 5>>, <<3, 5>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>>>, <<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>>>, <<<<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>>>, <<<<4, 3>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<4, 8>>, <<4, 7>>, <<4, 6>>, <<4, 5>>, <<4, 4>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<2, 5>>, <<3, 5>>, <<4, 5>>, <<4, 6>>, <<3, 6>>, <<2, 6>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>, <<0, 9>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>, <<0, 3>>>>, <<<<4, 6>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<4, 8>>, <<4, 7>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>>>, <<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<4, 8>>, <<4, 7>>, <<4, 6>>, <<4, 5>>, <<4, 4>>, <<3, 4>>, <<3, 3>>, <<2, 3>>, <<1, 3>>>>, <<<<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>>>, <<<<2, 4>>, <<3, 4>>, <<3, 5>>, <<2, 5>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<2, 5>>, <<3, 5>>, <<3, 4>>, <<4, 4>>, <<4, 5>>, <<4, 6>>, <<3, 6>>, <<2, 6>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>, <<0, 9>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>, <<0, 3>>>>, <<<<4, 2>>, <<5, 2>>, <<5, 3>>, <<5, 4>>, <<4, 4>>, <<4, 3>>>>, <<<<4, 6>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<4, 8>>, <<4, 7>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>, <<0, 3>>>>, <<<<0, 6>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<0, 8>>, <<0, 7>>>>, <<<<1, 5>>, <<2, 5>>, <<3, 5>>, <<4, 5>>, <<4, 6>>, <<3, 6>>, <<2, 6>>, <<1, 6>>>>, <<<<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>>>, <<<<4, 3>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<4, 5>>, <<4, 4>>>>>>,
  <<<<<<0, 8>>, <<1, 8>>, <<2, 8>>, <<2, 7>>, <<2, 6>>, <<2, 5>>, <<2, 4>>, <<2, 3>>, <<2, 2>>, <<3, 2>>, <<3, 3>>, <<3, 4>>, <<3, 5>>, <<3, 6>>, <<3, 7>>, <<3, 8>>, <<4, 8>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>, <<0, 9>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<1, 9>>, <<0, 9>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>>>, <<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>>>, <<<<4, 3>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<4, 8>>, <<4, 7>>, <<4, 6>>, <<4, 5>>, <<4, 4>>>>>>,
  <<<<<<0, 5>>, <<1, 5>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<1, 9>>, <<0, 9>>, <<0, 8>>, <<0, 7>>, <<0, 6>>>>, <<<<1, 3>>, <<2, 3>>, <<2, 4>>, <<2, 5>>, <<1, 5>>, <<1, 4>>>>, <<<<2, 2>>, <<3, 2>>, <<3, 3>>, <<2, 3>>>>, <<<<3, 3>>, <<4, 3>>, <<4, 4>>, <<4, 5>>, <<3, 5>>, <<3, 4>>>>, <<<<4, 5>>, <<5, 5>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<4, 8>>, <<4, 7>>, <<4, 6>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<1, 9>>, <<0, 9>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>>>, <<<<1, 2>>, <<2, 2>>, <<2, 3>>, <<1, 3>>>>, <<<<2, 3>>, <<3, 3>>, <<3, 4>>, <<3, 5>>, <<3, 6>>, <<2, 6>>, <<2, 5>>, <<2, 4>>>>, <<<<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>>>, <<<<4, 3>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<4, 8>>, <<4, 7>>, <<4, 6>>, <<4, 5>>, <<4, 4>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<0, 4>>, <<0, 3>>>>, <<<<0, 7>>, <<1, 7>>, <<1, 8>>, <<1, 9>>, <<0, 9>>, <<0, 8>>>>, <<<<1, 4>>, <<2, 4>>, <<2, 5>>, <<1, 5>>>>, <<<<1, 6>>, <<2, 6>>, <<2, 7>>, <<1, 7>>>>, <<<<2, 5>>, <<3, 5>>, <<3, 6>>, <<2, 6>>>>, <<<<3, 4>>, <<4, 4>>, <<4, 5>>, <<3, 5>>>>, <<<<3, 6>>, <<4, 6>>, <<4, 7>>, <<3, 7>>>>, <<<<4, 2>>, <<5, 2>>, <<5, 3>>, <<5, 4>>, <<4, 4>>, <<4, 3>>>>, <<<<4, 7>>, <<5, 7>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<4, 8>>>>>>,
  <<<<<<0, 7>>, <<1, 7>>, <<1, 8>>, <<1, 9>>, <<0, 9>>, <<0, 8>>>>, <<<<1, 5>>, <<2, 5>>, <<2, 6>>, <<2, 7>>, <<1, 7>>, <<1, 6>>>>, <<<<2, 2>>, <<3, 2>>, <<3, 3>>, <<3, 4>>, <<3, 5>>, <<2, 5>>, <<2, 4>>, <<2, 3>>>>, <<<<3, 5>>, <<4, 5>>, <<4, 6>>, <<4, 7>>, <<3, 7>>, <<3, 6>>>>, <<<<4, 7>>, <<5, 7>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<4, 8>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<5, 2>>, <<5, 3>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>, <<1, 4>>, <<0, 4>>, <<0, 3>>>>, <<<<0, 8>>, <<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<4, 7>>, <<5, 7>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>, <<0, 9>>>>, <<<<1, 4>>, <<2, 4>>, <<2, 5>>, <<1, 5>>>>, <<<<2, 5>>, <<3, 5>>, <<3, 6>>, <<2, 6>>>>, <<<<3, 6>>, <<4, 6>>, <<4, 7>>, <<3, 7>>>>>>,
  <<<<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<2, 4>>, <<2, 5>>, <<2, 6>>, <<2, 7>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>, <<1, 8>>, <<1, 7>>, <<1, 6>>, <<1, 5>>, <<1, 4>>, <<1, 3>>>>>>,
  <<<<<<0, 7>>, <<1, 7>>, <<1, 8>>, <<1, 9>>, <<0, 9>>, <<0, 8>>>>, <<<<1, 6>>, <<2, 6>>, <<2, 7>>, <<1, 7>>>>, <<<<2, 5>>, <<3, 5>>, <<3, 6>>, <<2, 6>>>>, <<<<3, 4>>, <<4, 4>>, <<4, 5>>, <<3, 5>>>>, <<<<4, 2>>, <<5, 2>>, <<5, 3>>, <<5, 4>>, <<4, 4>>, <<4, 3>>>>>>,
  <<<<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<4, 4>>, <<4, 5>>, <<4, 6>>, <<4, 7>>, <<4, 8>>, <<4, 9>>, <<3, 9>>, <<2, 9>>, <<1, 9>>, <<1, 8>>, <<2, 8>>, <<3, 8>>, <<3, 7>>, <<3, 6>>, <<3, 5>>, <<3, 4>>, <<3, 3>>, <<2, 3>>, <<1, 3>>>>>>,
  <<<<<<0, 6>>, <<1, 6>>, <<1, 7>>, <<0, 7>>>>, <<<<1, 7>>, <<2, 7>>, <<2, 8>>, <<1, 8>>>>, <<<<2, 8>>, <<3, 8>>, <<3, 9>>, <<2, 9>>>>, <<<<3, 7>>, <<4, 7>>, <<4, 8>>, <<3, 8>>>>, <<<<4, 6>>, <<5, 6>>, <<5, 7>>, <<4, 7>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<5, 2>>, <<5, 3>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>, <<0, 3>>>>>>,
  <<<<<<1, 8>>, <<2, 8>>, <<2, 9>>, <<1, 9>>>>, <<<<2, 7>>, <<3, 7>>, <<3, 8>>, <<2, 8>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<0, 4>>>>, <<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<5, 2>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<4, 6>>, <<4, 5>>, <<3, 5>>, <<2, 5>>, <<1, 5>>, <<1, 4>>, <<2, 4>>, <<3, 4>>, <<4, 4>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>>>, <<<<1, 6>>, <<2, 6>>, <<3, 6>>, <<4, 6>>, <<4, 7>>, <<3, 7>>, <<2, 7>>, <<1, 7>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<2, 6>>, <<3, 6>>, <<4, 6>>, <<4, 7>>, <<3, 7>>, <<2, 7>>, <<1, 7>>, <<1, 8>>, <<1, 9>>, <<0, 9>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>, <<0, 3>>>>, <<<<4, 3>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<4, 6>>, <<4, 5>>, <<4, 4>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<0, 6>>, <<0, 5>>, <<0, 4>>>>, <<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<5, 2>>, <<5, 3>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>>>, <<<<1, 6>>, <<2, 6>>, <<3, 6>>, <<4, 6>>, <<5, 6>>, <<5, 7>>, <<4, 7>>, <<3, 7>>, <<2, 7>>, <<1, 7>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<0, 6>>, <<0, 5>>, <<0, 4>>>>, <<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<5, 2>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<4, 8>>, <<4, 7>>, <<3, 7>>, <<2, 7>>, <<1, 7>>, <<1, 6>>, <<2, 6>>, <<3, 6>>, <<4, 6>>, <<4, 5>>, <<4, 4>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<2, 4>>, <<3, 4>>, <<4, 4>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<4, 6>>, <<4, 5>>, <<3, 5>>, <<2, 5>>, <<1, 5>>, <<1, 6>>, <<0, 6>>, <<0, 5>>, <<0, 4>>>>, <<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>>>, <<<<1, 6>>, <<2, 6>>, <<3, 6>>, <<4, 6>>, <<4, 7>>, <<3, 7>>, <<2, 7>>, <<1, 7>>>>>>,
  <<<<<<0, 5>>, <<1, 5>>, <<1, 4>>, <<1, 3>>, <<1, 2>>, <<2, 2>>, <<2, 3>>, <<2, 4>>, <<2, 5>>, <<3, 5>>, <<4, 5>>, <<4, 6>>, <<3, 6>>, <<2, 6>>, <<2, 7>>, <<2, 8>>, <<1, 8>>, <<1, 7>>, <<1, 6>>, <<0, 6>>>>, <<<<2, 8>>, <<3, 8>>, <<4, 8>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<3, 9>>, <<2, 9>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<0, 6>>, <<0, 5>>, <<0, 4>>>>, <<<<1, 0>>, <<2, 0>>, <<3, 0>>, <<4, 0>>, <<4, 1>>, <<3, 1>>, <<2, 1>>, <<1, 1>>>>, <<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 1>>, <<5, 1>>, <<5, 2>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<4, 6>>, <<4, 5>>, <<4, 4>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>>>, <<<<1, 6>>, <<2, 6>>, <<3, 6>>, <<4, 6>>, <<4, 7>>, <<3, 7>>, <<2, 7>>, <<1, 7>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<2, 6>>, <<3, 6>>, <<4, 6>>, <<4, 7>>, <<3, 7>>, <<2, 7>>, <<1, 7>>, <<1, 8>>, <<1, 9>>, <<0, 9>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>, <<0, 3>>>>, <<<<4, 2>>, <<5, 2>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<4, 6>>, <<4, 5>>, <<4, 4>>, <<4, 3>>>>>>,
  <<<<<<1, 6>>, <<2, 6>>, <<2, 5>>, <<2, 4>>, <<2, 3>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<3, 4>>, <<3, 5>>, <<3, 6>>, <<3, 7>>, <<2, 7>>, <<1, 7>>>>, <<<<2, 8>>, <<3, 8>>, <<3, 9>>, <<2, 9>>>>>>,
  <<<<<<0, 0>>, <<1, 0>>, <<2, 0>>, <<2, 1>>, <<1, 1>>, <<0, 1>>>>, <<<<1, 6>>, <<2, 6>>, <<2, 5>>, <<2, 4>>, <<2, 3>>, <<2, 2>>, <<2, 1>>, <<3, 1>>, <<3, 2>>, <<3, 3>>, <<3, 4>>, <<3, 5>>, <<3, 6>>, <<3, 7>>, <<2, 7>>, <<1, 7>>>>, <<<<2, 8>>, <<3, 8>>, <<3, 9>>, <<2, 9>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 4>>, <<3, 4>>, <<3, 5>>, <<2, 5>>, <<1, 5>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<1, 9>>, <<0, 9>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>, <<0, 3>>>>, <<<<3, 3>>, <<4, 3>>, <<4, 4>>, <<3, 4>>>>, <<<<3, 5>>, <<4, 5>>, <<4, 6>>, <<3, 6>>>>, <<<<4, 2>>, <<5, 2>>, <<5, 3>>, <<4, 3>>>>, <<<<4, 6>>, <<5, 6>>, <<5, 7>>, <<4, 7>>>>>>,
  <<<<<<1, 8>>, <<2, 8>>, <<2, 7>>, <<2, 6>>, <<2, 5>>, <<2, 4>>, <<2, 3>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<3, 4>>, <<3, 5>>, <<3, 6>>, <<3, 7>>, <<3, 8>>, <<3, 9>>, <<2, 9>>, <<1, 9>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<2, 6>>, <<2, 5>>, <<2, 4>>, <<2, 3>>, <<2, 2>>, <<3, 2>>, <<3, 3>>, <<3, 4>>, <<3, 5>>, <<3, 6>>, <<4, 6>>, <<4, 7>>, <<3, 7>>, <<2, 7>>, <<1, 7>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>, <<0, 3>>>>, <<<<4, 2>>, <<5, 2>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<4, 6>>, <<4, 5>>, <<4, 4>>, <<4, 3>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<2, 6>>, <<3, 6>>, <<4, 6>>, <<4, 7>>, <<3, 7>>, <<2, 7>>, <<1, 7>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>, <<0, 3>>>>, <<<<4, 2>>, <<5, 2>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<4, 6>>, <<4, 5>>, <<4, 4>>, <<4, 3>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<0, 6>>, <<0, 5>>, <<0, 4>>>>, <<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>>>, <<<<1, 6>>, <<2, 6>>, <<3, 6>>, <<4, 6>>, <<4, 7>>, <<3, 7>>, <<2, 7>>, <<1, 7>>>>, <<<<4, 3>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<4, 6>>, <<4, 5>>, <<4, 4>>>>>>,
  <<<<<<0, 0>>, <<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<2, 6>>, <<3, 6>>, <<4, 6>>, <<4, 7>>, <<3, 7>>, <<2, 7>>, <<1, 7>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>, <<0, 3>>, <<0, 2>>, <<0, 1>>>>, <<<<4, 3>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<4, 6>>, <<4, 5>>, <<4, 4>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<0, 6>>, <<0, 5>>, <<0, 4>>>>, <<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 1>>, <<4, 0>>, <<5, 0>>, <<5, 1>>, <<5, 2>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<4, 6>>, <<4, 5>>, <<4, 4>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>>>, <<<<1, 6>>, <<2, 6>>, <<3, 6>>, <<4, 6>>, <<4, 7>>, <<3, 7>>, <<2, 7>>, <<1, 7>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<2, 5>>, <<3, 5>>, <<3, 6>>, <<2, 6>>, <<1, 6>>, <<1, 7>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>, <<0, 3>>>>, <<<<3, 6>>, <<4, 6>>, <<5, 6>>, <<5, 7>>, <<4, 7>>, <<3, 7>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>, <<0, 3>>>>, <<<<0, 5>>, <<1, 5>>, <<1, 6>>, <<0, 6>>>>, <<<<1, 4>>, <<2, 4>>, <<3, 4>>, <<4, 4>>, <<4, 5>>, <<3, 5>>, <<2, 5>>, <<1, 5>>>>, <<<<1, 6>>, <<2, 6>>, <<3, 6>>, <<4, 6>>, <<5, 6>>, <<5, 7>>, <<4, 7>>, <<3, 7>>, <<2, 7>>, <<1, 7>>>>, <<<<4, 3>>, <<5, 3>>, <<5, 4>>, <<4, 4>>>>>>,
  <<<<<<1, 6>>, <<2, 6>>, <<2, 5>>, <<2, 4>>, <<2, 3>>, <<3, 3>>, <<3, 4>>, <<3, 5>>, <<3, 6>>, <<4, 6>>, <<5, 6>>, <<5, 7>>, <<4, 7>>, <<3, 7>>, <<3, 8>>, <<3, 9>>, <<2, 9>>, <<2, 8>>, <<2, 7>>, <<1, 7>>>>, <<<<3, 2>>, <<4, 2>>, <<5, 2>>, <<5, 3>>, <<4, 3>>, <<3, 3>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<1, 7>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>>>, <<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>>>, <<<<4, 3>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<5, 7>>, <<4, 7>>, <<4, 6>>, <<4, 5>>, <<4, 4>>>>>>,
  <<<<<<0, 5>>, <<1, 5>>, <<1, 6>>, <<1, 7>>, <<0, 7>>, <<0, 6>>>>, <<<<1, 3>>, <<2, 3>>, <<2, 4>>, <<2, 5>>, <<1, 5>>, <<1, 4>>>>, <<<<2, 2>>, <<3, 2>>, <<3, 3>>, <<2, 3>>>>, <<<<3, 3>>, <<4, 3>>, <<4, 4>>, <<4, 5>>, <<3, 5>>, <<3, 4>>>>, <<<<4, 5>>, <<5, 5>>, <<5, 6>>, <<5, 7>>, <<4, 7>>, <<4, 6>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<1, 7>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>>>, <<<<1, 2>>, <<2, 2>>, <<2, 3>>, <<1, 3>>>>, <<<<2, 3>>, <<3, 3>>, <<3, 4>>, <<3, 5>>, <<3, 6>>, <<2, 6>>, <<2, 5>>, <<2, 4>>>>, <<<<3, 2>>, <<4, 2>>, <<4, 3>>, <<3, 3>>>>, <<<<4, 3>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<5, 7>>, <<4, 7>>, <<4, 6>>, <<4, 5>>, <<4, 4>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<1, 3>>, <<0, 3>>>>, <<<<0, 6>>, <<1, 6>>, <<1, 7>>, <<0, 7>>>>, <<<<1, 3>>, <<2, 3>>, <<2, 4>>, <<1, 4>>>>, <<<<1, 5>>, <<2, 5>>, <<2, 6>>, <<1, 6>>>>, <<<<2, 4>>, <<3, 4>>, <<3, 5>>, <<2, 5>>>>, <<<<3, 3>>, <<4, 3>>, <<4, 4>>, <<3, 4>>>>, <<<<3, 5>>, <<4, 5>>, <<4, 6>>, <<3, 6>>>>, <<<<4, 2>>, <<5, 2>>, <<5, 3>>, <<4, 3>>>>, <<<<4, 6>>, <<5, 6>>, <<5, 7>>, <<4, 7>>>>>>,
  <<<<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<1, 7>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>>>, <<<<1, 0>>, <<2, 0>>, <<3, 0>>, <<4, 0>>, <<4, 1>>, <<3, 1>>, <<2, 1>>, <<1, 1>>>>, <<<<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 1>>, <<5, 1>>, <<5, 2>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<5, 7>>, <<4, 7>>, <<4, 6>>, <<4, 5>>, <<4, 4>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<1, 3>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<5, 2>>, <<5, 3>>, <<4, 3>>, <<3, 3>>, <<2, 3>>, <<2, 4>>, <<1, 4>>, <<1, 3>>, <<0, 3>>>>, <<<<0, 6>>, <<1, 6>>, <<2, 6>>, <<3, 6>>, <<3, 5>>, <<4, 5>>, <<4, 6>>, <<5, 6>>, <<5, 7>>, <<4, 7>>, <<3, 7>>, <<2, 7>>, <<1, 7>>, <<0, 7>>>>, <<<<2, 4>>, <<3, 4>>, <<3, 5>>, <<2, 5>>>>>>,
  <<<<<<1, 5>>, <<2, 5>>, <<2, 4>>, <<2, 3>>, <<3, 3>>, <<3, 4>>, <<3, 5>>, <<3, 6>>, <<3, 7>>, <<3, 8>>, <<2, 8>>, <<2, 7>>, <<2, 6>>, <<1, 6>>>>, <<<<3, 2>>, <<4, 2>>, <<5, 2>>, <<5, 3>>, <<4, 3>>, <<3, 3>>>>, <<<<3, 8>>, <<4, 8>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<3, 9>>>>>>,
  <<<<<<2, 2>>, <<3, 2>>, <<3, 3>>, <<3, 4>>, <<3, 5>>, <<3, 6>>, <<3, 7>>, <<3, 8>>, <<3, 9>>, <<2, 9>>, <<2, 8>>, <<2, 7>>, <<2, 6>>, <<2, 5>>, <<2, 4>>, <<2, 3>>>>>>,
  <<<<<<0, 2>>, <<1, 2>>, <<2, 2>>, <<2, 3>>, <<1, 3>>, <<0, 3>>>>, <<<<0, 8>>, <<1, 8>>, <<2, 8>>, <<2, 9>>, <<1, 9>>, <<0, 9>>>>, <<<<2, 3>>, <<3, 3>>, <<3, 4>>, <<3, 5>>, <<4, 5>>, <<4, 6>>, <<3, 6>>, <<3, 7>>, <<3, 8>>, <<2, 8>>, <<2, 7>>, <<2, 6>>, <<2, 5>>, <<2, 4>>>>>>,
  <<<<<<0, 6>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<0, 8>>, <<0, 7>>>>, <<<<1, 8>>, <<2, 8>>, <<2, 9>>, <<1, 9>>>>, <<<<2, 7>>, <<3, 7>>, <<3, 8>>, <<2, 8>>>>, <<<<3, 6>>, <<4, 6>>, <<4, 7>>, <<3, 7>>>>, <<<<4, 7>>, <<5, 7>>, <<5, 8>>, <<5, 9>>, <<4, 9>>, <<4, 8>>>>>>>>
=============================================================================
