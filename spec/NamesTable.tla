---------------------------- MODULE NamesTable ----------------------------
(* Vocabulary and file-name templates, spelled out letter by letter.          *)
(* Generated once by tools (see DESIGN.md); the code under test is not read.   *)
Canonical == <<
  <<"s", "a">>,
  <<"s", "s", "a">>,
  <<"m", "m">>,
  <<"m", "s", "f">>,
  <<"m", "t">>,
  <<"m", "f">>,
  <<"a", "l", "p", "h", "a", "1">>,
  <<"2", "q", "1">>,
  <<"s", "i", "g", "m", "a", "1">>,
  <<"q", "1">>,
  <<"r", "h", "o", "1">>,
  <<"o", "1">>,
  <<"t", "a", "u", "1">>,
  <<"m", "1">>,
  <<"c", "h", "i", "1">>,
  <<"p", "i", "1">>,
  <<"p", "1">>,
  <<"s", "1">>,
  <<"k", "1">>,
  <<"p", "s", "i", "1">>,
  <<"p", "h", "i", "1">>,
  <<"b", "e", "t", "a", "1">>,
  <<"t", "h", "e", "t", "a", "1">>,
  <<"j", "1">>,
  <<"o", "o", "1">>,
  <<"2", "n", "2">>,
  <<"m", "u", "2">>,
  <<"n", "2">>,
  <<"n", "u", "2">>,
  <<"m", "2">>,
  <<"m", "2", "a">>,
  <<"m", "2", "b">>,
  <<"l", "a", "m", "b", "d", "a", "2">>,
  <<"l", "2">>,
  <<"t", "2">>,
  <<"s", "2">>,
  <<"a", "l", "p", "h", "a", "2">>,
  <<"b", "e", "t", "a", "2">>,
  <<"d", "e", "l", "t", "a", "2">>,
  <<"g", "a", "m", "m", "a", "2">>,
  <<"r", "2">>,
  <<"k", "2">>,
  <<"e", "t", "a", "2">>,
  <<"m", "n", "s", "2">>,
  <<"2", "s", "m", "2">>,
  <<"m", "3">>,
  <<"m", "k", "3">>,
  <<"s", "3">>,
  <<"m", "n", "4">>,
  <<"m", "4">>,
  <<"m", "s", "4">>,
  <<"m", "k", "4">>,
  <<"s", "o", "1">>,
  <<"s", "4">>,
  <<"s", "5">>,
  <<"m", "6">>,
  <<"s", "6">>,
  <<"s", "7">>,
  <<"s", "8">>,
  <<"m", "8">>,
  <<"m", "k", "s", "2">>,
  <<"m", "s", "q", "m">>,
  <<"m", "t", "m">>,
  <<"n", "4">>,
  <<"e", "p", "s", "2">>,
  <<"u", "p", "s", "1">>,
  <<"z", "0">>,
  <<"n", "o", "d", "e">> >>
(* abbreviations used by producers: <<spelling, canonical>> *)
Abbrev == <<
  <<<<"2", "n">>, <<"2", "n", "2">>>>,
  <<<<"a", "l", "p", "1">>, <<"a", "l", "p", "h", "a", "1">>>>,
  <<<<"a", "l", "p", "2">>, <<"a", "l", "p", "h", "a", "2">>>>,
  <<<<"b", "e", "t", "1">>, <<"b", "e", "t", "a", "1">>>>,
  <<<<"b", "e", "t", "2">>, <<"b", "e", "t", "a", "2">>>>,
  <<<<"d", "e", "l", "2">>, <<"d", "e", "l", "t", "a", "2">>>>,
  <<<<"e", "2">>, <<"e", "p", "s", "2">>>>,
  <<<<"e", "p", "2">>, <<"e", "p", "s", "2">>>>,
  <<<<"g", "a", "m", "2">>, <<"g", "a", "m", "m", "a", "2">>>>,
  <<<<"l", "a", "2">>, <<"l", "a", "m", "b", "d", "a", "2">>>>,
  <<<<"l", "a", "m", "2">>, <<"l", "a", "m", "b", "d", "a", "2">>>>,
  <<<<"l", "m", "2">>, <<"l", "a", "m", "b", "d", "a", "2">>>>,
  <<<<"m", "s", "q">>, <<"m", "s", "q", "m">>>>,
  <<<<"o", "m", "e", "g", "a", "0">>, <<"n", "o", "d", "e">>>>,
  <<<<"o", "m", "0">>, <<"n", "o", "d", "e">>>>,
  <<<<"r", "h", "o">>, <<"r", "h", "o", "1">>>>,
  <<<<"s", "i", "g", "1">>, <<"s", "i", "g", "m", "a", "1">>>>,
  <<<<"t", "h", "e", "1">>, <<"t", "h", "e", "t", "a", "1">>>> >>
(* templates: <<prefix, suffix>> (lower case letters only matter for scanning) *)
Templates == <<
  <<<<>>, <<>>>>,
  <<<<>>, <<".", "n", "c">>>>,
  <<<<"h", "_">>, <<"_", "t", "p", "x", "o", "9", "_", "a", "t", "l", "a", "s", "_", "3", "0", "_", "v", "5", ".", "n", "c">>>>,
  <<<<"u", "_">>, <<"_", "t", "p", "x", "o", "8", "_", "a", "t", "l", "a", "s", "_", "3", "0", "c", "_", "v", "1">>>>,
  <<<<"v", "_">>, <<"_", "t", "p", "x", "o", "1", "0", "_", "a", "t", "l", "a", "s", "_", "3", "0", "_", "v", "2", ".", "n", "c">>>>,
  <<<<>>, <<"_", "o", "c", "e", "a", "n", "_", "e", "o", "t", "2", "0", ".", "n", "c">>>>,
  <<<<>>, <<"_", "l", "o", "a", "d", "_", "e", "o", "t", "2", "0", ".", "n", "c">>>>,
  <<<<>>, <<".", "h", "a", "m", "t", "i", "d", "e", "1", "1", "a", ".", "n", "c">>>>,
  <<<<"H", "A", "M", "c", "u", "r", "r", "e", "n", "t", "1", "1", "a", "_">>, <<".", "n", "c">>>>,
  <<<<>>, <<".", "d">>>>,
  <<<<>>, <<"l", "o", "a", "d", ".", "d">>>>,
  <<<<>>, <<"l", "o", "a", "d", ".", "n", "c">>>>,
  <<<<>>, <<"x", ".", "n", "c">>>>,
  <<<<>>, <<"_", "5", ".", "5", "D", ".", "n", "c">>>>,
  <<<<>>, <<"_", "5", ".", "5", "D", "x", ".", "n", "c">>>>,
  <<<<>>, <<"_", "f", "e", "s", "2", "0", "1", "4", ".", "n", "c">>>>,
  <<<<>>, <<"_", "F", "E", "S", "2", "0", "1", "2", "_", "S", "L", "E", "V", ".", "n", "c">>>>,
  <<<<>>, <<"_", "f", "e", "s", "2", "0", "2", "2", ".", "n", "c">>>>,
  <<<<>>, <<"_", "D", "T", "U", "2", "3", ".", "d">>>>,
  <<<<>>, <<"_", "R", "E", "1", "4", "_", "o", "c", "e", "a", "n", "t", "i", "d", "e", ".", "n", "c">>>>,
  <<<<>>, <<".", "a", "s", "c", ".", "g", "z">>>>,
  <<<<>>, <<"c", "f", ".", "d">>>>,
  <<<<"D", "T", "U", "2", "3", "_">>, <<".", "n", "c">>>>,
  <<<<>>, <<"-", "t", "i", "d", "e">>>>,
  <<<<"t", "i", "d", "e", "(">>, <<")">>>> >>
Junk == <<
  <<"g", "r", "i", "d", ".", "n", "c">>,
  <<"d", "e", "p", "t", "h", ".", "n", "c">>,
  <<"x", "y", "z">>,
  <<"b", "a", "t", "h", "y">>,
  <<"r", "e", "a", "d", "m", "e">>,
  <<"m", "o", "d", "e", "l", "_", "v", "5">>,
  <<"h", "f", ".", "A", "r", "c">>,
  <<"a", "t", "l", "a", "s">>,
  <<"g", "r", "i", "d", "_", "t", "p", "x", "o">>,
  <<"U", "V", ".", "o", "u", "t">> >>
=============================================================================
