------------------------------ MODULE JoeKuo --------------------------------
(* The first dimensions of the Joe-Kuo table new-joe-kuo-6.21201: degree s and *)
(* inner coefficients a of the primitive polynomial, initial numbers m_1..m_s. *)
(* The whole table is data/joekuo.txt, read by the harness.                    *)
Table == <<
  [s |-> 0, a |-> 0, m |-> <<>>],
  [s |-> 1, a |-> 0, m |-> <<1>>],
  [s |-> 2, a |-> 1, m |-> <<1, 3>>],
  [s |-> 3, a |-> 1, m |-> <<1, 3, 1>>],
  [s |-> 3, a |-> 2, m |-> <<1, 1, 1>>],
  [s |-> 4, a |-> 1, m |-> <<1, 1, 3, 3>>],
  [s |-> 4, a |-> 4, m |-> <<1, 3, 5, 13>>],
  [s |-> 5, a |-> 2, m |-> <<1, 1, 5, 5, 17>>],
  [s |-> 5, a |-> 4, m |-> <<1, 1, 5, 5, 5>>],
  [s |-> 5, a |-> 7, m |-> <<1, 1, 7, 11, 19>>],
  [s |-> 5, a |-> 11, m |-> <<1, 1, 5, 1, 1>>],
  [s |-> 5, a |-> 13, m |-> <<1, 1, 1, 3, 11>>],
  [s |-> 5, a |-> 14, m |-> <<1, 3, 5, 5, 31>>],
  [s |-> 6, a |-> 1, m |-> <<1, 3, 3, 9, 7, 49>>],
  [s |-> 6, a |-> 13, m |-> <<1, 1, 1, 15, 21, 21>>],
  [s |-> 6, a |-> 16, m |-> <<1, 3, 1, 13, 27, 49>>],
  [s |-> 6, a |-> 19, m |-> <<1, 1, 1, 15, 7, 5>>],
  [s |-> 6, a |-> 22, m |-> <<1, 3, 1, 15, 13, 25>>],
  [s |-> 6, a |-> 25, m |-> <<1, 1, 5, 5, 19, 61>>],
  [s |-> 7, a |-> 1, m |-> <<1, 3, 7, 11, 23, 15, 103>>],
  [s |-> 7, a |-> 4, m |-> <<1, 3, 7, 13, 13, 15, 69>>],
  [s |-> 7, a |-> 7, m |-> <<1, 1, 3, 13, 7, 35, 63>>],
  [s |-> 7, a |-> 8, m |-> <<1, 3, 5, 9, 1, 25, 53>>],
  [s |-> 7, a |-> 14, m |-> <<1, 3, 1, 13, 9, 35, 107>>],
  [s |-> 7, a |-> 19, m |-> <<1, 3, 1, 5, 27, 61, 31>>],
  [s |-> 7, a |-> 21, m |-> <<1, 1, 5, 11, 19, 41, 61>>],
  [s |-> 7, a |-> 28, m |-> <<1, 3, 5, 3, 3, 13, 69>>],
  [s |-> 7, a |-> 31, m |-> <<1, 1, 7, 13, 1, 19, 1>>],
  [s |-> 7, a |-> 32, m |-> <<1, 3, 7, 5, 13, 19, 59>>],
  [s |-> 7, a |-> 37, m |-> <<1, 1, 3, 9, 25, 29, 41>>],
  [s |-> 7, a |-> 41, m |-> <<1, 3, 5, 13, 23, 1, 55>>],
  [s |-> 7, a |-> 42, m |-> <<1, 3, 7, 3, 13, 59, 17>>],
  [s |-> 7, a |-> 50, m |-> <<1, 3, 1, 3, 5, 53, 69>>],
  [s |-> 7, a |-> 55, m |-> <<1, 1, 5, 5, 23, 33, 13>>],
  [s |-> 7, a |-> 56, m |-> <<1, 1, 7, 7, 1, 61, 123>>],
  [s |-> 7, a |-> 59, m |-> <<1, 1, 7, 9, 13, 61, 49>>],
  [s |-> 7, a |-> 62, m |-> <<1, 3, 3, 5, 3, 55, 33>>],
  [s |-> 8, a |-> 14, m |-> <<1, 3, 1, 15, 31, 13, 49, 245>>],
  [s |-> 8, a |-> 21, m |-> <<1, 3, 5, 15, 31, 59, 63, 97>>],
  [s |-> 8, a |-> 22, m |-> <<1, 3, 1, 11, 11, 11, 77, 249>>]
>>
=============================================================================
