------------------------------ MODULE Alphabets -----------------------------
(* The lines free documents are made of, and the lines they start with, for  *)
(* each property: chosen so that every rule the property is about is in      *)
(* play (see DESIGN.md).                                                     *)
EXTENDS Text

Head1 == <<"msgid \"\"", "msgstr \"\"">>
HeadMax == <<"msgid \"\"", "msgstr \"Plural-Forms: nplurals=18446744073709551615; plural=-n;\\n\"">>
Head3 == <<"msgid \"\"", "msgstr \"Plural-Forms: nplurals=3; plural=n;\\n\"">>

(* Starts: the documents begin with one of these.                            *)
Starts(prop) ==
  CASE prop \in {"C01", "C05", "C06", "C15", "C19"} -> {<<>>, Head1}
    [] prop \in {"C03", "C07", "C17", "C02", "C04"} -> {Head1}
    [] prop = "C16" -> {<<>>, Head1, Head3}
    [] prop = "C14" -> {<<>>, Head1}
    [] prop = "C08" -> {<<>>}
    [] prop = "C20" -> {Head3}
    [] OTHER -> {<<>>, Head3}

LinesOf(prop) ==
  CASE prop = "C01" ->
         <<"msgid \"a\"", "msgid \"b\"", "msgstr \"x\"", "msgstr \"\"", "msgctxt \"c\"",
           "msgid_plural \"p\"", "msgstr[0] \"y\"", "msgstr[1] \"z\"", "\"w\"", "# t", "", "#~ msgid \"a\"", "#~ msgstr \"x\"">>
    [] prop = "C02" ->
         <<"msgid \"a\\n\"", "msgstr \"x\"", "\"\\\\n\"", "  \"y\\\"\" ", "\"\"", "\"\\q\\\\\"", "# t", "", "msgid\"b\"", "#~ \"z\"">>
    [] prop = "C03" ->
         <<"#| msgctxt \"pc\"", "#| msgid \"pi\"", "#| msgid_plural \"pp\"", "msgctxt \"c\"", "msgid \"i\"",
           "msgid_plural \"p\"", "msgstr \"s\"", "msgstr[0] \"s0\"", "msgstr[1] \"s1\"", "\"+\"", "#| \"*\"">>
    [] prop = "C04" ->
         <<"msgid \"a\"", "msgstr \"x\"", "#, fuzzy, c-format", "#,no-wrap ,range: 0..1", "#: a.c:1  b.c:2", "#:c.c:3",
           "#. dev", "# tra", "#tra", "#  tra  ", "#! other", "#", "#~ gone", "#| old", "">>
    [] prop = "C05" ->
         <<"msgid \"a\"", "msgstr \"x\"", "", "  \t", "# \"q\"", "# msgid \"z\"", "#\"q\"", "#msgid \"z\"", "#. \"q\"",
           "#, \"q\"", "#: msgstr \"q\"", "#~ q", "#| q", "  # q", "\tmsgid \"a\" ", "#">>
    [] prop = "C06" ->
         <<"msgid \"a\"", "msgstr \"x\"", "msgstr \"\"", "msgid_plural \"p\"", "msgstr[0] \"\"", "msgstr[1] \"y\"",
           "#, fuzzy", "#,fuzzy,c-format", "#, c-format, fuzzy ", "#, fuzzyx", "# fuzzy", "\"\"", "#~ msgid \"a\"", "#~ msgstr \"x\"">>
    [] prop = "C07" ->
         <<"#~ msgid \"a\"", "#~ msgstr \"x\"", "#~ \"+\"", "#~msgctxt \"c\"", "#~| msgid \"o\"", "#~| \"*\"",
           "msgid \"a\"", "msgstr \"x\"", "\"+\"", "#| msgid \"o\"", "#~ msgid_plural \"p\"", "#~ msgstr[0] \"y\"",
           "# t", "#~| msgctxt \"oc\"", "#~| msgid_plural \"op\"", "#| msgid_plural \"np\"", "#| msgctxt \"nc\"", "#| \"*\"">>
    [] prop = "C08" ->
         <<"msgid \"\"", "msgstr \"K: v\\n\"", "\"K:w\\nL : a:b\\n\"", "msgctxt \"c\"", "msgid \"a\"", "msgstr \"x\"",
           "# note", "#. dev", "#! c", "msgid_plural \"\"", "msgstr[0] \"z\"", "msgstr \"\"", "#~ msgid \"\"">>
    [] prop = "C14" ->
         <<"msgid \"a\"", "msgstr \"x\"", "\"+\"", "# t", "", "msgid_plural \"p\"", "msgstr[0] \"y\"", "bad", "msgctxt \"c\"">>
    [] prop = "C15" ->
         <<"msgid \"a\"", "msgstr \"x\"", "msgid \"\"", "msgctxt \"c\"", "bad", "# t", "\"+\"", "msgstr \"Plural-Forms: x\\n\"">>
    [] prop = "C16" ->
         <<"msgid \"a\"", "msgstr \"b\"", "msgctxt \"c\"", "msgid_plural \"p\"", "msgstr[0] \"x\"", "msgstr[1] \"y\"",
           "msgstr[2] \"z\"", "\"+\"", "# t", "bad", "", "#| msgid \"o\"", "#| msgctxt \"oc\"", "#~ msgid \"a\"", "#~ msgstr \"b\"",
           "#| msgid_plural \"op\"", "msgstr[x] \"a\"", "msgid \"a\\\"", "#. d">>
    [] prop = "C17" ->
         <<"msgid \"\"", "msgid \"a\"", "msgstr \"x\"", "msgstr \"\"", "msgctxt \"c\"", "msgid_plural \"\"", "msgstr[0] \"y\"",
           "\"\"", "\"b\"", "#| msgid \"\"", "#~ msgid \"\"", "#~ msgstr \"x\"", "# t", "">>
    [] prop = "C19" ->
         <<"msgid \"a\"", "msgstr \"x\"", "\"+\"", "# t", "", "msgid_plural \"p\"", "msgstr[0] \"y\"", "msgstr[1] \"z\"", "bad">>
    [] prop = "C22" ->
         <<"msgid \"a\"", "msgstr \"x\"", "msgctxt \"c\"", "msgid_plural \"p\"", "msgstr[0] \"y\"", "msgstr[1] \"z\"", "msgid \"\"",
           "\"+\"", "#", "#, fuzzy", "bad", "#~ msgid \"a\"", "#~ msgstr \"b\"", "", "#| msgid \"o\"", "msgstr[18446744073709551616] \"w\"">>
    [] prop = "C23" ->
         <<"msgid \"a\"", "msgstr \"x\"", "bad \"", "msgid \"\"", "msgctxt \"c\"", "msgid_plural \"p\"", "msgstr[0] \"y\"", "msgstr[2] \"z\"",
           "\"+\"", "# t", "", "#| msgid \"o\"", "#~ msgstr \"b\"", "\"Plural-Forms: x\"">>
    [] OTHER ->
         <<"msgid \"a\"", "msgstr \"x\"", "msgctxt \"c\"", "msgid_plural \"p\"", "msgstr[0] \"y\"", "msgstr[1] \"z\"",
           "\"+\"", "# t", "#, fuzzy", "bad", "#~ msgid \"a\"", "#~ msgstr \"b\"", "">>

(* With a failing stream as one more possibility?                            *)
Failing(prop) == prop \in {"C14", "C15", "C19", "C23"}
=============================================================================
