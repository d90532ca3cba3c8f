"""Writes the alphabets (kept as a script because TLC wants ASCII-escaped JSON)."""
import json, os
L = lambda *x: [i + "\n" for i in x]
A = {
    "symbols": L("define void @f1(int32 %v1) {", "}", "a1:", "  br a1", "  int32 %v1 = add int32 %v1, @g", "@g = int32 @f1",
                 "declare void @f1() !1", "!1 = \"x.cpp:3\"", "  call void @f1(), %v2 !1", "@g depends on @f1, @h", "define int8 @h() {"),
    "errors": L("define void @f() {", "}", "a:", "  br a", "@g = 1", "foo", "declare void @f(", "!1 = 2", "@g", "declare void @f()",
                "} x", "  int32 %v = add 1 , @g"),
    "flow": L("define void @f() {", "}", "a:", "b:", "  br a", "  br int1 %v, a, b", "  addbr 1, 2, cont=a, overflow=b",
              "  switch int32 1, default=a, int32 2 label=b", "  int8 %x = phi [a, 1], [b, 2]", "  ret void", "  br int32 1, a, b",
              "  switch int32 1, default=a,"),
    "numbers": L("define void @f2(int32 %v1, int32 %v2) {", "}", "b1:", "b2:", "  br b2", "  int8 %v9 = add %v2, %v10 !3", "@g2 = @f2",
                 "@g10 = @g2", "!3 = !4", "declare void @f9() !3"),
    "scopes": L("define void @f1(int32 %v1) {", "define void @f2() {", "}", "b1:", "b2:", "  int32 %v1 = add int32 %v2, b2", "  br int1 %v1, b1, b2",
                "  int8 %v2 = phi [b1, %v1]", "@v1 = %v1", "declare void @f3(int32 %v1)"),
    "lexical": ["a", "1", "0x", "\"", "#", "@", "%", "!", ":", " ", "\n", "\r\n", "$", "\U0001F600", "\u00e4", "define", "int8", "=", "\u00b2"],
    "positions": ["@g = ", "\"\u00e4\U0001F600\" ", "%v\U0001d49c ", "\n", "\r\n", "\t", "# \U0001F600", "@\u00e9 ", "define void @f() {\n", "}", "l\u00e4:",
                  "br l\u00e4 "],
    "calls": L("declare void @f1() = 0x1 !1", "declare void @f2() !1", "!1 = \"dir/a.cpp:7\"", "!1 = \"b.cpp:0\"", "!2 = \"dir/a.cpp:3\"",
               "define void @f2() {", "  call void @f1() !2", "}", "!2 = {\"backtrace\": [[\"F\", \"dir/a.cpp:9\"]]}", "@x = @f2"),
}
for k, v in A.items():
    json.dump({"items": v}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), k + ".json"), "w"))
