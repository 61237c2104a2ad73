#!/usr/bin/env python3
"""Write the "fixed" entries of known_findings.jsonl from /repo's fix commits ("known" ones are kept)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = f"{V}/known_findings.jsonl"
PROP = """9ab722b C01|076a24d C01|fce992f C01|6b75ee5 C01|207964d C01|a96dd2e C01|61a3dd9 C01|ce89acf C02|17f0339 C20|a5db0b7 C20|784d7a5 C20|1d9b6aa C20|ed360e8 C20|a26dca2 C20|0a3975c C20|6a2bb32 C02|e6c631c C06|1659ec6 C06|1766e44 C06|d5bd779 C06|d93ba7e C06|a585f41 C06|f2c101f C12|6cff117 C18|a34368a C05|4f1a500 C10|92d7162 C07|9541786 C09|19544d9 C17|b06362e C08|ef11846 C04|ae97eba C08|2815fda C04|92ae837 C17|7117ed1 C16|31cb24b C06|d1163bb C03|eb83c8f C06|3b23fd7 C03|262dd0f C03|d124b3f C13|7543ef4 C13|26038c7 C03|0397f78 C03|33c4280 C03|f3e44d2 C04|3363e93 C04|18f97ef C06|8c580ff C21|a14126d C21|b4c02ab C13|e9b003b C13|66b5521 C25"""
prop = dict(x.split() for x in PROP.split("|"))
WHAT = {
 "b4c02ab":"a write which was killed left its temporary file behind, and a later run with the same process identifier (containers) failed",
 "66b5521":"the time for a run of comments grew with the square of its length (12000 lines: six seconds)",
 "e9b003b":"write mode, run as root, gave the file of another user to root",
 "9ab722b":"modifiers and dimensions of the variable of an enhanced for were dropped: `for (final A b[] : c)`",
 "076a24d":"dimensions behind a variable name were dropped: `Integer a[];`",
 "fce992f":"only one pair of brackets of `A[][]` was printed",
 "6b75ee5":"only the first update expression of `for (;; i++, j++)` was printed",
 "207964d":"bounds of a type parameter were dropped: `<T extends A>`",
 "a96dd2e":"type parameters and dimensions of a method were dropped",
 "61a3dd9":"the dot of `a.new B()`/`a.super()` was dropped",
 "ce89acf":"`- -x` and `+ +x` became `--x` and `++x`",
 "17f0339":"only the first object of `FROM A, B` was printed",
 "a5db0b7":"only the first type of `FOR VIEW, REFERENCE` was printed",
 "784d7a5":"ALL ROWS was dropped or moved when a FOR clause follows",
 "1d9b6aa":"USING SCOPE was dropped from a query",
 "ed360e8":"UPDATE TRACKING/VIEWSTAT was dropped from a query",
 "a26dca2":"OFFSET was dropped from a search",
 "0a3975c":"only the first RETURNING clause of a search was printed; USING LOOKUP panicked",
 "6a2bb32":"`NOT (NOT a = b)` lost its parentheses and did not re-parse",
 "e6c631c":"date-time and currency literals in queries panicked",
 "1659ec6":"array initializers without new panicked: `Integer[] a = {1};`",
 "1766e44":"bound expressions as coordinates of a geo function panicked",
 "d5bd779":"WITH RecordVisibilityContext and WITH DATA CATEGORY panicked",
 "d93ba7e":"parameter names of record visibility panicked",
 "a585f41":"TYPEOF panicked",
 "f2c101f":"the results of a batch came in the order of completion",
 "6cff117":"the second format_one on a thread panicked (thread-local cells set twice)",
 "a34368a":"a malformed source with multi-byte characters near the error panicked while cutting the excerpt, with another message",
 "4f1a500":"a member on the first line underflowed a row computation (panic with overflow checks)",
 "92d7162":"text was measured in bytes, so lines with multi-byte characters broke too early",
 "9541786":"values of annotations were copied raw, with the layout of the source",
 "19544d9":"a broken for header without updates held a line of blanks",
 "b06362e":"the statement after `this(...)` and a blank line was not indented",
 "ef11846":"`if (a) ;` was printed with one more semicolon on every run",
 "ae97eba":"the statement of an else was indented in its first line only",
 "2815fda":"`else ;` was printed with one more semicolon on every run",
 "92ae837":"blanks at the end of lines (empty optional parts at a break)",
 "7117ed1":"comments after the accessors of a property moved",
 "31cb24b":"comments next to a lone semicolon were refused as erased",
 "d1163bb":"the brackets of an empty list which holds a comment were dropped",
 "eb83c8f":"a file of comments only was refused",
 "3b23fd7":"comments at the semicolons of a for header were printed twice",
 "262dd0f":"a comment in front of WITH SECURITY_ENFORCED and the like was printed twice",
 "d124b3f":"write mode truncated the file before writing: a kill or a full disk in between lost the source",
 "7543ef4":"part of the repair of write mode: a name of 255 bytes left no room for the temporary name",
 "26038c7":"`/**/` panicked or changed",
 "0397f78":"documentation comments gained or lost stars, and changed on every run",
 "8c580ff":"a blank line appeared behind a comment that follows `this(...)` at the end of a constructor",
 "a14126d":"a blank line appeared behind a comment that trails a branch of a switch",
 "18f97ef":"a nested block which holds nothing but comments, with a comment behind it, was refused as erased",
 "f3e44d2":"a block comment between list elements gained a second blank when formatted again",
 "3363e93":"a comment of several lines behind a statement (a one-line documentation comment is printed as one) moved to the next line when formatted again",
 "33c4280":"blanks and comments inside a version number (`Package.Version.1 . 0`) were copied into the output",
}
old = [json.loads(l) for l in open(F)] if os.path.exists(F) else []
known = [x for x in old if x["status"] == "known"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x09%s"], capture_output=True, text=True).stdout
with open(F, "w") as f:
    for x in known:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
    for l in log.splitlines():
        h, s = l.split("\t", 1)
        if s.startswith("fix:"):
            f.write(json.dumps({"status": "fixed", "property": prop[h], "commit": h, "what": WHAT[h], "line": f"fixed: property={prop[h]} {h} {WHAT[h]}"}, ensure_ascii=False) + "\n")
