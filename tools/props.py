#!/usr/bin/env python3
"""Source of properties.jsonl (one record per property)."""
import json
P=[]
def p(id,title,st,over,q,why,files,mech,**kw):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**kw)))
DM="src/data_model.rs"; EN="src/enum_def.rs"; FO="src/formatter.rs"; UT="src/utility.rs"; CX="src/context.rs"; DO="src/doc.rs"; DB="src/doc_builder.rs"; MA="src/main.rs"; AC="src/accessor.rs"; AR="src/args.rs"
p("C01","Formatting keeps every code token",
  "Whenever the formatter accepts a source, the code tokens of its output (everything but whitespace and comments) are those of the source, in the same order, with none lost, added, duplicated or altered, at every configured width and indentation. Only these spellings may differ: letter case of keywords and of the exponent and suffix of a floating-point literal, annotations moved in front of the other modifiers of a declaration, redundant parentheses around SOQL conditions, empty statements, empty annotation argument lists, and a trailing AS before a SOQL alias.",
  ["programs","configurations"],"all programs the grammar derives, at all widths and indentations",
  "305 fixture pairs sample a few hundred programs; a construct or a combination of optional parts missing from them is dropped silently when a node's optional child is not printed.",
  [DM,EN,AC],[("per-node new()/build() pairs pick children by field or kind and print them",DM),("variant dispatch by node kind",EN)])
p("C02","Output re-parses to the same syntax structure",
  "Whenever the formatter accepts a source, its output is again a valid source, and (apart from the spellings which C01 allows) it has the same syntax tree as the source: the same constructs nested in the same way, so operators group as they did and every statement belongs to the same body. This holds at every configured width.",
  ["programs","configurations"],"all programs the grammar derives, at all widths",
  "Fixtures compare text with text; none re-parses the output, and grouping errors (`- -x` to `--x`, a lost parenthesis, a dangling else) need particular nestings.",
  [DM,EN,DB],[("expression and statement builders",DM),("expression variants",EN)])
p("C03","Every comment survives once, in order, and hides no code",
  "For every valid source and every place where a comment may stand, the formatter either refuses the file or its output contains every comment exactly once, in the source order, with its text unchanged (indentation and trailing blanks of the lines of a block comment aside; the lines of a documentation comment begin with one star each), and all code tokens are still there: no comment swallows code and no comment is turned into code. (A line comment in front of a comma or semicolon may move behind it.)",
  ["programs"],"all programs with comments (line, block, own-line, trailing) at all gaps between tokens",
  "Comments may stand in every gap between two tokens; the 60 comment fixtures reach a small fraction of the pairs of construct and gap.",
  [CX,UT,DM],[("comment buckets collected per node (pre, post, dangling)",UT),("printing of the buckets around nodes",CX),("final sweep refusing to drop a comment",UT)])
p("C04","Formatting twice is the same as formatting once",
  "For every source without comments, and for every source whose comments stand between statements, between members, after a statement's end or between the elements of a list (arguments, parameters, initializer elements, enum constants), formatting the formatter's own output under the same configuration gives the same text again.",
  ["programs","configurations"],"all comment-free programs, and all programs with comments at statement, member and element boundaries, at all widths",
  "Fixtures format an input once; none formats an expected output again, and stability depends on blank lines, breaks and comment placement that the first pass produced.",
  [DM,DO,CX],[("blank line decisions from source rows",EN),("layout choice",DO),("comment placement from source rows",CX)])
p("C05","A malformed source is refused and left alone",
  "If a source is not valid (a token missing, doubled, swapped or foreign; unreadable or not UTF-8), every mode of the command fails with exit status 1 and an error message, prints no program, and leaves the file exactly as it was.",
  ["inputs"],"all single-token deletions, duplications, swaps and insertions of the explored programs, and all unreadable files, in every mode",
  "The tests contain valid sources only: no refusal is ever tested.",
  [FO,MA],[("error node check after parsing",FO+" parse"),("error propagation to the exit status",MA)])
p("C06","Every valid source is accepted",
  "Every valid source without comments, and every valid source whose comments stand between statements, between members, after a statement's end or between the elements of a list (arguments, parameters, initializer elements, enum constants), is formatted: the formatter does not fail, crash or refuse it, at any width and indentation (nesting beyond the stack of a thread, some hundred levels, excepted).",
  ["programs","configurations"],"all programs the grammar derives (and comments at statement, member and element boundaries)",
  "Hundreds of production alternatives each need an explicit branch in the formatter; fixtures cover the common ones only, and an unhandled one panics.",
  [DM,EN,UT],[("kind dispatch with panic on unknown kinds",EN),("mandatory child accessors",AC),("missing-comment assertion",UT)])
p("C07","Lines stay within the configured width when they can be broken",
  "A program that fits on one line within the configured width is not broken more than at a larger width, and a line longer than the configured width is left only where the formatter has no break point to use. The width, measured in characters, changes line breaks and indentation only, never the text.",
  ["programs","configurations"],"all programs the grammar derives, at every width from 1 up to the unbroken width",
  "All fixtures use one width (80); a fits/break decision off by one, or a group that ignores what follows it, is invisible unless the text ends exactly at the limit.",
  [DO,DB],[("fits computation of a choice",DO),("group, surround and indent combinators",DB)])
p("C08","Indentation is exactly the configured multiple",
  "Every line of code is indented by a whole multiple of the configured indentation size, and the unbroken layout for one size is the layout for size one with its indentation scaled. Members and statements stand one level deeper than the construct that holds their body, and its closing brace stands at that construct's level. Tabs are never used.",
  ["programs","configurations"],"all programs the grammar derives, for every indentation size from 1 to 8, unbroken and broken",
  "Fixtures run with a single indentation size (4).",
  [DB,DO],[("indent and align combinators",DB),("newline emission with the current indentation",DO)])
p("C09","The layout of the input does not change the result",
  "Two comment-free sources with the same tokens format to the same text whatever whitespace separates the tokens (spaces, tabs, LF or CRLF line ends, indentation, everything on one line or one token per line), blank lines between statements and members aside.",
  ["programs","inputs"],"all programs the grammar derives under all uniform separators and single-gap changes",
  "Every fixture has one layout; dependence on source rows or raw text slices shows only when the same program is laid out in another way.",
  [DM,EN,AC],[("texts copied from the source",AC),("decisions from source rows",EN)])
p("C10","Blank lines: at most one, and only where the author left one",
  "Between two members of a type or two statements of a block at the same level there is a blank line in the output exactly if there was at least one in the source, and there is never more than one (between the accessors of a property and the branches of a switch: at most one, and only where the source has one). There is none right after an opening brace, right before a closing brace, or at the start or end of the file.",
  ["programs","inputs"],"all programs the grammar derives, with 0 to 3 blank lines at every gap between members and statements",
  "The decision is made per pair of neighbours from source rows; fixtures hold few pairs and rarely more than one blank line.",
  [EN,DM,DB],[("trailing blank line flag of body members",EN),("joining of body members",DB)])
p("C11","The modes of the command agree with each other",
  "For every sequence of dry run, check, write and edit, the command prints, compares with and writes the same formatted text: check succeeds exactly if the file already equals it, write leaves exactly it in the file (so a following check succeeds), and dry run and check never modify the file. The exit status is 0 on success and 1 otherwise.",
  ["histories"],"all sequences of commands and edits up to a bounded length, over a set of files that covers formatted, unformatted, invalid and odd content",
  "No test runs the binary at all.",
  [MA,AR],[("run: check, write and print branches",MA)])
p("C12","Batch results are complete, in input order, and independent",
  "Formatting several files at once returns exactly one result per file, in the order in which the files were given, and each result is what the file gives on its own: no schedule and no failure of one file (missing, malformed, rejected) changes, drops or delays another's result.",
  ["schedules","inputs"],"all orders in which the per-file workers finish, and all combinations of good and bad files, for batches up to a bounded size",
  "Tests format one file per call, so completion order never matters there.",
  [FO],[("one worker thread per file, results over a channel",FO+" format")])
p("C13","An interrupted or failing write never loses the source",
  "At whatever point write mode is killed, and whichever file operation fails, the file afterwards holds either its complete old content or the complete formatted text, with its permissions (and a symbolic link stays one); a failure that is not a kill is reported with exit status 1, and after a kill the next run succeeds. No stray file is left behind unless the process was killed.",
  ["crash_points","fault_sequences"],"a crash before and after every system call of a write run, and an error (or short write) injected at every one of them",
  "No test writes a file, and none can stop the process between truncation and write.",
  [MA],[("write back of the formatted text",MA+" run")])
p("C14","Configuration is honoured, defaulted and validated",
  "Each setting takes effect exactly as given in the configuration file, and a missing setting or a missing file option means the documented default (width 80, indentation 2), independently of the other settings and of unknown keys. A configuration that cannot be read or understood is refused with exit status 1 before anything is formatted or written.",
  ["configurations"],"all combinations of present, absent, boundary and invalid values of both settings, unknown keys and broken files, in every mode",
  "Fixtures use one configuration file; defaults, partial files and invalid values are never loaded.",
  [FO,MA],[("Config and its serde defaults",FO),("create_from_config",FO)])
p("C15","Literals and names are copied byte for byte",
  "Every string, number, date, currency and search-term literal and every identifier appears in the output with exactly the bytes it has in the source, wherever it stands and at every width: no character of it is changed, re-cased (exponent and suffix letters of floating-point literals aside), split, trimmed or indented.",
  ["inputs","programs"],"all literal and identifier spellings up to a bounded length over an alphabet of lexically special characters, in every syntactic position that takes one",
  "Fixtures hold ordinary literals; content that looks like a comment, a delimiter, a query, an escape or a multi-byte character in a particular position is not sampled.",
  [DM,DB,AC],[("texts copied from the source",AC),("txt documents",DB)])
p("C16","Comments keep their place in the code",
  "A comment on its own line between two statements or members, at the end of a statement's line, or between the elements of a list (arguments, parameters, initializer elements, enum constants) stays there: it follows the same code token and precedes the same code token in the output as in the source, and a trailing comment stays on the line of the code it trails while an own-line comment stays on a line of its own. (Comments right behind an opening brace on its line, and behind a lone semicolon, may move to the next line.)",
  ["programs"],"all programs with comments at all statement, member and element boundaries",
  "A comment attached to the wrong neighbour still leaves every fixture green unless that very pair of neighbours is in one.",
  [CX,UT],[("classification of comments as pre or post",UT),("newline and blank handling per comment",CX)])
p("C17","The output text is clean",
  "The output is non-empty, ends with exactly one newline, starts with no blank line, never holds two blank lines in a row, and contains no trailing blanks, tabs, carriage returns or runs of blanks between two tokens of a line, outside of literals and comments.",
  ["programs","configurations"],"all programs the grammar derives at narrow and wide widths, with comments at statement boundaries",
  "Fixtures pin the text of sampled programs; trailing blanks appear when an optional part is absent or a break falls at a separator that another construct printed.",
  [DO,DB,DM],[("newline and indentation emission",DO),("separators between optional parts",DM)])
p("C18","The result depends on the source and the configuration only",
  "Formatting a source gives the same result whatever was formatted before on the same thread, concurrently on other threads, successfully or not, and however often: no state of an earlier run reaches a later one.",
  ["histories","schedules"],"all sequences of library calls up to a bounded length over accepted, refused and commented sources and configurations, on one thread and on several",
  "Every test formats on a fresh thread and once per process state.",
  [FO,UT],[("thread-local source and comment map",UT)],state=[dict(name="thread-local source text and comment map",meaning="what the builders of the current run read")])
p("C19","Time and depth stay bounded for nested code",
  "Formatting finishes for every nesting of every construct that can nest: the time grows polynomially with the nesting depth, and ordinary depths neither overflow the stack nor hang.",
  ["programs"],"every recursive construct of the grammar nested in itself and in every other one up to a bounded depth",
  "Exponential re-rendering of nested alternatives shows only from a certain depth on, and no fixture nests deeply.",
  [DO,DM],[("choice between layouts, evaluated per nesting level",DO)])
p("C20","Queries keep every clause",
  "A SOQL or SOSL query keeps each of its clauses with all fields, conditions, bindings, literals and orderings, in the source order and with the source grouping, for every combination of clauses, on its own, nested in another query, in a loop or in an expression, at every width.",
  ["programs","configurations"],"all combinations of query clauses and of the alternatives within each clause, in every context of a query",
  "Query clauses combine freely (about twenty optional parts with alternatives each); fixtures sample a few dozen queries.",
  [DM,EN],[("query body builders",DM),("query clause variants",EN)])
p("C21","Blank lines around comments are the author's",
  "Between two statements or members of a body with comments between them (on their own lines or trailing the first one), there is one blank line in the output above, between and below the comments exactly where the source has at least one (between the accessors of a property and the branches of a switch: only where), and none right after the opening brace and right before the closing brace of the body.",
  ["programs","inputs"],"all boundaries of all derived programs x comments and pairs of comments x 0 to 2 blank lines at each side",
  "The decision is made in four places from row numbers recorded per comment; fixtures hold few of the combinations of neighbours, kinds of comments and blank lines.",
  [CX,UT,EN],[("rows recorded per comment",CX),("blank lines before, between and after comments",UT),("trailing blank line flag of body members",EN)])
p("C22","The letter case of keywords does not change the layout",
  "Apex is case-insensitive: two sources which differ only in the letter case of keywords format to texts which differ at most in the letter case of keywords, at every width.",
  ["programs","inputs"],"all derived programs with their keywords in lower, upper and mixed case, together and one at a time",
  "Fixtures spell keywords in one or two ways; a decision that compares the text of a keyword shows only with the other spelling.",
  [DM,EN,AC],[("node kinds and keyword texts",EN),("keyword texts copied from the source",DM)])
p("C23","Layout is local",
  "The layout of a statement or member depends on nothing but itself, the configuration and its indentation: next to any other statement or member it is printed exactly as alone, and inside of one more block or class exactly as before, one level further in (at a width larger by one level).",
  ["programs","configurations"],"all derived statements and members next to small and long ones of every kind, in both orders, and up to three levels deeper, at several widths",
  "Layout is decided by looking ahead over the rest of the file and by state carried along; fixtures cannot tell whether a line depends on its neighbours, so that editing one member would reformat another.",
  [DO,DB,CX],[("look-ahead of the printer",DO),("joining of body members",DB)])
p("C24","Runs at the same time do not disturb each other",
  "However several runs of the command interleave (on the same file, on a link to it, or on files of one directory; one of them possibly killed), every file holds complete content at every moment (what it held before, or formatted text), each run of write mode on a valid source succeeds and leaves formatted text with permissions, owner and links kept, the others give an answer which is right for one of these contents, and no stray file is left unless a run was killed.",
  ["schedules","crash_points"],"all schedules of two runs with up to two (for some scenarios three) switches at their file operations, and all with one switch and a kill; the files read after every operation",
  "No test starts two runs; a temporary name that two runs share, or a lock, shows only when the second one starts at a certain point of the first.",
  [MA,FO],[("write back of the formatted text",MA+" run"),("reading of the source",FO+" format")])
p("C25","The cost of long code is in proportion to its length",
  "Formatting takes work (allocations, memory, time) in proportion to the length of the source: twice as many members, statements, arguments, conditions, fields of a query, comments or blank lines take about twice as much, at every width, and a file of ten thousand of them is formatted in a few seconds.",
  ["programs","inputs"],"every construct of the language that can be repeated, plain and with a comment or blank line at every element, and long comments, names and literals, at lengths which double up to 12000",
  "Fixtures are short; a step which walks all elements for each one, or copies what it has so far, shows only in code that is long in the right place.",
  [UT,DO],[("comments to nodes",UT+" collect_comments"),("layout",DO+" print"),("layout that fits",DO+" fits")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
