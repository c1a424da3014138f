#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (run by hand after editing this file)"""
import json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def anchors(files, mech, **kw):
    return dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)

P = []
def prop(id, title, statement, over, qtext, why, anch, note, tech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=anch,
                  _note=note, _tech=tech))

prop("C01", "Plain comma separated values are compiled to the same values",
 "A spreadsheet section which has only plain values (nothing that starts as a formula or as cell options) is compiled to a CSV file which has the same values in the same cells, whatever characters the values contain and however the source quotes them. Blank cells at the end of a row, blank rows at the end of the file and whitespace around a value are not significant. Compiling the written file again writes the same file.",
 ["inputs"], "all grids of Unicode values, any legal quoting, padding, line ending, comment lines and code section in front",
 "a test compiles a few grids; quoting, multi-line fields, backslashes, non-ASCII text and row widths combine without limit",
 anchors(["csvp/src", "src/parser/cell_parser", "src/spreadsheet", "src/target"],
   [("reading the fields of the source", "csvp/src/parser.rs"), ("telling values from formulas and options", "src/parser/cell_parser/mod.rs"), ("writing the csv file", "src/target/csv")]),
 "random grids written with random quoting by the generator, compiled and written by the real code, and read back by the harness's own strict RFC 4180 reader; compiling the output again must be a fixed point",
 "property-based round-trip test against an independent CSV reader, with shrinking")

prop("C02", "Reading comma separated values follows RFC 4180",
 "The CSV reader yields exactly the records and fields which RFC 4180 gives for the source: quotes are unescaped, commas and newlines inside quotes belong to the field, records end at `\\n` or `\\r\\n`, and lines which start with a `#` comment are skipped. The documented extensions hold: whitespace around fields is trimmed, and a backslash at the end of a line continues the field on the next line. Text between a closing quote and the end of its field is rejected with an error.",
 ["inputs"], "all well-formed sources up to a few records (fields with any characters), and sources which an edit made malformed",
 "the parser is a character state machine with lookahead; its tests check a handful of fixed strings",
 anchors(["csvp/src"], [("the csv state machine", "csvp/src/parser.rs"), ("building a field's value", "csvp/src/field_builder.rs")]),
 "generated records are written down with any quoting and parsed by the real parser; the result is compared with the generated records; malformed variants must be errors",
 "property-based testing of the parser against the generating model, with shrinking")

prop("C03", "Every character of a field is located where it is in the source",
 "For every field which the CSV reader yields, the address (row and column of the grid) and the source line and column of each of its characters are those of that character in the source text, including after quoted, escaped, multi-line and multi-byte text. An error of the reader names the position at which the problem is.",
 ["inputs"], "all sources with quoted, escaped, multi-line, continued and multi-byte fields; every character offset of every field",
 "tests check a position or two; offsets drift only for particular combinations of escapes, newlines and multi-byte characters",
 anchors(["csvp/src"], [("positions of a field's characters", "csvp/src/field.rs"), ("tracking the position", "csvp/src/source_position.rs")]),
 "every offset of every field of generated sources is looked up and the character at the reported position is compared with the field's",
 "property-based invariant over every character position, with shrinking")

prop("C04", "No source makes the compiler panic or run forever",
 "For any source text, any command line values, and any modules beside it, compiling and writing either succeed or end with an error which can be displayed: the process never panics, aborts, overflows its stack or fails to end. This includes definitions which refer to themselves or to each other, malformed options and formulas, and arbitrary Unicode text.",
 ["inputs"], "random text, random token sequences, mutated valid programs, cyclic definitions; nesting of at most 60 levels and fills of at most 5000 rows (see the known findings)",
 "panics hide in slicing, indexing and unwrapping on paths which no test's input takes",
 anchors(["src/parser", "src/ast", "src/error", "src/compiler", "csvp/src"], [("lexing", "src/parser/ast_lexer"), ("parsing options", "src/parser/cell_parser"), ("displaying errors", "src/error")]),
 "sources from three kinds of generators (characters, tokens of the language, mutations of valid programs) are compiled, written as csv and excel, and errors are displayed; panics, signals and time-outs are failures; the process is supervised so that crashes are caught and shrunk",
 "structure-aware fuzzing with a crash and hang oracle, supervised processes and shrinking")

prop("C05", "The formula which is written means what the source's formula means",
 "A formula is parsed with the precedence of operators that spreadsheets have (`^` over `*` and `/`, over `+` and `-`, over `&`, over comparisons) and parentheses override it, so that the written formula has the same value under every assignment of its references. Numbers, percentages, booleans, strings, references, function names and their arguments (also empty ones) are kept as they are. Malformed formulas are rejected rather than partly ignored.",
 ["inputs"], "all formulas over the twelve operators, signed numbers and percentages, strings, references, nested calls and parentheses",
 "each token and precedence pair has a test; combinations of prefix and infix operators, calls and parentheses don't",
 anchors(["src/parser/ast_lexer", "src/parser/ast_parser.rs", "src/ast"], [("operator precedence", "src/parser/ast_parser.rs"), ("tokens", "src/parser/ast_lexer"), ("writing formulas", "src/ast/display.rs")]),
 "formulas are generated as flat operator sequences; the output is read by an independent precedence-climbing reader and both are evaluated numerically and structurally; the two known findings are matched by exact predicates",
 "differential property-based testing against an independent formula parser and evaluator, with shrinking")

prop("C06", "Calling a function of the code section substitutes its arguments",
 "A call of a user-defined function is compiled to the function's body in which each parameter is replaced by the respective argument, wherever the call is (in cells, in other functions, in arguments, in variables) and whatever the parameters are called, also when they share names with variables, other functions or the arguments' own names. Functions which aren't defined are kept as calls. A call with the wrong number of arguments is rejected with an error which says so.",
 ["programs"], "all acyclic sets of up to 5 functions and 3 variables with shared names, called from up to 6 cells with nested arguments",
 "tests call one function with one or two arguments; name capture and evaluation order only show when definitions interact",
 anchors(["src/ast", "src/scope"], [("evaluating calls", "src/ast/eval.rs"), ("scopes", "src/scope")]),
 "generated programs are evaluated by an independent substitution model and compared with the compiled cells",
 "model-based property testing against a reference evaluator, with shrinking")

prop("C07", "Variables are resolved to what their definition says",
 "A name in a formula is compiled to the value of the variable which the code section or the command line defines (transitively), to the address of the cell or row which defines it as a variable, or is left as it is if nothing defines it. If a name is defined more than once, the code section's (last) definition counts, then the one of a cell or row, then the command line's. A variable of a cell or row outside of a fill is that cell or row's reference from anywhere; one in a fill is the same row's cell inside the fill, and the range over all of the fill's rows outside of it. Options and definitions do not change which address a cell has.",
 ["programs"], "all programs with up to 4 variables, 2 functions, 5 rows with fills and cell variables, and values from the command line",
 "tests have one kind of variable at a time; positions after several fills, or references between fills, need generated layouts",
 anchors(["src/ast", "src/spreadsheet", "src/scope", "src/compiler"], [("variables of cells and rows", "src/ast/variable_value.rs"), ("where variables are", "src/spreadsheet"), ("values of the command line", "src/config")]),
 "generated programs and command line values against the reference evaluator",
 "model-based property testing against a reference evaluator, with shrinking")

prop("C08", "Fills expand to the right number of rows, in place",
 "A row with a fill of n is expanded to n rows in its place and the rows after it move down; a fill without an amount extends to the end of the 1000 row sheet, leaving room for the rows after it. Every copy has the row's cells with references relative to its own row, and all addresses of other variables account for the rows which were added. More than one fill without an amount is rejected.",
 ["programs"], "all lists of up to 6 rows with fills of 0 to 1500 rows or without an amount, with cell and row variables used anywhere",
 "tests have one fill; offsets accumulate over several",
 anchors(["src/spreadsheet", "src/cell_options", "src/row"], [("expanding fills", "src/spreadsheet/mod.rs"), ("the amount of a fill", "src/cell_options/fill")]),
 "generated row lists against a model of expansion and addressing",
 "model-based property testing, with shrinking")

prop("C09", "Modules import exactly the definitions which they require",
 "A program can use the variables and functions of each module which it requires, and each module those of the modules that it requires itself, where every definition keeps the meaning which it has in its own module; its own definitions take precedence over required ones. What a module requires is not passed on to those which require it. Modules may be required more than once or by several modules, modules which require each other do not prevent compilation from ending, and a module anywhere which is missing or does not parse makes compilation fail with an error which names it.",
 ["programs"], "all graphs of up to 6 modules (shared, duplicated, cyclic, missing or broken dependencies) with definitions that share names",
 "tests load one or two modules; visibility, precedence and shared dependencies need graphs",
 anchors(["src/module_loader", "src/module", "src/scope", "src/module_path"], [("loading and ordering modules", "src/module_loader"), ("merging scopes", "src/scope"), ("resolving within a module", "src/module")]),
 "generated module graphs are written as files and compiled; the result is compared with a reference model of scoping",
 "model-based property testing over generated module graphs, with shrinking")

prop("C10", "Caching never changes what is compiled",
 "After any history of edits to the modules and of compilations with or without the cache and with any command line values, compiling with the cache gives the same spreadsheet or failure as compiling the same files without it (as long as no file gets an older modification time than it had; compilations which run at the same time, and edits and compilations in the same instant, as far as modification times tell, are part of this). Modules which were edited, added, removed or touched, also transitively required ones, are never compiled from stale object files.",
 ["histories"], "all histories of up to 10 steps over up to 4 modules: edit, compile with or without the cache, with values, from other main files, removal of object files",
 "staleness only shows for particular orders of edits and compilations over shared dependencies",
 anchors(["src/module_loader", "src/module", "src/compiler"], [("reading and writing object code", "src/module"), ("deciding what is stale", "src/module_loader")]),
 "stateful generation of histories with explicit modification times (from nanoseconds to hours apart, or equal); after each compilation with the cache, the same tree is compiled without it in a separate directory and compared",
 "stateful differential testing (cached versus uncached), with shrinking")

prop("C11", "Damaged or outdated object files are ignored",
 "Whatever an object file contains (truncated, empty, overwritten with something else, written by an older version, for another module, or not written completely because the compilation was ended) a compilation with the cache ends with the same result as one without it. It neither fails nor panics because of it, nor uses what it says.",
 ["fault_sequences", "crash_points"], "all single-file corruptions (truncation at any point, byte flips, garbage, swapped files, other versions) of the object files of up to 3 modules",
 "a test has one kind of corrupted file; deserializing can fail, allocate or succeed with nonsense at any byte",
 anchors(["src/module", "src/module_loader"], [("reading object code", "src/module")]),
 "object files which the real code wrote are damaged by generated faults and compiled from, compared with a compilation without the cache; random byte flips which leave a well-formed file with other contents are not part of this (there is no checksum), only ones at the header, truncations and garbage",
 "fault injection with generated corruptions and a differential oracle, with shrinking")

prop("C12", "Compiling is deterministic",
 "Compiling the same files with the same options always gives the same spreadsheet, the same output bytes and the same requests, or fails each time, however threads are scheduled and whatever else is being compiled.",
 ["schedules", "programs"], "generated programs, each compiled six times in one process of which twice concurrently",
 "iteration order of hash maps and thread scheduling vary between runs",
 anchors(["src/ast", "src/compiler", "src/module_loader", "src/target"], [("evaluating in parallel", "src/compiler/mod.rs"), ("scopes are hash maps", "src/scope")]),
 "each generated program is compiled repeatedly and concurrently, and all outcomes must be equal",
 "metamorphic property-based testing (repeated and concurrent runs), with shrinking")

prop("C13", "Options of cells and rows apply to exactly the cells they are written on",
 "Each option (borders, colors, fonts, alignment, notes, number and text formats, wrapping, locks, variables) has the same effect with its long and its short name, with quoted or unquoted values, and in any order with others. A cell has the options of its row and its own; where both set one, the cell's wins, and where they add, both hold. No option has an effect on any cell outside of its row, on the values of cells, or on other options. An unknown option, or a value which an option does not have, is rejected.",
 ["programs"], "all rows of up to 4 cells with up to 6 options each, in any order, spelled any way",
 "options are tested one at a time; inheritance and interference need combinations",
 anchors(["src/parser/cell_parser", "src/cell_options", "src/row", "src/cell"], [("parsing options", "src/parser/cell_parser"), ("options of a cell", "src/cell"), ("options of a row", "src/row")]),
 "generated options are compared with the compiled cells and with the formats in the requests for Google Sheets",
 "model-based property testing, with shrinking")

prop("C14", "Data validations are compiled to the rule they state",
 "A data validation of a cell states a condition and values; the compiled cell, the Excel file and the requests for Google Sheets carry exactly that condition with these values on exactly that cell, for every kind of condition and its arguments. A validation with an unknown name or wrong arguments is rejected.",
 ["programs"], "all documented kinds of validation with generated arguments, spelled with any layout, on any cell",
 "there are about thirty conditions in three representations, and a test for only some of them",
 anchors(["src/parser/cell_parser", "src/cell_options/data_validation.rs", "src/target"], [("parsing validations", "src/parser/cell_parser/validate.rs"), ("conditions", "src/cell_options/data_validation.rs"), ("Excel validations", "src/target/excel"), ("Google Sheets validations", "src/target/google_sheets")]),
 "a table in the harness, written from the documentation, says what each validation has to be in each target; generated validations are compiled, written and read back",
 "model-based property testing with read-back of the outputs, with shrinking")

prop("C15", "An Excel file has what was compiled in each of its cells",
 "Writing to an Excel file gives a workbook whose sheet has, in each cell, the compiled value or formula, and the format, note and alignment which its options state, and nothing else.",
 ["programs"], "generated programs of up to 6 rows and 5 columns with generated options",
 "the output code has a branch per option and only some are tested; what is written is only visible by reading the file",
 anchors(["src/target/excel"], [("writing cells and styles", "src/target/excel")]),
 "the written file is read back with the spreadsheet library's reader and compared with the model",
 "model-based property testing with read-back, with shrinking")

prop("C16", "Writing CSV files merges with what is there as documented",
 "Writing to an existing CSV file without --safe leaves exactly the rows and columns of the compiled spreadsheet: each cell which was compiled has its compiled value, and a position inside that area which a (shorter) compiled row does not reach keeps what it had. With --safe every cell which already has a value keeps it, also to the right of and below the compiled area, and all others have their compiled value. Writing the same spreadsheet again changes nothing, and the output is complete CSV which reads back as exactly this grid, whatever characters the values have.",
 ["inputs", "histories"], "all pairs of existing files (any quoting, row widths) and compiled grids, with and without --safe, written up to three times",
 "merging is tested with one shape; ragged rows and blank cells decide which of the two wins",
 anchors(["src/target"], [("merging with existing cells", "src/target"), ("reading and writing csv", "src/target/csv")]),
 "generated existing files and programs are merged by a model and compared with the file which was written, read by an independent reader",
 "model-based property testing of merges, with shrinking")

prop("C17", "Writing Excel files keeps everything else in the workbook",
 "Writing to an existing workbook changes only the cells of the compiled spreadsheet on the named sheet: other sheets, and other cells with their values, formulas, notes, formats and validations, stay as they are. With --safe, cells which already have a value keep it. If the sheet does not exist yet it is added; writing again gives the same workbook.",
 ["inputs", "histories"], "generated workbooks of up to 3 sheets and generated programs, with and without --safe, written up to three times",
 "a test overwrites one small sheet; collateral damage shows only in what surrounds it",
 anchors(["src/target/excel"], [("merging with the workbook", "src/target/excel")]),
 "generated workbooks are written by the spreadsheet library, merged by the real code and read back; everything which isn't compiled is compared before and after",
 "model-based property testing with frame conditions, with shrinking")

prop("C18", "Google Sheets requests write every cell once, at its place",
 "The requests for Google Sheets together cover each compiled cell exactly once at its row and column shifted by the offsets, with the value or formula and the format which was compiled; with --safe existing values are kept. The content of no other cell changes, whatever the number of rows.",
 ["programs"], "generated programs with up to 1500 rows, any offsets, generated existing cells, with and without --safe",
 "requests are chunked, and can't be tested against the service; boundaries between chunks and offsets need many sizes",
 anchors(["src/target/google_sheets"], [("building the requests", "src/target/google_sheets")], hook_needed="csvpp::verif::google_sheets_batch_update builds the request without a connection"),
 "the request which would be sent is obtained from the real code by a hook, expanded into a grid and compared with the model",
 "model-based property testing of the generated requests, with shrinking")

prop("C19", "A backup is an exact copy, and never overwrites anything",
 "With --backup, before the output is written, its previous content is copied byte for byte to a new file in the same directory named after it with a timestamp, also when several backups are made within the same second or at the same time. No existing file other than the output changes, and if making the backup fails (such as when its name is too long) the output is not written.",
 ["histories"], "output names with any characters and number of dots, any content, up to 6 backups in a row, with files already in the way",
 "name collisions depend on the time and on which files exist",
 anchors(["src/target"], [("choosing a backup's name", "src/target")]),
 "histories of writes with backups in a scratch directory; the directory is compared before and after each",
 "stateful property testing over directory contents, with shrinking")

prop("C20", "Errors point at the source of the problem",
 "When compilation fails because of one mistake, the error names the file the mistake is in and the line and column of it, and the lines of the source which it shows are the source's own lines around that position with the marker under it. This holds for mistakes in the code section, in formulas of cells, in options, and in required modules, whatever precedes them.",
 ["inputs"], "valid generated programs with any layout in which one mistake of a known kind was made at a known place",
 "tests look at a few messages; positions depend on everything before the mistake",
 anchors(["src/error", "src/source_code", "src/parser", "csvp/src"], [("rendering errors", "src/error"), ("positions", "src/source_code")]),
 "one fault at a known position is put into generated programs; the reported file, line and column, and the highlighted source lines, are compared with it",
 "property-based testing with injected faults at known positions, with shrinking")

prop("C21", "The command line does what it says, or fails and leaves the output alone",
 "Other than when asked for help, the command exits with 0 if and only if the output was written completely, and otherwise exits with a failure and prints an error; unless the failure was in writing the output itself, it leaves the output and every other file as they were (other than the object files of the cache). Values given with --key-values, the output's extension, --safe, --backup, --no-cache and sheet names have the effect which the help states, and the written file is the one which was named.",
 ["configurations"], "generated combinations of options, output names, programs which compile and programs which don't",
 "tests call the library; exit codes, partial writes and combinations of options are those of the process",
 anchors(["src/main.rs", "src/cli_args.rs", "src/config", "src/output", "src/target"], [("the command", "src/main.rs"), ("options", "src/cli_args.rs"), ("choosing the target", "src/output")]),
 "the built command is run in scratch directories, also with a full disk (a limit on file sizes); exit code, output and directory content are compared with the model",
 "property-based testing of the process, with shrinking")

prop("C22", "Layout and comments do not change the meaning of a program",
 "Whitespace, newlines (also Windows ones), comments, line continuations, redundant parentheses and quoting around the tokens of a program do not change the compiled spreadsheet.",
 ["programs"], "generated programs, each in a plain layout and in a random one",
 "layouts are endless, and each test has one",
 anchors(["src/parser", "csvp/src", "src/source_code"], [("whitespace and comments", "src/parser/ast_lexer"), ("splitting the sections", "src/source_code")]),
 "two layouts of the same generated program are compiled and compared",
 "metamorphic property-based testing, with shrinking")

prop("C23", "Consistent renaming and reordering do not change the meaning",
 "Definitions of the code section may be in any order, and variables, functions, parameters and cell variables may be consistently renamed to any legal name, without changing the compiled spreadsheet.",
 ["programs"], "generated programs with definitions which use each other, permuted and renamed to names that resemble keywords and each other",
 "tests have fixed names and a fixed order; captures depend on the names",
 anchors(["src/ast", "src/scope", "src/parser"], [("resolving names", "src/ast/eval.rs"), ("scopes", "src/scope")]),
 "each generated program is compiled before and after a permutation and renaming, and compared",
 "metamorphic property-based testing, with shrinking")

exec(open(os.path.join(root, "tools", "claimed.py")).read())

def main():
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    hook = subprocess.run(["git", "-C", "/repo", "rev-parse", "a17ad86"], capture_output=True, text=True).stdout.strip()
    m = dict(version=1, setup_cmd="./build.sh",
      hooks=dict(guard="csvpp_verif (a cfg flag)", enable='RUSTFLAGS="--cfg csvpp_verif" (see build.sh)', source_commits=[hook]),
      checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
        technique=p["_tech"] + " (30 % of the cases coverage-guided)", level="exploration",
        level_note="Generated-input search, so no proof: " + p["_note"] + ". Bounds and counts are in the evidence file.") for p in P if p["id"] in CLAIMED],
      not_applicable=[dict(property=p["id"], reason=REASONS.get(p["id"], "the check is not finished yet")) for p in P if p["id"] not in CLAIMED],
      notes="Every check is `verif run` of the crate in harness/, built against /repo's working tree. See DESIGN.md.")
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
