#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a["observe_at"] = list(observe)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=a))


SRV = ["nclangsrv/nclangsrv.cpp", "nclangsrv/JsonMessageHandler.cpp", "nclangsrv/NCParser.cpp"]
PF = "parser/fanuc/"

prop("C01", "The language server survives every sequence of messages",
     "Whatever bytes a client sends, the language server never crashes, never performs undefined behaviour or an invalid "
     "memory access, and never stops answering: after any message, well-formed or not, the next valid request is still "
     "answered.",
     ["inputs", "histories"],
     "all byte sequences on the input, all sequences of (valid, malformed, unknown, incomplete) messages, all documents",
     "The unit tests link the parser library only; no test starts the server or feeds it a message.",
     SRV, [("malformed messages are answered with an error, exceptions are caught", "nclangsrv/JsonMessageHandler.cpp parse()"),
           ("header and body reader", "nclangsrv/nclangsrv.cpp readHeader(), readBody()")],
     ["process exit status", "sanitizer reports", "responses on stdout"])

prop("C02", "Every request gets exactly one response, notifications get none",
     "Every request that has an id gets exactly one response with the same id (number or string), in the order of the "
     "requests, and it carries either a result or an error (unparsable text -32700, a non-request -32600, an unknown method -32601, unusable "
     "parameters -32602). A message without an id gets no response, and the only notification the server sends is the one "
     "publication of diagnostics for each opened or changed document, with that document's identifier.",
     ["histories", "inputs"], "all interleavings of requests and notifications, all ids, all methods, valid and broken parameters",
     "No test exercises the server's protocol.",
     SRV, [("dispatch and error answers", "nclangsrv/JsonMessageHandler.cpp dispatch(), sendError()")],
     ["messages on stdout"])

prop("C03", "What the server answers does not depend on how its input is cut up",
     "The bytes the server writes are a function of the sequence of messages alone: they are the same however the input is split "
     "into reads, in whatever order, spacing and line ends of the permitted header fields, and whatever bytes (multi-byte characters included) the bodies hold. Every message the server writes is "
     "preceded by a header whose length is exactly the number of bytes of its body, and the body is valid JSON (in UTF-8, if what it was given was).",
     ["schedules", "inputs"], "all chunkings of the input stream, all extra header fields, all message lengths",
     "No test reads or writes a frame.",
     SRV, [("header parser", "nclangsrv/nclangsrv.cpp readHeader()"), ("body reader", "nclangsrv/nclangsrv.cpp readBody()"),
           ("framed output", "nclangsrv/JsonMessageHandler.cpp")], ["stdin chunks", "bytes of stdout"])

prop("C04", "The server ends when it is told to, and only then",
     "The server ends with status 0 after a shutdown request (which it answers with a null result), after an exit notification and at the end of its input, even in the middle "
     "of a header or a body, and it consumes no further message after that. In every other case it goes on serving.",
     ["histories", "crash_points"], "every point of the input at which the stream ends, shutdown or exit at any point of any session",
     "No test runs the server process.",
     SRV, [("main loop", "nclangsrv/nclangsrv.cpp main()"), ("shutdown, exit", "nclangsrv/JsonMessageHandler.cpp shutdown(), dispatch()")],
     ["process exit status", "responses"])

prop("C05", "Diagnostics name exactly the wrong blocks of the document",
     "For an opened or changed document the published diagnostics hold, in the order of the lines, exactly one entry per non-empty line "
     "that the parser rejects when the document's lines are checked in order, at that line, at the reported column (or column 0) and with the reason the parser "
     "gives (or the text of the line when it gives none); accepted lines get none.",
     ["inputs"], "all documents: any mix of right and wrong blocks, line ends, blank lines, columns, messages with digits and separators",
     "The tests check verdicts of single blocks; nothing checks how verdicts are mapped to lines, columns and texts of a document.",
     SRV, [("lines and messages", "nclangsrv/NCParser.cpp parse(), splitLines()"),
           ("message to diagnostic", "nclangsrv/JsonMessageHandler.cpp textDocument_publishDiagnostics()")],
     ["publishDiagnostics notifications"])

prop("C06", "A document's answers depend on its current text only",
     "Diagnostics, hover and code lens answers for a document are a function of its current text and of the settings: they do not depend on "
     "other open documents, on earlier texts of the document, on earlier requests or on how often the document was opened, changed, closed and reopened. A document that was closed or never opened has no code lenses and no hover information.",
     ["histories"], "all interleavings of open, change, close, hover, completion and code lens requests over several documents",
     "No test keeps more than one program, or edits one.",
     SRV, [("per-document context", "nclangsrv/JsonMessageHandler.cpp mFileContexts"), ("a fresh parser per analysis", "nclangsrv/NCParser.cpp parse()")],
     ["responses", "publishDiagnostics notifications"],
     [("mFileContexts", "lines, macro values and code lenses per document", "nclangsrv/JsonMessageHandler.h")])

prop("C07", "Hover tells the value a macro variable has at that line",
     "Hovering a macro variable shows the value most recently assigned to it at that line or above it, with its description if the variable "
     "is described, and 'undefined' if nothing is known; hovering a G or M code whose number is a macro variable shows the code it stands for there. The shown range covers exactly the hovered token, and a "
     "position outside every token shows nothing.",
     ["inputs"], "all programs with assignments and re-assignments, all positions in them",
     "No test covers hover.",
     SRV + ["parser/fanuc/MacroDefines.h"],
     [("latest assignment at or above a line", "nclangsrv/JsonMessageHandler.cpp textDocument_hover()"),
      ("ordering of macro keys", "parser/fanuc/MacroDefines.h")], ["hover responses"])

prop("C08", "Code and macro descriptions shown are those of the configuration",
     "Hovering a G or M code shows the title and description the configured machine control's description files give for that code, "
     "with or without leading zeros; completion offers every described code and macro exactly once and nothing else; and "
     "resolving an offered entry gives the same title and description, for user-described macros the user's.",
     ["inputs", "configurations"], "all eleven control types, all codes and macros described for them, all spellings of a code, all user description files",
     "No test reads the description files or asks for hover or completion.",
     ["nclangsrv/CodesReader.cpp", "nclangsrv/MacrosDescReader.cpp", "nclangsrv/JsonMessageHandler.cpp"],
     [("code descriptions", "nclangsrv/CodesReader.cpp"), ("macro descriptions and ranges", "nclangsrv/MacrosDescReader.cpp"),
      ("hover, completion, resolve", "nclangsrv/JsonMessageHandler.cpp")], ["hover, completion and resolve responses"])

prop("C09", "Code lenses show the running totals of the program",
     "With path calculation on, exactly those lines after which the total time has changed carry a code lens, and it shows the total path and time so far, the current tool's path when it "
     "differs from the total, and the running rapid and cutting path and time sums for the kinds of motion of that line, rounded to two decimals and formatted as (h:)mm:ss.mmm. "
     "With path calculation off there is none, and resolving a lens gives the same text.",
     ["inputs"], "all programs of motions, tool exchanges, cycles and dwells",
     "The tests check the path and time of blocks, not the totals shown to the user.",
     SRV, [("totals and format", "nclangsrv/NCParser.cpp formatPathTimeResult(), formatTime()"),
           ("code lens answers", "nclangsrv/JsonMessageHandler.cpp textDocument_codeLens(), codeLens_resolve()")], ["code lens responses"])

prop("C10", "Any settings or description file is survived and reported",
     "Whatever the settings file, the grammar, the code groups or the macro description file contain (missing, truncated, wrong types, out of range, not JSON), the server "
     "starts, keeps answering, and a document opened with an unusable settings, grammar or code group file, or a broken macro description file, gets a diagnostic that says so; once the file is "
     "repaired the next analysis uses it.",
     ["configurations", "fault_sequences"], "all contents of the configuration files, all truncations and single-value corruptions, files replaced while the server runs",
     "No test reads a configuration file.",
     ["nclangsrv/NCSettingsReader.cpp", "nclangsrv/WordGrammarReader.cpp", "nclangsrv/CodeGroupsReader.cpp", "nclangsrv/MacrosDescReader.cpp", "nclangsrv/CodesReader.cpp"],
     [("readers report failure", "nclangsrv/*Reader.cpp read()"), ("failed readers are not kept", "nclangsrv/NCParser.cpp parse()")],
     ["responses", "publishDiagnostics notifications", "process status"])

prop("C11", "The library's C interface is memory safe and lets no exception escape",
     "Any sequence of calls of the library's C interface with any block text, settings that name existing enumerators and are set before the first block (unless the parser was created to work without), and correctly paired creation and deletion performs no "
     "invalid memory access or undefined behaviour, leaks nothing, and lets no exception escape to the caller: every operation returns a verdict.",
     ["inputs", "histories"], "all blocks, all call sequences, all machine settings, all control types",
     "The tests run without sanitizers, over a few hundred well-formed blocks.",
     [PF + "AllAttributesParserWrapper.cpp", PF + "AllAttributesParser.cpp", "parser/heidenhain/AllAttributesParserWrapper.cpp"],
     [("C interface", "parser/AllAttributesParserWrapperBase.cpp, parser/fanuc/AllAttributesParserWrapper.cpp"),
      ("exceptions become verdicts", PF + "AllAttributesParser.cpp parse()")], ["sanitizer reports", "return values"])

prop("C12", "The parsed words of an accepted block are the words written in it",
     "For every accepted block, the list of parsed words reproduces the block: written one after another the addresses and values, with their signs, dots, brackets, operators, leading and trailing zeros and comment texts, are exactly the "
     "block's text without the blanks between words, in the order of the text (a bare name after a program number is not a word and is left out).",
     ["inputs"], "all accepted blocks of all control types",
     "Tests compare a few dozen blocks; losing or altering a word matters in any block because every transformation writes the words back.",
     [PF + "AllAttributesParserGrammar.h", PF + "AllAttributesParserDefines.cpp", PF + "AllAttributesParserWrapper.cpp"],
     [("grammar attributes", PF + "AllAttributesParserGrammar.h"), ("values to strings", PF + "AllAttributesParserWrapper.cpp")],
     ["parsed words"])

prop("C13", "A block is accepted exactly when its words obey the control's word table",
     "A block of plain words is accepted by the syntax check exactly when every word's address exists in the control's word table for the active units, its value is present, within the word's "
     "integer range and decimal range (no decimals for words without them), and no once-only word is repeated; G20 and G21 select the units from the next block on. The verdict for a "
     "block does not depend on blocks before it, apart from the selected units.",
     ["inputs", "histories", "configurations"], "all blocks, all values around all range limits, all control types, both unit systems, any previous blocks",
     "Tests sample a few ranges with tables of their own; the ranges are data-driven and the number of addresses times values is unbounded.",
     [PF + "AllAttributesParserGrammar.h", PF + "UniqueCode.cpp", PF + "GrammarSelector.cpp", "conf/*/grammar.json"],
     [("word rules", PF + "AllAttributesParserGrammar.h"), ("once-only words", PF + "UniqueCode.cpp"),
      ("unit selection", PF + "GrammarSelector.cpp")], ["verdicts", "messages"])

prop("C14", "Codes of one group exclude each other in a block",
     "With code group checking on, a block is rejected if and only if two of its G codes, or two of its M codes, belong to a common group of the control's group tables (with the decimal part of a code taken into account, "
     "with leading zeros ignored, and with the value of a macro variable standing for the written number); with checking off it is not. On Haas controls, two M codes in a block are always rejected.",
     ["inputs", "configurations"], "all pairs and larger sets of codes of all control types, all spellings",
     "Tests check a handful of pairs against a table of their own.",
     [PF + "CodeGroupsVerifier.cpp", PF + "SameWordInBlockVerifier.cpp", "conf/*/gcode_groups.json", "conf/*/mcode_groups.json"],
     [("group intersection", PF + "CodeGroupsVerifier.cpp"), ("one M code per block", PF + "SameWordInBlockVerifier.cpp")],
     ["verdicts"])

prop("C15", "Blocks beyond the machine's limits, or cutting without rotation, are reported",
     "With machine analysis on, a block is rejected when its spindle speed, tool number or feed exceeds the machine's maximum, when the position it reaches "
     "leaves an axis' range (taken relative to the zero point), or when it starts cutting (a linear cut or a drilling cycle) before a spindle speed and rotation direction were programmed (reported once per program; where the operator turns the spindle on, a programmed speed or direction is reported instead); "
     "blocks within all limits are not rejected for these reasons, and nothing is reported when the analysis is off.",
     ["inputs", "histories", "configurations"], "all limits, axis ranges, zero points and programs; values at, below and above each limit",
     "Tests check single values against one fixed machine.",
     [PF + "RangeVerifier.cpp", PF + "RotationVerifier.cpp", PF + "AllAttributesParser.cpp"],
     [("limits", PF + "RangeVerifier.cpp"), ("rotation", PF + "RotationVerifier.cpp")], ["verdicts", "messages"])

prop("C16", "Macro expressions are evaluated as the control does",
     "An assigned expression of numbers, macro variables, functions, the operators of the control (multiplication-like before addition-like, left to right) and brackets gets its mathematical value, with angles in degrees; "
     "an expression that has no value (unassigned variable, unbalanced brackets, root or logarithm of an invalid number, a modulo by zero or bitwise operands beyond the integer range) is rejected with a reason and assigns nothing.",
     ["inputs"], "all expressions over the operators and functions, any nesting depth, all numbers",
     "Tests evaluate a fixed list of expressions.",
     [PF + "ValueCalculator.cpp", PF + "MacroEvaluator.cpp"],
     [("expression grammar", PF + "ValueCalculator.cpp"), ("assignment", PF + "MacroEvaluator.cpp")], ["macro values", "verdicts"])

prop("C17", "Macro variables hold their latest value and stand for it in blocks",
     "The value of a macro variable is that of its latest assignment, kept per line of the program: a block that uses it as a word's value is judged and moved as if the number were written there, including the word's range, "
     "and a use before any assignment is rejected; only a block with an equals sign after the variable assigns it. System variables for the modal words and the active tool hold the values last programmed.",
     ["histories", "inputs"], "all sequences of assignments, uses and re-evaluations of lines; all words that may take a variable",
     "Tests assign and read a few variables in order.",
     [PF + "MacroEvaluator.cpp", PF + "MacroEvaluatedCodeVerifier.cpp", PF + "SystemMacroAssigner.cpp", PF + "MacroDefines.h"],
     [("store per line", PF + "MacroDefines.h"), ("substitution", PF + "MacroEvaluatedCodeVerifier.cpp"), ("system variables", PF + "SystemMacroAssigner.cpp")],
     ["macro values", "verdicts", "path results"])

prop("C18", "A linear motion's length is the distance travelled and moves the position",
     "A rapid or linear motion adds the straight-line distance between the previous and the new position, to the rapid or the cutting path by the active motion code, with absolute and incremental programming, modal codes, "
     "halved diameters where the machine is not diameter programmed, and moves to the tool exchange or base point (relative to the zero point) where the program asks for them. Coordinates in blocks that only set "
     "an offset, a coordinate system, mirror axes or a centre of rotation (G10, G52, G92, G50.1, G51.1, G68) move nothing. The reported axis ranges are the minimum, current "
     "and maximum positions reached.",
     ["histories", "inputs", "configurations"], "all programs of motions over all start points, zero points, programming modes and machine kinds",
     "Tests follow one short program.",
     [PF + "AttributesPathCalculator.cpp", PF + "PathCalculator.cpp", PF + "MathUtils.h"],
     [("position and path", PF + "AttributesPathCalculator.cpp evaluate()")], ["path results", "axis ranges"])

prop("C19", "An arc's length is that of the programmed circle arc",
     "A circular motion whose ends lie on the circle adds radius times swept angle to the cutting path: the sweep from the previous position to the end point around the given centre, clockwise or counter-clockwise, a full circle "
     "when the ends coincide; with a radius, the shorter arc for a positive and the longer for a negative radius. It holds in all three planes (in the ZX plane, whose view differs between machines, for one of the two senses of rotation), absolute and incremental, and the position becomes the end point.",
     ["inputs"], "all start points, centres, radii, sweeps, directions, planes and programming modes",
     "Tests check one point per function, with ends that are not on the circle.",
     [PF + "PathCalculator.cpp", PF + "AttributesPathCalculator.cpp"],
     [("arc length", PF + "PathCalculator.cpp G17()"), ("arc block", PF + "AttributesPathCalculator.cpp")], ["path results"])

prop("C20", "A drilling cycle adds the motion of each hole and returns to the right level",
     "Each hole of a drilling cycle adds the cutting and rapid motion of that cycle kind (from the reference level to the depth and back to the initial or reference level, pecks included) plus the rapid distance between holes, with the depth, level and peck given with the first hole; the cycle repeats for every following position until "
     "it is cancelled, a repeat count repeats it, and a zero count drills nothing.",
     ["inputs", "histories", "configurations"], "all cycle kinds, depths, levels, pecks, return modes, depth conventions, planes and hole patterns",
     "Tests check the formulas on one set of numbers per function, and one short program.",
     [PF + "PathCalculator.cpp", PF + "AttributesPathCalculator.cpp"],
     [("cycle path", PF + "PathCalculator.cpp DrillCyclePath_*()"), ("cycle block", PF + "AttributesPathCalculator.cpp")], ["path results"])

prop("C21", "Machining time is path over feed, plus dwells and exchanges",
     "The time of a block is its cutting path divided by the active feed (per minute; in lathe programming also per revolution at the active spindle speed or at constant surface speed) plus its rapid path divided by the machine's rapid feed, plus programmed dwells, tool exchange, measurement and pallet exchange times where the machine settings "
     "say so. It is never negative, a block without motion, dwell or exchange takes no time, and a cut for which no feed was programmed is rejected.",
     ["inputs", "histories", "configurations"], "all feeds, feed modes, speeds, dwells, tool changes and machine settings",
     "Tests follow one program on one machine.",
     [PF + "AttributesPathCalculator.cpp"], [("time", PF + "AttributesPathCalculator.cpp")], ["time results"])

prop("C22", "Totals are the sums of the blocks",
     "After every block, accepted or rejected, the total path and time are the previous totals plus the block's cutting and rapid parts (and its dwell and exchange times), the current tool's totals are the cutting and rapid parts of the blocks worked with that tool, "
     "also when it comes back, and totals never decrease; a rejected block's path is not counted twice.",
     ["histories"], "all programs, with rejected blocks and tool changes at any place",
     "Tests look at results of single blocks and final totals of one program.",
     [PF + "AttributesPathCalculator.cpp"], [("accumulation", PF + "AttributesPathCalculator.cpp")], ["path and time results"])

prop("C23", "A reset parser is as good as a new one",
     "After the macro values and path values are reset, a program gives the same verdicts, messages, words, paths, times, ranges and macro values as in a parser that was just created, whatever was parsed before; parsing "
     "the same program twice after resets gives the same results twice, and two parsers never influence each other.",
     ["histories"], "all pairs of programs run before and after the reset, all control types and settings",
     "Tests create a parser per test case.",
     [PF + "AllAttributesParser.cpp", PF + "AttributesPathCalculator.cpp"],
     [("reset", PF + "AllAttributesParser.cpp reset_macro_values(), reset_attributes_path_calculator()"), ("reset", PF + "AttributesPathCalculator.cpp reset()")],
     ["all results"])

prop("C24", "Unit conversion scales lengths and feeds and nothing else",
     "Converting a block between millimetres and inches multiplies or divides exactly the plain values of its length and feed words by 25.4 (rounded to the precision of the word), swaps G20 and G21, and leaves "
     "every other word, their order, comments, optional blocks, the time of a dwell, the direction and angle of a rotation (wherever in the block they stand) and macro values unchanged; the result is accepted by the same syntax if it is within the word ranges.",
     ["inputs"], "all blocks of all control types, both directions, all magnitudes and signs",
     "Tests convert a few blocks.",
     [PF + "UnitConverter.cpp"], [("conversion", PF + "UnitConverter.cpp")], ["converted words"])

prop("C25", "Renumbering changes block numbers only",
     "Renumbering a program gives the blocks that are to be numbered the numbers start, start + step, … (wrapping within the allowed range), with leading zeros if asked for, and leaves every other word and the order of blocks "
     "unchanged; program numbers, comments, percent signs and optional blocks stay unnumbered, and removing the numbers gives back the text without numbers.",
     ["inputs", "histories"], "all programs, start values, steps, frequencies, limits and options",
     "Tests renumber a few blocks with a few settings.",
     [PF + "Renumberer.cpp"], [("renumbering", PF + "Renumberer.cpp")], ["renumbered words"])

prop("C26", "Rotating the axes is a rotation of the coordinate system",
     "Rotating a block about an axis by 90, 180 or 270 degrees maps its coordinates, arc centres, plane selection and (for arcs programmed in the XY plane) the sense of arcs as the rotation of space does, and changes nothing else; rotating back, or four times by 90 degrees, restores the "
     "coordinates (of the axes; the sense of an arc is not restored).",
     ["inputs"], "all blocks, all nine rotations and their compositions",
     "Tests rotate single words.",
     [PF + "AxesRotator.cpp"], [("rotation tables", PF + "AxesRotator.cpp")], ["rotated words"])

prop("C27", "Splitting a program loses and invents nothing",
     "The parts of a split program, put together in order without the block numbers and retraction lines the settings add, are the original program's blocks in order, each exactly once; every part ends where the chosen criterion (block "
     "count, tool change, time, path, text) says, and settings that cannot be used are reported.",
     ["inputs", "configurations"], "all programs, all five criteria, all limits, with and without numbering and retraction",
     "Tests split one or two small programs.",
     [PF + "FileSplitter.cpp", PF + "AllAttributesParser.cpp"], [("splitting", PF + "FileSplitter.cpp")], ["parts"])

prop("C28", "Removing comments, optional blocks or numbers removes just that",
     "Removing the comments, the numbered optional block marks at the start (/1 to /9), or the block numbers of a block leaves exactly its other words, unchanged and in order, and doing it again changes nothing more.",
     ["inputs"], "all blocks of all control types",
     "Tests check a few blocks.",
     [PF + "AllAttributesParser.cpp"], [("removal", PF + "AllAttributesParser.cpp remove_comment(), remove_optional_block(), remove_numbering()")],
     ["resulting words"])

prop("C29", "Parsers used in different threads do not interfere",
     "Parsers that are created and used each in one thread can work at the same time: there is no data race between them, and each gives the results it gives when it is alone.",
     ["schedules"], "all interleavings of operations of several parsers in several threads",
     "Tests are single threaded and run without a race detector.",
     [PF + "AllAttributesParser.cpp", PF + "MessageText.cpp", PF + "AllAttributesParserGrammar.h"],
     [("no shared mutable state", "parser/")], ["race reports", "results per thread"])

prop("C30", "The Heidenhain syntax check is total and repeatable",
     "Every text given to the Heidenhain parser is judged without crash, exception or memory error, and the verdict and message depend on the text alone. Well-formed plain-language blocks (optional line number and a blank, words with "
     "signs, decimals, Q parameters or quoted names, BEGIN/END PGM name MM/INCH, CYCL DEF/CALL, Q parameter assignments, a final comment or continuation mark) are accepted; blocks with anything else are rejected with the line, "
     "column and rest of the text where reading stopped; and operations that do not exist for this control report failure.",
     ["inputs", "histories"], "all texts, any order of calls",
     "No test covers the Heidenhain C interface beyond a few blocks.",
     ["parser/heidenhain/AllAttributesParser.cpp", "parser/heidenhain/AllAttributesParserGrammar.h"],
     [("grammar", "parser/heidenhain/AllAttributesParserGrammar.h")], ["verdicts", "messages", "sanitizer reports"])

prop("C31", "The language of the messages changes their text only",
     "For the same program and settings, choosing English or Polish messages gives the same verdicts, words, paths, times, ranges and macro values, and a block that gets a reason in one language gets one in the other, in the chosen language and with the same numbers and addresses in it.",
     ["inputs", "configurations"], "all programs, all control types, both languages",
     "Tests use one language per case and never compare.",
     [PF + "MessageText.cpp", PF + "MessageText_en.cpp", PF + "MessageText_pl.cpp"],
     [("message tables", PF + "MessageText_en.cpp, " + PF + "MessageText_pl.cpp")], ["verdicts", "messages"])

prop("C32", "Helix turns of one radius and height are equally long",
     "A block of an arc code on a mill that also changes the height and gives a centre with pitch or a radius is a turn of a helix: a full turn when it ends over its start, a quarter turn when both coordinates of the plane change. "
     "The cutting path of a turn depends on its kind, radius and height alone, not on the place, plane, sense, absolute or incremental programming, centre or radius form, nor on what was worked before; it is not shorter than a helix of that radius and height, "
     "four quarter turns are as long as the full turn of their height, lengths scale with the helix, and a further full turn may be given by its height alone. A spiral (turns L or pitch Q) has the length of the Archimedean spiral of its radius. "
     "Arcs without a change of height, and arcs after another motion, are plain arcs; positions and times follow the path as for every motion.",
     ["inputs", "histories"], "all radii, heights, planes, forms and orders of helices, spirals, arcs and straight motions",
     "Tests follow two helices and one spiral from the same start.",
     [PF + "AttributesPathCalculator.cpp", PF + "PathCalculator.cpp"], [("helix state", PF + "AttributesPathCalculator.cpp evaluate()"), ("turn lengths", PF + "PathCalculator.cpp HelixG17() and the like")],
     ["path and time results", "axis ranges"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
