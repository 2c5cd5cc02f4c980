#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept here so that both stay in step with checks/)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "CMakePasm/source/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, tech, note, state=()):
    P.append(dict(tech=tech, note=note, line={
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": [S + f if "/" not in f else f for f in files],
                    "state": [{"name": n, "meaning": m, "where": S + w} for n, m, w in state],
                    "mechanism": [{"name": n, "where": S + w if "/" not in w else w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}}))


IMG = ["the output file", "exit status", "diagnostics on stderr"]
TRUST = "Trusts the reference in /verif/lib (written from the documented language and the published 6502/65C02 tables, not from the code) and the case generator's reach; finite number of programs per run, seeded by VERIF_SEED."

prop("C01", "Instructions are encoded as the selected CPU defines them",
     "Every instruction a program may write for the selected processor (6502, 6502 with illegal opcodes, 65C02) assembles to exactly the opcode byte and little-endian operand bytes that processor defines for that mnemonic and addressing mode, relative branches included. An instruction or addressing mode the selected processor does not have is refused with an error, never assembled to something else. Switching the processor or illegal opcodes in the middle of the source takes effect from that line on.",
     ["inputs", "configurations"], "all mnemonics x operand forms x operand values x processor modes chosen on the command line or by directive",
     "The unit tests look up the opcode table and a few hundred instructions through the nodes; they do not assemble source text over all forms, values and modes, and never ask that what is not in the table is refused.",
     ["opcodes.cc", "expand.cc", "pasm.y", "pasm.l"],
     [("opcode tables and lookup", "opcodes.cc"), ("expansion of opcode nodes", "expand.cc"), ("instruction grammar", "pasm.y")], IMG,
     "differential runtime monitor: every mnemonic x form x mode assembled by the real program, image compared byte by byte with independent opcode tables, invalid ones must be refused",
     "All mnemonic/form/mode combinations are enumerated, operand values sampled with all boundaries. " + TRUST)

prop("C02", "The operand size follows the operand's value, never truncating it",
     "An operand whose value fits one byte uses the zero page form when the instruction has one and the two-byte form otherwise; a value that needs two bytes uses the two-byte form. A value that does not fit any form of the written addressing mode (immediate, zero-page-only, absolute) is an error, it is never cut down to fit. The size chosen for a symbol's operand agrees with the symbol's final value even when the symbol is defined after its use.",
     ["inputs", "programs"], "all instructions with zero page and/or absolute forms x values around every range limit, written as literal, expression, symbol defined before or after the use, negative value",
     "The tests assemble a few fixed operands; the limits (255/256, -1, -255, 65535/65536), forward references and every instruction that has only one of the two forms are not covered.",
     ["expand.cc", "opcodes.cc", "pass.cc"],
     [("size selection when a node is expanded", "expand.cc"), ("repeat passes until sizes are stable", "pass.cc")], IMG,
     "differential runtime monitor over boundary operand values against independent tables; out-of-range values must be refused",
     "Boundary values enumerated for every instruction that takes an operand. " + TRUST)

prop("C03", "Expressions have the value their grammar defines",
     "An expression built from literals, symbols, the program counter and the documented operators evaluates to the 32-bit two's complement value given by the documented precedence and left-to-right association, wherever it is used (data, operands, symbol definitions, conditions). Division by zero, undefined symbols and results that do not fit their place are errors. The value does not depend on spacing, redundant parentheses, number format or on whether the symbols in it are defined before or after the use.",
     ["inputs", "programs"], "all expression trees over the operators, including deep nesting, mixed precedence, overflow, negative values and forward references",
     "The unit tests build a few operator nodes with small operands; precedence/associativity chains, overflow, negative shifts and forward references in arbitrary trees are not sampled.",
     ["expand.cc", "pasm.y", "pasm.l", "node.cc"],
     [("operator grammar and precedence", "pasm.y"), ("evaluation of operator nodes", "expand.cc")], IMG,
     "differential runtime monitor: random expression trees evaluated by the real assembler and by a reference evaluator",
     TRUST)

prop("C04", "A branch always reaches its target",
     "Every relative branch in a program, executed on the processor, goes to exactly the address of the label it names: with a relative offset when the target is within -128..127 of the following instruction, and otherwise through an inverted branch around a jump (or a plain jump for bra), with a warning. Which of the two is used depends on the final distance only, for forward and backward branches, in macros and loops, and for chains of branches whose rewriting moves other branches out of range. Turning warnings off changes nothing in the image.",
     ["programs", "inputs"], "all branch instructions x distances around both limits x combinations of several interdependent branches",
     "The tests contain single fixed branches; the exact limits in both directions and cascades of rewritten branches are not sampled.",
     ["expand.cc", "pass.cc", "opcodes.cc"],
     [("branch expansion and rewriting", "expand.cc"), ("passes until nothing changes", "pass.cc")], IMG + ["the image executed on a 6502/65C02 interpreter"],
     "runtime monitor: the emitted code is decoded and executed on an independent CPU model; every branch must land on its label, at every distance near the limits",
     TRUST)

prop("C05", "The image of a whole program is that of its final symbol values",
     "For every valid program, all labels and symbols have in the output one consistent final value: each label is the address at which its statement's bytes were emitted, and every use of a symbol, before or after its definition and through any chain of definitions, uses that final value. The output is exactly the bytes its statements define at those addresses, for any combination of the language's features. A symbol with two different definitions, or definitions that depend on themselves, is an error.",
     ["programs"], "random whole programs combining all language features (labels, sections, local and +/- labels, macros, loops, conditionals, includes, data, forward references, long branches, CPU switches)",
     "The repository's programs are a few samples; the interplay of passes, forward references and size changes depends on the whole program and cannot be covered by fixed examples.",
     ["pass.cc", "expand.cc", "sym.cc", "genoutput.cc"],
     [("multi-pass driver", "pass.cc"), ("symbol table with access counts and changes", "sym.cc")], IMG,
     "differential runtime monitor: random whole programs, image compared with an independent reference assembler",
     "Programs with more than one consistent layout are accepted in any of them if the reference confirms it. " + TRUST,
     [("symbol value, isinitialized, times accessed", "what the pass knows of a symbol", "sym.cc")])

prop("C06", "Each use of a name means the symbol its scope rules select",
     "A local (@) label belongs to the global label before it and can be reused after the next one; + and - labels refer to the n-th following or preceding one of that form in their file; a name in a section is that section's own and outside it is reached by its qualified name, while a name defined only outside a section is found from within it, and a macro's body means the names of the section it is called in. A reference resolves to exactly the definition these rules select however many equal names exist in other scopes, and is independent of letter case. A reference without such a definition is an error.",
     ["programs"], "programs with many equal local, +/- and section names, references in both directions across scopes, nesting and first/last lines",
     "The tests use one or two scopes; wrong capture only shows when the same name exists in several scopes, in both directions.",
     ["sym.cc", "pasm.y", "pasm.l", "expand.cc", "stacks.cc"],
     [("local and section name mangling", "sym.cc"), ("plus/minus tables", "sym.cc")], IMG,
     "differential runtime monitor: programs dense in equal names across scopes, references resolved by a reference scope model; dangling references must be refused",
     TRUST)

prop("C07", "Data directives emit exactly the bytes they are given",
     "byte, word, string, fill and reserve directives emit their items in order, words low byte first, strings byte for byte with their escapes resolved (padded to a whole number of words in a word list), fill the given number of the given byte, whatever the length and mix of items. The program counter moves by exactly the number of bytes emitted or reserved. A value outside its item's range, or a negative count, is an error.",
     ["inputs", "programs"], "all data directives x item mixes x boundary values x strings with all escapes and byte values",
     "Unit tests feed single nodes; long mixed lists, boundary values, every character and the following label's address are not covered.",
     ["expand.cc", "genoutput.cc", "str.cc", "pasm.l"],
     [("data expansion", "expand.cc"), ("output of values and strings", "genoutput.cc")], IMG,
     "differential runtime monitor: data lists assembled by the real program compared byte for byte with a reference; out-of-range items must be refused",
     TRUST)

prop("C08", "Conditionals and loops equal the source they select",
     "A program with .if/.ifdef/.ifndef, .repeat, .do, .while and .for assembles to the same bytes as the program in which each is replaced by the lines it selects, in order, as often as it runs, with the variables at the value they have in that turn. Skipped lines have no effect at all: no bytes, no definitions, no errors, no directives. Unbalanced or mismatched block directives are errors.",
     ["programs", "inputs"], "nested conditionals and loops with all bounds, steps, directions and zero turns, with text in skipped parts that looks like directives",
     "Tests cover single loops with small fixed bounds; nesting, negative steps, changes of variables in the body and skipped text are combinations.",
     ["expand.cc", "pasm.y", "pasm.l", "stacks.cc"],
     [("loop expansion", "expand.cc"), ("conditional lexing states and if stack", "pasm.l")], IMG,
     "metamorphic and differential runtime monitor: image equals that of the hand-unrolled source and of the reference",
     TRUST)

prop("C09", "A macro call equals its body with the arguments put in",
     "Calling a macro assembles to the same bytes as writing its body with each parameter replaced by the value of the matching argument, for any number of parameters and calls, nested and recursive ones included. Local labels in a macro body are separate for every call and are neither visible to nor confused with those of the caller or of other calls. Calls of undefined macros, and errors in the expanded body, are errors.",
     ["programs"], "macro definitions with up to 12 parameters, nesting, forward references in arguments, local labels, many calls",
     "The tests call a few macros once or twice; argument capture in nested calls and local label separation depend on the history of calls.",
     ["expand.cc", "sym.cc", "pasm.y", "stacks.cc"],
     [("macro expansion and parameters", "expand.cc"), ("local names per call", "sym.cc")], IMG,
     "metamorphic and differential runtime monitor: image equals that of the source with every call replaced by the body by hand, and of the reference",
     TRUST)

prop("C10", "Include files and several inputs equal one inlined source",
     "Source split into include files (nested, several times included, found directly or through the search directories) or given as several input files assembles to the same bytes as the same lines in one file, and symbols are shared between all of them. A loaded binary file contributes exactly its bytes, whatever they are. A file that cannot be found is an error that names it.",
     ["programs", "configurations"], "splits of a program into files at any line, nesting depth, search paths, binary contents of any size",
     "The tests assemble samples with fixed include structure; splitting at arbitrary points and arbitrary binary content is not sampled.",
     ["pasm.l", "file.cc", "expand.cc", "genoutput.cc", "main.cc"],
     [("include stack", "pasm.l"), ("file search", "file.cc")], IMG,
     "metamorphic runtime monitor: image of split source equals image of the same lines in one file; loaded bytes compared with the file",
     TRUST)

prop("C11", "Register loops run their body once per index, in order",
     "The code generated for a register loop, executed on the processor, runs its body exactly once for every index of the stated range in the stated direction, with the register holding the index in the body, and then falls through with no other register changed by the loop itself. This holds for all bounds 0..255 in both directions, for both registers, nested, and for bodies too long for a relative branch.",
     ["inputs", "programs"], "all start/end pairs, both registers and directions, nesting, body sizes around the branch limit",
     "Correctness shows only when the generated code is executed; the tests compare bytes of a few fixed loops.",
     ["expand.cc", "pasm.y"],
     [("register loop expansion", "expand.cc")], ["the image executed on a 6502/65C02 interpreter"],
     "runtime monitor: generated code executed on an independent 6502 interpreter, the sequence of index values in the body compared with the stated range",
     TRUST)

prop("C12", "The output file is the emitted bytes in order, and only that",
     "The output file holds exactly the bytes the statements emit, in source order and with nothing between them, preceded, only when the C64 header is requested, by the two-byte little-endian address of the first of them. Setting the program counter or the origin changes the addresses of what follows and nothing else in the file. Reserved space at the end is not written, and output that would follow reserved space without a new address is refused; the reported number of bytes written is the size of the file.",
     ["programs", "configurations"], "origins, program counter assignments, reserved space and orders of them, with and without header",
     "Tests use fixed origins; gaps of 1 or 2 bytes, assignments that move by nothing, reserve at the end and the header combinations are not sampled.",
     ["genoutput.cc", "pass.cc", "expand.cc"],
     [("output writer and address check", "genoutput.cc")], ["the output file", "the message of the number of bytes", "exit status"],
     "runtime monitor: output file size, header, message and content checked against the emitted records of the reference",
     TRUST)

prop("C13", "Errors are always reported and valid programs never are",
     "A program with an error (syntax, undefined symbol, value out of range, missing file, unbalanced block, unknown instruction) ends with a nonzero exit status and a diagnostic on the error output, wherever in the program, include file, block or macro it is and whichever output is asked for. For a syntax error, a value out of range or a mode that does not exist, in a single line outside of blocks, the diagnostic names the file and the line. A valid program ends with exit status 0 and without an error message, warnings or not.",
     ["programs", "inputs"], "valid programs with one erroneous line of any kind inserted at any place, against the same program without it",
     "Tests run a few known-bad nodes; that an error in any position of any program reaches the exit status depends on the pass in which it is seen.",
     ["error.cc", "pass.cc", "main.cc", "pasm.y"],
     [("error counting and reporting", "error.cc"), ("exit status", "main.cc")], ["exit status", "stderr", "the output file"],
     "fault-injecting runtime monitor: one error of a known kind planted in a valid program; exit status, message and line number checked, and the unplanted twin must be accepted",
     TRUST)

prop("C14", "The image does not depend on how the source is written",
     "Assembling the same source and options again gives identical output, listing and symbol files. Comments, blank lines, spaces and tabs, letter case of mnemonics, directives and symbols, number formats, redundant parentheses, synonyms of directives, and LF or CRLF line ends change nothing in the image. Options that only ask for additional output (listing, symbols, verbose) change nothing in the image either.",
     ["inputs", "programs", "configurations"], "random programs x random renderings of the same program",
     "Tests assemble each source in one rendering once.",
     ["pasm.l", "pasm.y", "sym.cc", "hash.cc"],
     [("lexer", "pasm.l"), ("case folding of names", "hash.cc")], ["the output file", "the listing", "the symbol file"],
     "metamorphic runtime monitor: renderings of the same program compared with each other, repeated runs compared byte for byte (sanitizer build included)",
     TRUST)

prop("C15", "The listing shows every emitted byte at its address with its source",
     "The listing file contains, in order, rows whose addresses and bytes together are exactly the output image, each byte at the address it was assembled for, for code, data, strings, loaded files and expanded macros and loops. Every source line is shown, in order, under the name of its file and next to the bytes that come from it. Asking for a listing changes neither the image nor the exit status; verbose output shows the same listing.",
     ["programs"], "random whole programs with all directives and long data",
     "Tests assemble samples and look at one listing; rows of long or mixed data are combinations of lengths.",
     ["genlist.cc", "genoutput.cc", "pass.cc"],
     [("list rows", "genlist.cc")], ["the listing file", "the output file"],
     "trace-checking runtime monitor: the listing is parsed back and its bytes, addresses and source lines compared with the image, the reference and the source",
     TRUST)

prop("C16", "The symbol file lists every symbol with its final value",
     "The symbol file contains each used global label and equate exactly once, with the value it has in the assembled image, in order of value, and contains nothing else (no variables, macro parameters, local or +/- labels). It is the same for every way of writing the same program, and verbose output shows the same list.",
     ["programs"], "random whole programs with many symbols, sections, values from 0 to 65535",
     "Tests assemble samples and do not read the symbol file back.",
     ["sym.cc", "main.cc", "pass.cc"],
     [("symbol printing and sorting", "sym.cc")], ["the symbol file"],
     "runtime monitor: the symbol file is parsed back and compared with the reference's final values",
     TRUST)

prop("C17", "No input makes the assembler touch memory it must not or crash",
     "For every input text, valid or not, of any length and byte content, and every combination of options, the assembler never dies from a signal or an abort, never accesses memory outside its objects or after freeing it, and does nothing undefined. This includes truncated and corrupted programs, extreme nesting, very long lines and names, and arbitrary bytes.",
     ["inputs", "configurations"], "mutated, truncated, spliced and random source bytes, plus generated valid programs, over all options",
     "The tests give well-formed input without sanitizers.",
     ["pasm.l", "pasm.y", "expand.cc", "stacks.cc", "sym.cc", "genlist.cc", "genoutput.cc"],
     [("all of the assembler", "expand.cc")], ["exit status", "sanitizer reports"],
     "AddressSanitizer + UndefinedBehaviorSanitizer over grammar-based and mutational workloads",
     "Sees only what the sanitizers see on the inputs run; leaks are not judged. Stack exhaustion by nesting is judged up to the depth generated.")

prop("C18", "eolconvert turns every line end into LF and changes nothing else",
     "Run over its samples directory, eolconvert rewrites every text file (printable ASCII and line ends only) so that each line end (CR, LF, CR LF or LF CR, in any mixture, paired from left to right) becomes one LF and every other byte is kept, in all subdirectories. Other files are left as they are, byte for byte, running it again changes nothing, and nothing outside the directory is touched. It ends with success also when the directory is empty or missing.",
     ["inputs", "histories"], "directory trees with files of arbitrary bytes and mixtures of line ends, converted once and twice",
     "It has no tests.",
     ["CMakePasm/eolconvert/eolconvert.cc"],
     [("conversion and text detection", "CMakePasm/eolconvert/eolconvert.cc")], ["the files of the scratch directory tree"],
     "runtime monitor under AddressSanitizer: generated file trees converted in a scratch directory, each file compared with a reference conversion, idempotence checked",
     "Only in scratch directories. " + TRUST)

prop("C19", "The dictionary behaves as a map for any history of operations",
     "For every sequence of adding, finding, changing and deleting entries, growing included, a dictionary returns for every key (string keys without regard to letter case) exactly the value last stored under it and nothing for a key not stored; deleting a key removes its last stored entry and uncovers the one before, and visiting yields each stored entry once. Pointers it handed out for entries that still exist stay valid and keep their value. No memory is leaked, freed twice or used after being freed.",
     ["histories"], "random histories of operations with colliding, equal-prefix, case-varied and many keys across several growth steps",
     "The unit tests perform a few short histories.",
     ["dictionary.cc", "hash.cc"],
     [("hash table with growth", "dictionary.cc"), ("hash functions", "hash.cc")], ["the values returned by the operations", "sanitizer reports"],
     "model-based runtime monitor under AddressSanitizer: long random histories against a map model in process",
     "Trusts the model in the harness.")

prop("C20", "Stacks return what was pushed, last in first out",
     "For every sequence of push, pop, top, item and clear operations the stacks return exactly the values pushed, last in first out, keep the items below unchanged and count them correctly, across all growth steps; popping an empty stack (in a release build) gives nothing. Several stacks do not affect each other, and no memory is leaked or used after being freed. Programs with blocks, include files and macro calls nested far past the growth steps therefore assemble to the bytes of their flat form.",
     ["histories"], "random histories of push, pop, peek over several stacks and sizes across growth",
     "The unit tests push and pop a few values.",
     ["stacks.cc"], [("stack growth", "stacks.cc")], ["the values returned by the operations", "sanitizer reports", "the output file of deeply nested programs"],
     "model-based runtime monitor under AddressSanitizer: random histories against a list model in process, and nested programs against their flat form",
     "Trusts the model in the harness and, for nested programs, the generator's flat form; popping an empty stack is judged with assertions off.")

prop("C21", "Assembly always comes to an end with a result or an error",
     "For every program whose own loops end, the assembler ends after at most 20 passes: with a final image in which nothing changed any more, or with an error and no output; chains of a dozen forward references and layouts that settle in a few passes are always assembled. Programs whose symbols or sizes never settle, and loops and macros that run without end while producing output, are stopped with an error, and .end ends every loop. Work grows in proportion to the length of the program (+ and - labels, which are looked up by scanning, excepted).",
     ["programs"], "programs with long chains of forward references, oscillating sizes, cascades of branches, endless loops",
     "Tests contain only programs that settle in a few passes.",
     ["pass.cc", "expand.cc"], [("pass limit", "pass.cc"), ("endless loop detection", "expand.cc")], ["exit status", "stderr", "time"],
     "runtime monitor with a watchdog: adversarial convergence workloads, each must end in time in an image equal to the expected one or in an error; instruction counts of programs of two sizes compared",
     "A run that exceeds the (generous) time limit twice is a violation here.")

prop("C22", "Command line options do what they say in any order and spelling",
     "Every option (output, defines, directories, symbol file, list file, log, processor, illegal opcodes, C64 header, warnings, help) has its documented effect in every order relative to the others and the input files, with - or /, in any letter case; the warning of a branch that became a jump is given once, with its file and line, exactly where warnings are on (-nowarn, .warn on, .warn off). Defined symbols have exactly the given value in all number formats (decimal, $ or 0x hexadecimal, % or 0b binary; names in directory lists with or without a trailing slash). Unknown options, options without their argument, repeated or contradicting ones, malformed or too large define values and missing inputs end with a message, a nonzero exit status and no output file.",
     ["configurations", "inputs"], "subsets and orders of options, spellings, define values in all formats",
     "Tests start the program with a few fixed command lines.",
     ["parseargs.cc", "main.cc"], [("argument parser", "parseargs.cc")], ["exit status", "files written", "the output file"],
     "runtime monitor: command lines generated from an option model, effects compared with the reference",
     TRUST)

prop("C23", "Literals and escapes have exactly their written value",
     "Every integer literal (decimal, $ hexadecimal, % and 0b binary, character) denotes exactly the number written, up to 32 bits, with larger ones refused. String literals denote exactly their characters, with every escape sequence replaced by the byte it stands for. Malformed literals are errors.",
     ["inputs"], "all formats x values x widths, leading zeros, letter case; all characters and escapes in strings of any length",
     "The tests use a handful of literals.",
     ["pasm.l", "str.cc"], [("literal scanning", "pasm.l"), ("escape conversion", "str.cc")], IMG,
     "differential runtime monitor: literals of every format rendered from known values, the image compared with them; malformed ones must be refused",
     TRUST)

prop("C24", "Print directives show final values once and switch the listing exactly",
     "`.print` (or `?`) writes its items, one line per time its own line is assembled and in source order, to the standard output, with the values they have in the finished program and not those of an earlier pass: a number as its 16 bits ($HH, or $HH $HH when the high byte is not zero), a string as it is. `.printall` (`??`) does so in every pass, the last time with the final values. `.print off` and `.print on` hide exactly the source lines and the assembled bytes between them from the listing, and no print directive changes the image.",
     ["programs"], "programs with print directives in conditionals, loops and macros, over forward references; alternating and repeated listing switches",
     "Tests compare two fixed listings with a switch.",
     ["expand.cc", "pass.cc", "pasm.y", "genlist.cc"], [("print expansion in the final pass", "expand.cc"), ("listing switch", "genlist.cc")], ["stdout", "the list file", "the output file"],
     "runtime monitor: printed items and listed lines of the real run compared with the reference's final values and the marked source lines",
     TRUST)

prop("C25", "A file that cannot be read or written completely is always reported",
     "When an output, symbol, list or log file cannot be created or written completely (no such directory, full device, a failing write at any point), or an input, include or loaded file cannot be opened or read, the assembler (or eolconvert, for a file it converts) ends by itself with a nonzero exit status and a message. When it exits with status 0, every file asked for is there and complete.",
     ["fault_sequences", "configurations", "inputs"], "each kind of file x each kind of fault x the point in the file at which writing fails, over random programs",
     "The tests never make a file operation fail.",
     ["pass.cc", "genoutput.cc", "file.cc", "expand.cc", "main.cc", "eolconvert.cc"],
     [("closing of written files", "pass.cc"), ("output writer", "genoutput.cc"), ("file search and open", "file.cc")], ["exit status", "stderr", "the files written"],
     "fault-injecting runtime monitor: full devices, file size limits, missing directories and directories in place of files injected into runs of the real program; success only with complete files",
     "Faults are injected through the file system (/dev/full, file size limits, missing directories, directories in place of files), not at every system call. " + TRUST)

NA = {}


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(V, "checks")) if f.endswith(".py")}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["line"]) + "\n")
    m = {"version": 1, "setup_cmd": "python3 lib/build.py plain asan",
         "checks": [], "not_applicable": [],
         "notes": "No hooks: the checks observe unmodified builds of /repo's working tree (lib/build.py compiles it into /verif/.build, keyed by content). known_findings.txt lists repaired and open findings."}
    for p in P:
        i = p["line"]["id"]
        if i in have and i not in NA:
            m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                                "technique": p["tech"], "level": "exploration", "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
