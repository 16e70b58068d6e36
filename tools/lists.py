#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "CMakePasm/source/"
UNIT = ("The unit tests build a handful of parse trees by hand and look at single nodes; they never run a source text "
        "through the lexer, the parser, all passes and the writers of the output files. ")

# id, title, statement, over, quantifier, why, files, mechanisms [(name, where)]
P = [
("C01", "Every instruction assembles to the encoding of its CPU",
 "Every instruction of the selected instruction set (6502, 6502 with illegal instructions, 65C02), written in any of its addressing modes, "
 "becomes the opcode byte that the CPU defines for that mnemonic and mode, followed by its operand in little endian order. "
 "The zero page form is taken when the value is known to fit one byte and the CPU has it, else the absolute form. "
 "A mnemonic or an addressing mode that the selected instruction set does not have is rejected.",
 ["inputs", "configurations"], "all mnemonics x addressing forms x instruction sets x operand values",
 "about 150 mnemonics times 13 forms times 3 instruction sets times operand values, through the whole program",
 ["opcodes.cc", "expand.cc", "genoutput.cc", "pasm.y"],
 [("opcode tables", "opcodes.cc: ops6502, ops65c02"), ("choice of the mode", "expand.cc: expand_op_code_node"),
  ("writing an instruction", "genoutput.cc: write_opcode_node")]),
("C02", "An operand is assembled exactly or not at all",
 "An operand of an instruction or an element of a data directive appears in the object file with exactly its value, "
 "negative numbers as two's complement, or the program is rejected because the value does not fit: no value is ever truncated silently. "
 "This holds wherever the value comes from: a literal, an expression, a constant, a label in front of or behind it, a macro argument.",
 ["inputs", "programs"], "operand values, in particular around 0, -128, 255, 256, 65535, times forms and places of definition",
 "the limits matter in combination with forward references and addressing modes",
 ["expand.cc", "genoutput.cc"],
 [("range check of the final pass", "expand.cc: check_operand_range"), ("sizes while values are unknown", "expand.cc: expand_op_code_node")]),
("C03", "Branches reach their target at any distance",
 "A conditional branch or bra that reaches its target (-128..127 from the following instruction) is the two byte instruction; one that does not becomes "
 "code that goes to the same target under the same condition, with one warning when warnings are on. "
 "This holds for branches over other branches that become long, for branches in loops and macros, and for targets of any kind.",
 ["programs"], "all programs with branches, distances on both sides of the limits, long branches in between",
 "whether a branch is long depends on the sizes of all others between it and its target over several passes",
 ["expand.cc"], [("far branches", "expand.cc: expand_op_code_node")]),
("C04", "Addresses settle, and every reference has the final value",
 "When assembling succeeds, every label has the address of the byte behind it in the object file, every constant has the value of its expression over those addresses, "
 "and every reference, forward or backward, was assembled with that final value. "
 "A program whose definitions have no consistent solution within the number of passes is rejected, one that settles is not.",
 ["programs"], "all programs: order of definitions and uses, dependencies between sizes and addresses",
 "the fixpoint of the passes depends on the whole program; tests look at single nodes in a single pass",
 ["pass.cc", "expand.cc", "sym.cc"], [("passes until nothing changes", "pass.cc: assemble"), ("symbol changes", "sym.cc: set_symbol_value")]),
("C05", "Undefined names are never assembled",
 "A program that uses a name, local label or anonymous label that has no definition in its scope, in any place where its value matters, is rejected with an error. "
 "A name that only occurs where it is never evaluated (a skipped conditional, a macro that is not called) does no harm.",
 ["programs"], "every place that takes an expression, times every kind of name",
 "there are dozens of places for an expression and several kinds of names",
 ["expand.cc", "sym.cc", "pass.cc"], [("unresolved symbols", "sym.cc: dump_unresolved_symbols, pass.cc: assemble"), ("final pass errors", "expand.cc")]),
("C06", "Expressions have their documented value",
 "Every expression, made of numbers in decimal, hexadecimal and binary notation, symbols, the program counter and the unary and binary operators, "
 "has the value that the precedence and associativity of the operators give it, in every place that takes an expression, "
 "and a division by zero is an error.",
 ["inputs"], "all expressions: operator pairs and triples, nesting, values",
 "the pairs and triples of 19 binary and 5 unary operators with parentheses are thousands, each through lexer, grammar and evaluation",
 ["pasm.y", "pasm.l", "expand.cc"], [("grammar of expressions", "pasm.y: subexpr"), ("evaluation", "expand.cc: expand_operator_*_node")]),
("C07", "Constants have one value, variables their latest",
 "A constant, label or command line definition has one value in the whole program, and a second definition with another value is rejected. "
 "A variable has, at every use, the value of the most recent assignment in the order of expansion, starting over in every pass, and is zero until then. "
 "Names are the same in upper and lower case.",
 ["programs", "histories"], "all sequences of definitions, assignments and uses, inside and outside of loops, conditionals and macros",
 "assignments happen in expansion order over several passes",
 ["sym.cc", "expand.cc"], [("assignment", "expand.cc: expand_operator_equ_node, expand_operator_variable_node"), ("symbol table", "sym.cc")]),
("C08", "Sections keep their names apart",
 "A name defined in a section belongs to that section: equal names in different sections, or outside, have nothing to do with each other. "
 "A reference finds the definition in its own section, else in the enclosing ones, and section.name finds it from everywhere, in front of and behind the definition. "
 "Unbalanced sections are errors.",
 ["programs"], "all nestings of sections, definitions and references in any order",
 "which definition a name finds depends on the whole program and on the pass",
 ["sym.cc", "expand.cc"], [("lookup through the scopes", "sym.cc: look_up_symbol"), ("sections", "expand.cc: expand_operator_section_node")]),
("C09", "A local label belongs to the label in front of it",
 "@name refers to the @name between the surrounding two global labels, and to nothing else: the same @name behind another label, in another macro call or section is another one. "
 "A reference to a local label that its label does not have is an error.",
 ["programs"], "all arrangements of labels, local labels, references, macro calls and sections",
 "arrangements of three or more labels and references, with macros in between, over several passes",
 ["sym.cc", "expand.cc"], [("names of local labels", "sym.cc: format_local_sym, expand.cc: expand_label_node")]),
("C10", "Anonymous labels: the n-th in the direction",
 "A reference of n plus signs finds the n-th anonymous + label behind it, and one of n minus signs the n-th - label in front of it, in the same file, whatever is in between. "
 "A reference to one that is not there is an error.",
 ["programs"], "all arrangements of anonymous labels and references in files and included files",
 "an off by one shows only in particular arrangements; tests look at the search function only",
 ["sym.cc", "expand.cc"], [("search by file and line", "sym.cc: find_plus_symbol, find_minus_symbol")]),
("C11", "A macro call is its body with the arguments",
 "A macro call assembles to what its body assembles to with each parameter standing for the value of the argument, evaluated at the call. "
 "Each call has local labels of its own, nested calls leave the parameters of the caller alone, and labels, branches and conditionals in the body work as outside.",
 ["programs", "histories"], "all macros, nestings and sequences of calls with all kinds of arguments",
 "state that one call leaves behind shows in a later one",
 ["expand.cc", "sym.cc"], [("parameters", "sym.cc: push_macro_params, pop_macro_params"), ("expansion", "expand.cc: expand_macro_expansion_node")]),
("C12", "Conditionals assemble exactly one side",
 ".if assembles its first part when the expression is not zero and else its .else part; .ifdef and .ifndef test whether a name is defined by then, or on the command line. "
 "The part that is not assembled has no effect at all, whatever text it holds and however conditionals are nested.",
 ["programs", "inputs"], "all nestings of conditionals, all texts in skipped parts, all truth values",
 "skipping is done on characters, with nesting counts; a handful of tests cannot reach the nestings and texts",
 ["pasm.l", "pasm.y", "expand.cc"], [(".ifdef in the lexer", "pasm.l: states for skipped text"), (".if", "expand.cc: expand_operator_if_node")]),
("C13", "Loops repeat as often as their condition says",
 ".while, .do, .repeat and .for assemble their body once per round, the condition and the loop variable being evaluated as documented (.while before, .do and .repeat behind the body, .for from the start to the end value by its step), "
 "also when nested, in macros, in sections and with forward references in the body.",
 ["programs"], "all loops with their bounds, steps, nestings and bodies",
 "rounds, nesting and passes multiply",
 ["expand.cc", "pasm.y"], [("loops", "expand.cc: expand_operator_while_node, _repeat_, _do_, _for_")]),
("C14", "Register loops run their body once per value",
 "The code of a .for loop over x or y runs its body exactly once for every value from the start to the end, up or down (an end of 0 downwards is a known finding), for bodies of any length and nested loops over the other register, "
 "whatever the flags are, and leaves by falling out of its end. "
 "A loop over a register that is in use is an error.",
 ["inputs", "programs"], "all pairs of bounds, body lengths around the reach of a branch, nestings, flags",
 "what generated code does can only be told by running it; the tests compare two lists of bytes",
 ["expand.cc"], [("register loops", "expand.cc: expand_operator_for_reg_node")]),
("C15", "Data directives write exactly their elements",
 ".byte writes one byte per number, .word two in little endian order, .str as many as each value needs, and strings write their characters and escapes in order (padded to whole words by .word). "
 "The program counter moves by exactly the number of bytes written.",
 ["inputs"], "all lists of elements, values, strings and escapes",
 "elements, sizes, strings with escapes and padding combine",
 ["expand.cc", "genoutput.cc", "str.cc", "pasm.l"], [("counting", "expand.cc: expand_data_node"), ("writing", "genoutput.cc: write_data_node, write_string_node"), ("escapes", "str.cc: sanitize_string")]),
("C16", "The object file is the memory image",
 "The object file holds exactly the bytes that the program emits, in the order of their addresses inside of a segment and segment behind segment, with the two byte load address of the first one in front when asked for; nothing behind .end appears. "
 "Space that is reserved (.ds) in front of further bytes of the same segment is an error and never dropped in silence; setting the program counter starts a new segment, and a second .org is rejected. "
 ".fill takes exactly the space it says and fills it with its value, and .ds takes the space it says (at least one byte).",
 ["programs"], "all sequences of origins, assignments to the program counter, reserved space, fills and data, with and without load address",
 "the image depends on the sequence of segments and on the first byte that is written",
 ["genoutput.cc", "expand.cc"], [("gaps and header", "genoutput.cc: write_header, generate_output"), ("origins", "expand.cc: expand_operator_org_node, expand_operator_program_counter_assign_node")]),
("C17", "Several files are one program",
 "Input files given one after another, and files that are included at any depth, assemble as if their text stood in one file (only anonymous labels stay in their file), and .load puts the bytes of a file into the program unchanged. "
 "A file that cannot be opened is an error.",
 ["programs", "configurations"], "all ways to split a program into input files, included files and binaries",
 "tests run no program of several files",
 ["file.cc", "pasm.l", "expand.cc"], [("includes", "file.cc: open_include_file"), (".load", "expand.cc: expand_operator_load_node")]),
("C18", "Success means no error, failure says why",
 "pasm ends with exit status 0 exactly when the program is correct, all input files could be read and the object file, symbol file and listing that were asked for were written to the last byte, and otherwise with another status and a message on the error output. "
 "A message about the program names the file and the line of the mistake and shows the lines around it as they are; a correct program without warnings leaves the error output empty. No input text makes pasm crash.",
 ["inputs", "programs"], "all programs, each kind of mistake in each place, arbitrary texts, every combination of files that cannot be read or written",
 "a mistake can stand in any place and be noticed in any pass; malformed texts are unlimited",
 ["main.cc", "error.cc", "pass.cc", "pasm.y"], [("counting errors", "error.cc: error"), ("exit status", "main.cc: main")]),
("C19", "The symbol file lists the symbols with their values",
 "The symbol file lists every label, constant and command line definition of the program that is referred to, under its name, with the value it has in the object file, and no name with a wrong value.",
 ["programs"], "all programs with symbols of all kinds and scopes",
 "tests write no symbol file",
 ["sym.cc"], [("writing symbols", "sym.cc: dump_symbols, print_symbol")]),
("C20", "The listing shows the bytes of the object file",
 "The rows of the listing give, in order, exactly the addresses and bytes that the object file has (for the parts with listing on), next to the instruction or the data that they are and to the line of the source they come from. "
 "Turning the listing on or off changes nothing else.",
 ["programs"], "all programs: instructions, data of every length, strings, macros, loops",
 "rows are made by code of their own for every kind of statement; tests make no listing",
 ["genlist.cc", "node.cc"], [("rows", "node.cc: generate_list_node"), ("list file", "genlist.cc: generate_list_file")]),
("C21", "Notation makes no difference",
 "Upper or lower case, spaces and tabs, comments and blank lines, LF or CR LF, a colon behind a label, alternative spellings of a directive and the notation of numbers make no difference to what a program assembles to.",
 ["inputs"], "all programs in all their notations",
 "the notations of a program are unlimited; they go through the lexer, which no test runs",
 ["pasm.l", "pasm.y"], [("tokens", "pasm.l")]),
("C22", "Printing shows the values of the final pass",
 ".print writes its texts and values to the output once, in the final pass, in order of expansion, and .printall in every pass; neither changes anything that is assembled.",
 ["programs"], "all programs with prints in loops, macros and conditionals, in front of and behind definitions",
 "the passes are not part of any test of printing",
 ["expand.cc"], [("printing", "expand.cc: expand_operator_print_node, expand_operator_print_all_node")]),
("C23", "Options that are not about code leave code alone",
 "Which output files are asked for, -v, -log and -nowarn (or .warn off) change neither the exit status nor the object file, the symbols or the listing; -nowarn and .warn off only silence warnings.",
 ["programs", "configurations"], "all programs times all combinations of these options",
 "no test runs a program twice with different options",
 ["parseargs.cc", "main.cc", "pass.cc"], [("options", "parseargs.cc: parse_arguments"), ("output files", "main.cc, pass.cc")]),
("C24", "The command line does what the usage says",
 "Options are recognised in any order and case, with - or /; each takes its arguments, and -d defines symbols with decimal, hexadecimal and binary values; files are looked for in the directories of -dir. "
 "Wrong command lines (a missing argument, an option given twice, no input file) are rejected with a message and write nothing.",
 ["configurations", "inputs"], "all command lines over the options, up to a length",
 "tests of the arguments are few fixed lines",
 ["parseargs.cc", "file.cc"], [("arguments", "parseargs.cc: parse_arguments"), ("directories", "file.cc")]),
("C25", "Mode directives work from where they stand",
 ".6502 on, .65c02 on, .illegal on/off, .warn on/off, .c64 and .list on/off take effect for what follows them, up to the next such directive, over all input files, the same in every pass and starting from the options of the command line.",
 ["programs", "histories"], "all sequences of mode directives and instructions",
 "the state of one pass must not leak into the next; tests have no second pass",
 ["pasm.l", "pass.cc"], [("directives", "pasm.l"), ("reset per pass", "pass.cc: reset_lex, parse_pass")]),
("C26", "The same input always gives the same output",
 "What pasm writes depends on its input files and command line only: not on the environment, on what memory held before, on earlier runs or on files they left behind.",
 ["programs", "histories"], "all programs, run repeatedly in different surroundings",
 "uninitialised memory and left over files do not show in one run of one test",
 ["main.cc", "sym.cc", "expand.cc"], [("initialisation", "node.cc: allocate_node, sym.cc: add_symbol")]),
("C27", "The tables lose nothing",
 "The dictionary finds, for every sequence of insertions, searches and deletions, the latest value of every key that was not deleted, also after it grows; the stack returns what was pushed, last in first out.",
 ["histories"], "all sequences of operations over few keys, with collisions, and sizes across the growth of the table",
 "tests use one or two sequences",
 ["dictionary.cc", "hash.cc", "stacks.cc"], [("growing and chaining", "dictionary.cc: grow, dict_insert, dict_delete"), ("stack", "stacks.cc")]),
("C28", "eolconvert changes ends of lines only",
 "eolconvert turns every end of a line of a text of printable characters (CR LF, LF CR, CR or LF) into one LF, in all directories below the samples, keeps every other character, and leaves files that are not such texts as they are.",
 ["inputs"], "all texts over a character, CR and LF up to a length",
 "there is no test of eolconvert",
 [], [("conversion", "CMakePasm/eolconvert/eolconvert.cc: replace_eol, is_text_file")]),
("C29", "Size does not matter",
 "Long names, long lists, deep nesting of conditionals, expressions, includes and sections and programs of thousands of statements assemble as small ones do.",
 ["programs"], "programs of growing size in every dimension",
 "no test is larger than a few statements",
 ["memory.cc", "dictionary.cc", "node.cc", "pasm.y"], [("growing tables", "dictionary.cc: grow"), ("allocation", "memory.cc"), ("names", "sym.cc")]),
]

ASM = "TLA+ model of the assembler (spec/Asm.tla), run by TLC over enumerated and random programs; every behaviour is replayed in pasm and compared"
TECH = {
    "C14": "TLA+ model of the CPU (spec/Cpu.tla) runs the object files of pasm in TLC; loop code also against spec/Asm.tla",
    "C03": "TLA+ models: TLC runs spec/Asm.tla over programs with branches, replayed in pasm; spec/Cpu.tla runs the resulting object files",
    "C18": "TLA+: spec/Asm.tla over programs with mistakes, replayed in pasm; spec/Files.tla enumerates files that cannot be read or written, replayed in pasm; runs on broken texts judged by spec/Outcome.tla",
    "C24": "TLA+ model of the command line (spec/Cli.tla): TLC enumerates command lines, each is replayed in pasm",
    "C27": "TLA+ model of dictionary and stack (spec/Containers.tla): TLC enumerates histories, replayed in the real containers",
    "C28": "TLA+ model of the converter (spec/Eol.tla, spec/EolTree.tla): TLC enumerates files and trees of directories, replayed in eolconvert",
}
NOTE = {
    "C14": "Bounds on a grid of pairs, body lengths around the reach of a branch, flags at entry; nested loops. Down to 0 is a known finding.",
    "C24": "All command lines up to the length given in the evidence, over the words given there, and random longer ones.",
    "C27": "All histories up to the length in the .cfg files over few keys, two of which share a bucket; growth seen through programs with up to 1850 names.",
    "C28": "All files up to the length in the .cfg files over a character, CR, LF and a byte that is no text; all trees of up to 4 (thorough: 5) directories.",
}


def note(i):
    return NOTE.get(i, "Exhaustive for the sequences of statements in the evidence's stages, random programs beyond; the model is "
                    "complete for the language but for what DESIGN.md lists as outside. Conformance is per explored behaviour, not a proof about the code.")


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for i, title, st, over, text, why, files, mech in P:
            assert len(title) <= 80, title
            f.write(json.dumps({
                "id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": text},
                "why_tests_cant": UNIT + why[0].upper() + why[1:] + "." if i != "C28" else why[0].upper() + why[1:] + ", and it runs at build time only.",
                "anchors": {"files": [S + x for x in files] or ["CMakePasm/eolconvert/eolconvert.cc"],
                            "mechanism": [{"name": n, "where": w} for n, w in mech]}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 setup.py",
         "checks": [{"property": p[0], "quick_cmd": "python3 check.py " + p[0],
                     "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p[0],
                     "technique": TECH.get(p[0], ASM), "level": "model_checking", "level_note": note(p[0])} for p in P],
         "not_applicable": []}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
