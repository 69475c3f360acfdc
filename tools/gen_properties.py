#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("A01","Every instruction assembles to its documented machine code",
 "For every documented instruction form and every in-range value of every operand, the assembled bytes are exactly the bit pattern given in the instruction reference with the operand bits in their documented places. Relative operands are encoded relative to the following instruction (8-bit form) or to the following instruction minus one (16-bit form, low byte first), and 12-bit absolute operands keep the low 12 bits of the target. This holds however the operand is spelled (number, symbol, label or expression), in any letter case of mnemonic and register.",
 ["inputs","programs"],"all instruction forms x all operand values (i8, d9, b3, @Ri, a12 on every 4K page, a16, r8, r16) x ways to spell the operand",
 "The tests assemble two sample programs and spot-check a couple of encodings; they never visit most forms and almost none of the ~3 million operand combinations.",
 ["src/instruction.rs","src/parser.rs","waterbear-instruction-derive/src/lib.rs","docs/instructions.md"],
 [("bit-pattern driven encoder","waterbear-instruction-derive/src/lib.rs"),("operand evaluation per form","src/instruction.rs: Instr::eval"),("argument dispatch","src/parser.rs: make_instr")],
 ["output bytes of `waterbear assemble`"])

p("A02","Out-of-range values are rejected, never truncated",
 "An operand or data value is accepted exactly when it is representable: immediates 0..255, direct addresses 0..511, bit numbers 0..7, 16-bit addresses 0..65535, 8-bit relative targets within -128..127 of the next instruction modulo 64K, 16-bit relative targets 0..65535, 12-bit targets on the same 4K page as the next instruction, .byte -128..255, .word -32768..65535, .text/.string contents no longer than their size, .org up to $FFFF, icon speed 0..65535. Every other value makes the whole assembly fail and no output is produced; an accepted value is never altered. Arithmetic that leaves the 32-bit signed range is rejected too.",
 ["inputs","programs"],"all operand kinds in all instruction forms and data directives x values around every limit (and the extremes of 32-bit arithmetic) x positions around page and address-space limits",
 "Tests never assemble an out-of-range operand at all, so no limit of any form is pinned down.",
 ["src/instruction.rs","src/asm.rs","src/expression.rs","src/ast.rs"],
 [("eval/rel8/rel16/eval12 range checks","src/instruction.rs"),("byte/word/text/org checks","src/asm.rs: generate_bytes")],
 ["exit status and output bytes of `waterbear assemble`"])

p("A03","Layout: every byte and label lands at its documented position",
 "For every sequence of instructions, labels and data directives the output equals the one obtained by walking the program once with an output cursor: each item writes its bytes at the cursor, .org moves the cursor anywhere, .cnop pads to the next multiple and then by the extra amount, .text pads with spaces and .string with nul bytes, gaps are zero and the file ends at the highest position reached. Every label has the value of the cursor where it stands, regardless of forward or backward use. This holds for programs of every size and for positions anywhere in the 64K address space.",
 ["programs","histories"],"all line sequences up to a depth over an alphabet of instructions of each size, labels, references, .byte/.word/.text/.string/.org/.cnop lines",
 "Only one fixed sample program is assembled by the tests; interactions of cursor movement, padding and label passes are never varied.",
 ["src/asm.rs","src/ast.rs"],
 [("label pass / name pass / emission pass must agree on the cursor","src/asm.rs: compute_labels, compute_names, generate_bytes"),("directive sizes","src/ast.rs: Directive::size, eval_cnop")],
 ["output bytes of `waterbear assemble`"])

p("A04","Names resolve by scope, case-insensitively, and are never ambiguous",
 "A label starting with a dot is visible exactly between the surrounding non-dot labels, every other label, variable and alias is visible in the whole program, and all names compare case-insensitively. Defining a name twice in one scope, using an undefined name, or using a variable in another variable's definition before it is defined makes assembly fail; the same dot-label in different scopes never clashes or leaks. Labels may be used before or after their definition with the same result.",
 ["programs"],"all line sequences up to a depth over definitions and uses of a few global labels, local labels, variables and aliases in both letter cases",
 "Scoping is a property of whole programs; the tests only parse single labels and never resolve a name.",
 ["src/asm.rs","src/env.rs","src/lexer.rs"],
 [("scope tables","src/asm.rs: compute_labels, compute_names"),("lookup by current global label","src/env.rs: Names::as_env")],
 ["exit status and output bytes of `waterbear assemble`"])

p("A05","Expressions follow the documented precedence and exact integer arithmetic",
 "Every expression built from numbers, names, parentheses, the prefix operators - > < and the infix operators * / + - & | ^ evaluates as ordinary integer arithmetic truncating toward zero, with prefix binding tightest, then * and /, then + and -, then the bitwise operators, all infix operators associating to the left. > selects bits 8..15 and < bits 0..7. Division by zero and malformed expressions are reported as errors wherever they occur (expressions of many hundred tokens may be rejected too), and the value is the same in every place an expression may appear (data, operand, variable, alias, macro argument).",
 ["inputs","programs"],"all expression token sequences up to a length, well-formed or not, over all operators, parentheses and operands with distinguishing values, in every expression context",
 "Four hand-picked expressions are tested; relative precedence of most operator pairs, the bitwise operators, error cases and most contexts never are.",
 ["src/parser.rs","src/expression.rs"],
 [("Pratt parser","src/parser.rs: ExprParser"),("evaluator","src/expression.rs: Expr::eval")],
 ["output bytes of `waterbear assemble`"])

p("A06","Macro expansion equals writing the body by hand, hygienically",
 "A macro call assembles to exactly the bytes of the macro's body with each argument substituted as a unit and each hygienic label replaced by a name unique to that call, for every nesting of calls, argument kind and number of calls. Macros are selected by name and number of arguments; hygienic labels never clash with or become visible to other calls, the caller's arguments or the rest of the program. Duplicate or unterminated definitions, unknown macros, misuse of arguments and (mutually) recursive macros are rejected.",
 ["programs"],"all programs built from up to two macro definitions with bodies from a statement alphabet and all call sequences/arguments up to a bound, compared with their hand expansion",
 "No test defines a macro; the guarantee quantifies over bodies, arguments and call structures.",
 ["src/asm.rs","src/parser.rs","src/expression.rs"],
 [("expand/replace_args/gen_labels","src/asm.rs"),("argument substitution in expressions","src/expression.rs: replace_macro_args"),("macro definitions","src/parser.rs: parse_macros")],
 ["output bytes of `waterbear assemble`"])

p("A07","Including a file equals pasting its contents at that point",
 "Including a source file any number of times, in any nesting and order, assembles to the same bytes as pasting the file's lines in place of the include line, and including a binary file equals a .byte line listing its bytes. Relative paths of every kind of include (source, binary, C header, icon, eyecatch, sprite) are resolved against the directory of the file that contains the include, falling back to the working directory, whatever the names of the directories are. A missing file, an include cycle or a non-text source file makes assembly fail.",
 ["programs","configurations"],"all include graphs of up to four files over small file contents, directories and include kinds, with and without final newlines",
 "One test project includes two files once; nesting, repetition, directories and file endings are never varied.",
 ["src/asm.rs","src/files.rs","src/parser.rs"],
 [("token-level splicing","src/asm.rs: replace_includes"),("line splitting of spliced tokens","src/parser.rs: LineIterator"),("path resolution","src/files.rs: SourceFiles::path")],
 ["output bytes of `waterbear assemble`"])

p("A08","C header constants become aliases with the same value",
 "Including a C header whose lines are #define NAME expression lines, with // and /* */ comments and blank lines anywhere between tokens, is equivalent to one alias definition per line with the same expression, usable before and after the include. Comments may contain any text, may span lines and may be unterminated at the end of the file; they never remove, merge or alter a definition. A comment that spans lines stands between two definitions or at the end of one. Header lines that are not such definitions are treated as assembler lines, so malformed ones are reported.",
 ["programs","inputs"],"all header token/comment sequences up to a length over defines, comment fragments, blank lines, line endings and non-ASCII text",
 "One fixed header is included by one test project.",
 ["src/cheader.rs","src/asm.rs"],
 [("header lexing and rewriting to aliases","src/cheader.rs: lex_input"),("comment skipping","src/cheader.rs: skip_whitespace_and_comments")],
 ["output bytes of `waterbear assemble`"])

p("A09","Layout, comments and spelling never change the meaning of a program",
 "Adding or removing spaces, tabs and other Unicode white space, blank lines, ; comments (with any text), full-line * comments starting in the first column, changing letter case of mnemonics, registers, names and directives, or switching between LF and CRLF line ends leaves the assembled bytes unchanged. A number denotes the same value in every radix and prefix ($ 0x hexadecimal, % 0b binary, 0o octal, decimal), letter case and with ' digit separators. A * anywhere else is multiplication.",
 ["inputs","programs"],"all combinations of layout variants at every token gap of a set of lines covering every kind of token, and all number spellings up to a length",
 "Tests cover a few lexer inputs; the invariance is a statement about all layouts of all programs.",
 ["src/lexer.rs","src/input.rs","src/parser.rs"],
 [("whitespace/comment skipping","src/lexer.rs: skip_whitespace_and_comments"),("number conversion","src/lexer.rs: to_*_num"),("line grouping","src/parser.rs: LineIterator")],
 ["output bytes of `waterbear assemble`"])

p("A10","String data is emitted byte for byte",
 "A string in .byte, .text or .string emits exactly the UTF-8 bytes of its contents after replacing the escapes \\n \\r \\t \\b \\0 by their control bytes and backslash plus any other character by that character. Quotes, semicolons, stars, percent signs and line breaks inside a string are data. .text fills up to its size with spaces and .string with nul bytes.",
 ["inputs"],"all strings up to a length over an alphabet of plain characters, escapes, quotes, comment characters, multi-byte characters and line breaks, in all three directives, with sizes around the string's length",
 "Two strings are tested.",
 ["src/lexer.rs","src/asm.rs","src/parser.rs"],
 [("string literal scanning and unescaping","src/lexer.rs: clean_str"),("emission and padding","src/asm.rs: generate_bytes")],
 ["output bytes of `waterbear assemble`"])

p("A11","The expand output is an equivalent program",
 "For every program that assembles, the text printed by the expand command contains no macro calls or includes and itself assembles to exactly the same bytes. For every program that expand rejects, assemble rejects it too.",
 ["programs"],"all programs of the other program spaces (directives, strings with all bytes, all number radices, expressions, instructions, macros, includes) up to their bounds",
 "No test runs expand.",
 ["src/ast.rs","src/expression.rs","src/instruction.rs","src/asm.rs"],
 [("pretty printers","src/ast.rs, src/expression.rs, src/instruction.rs: Display"),("expansion","src/asm.rs: expand_file")],
 ["stdout of `waterbear expand` fed back to `waterbear assemble`"])

p("B01","Disassembled instructions mean exactly the bytes they came from",
 "Every instruction line printed by the disassembler, read with the documented syntax and the register names it defines, denotes exactly the bytes found at its address, for all opcode and operand bytes. Branch, jump and call operands name the address the processor would go to from that position, with wrap-around of 16-bit relative displacements. Special function registers and PSW bits that the hardware manual names are written with these names, which it defines with their addresses and bit numbers. An instruction cut off by the end of the image is never printed as if complete.",
 ["inputs"],"all three-byte strings (2^24) at positions on several pages, and truncations at the end of the image",
 "Tests decode two byte strings.",
 ["src/instruction.rs","src/disasm.rs","waterbear-instruction-derive/src/lib.rs"],
 [("decoder","waterbear-instruction-derive/src/lib.rs"),("lifting to text","src/disasm.rs: lift_instr")],
 ["output file of `waterbear disassemble -p`"])

p("B02","Disassembly lists exactly the code reachable from the entry points",
 "The instructions listed are exactly those reachable from the entry points of the selected file type by following fall-through, jump, branch and call edges inside the image; a far jump directly preceded in execution by `not1 ext, 0` leaves the image and is not followed. Every other non-zero byte of the image is listed as data at its address, exactly the referenced listed addresses carry labels, which the referring instructions use as operand (a far jump out of the image uses none), and with the arrived-from option each instruction lists exactly its predecessors. An instruction that shares bytes with other listed instructions names exactly those. A far jump behind `not1 ext, 0` that is also reached another way may be followed or not. Position prefixes give the true address of each line.",
 ["programs","inputs"],"all images built from up to a bounded number of control-flow and straight-line instructions with all in-range targets, at entry points of both file types",
 "No test runs the disassembler on an image.",
 ["src/disasm.rs","src/lib.rs"],
 [("worklist","src/disasm.rs: build_instruction_graph, targets"),("entry points","src/lib.rs: disassemble_cmd")],
 ["output file of `waterbear disassemble`"])

p("B03","Disassembling and reassembling reproduces the image",
 "For every image of 1 to 65536 bytes that the disassembler accepts, assembling its output (without position prefixes) succeeds and reproduces the image byte for byte. This includes overlapping instructions, branches to addresses outside the image or outside the listed code, trailing zero bytes and lengths that are not a multiple of the block size.",
 ["inputs"],"all small images over a byte alphabet chosen to cover every instruction size and branch kind, all lengths around block boundaries, all-zero tails, full 64K images",
 "No test runs the disassembler, let alone the round trip.",
 ["src/disasm.rs","src/lib.rs","src/ast.rs","src/asm.rs"],
 [("org/padding emission","src/disasm.rs: disassemble"),("label generation","src/disasm.rs: compute_labels")],
 ["output of `waterbear disassemble` fed to `waterbear assemble`"])

p("C01","Icons and eyecatches are encoded exactly as the VMU format requires",
 "Including a 32x32 image (still or animated) as an icon emits frame count, speed (10 unless given), eyecatch kind, zero checksum and size, 20 reserved zero bytes, 16 palette words and 4-bit pixels per frame such that every decoded pixel is the source pixel with each channel rounded to 4 bits; the eyecatch (72x56) follows with 16 or 256 palette words, or as direct colour, the smallest kind that fits. The icon command prints source that assembles to the same bytes. Images with more than 16 rounded colours or of the wrong size are rejected. The kind of an image file is that of its extension, in small or capital letters; the rest of its name does not matter.",
 ["inputs","configurations"],"image families: all 256 channel values, every number of colours around 16 and 256, every pixel position, frame counts, sizes around 32x32 and 72x56, PNG and GIF sources, speeds",
 "One icon and one eyecatch are assembled in one test by hash.",
 ["src/img.rs","src/asm.rs","src/lib.rs"],
 [("palette construction and packing","src/img.rs: to_icon, get_palette"),("channel scaling","src/img.rs: scale_channels")],
 ["bytes of `.include icon`, stdout of `waterbear icon`"])

p("C02","Sprites and image conversion are pixel exact",
 "A sprite emits, per frame, width and height bytes (unless omitted), then for masked sprites a mask row per image row (bit 1 where alpha is at most 127, unused bits 1), then a pixel row per image row (bit 1 where luminance is at most 127, unused bits 0), most significant bit leftmost, rows padded to whole bytes. The image command emits the same data in its two source formats, and every pixel's colour and each frame's duration in its two JSON formats. The frames of an animation are the composed pictures a viewer would show. (Pixels whose luminance is exactly on the threshold may go either way.) Sprites wider or taller than 255 are rejected only when a header is requested.",
 ["inputs","configurations"],"all 1-bit images up to a size, all widths and heights around byte boundaries and 255, all grey and alpha levels, both types, header on/off, all formats",
 "No test touches sprites or the image command.",
 ["src/img.rs","src/asm.rs","src/lib.rs","src/parser.rs"],
 [("bit packing","src/img.rs: Frame::to_1bit_asm"),("thresholds","src/img.rs: grayscale, transparency")],
 ["bytes of `.include sprite`, output of `waterbear image`"])

p("C03","VMI files describe their VMS file exactly",
 "The vmi command writes exactly 108 bytes: description copied from the file's header (at $10, or $210 for games), the copyright text cut or padded to 32 bytes, the current local date, time and weekday, file number 1, the first 8 bytes of the base name, the first 12 bytes of the file name, the game flag, the file's size, and the checksum formed by masking the resource name with SEGA. The output name defaults to the input name with .vms replaced by .vmi. Files too short to contain the description are rejected without writing output.",
 ["inputs","configurations"],"all lengths of names, copyright texts and files around the field limits, game flag, all weekdays/months and clock values around field boundaries",
 "No test runs the vmi command.",
 ["src/lib.rs"],[("field layout","src/lib.rs: generate_vmi")],["output file of `waterbear vmi`"])

p("D01","Every input ends in success or a clean error",
 "For every input file contents and every command, the program terminates with output or with an error message and a non-zero exit status; it never panics, overflows its stack, hangs or exhausts memory. This includes malformed programs, non-text bytes, unusual Unicode, recursive includes and macros, damaged or truncated images and binaries, and empty files. Programs whose own meaning is enormous (macros that double at every level, gigabytes of .text) and images that really announce a canvas of gigabytes are excepted.",
 ["inputs","programs"],"all token sequences and all character strings up to a length for assemble and expand, all byte strings up to a length for the other commands, plus structured recursion",
 "Tests only feed well-formed input.",
 ["src/lexer.rs","src/parser.rs","src/asm.rs","src/cheader.rs","src/input.rs","src/lib.rs","src/img.rs","src/disasm.rs"],
 [("error propagation as values","src/asm.rs: AssemblyError"),("lexer progress","src/input.rs: Input::update")],
 ["exit status and stderr of every command"])

p("D02","Diagnostics point at the text that caused them",
 "When assembly fails because of one offending piece of source text (a token, name, number, call, simple expression, or the end of a line that ends too early), the message names the file that contains it and its line, starts at its column (user-perceived characters from 0), quotes that source line and marks the extent of the text under it. This holds for any number of preceding lines, comments, multi-byte characters, tabs and CRLF line ends, for errors inside included files, and for errors inside macros, where every call on the expansion path is listed in order.",
 ["programs","inputs"],"every kind of error x all preceding-layout variants x include depth x macro nesting depth",
 "No test looks at a diagnostic.",
 ["src/lib.rs","src/lexer.rs","src/input.rs","src/location.rs","src/asm.rs"],
 [("position tracking","src/input.rs: Input::update"),("span parents through macro expansion","src/expression.rs, src/asm.rs"),("rendering","src/lib.rs: highlight_line")],
 ["stderr of `waterbear assemble`"])

p("D03","Success means the complete output; failure never damages existing output",
 "Whenever a command exits with status 0, its output file (or standard output) holds exactly the complete result, whatever short, interrupted or failing reads, writes and opens occurred on the way; short transfers alone never make it fail. A process killed before it opens its output leaves that untouched. When a program cannot be assembled, disassembled or converted, the exit status is non-zero and a previously existing output file is left untouched. An I/O error on any input or output makes the command fail.",
 ["fault_sequences","crash_points"],"every single and every pair of injected faults (error, short transfer, interruption) at every open/read/write/close of every command",
 "Tests run on a healthy file system only.",
 ["src/lib.rs","src/files.rs","src/asm.rs"],
 [("write_all of finished bytes after successful assembly","src/lib.rs: assemble_cmd"),("error propagation on reads","src/files.rs: load_bytes")],
 ["exit status and output files of every command"])

p("D04","Results depend on nothing but the inputs",
 "The same sources give the same bytes, or the same error messages, on every run, in every process, from every working directory and file location that leaves the include paths valid, in any order and number of earlier assemblies in the same process, whether called as a library or from the command line. With its output or messages on a terminal a command differs in nothing but colours, which are reset at the end. Disassembly, expansion (up to the unique part of hygienic labels), icon and image conversion are equally deterministic.",
 ["configurations","histories"],"all sequences up to a depth of assemblies of programs (with errors, macros, includes, images) in one process, working directories and path spellings, repeated runs with fresh hash seeds",
 "Tests run each program once.",
 ["src/asm.rs","src/files.rs","src/disasm.rs","src/img.rs"],
 [("ordered traversal of hashed tables","src/asm.rs, src/disasm.rs, src/img.rs")],
 ["output bytes of all commands and of the library entry point"])

p("D05","Messages and reports state the facts",
 "What a command says is true of its input. An instruction whose operands fit none of its forms is reported with exactly the forms it has; a value that does not fit with that value (for relative targets the distance, for impossible addresses the address), the number of bits there are and whether they carry a sign; a jump out of its page with the target, the position and the upper four bits of both; a text that is too long with both lengths; a division by zero with its dividend; a location beyond 64K with the location; an unknown, duplicate, conflicting or recursive name with that name (and for macros the number of parameters); a file or image that cannot be used with the name of that file and no other, and the system's reason or the size and number of colours that were required and found; a sprite too large for its header with its width or height and the maximum. An included file that is found in the working directory only is warned about with the path looked for and the path taken, and no other include is. A success of assemble is reported with the number of bytes written and the file they were written to. How a message is worded is not part of this.",
 ["inputs"],"all mnemonics with all operand combinations that are no form of them, all operands with all boundary values, all pages, names, kinds of unusable files, sizes and colour counts over boundaries",
 "Tests look at no message.",
 ["src/lib.rs","src/instruction.rs","src/parser.rs","src/asm.rs","src/img.rs"],
 [("error values carry what is reported","src/asm.rs, src/instruction.rs, src/parser.rs"),("printing","src/lib.rs")],
 ["standard error of assemble, expand, icon and image"])

p("D06","A command line does what its words say, however it is spelt",
 "Every command takes its options in any order, before or behind the input file, in short and long form, with a value as the next word, attached or behind an equals sign, and flags combined in one word (-pa). The files written, standard output and the exit status depend on the command, the input and the values only, not on the spelling. Each option has its own effect: -o says where the result goes (image and vmi have a default) and changes nothing else, a value is taken as it is, inputs may have any name (those that start with a dash behind --). The input may be a pipe or reached through links, the output anything that can be written to, the input itself included. Command lines without input or a required option, with a missing value, an unknown option, command or type, an excess word or a speed that is not a number from 0 to 65535 are rejected without output. help and version (as commands and options) succeed, do nothing else, and name all commands and options. The C function of libwaterbear does what the same words do on the command line.",
 ["inputs","configurations"],"all sets, orders and spellings of the options of every command, awkward values and names, words missing, misspelt or inserted at every place",
 "No test uses the command line.",
 ["src/lib.rs","libwaterbear/src/lib.rs"],[("declaration of commands and options","src/lib.rs: run_command"),("use of their values","src/lib.rs: run_command, disassemble_cmd, assemble_cmd, expand_cmd, generate_vmi")],
 ["files written, standard output, exit status"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
