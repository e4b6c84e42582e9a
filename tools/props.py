ABS = "The harness, the reference model and the bounds are trusted; nothing is claimed outside the stated bounds."
PROPS = [
 dict(id="P01", title="Console addresses map to the right cartridge byte",
  statement="For each cartridge layout (LoROM, HiROM, ExHiROM) and every 24-bit address, translating the address gives the offset the published memory map assigns to it. Addresses the console keeps for itself (work RAM, registers, the low half of system banks), addresses LoROM does not decode, and anything past the last 24-bit address are reported as errors.",
  over=["inputs", "configurations"], quant="all 2^24 addresses and the one-past-the-end address, all three layouts",
  tests="No test touches address translation; ExHiROM mirrors differ only in high banks no example uses.",
  files=["nsasm/rom.cc", "nsasm/rom.h"], mech=[("translation of an address under a layout", "nsasm/rom.cc: SnesToROMAddress")],
  tech="exhaustive enumeration of the whole address space against a reference memory map", note="Complete: every address under every layout is executed on the real code. " + ABS),
 dict(id="P02", title="ROM reads return the mapped bytes in order or an error",
  statement="A read of n bytes from a loaded ROM returns exactly the n bytes at the n successive addresses, stepping inside the bank and wrapping from its end to its start, each translated by the cartridge layout. If any one of those addresses is not cartridge data or lies past the end of the image, or the length is negative, the read is an error and returns nothing; the 1-, 2- and 3-byte helpers are the little-endian value of the same bytes, for every data source.",
  over=["inputs", "configurations"], quant="every address, layout, image size and length",
  tests="No test reads a ROM; wrapping, image ends and long reads are never exercised.",
  files=["nsasm/rom.cc", "nsasm/memory.cc", "nsasm/memory.h"], mech=[("fast and wrapping read paths", "nsasm/rom.cc: Rom::Read"), ("little-endian helpers", "nsasm/memory.cc")],
  tech="exhaustive enumeration of reads against a byte-wise reference", note="Short reads at every address, long reads at every edge. " + ABS),
 dict(id="P03", title="Overwriting a ROM changes exactly the written bytes, and saves all",
  statement="After any sequence of writes over a ROM image, the saved file is the original copier header followed by the original data with exactly the successfully written bytes replaced, later writes winning. A write that touches any address outside the image is an error, and no write changes the size of the image.",
  over=["histories", "inputs"], quant="all write sequences over edge addresses, lengths, layouts, image sizes, with and without copier header",
  tests="No test writes over a ROM or saves one.",
  files=["nsasm/rom.cc", "nsasm/rom.h"], mech=[("write translation and bounds test", "nsasm/rom.cc: RomOverwriter::Write"), ("saving", "nsasm/rom.cc: RomOverwriter::CreateFile")],
  tech="bounded model checking of all write histories on the real code against a byte-array model", note="All histories up to the depth bound. " + ABS),
 dict(id="P04", title="Loading accepts exactly well-formed ROM images and keeps every byte",
  statement="Loading a file succeeds exactly when its size is a whole number of 4 KiB pages, optionally plus a 512-byte copier header, it holds at least 64 KiB of data, and exactly one of the LoROM and HiROM header positions has a checksum word that is the bitwise complement of its neighbour. A LoROM header selects LoROM; a HiROM header selects HiROM below 4 MiB of data and ExHiROM from 4 MiB up. Every byte of data and header is kept, so saving the unmodified image reproduces the file; anything else, including a missing or unreadable file, is an error.",
  over=["inputs", "configurations"], quant="all file sizes of the menu, header forms, checksum byte values and unreadable paths",
  tests="No test loads a ROM file.",
  files=["nsasm/rom.cc"], mech=[("size and header classification", "nsasm/rom.cc: LoadRomFile, CheckSnesHeader")],
  tech="exhaustive enumeration of file classes and checksum byte values on real files", note="All 65536 values of each checksum byte pair in both positions; sizes from a menu of edges. " + ABS),
 dict(id="P05", title="Failing file operations are reported and leak nothing",
  statement="If any file operation fails or comes up short while a ROM is being loaded or saved, the result is either an error or complete and correct data: success is never reported for a truncated image or a partly written file. Whatever fails, no file handle stays open, and the next attempt without faults succeeds.",
  over=["fault_sequences"], quant="every combination of up to three failing file operations and every disk-full point",
  tests="Tests never make a file operation fail.",
  files=["nsasm/rom.cc"], mech=[("checks after every file call", "nsasm/rom.cc: LoadRomFile, RomOverwriter::CreateFile")],
  level="fault_enumeration", tech="exhaustive fault injection over file operations and disk-full points", note="Faults are injected at the C stdio calls and, independent of which calls the code makes, by a file-size limit. " + ABS),
 dict(id="P06", title="The verifying sink accepts a write only if the ROM has those bytes",
  statement="Writing to the sink that verifies output against a ROM succeeds exactly when every byte written equals the ROM byte at its (bank-wrapped) address and every such address is in the ROM. A write never changes what later writes are compared with.",
  over=["inputs", "histories"], quant="edge addresses of all layouts, lengths 0-5, every single-bit deviation",
  tests="No test uses the verifying sink.",
  files=["nsasm/rom.cc", "nsasm/rom.h"], mech=[("comparison with the ROM", "nsasm/rom.cc: RomIdentityTest::Write")],
  tech="exhaustive enumeration of writes and deviations against the reference bytes", note="All deviations of one bit, one byte or one swap. " + ABS),
 dict(id="P07", title="Byte ranges behave as a set of addresses; claims report conflicts",
  statement="Claiming bytes adds exactly those addresses (wrapping at the bank end for start-and-length claims) and reports a conflict exactly when at least one was already claimed. After any history of claims, membership is exact and the list of pieces is sorted, disjoint and fully merged.",
  over=["histories", "inputs"], quant="every set reachable by claims in small address universes, every claim from each, and all short raw histories",
  tests="The tests run a handful of hand-picked claims; conflicts that need several pieces to be swallowed at once are only sampled.",
  files=["nsasm/ranges.cc", "nsasm/ranges.h"], mech=[("merging insertion", "nsasm/ranges.cc: DataRange::ClaimBytes"), ("membership search", "nsasm/ranges.cc: DataRange::Contains")],
  tech="explicit-state closure over all reachable sets on the real code, plus all raw histories", note="Closed state space in each universe. Claims of more than one bank are checked for content, not for their conflict result. " + ABS),
 dict(id="P08", title="Range ownership is all-or-nothing and lookups find the exact owner",
  statement="Inserting a range with an owner succeeds exactly when no byte of it has an owner yet; a refused insertion changes nothing. Looking up an address returns the owner of exactly that byte, or nothing.",
  over=["histories"], quant="all histories of up to four insertions of one- and two-piece ranges in small universes",
  tests="One sanity test with two insertions.",
  files=["nsasm/ranges.h"], mech=[("insert with rollback", "nsasm/ranges.h: RangeMap::Insert"), ("ordered lookup", "nsasm/ranges.h: RangeMap::Lookup")],
  tech="bounded model checking of all insertion histories against a byte-to-owner map", note="All histories to the depth bound. " + ABS),
 dict(id="P09", title="Address and number arithmetic is exact",
  statement="Stepping an address stays in its bank and wraps modulo 64 KiB; the difference of two addresses is the signed 16-bit distance that steps one to the other, and is an error across banks. Converting a number to a 1-, 2- or 3-byte signed or unsigned type keeps it modulo the type's range, and combining two types gives the wider one, signed if either is, with an unknown type giving way to the other.",
  over=["inputs"], quant="all addresses of edge banks, all steps of the menu, all pairs within a bank, all numbers of 24 bits and around every power of two, all type pairs",
  tests="No test checks the arithmetic directly.",
  files=["nsasm/address.h", "nsasm/numeric_type.h"], mech=[("bank-wrapping arithmetic", "nsasm/address.h"), ("truncation and promotion", "nsasm/numeric_type.h")],
  tech="exhaustive enumeration of operands against wide modular arithmetic", note="Complete over the stated operand sets. " + ABS),
 dict(id="P10", title="Keyword names convert both ways, case-insensitively, and nothing else does",
  statement="Every instruction name (including the two pseudo-instructions), size suffix, directive name and processor mode name prints as its canonical text, and that text in any capitalisation is recognised as the same keyword, a mode name with exactly the e, m and x it spells. No other string is recognised as an instruction, suffix, directive or mode name.",
  over=["inputs"], quant="all keywords, all capitalisations, all one-byte edits, all strings of up to four or five letters and dots, all strings of up to six or seven mode characters",
  tests="The test checks each name in two capitalisations but never that other strings are refused, nor every directive.",
  files=["nsasm/mnemonic.cc", "nsasm/mnemonic.h", "nsasm/execution_state.cc"], mech=[("name tables", "nsasm/mnemonic.cc"), ("mode names", "nsasm/execution_state.cc: FromName")],
  tech="exhaustive enumeration of strings against an independent keyword list", note="Complete over the stated strings. " + ABS),
 dict(id="P11", title="Source text splits into the longest lexemes, or is an error",
  statement="Each line of source is split, left to right and longest first, into the tokens of the language: names, instruction, suffix, directive and register words in any capitalisation, keywords, operators (::, ++, +++, --, --- before their single characters), and hexadecimal, binary and decimal numbers with their exact value and the size their digit count implies; a semicolon ends the line. A character that starts no token, an unknown dotted name, a hexadecimal or binary number above 24 bits and a decimal number above 31 bits are errors; nothing is skipped or truncated.",
  over=["inputs"], quant="all texts of up to 5 or 6 characters over one character per lexical role, all triples of 72 lexemes, every byte in context, numbers of every length",
  tests="The test tokenizes a dozen fixed lines; interactions of adjacent lexemes and large numbers are not covered.",
  files=["nsasm/token.cc", "nsasm/token.h"], mech=[("lexer loop", "nsasm/token.cc: Tokenize"), ("digits to value", "nsasm/token.cc: ParseDigits")],
  tech="exhaustive enumeration of texts against an independent longest-match lexer", note="Complete over the stated texts. " + ABS),
 dict(id="P12", title="Expressions are accepted, typed and valued by the grammar",
  statement="A token sequence is an expression exactly when the grammar allows it: unary - < > ^ bind tighter than * and /, those tighter than + and -, binary operators group to the left, parentheses override. Its value is the exact signed result where it fits in 32 bits, with division truncating; division by zero or a name without a value is an error, never a crash. Its size is that of the wider operand (signed after negation, byte after < > ^), names count as 16 bits and @names as 24; the names it needs from outside are exactly the non-local ones it mentions; copies behave as the original.",
  over=["inputs"], quant="all sequences of up to 6 or 7 expression tokens, all well-formed expressions of three or four operands from a menu",
  tests="The tests evaluate about twenty fixed expressions.",
  files=["nsasm/expression.h", "nsasm/parse.cc", "nsasm/numeric_type.h"], mech=[("recursive descent", "nsasm/parse.cc: Expr, Term, Factor, Comp"), ("evaluation and typing", "nsasm/expression.h")],
  tech="exhaustive enumeration of token sequences against an independent parser and evaluator", note="Complete over the stated sequences; values that leave 32 bits are compared for acceptance only. " + ABS),
 dict(id="P13", title="Opcodes, operand forms, sizes and widths are those of the 65816",
  statement="Each of the 256 opcodes decodes to the instruction and addressing mode of the processor's instruction matrix, encoding is the exact inverse, and no other pair is legal. A written operand form with an operand of known size selects the mode of exactly that size when the instruction has it and is an error otherwise; branches need a plain name; immediates follow the m or x flag or fit their fixed width. An instruction is consistent with what is known of m and x exactly when its suffix and immediate width agree with it, and an unknown width where one is needed is an error.",
  over=["inputs", "configurations"], quant="all opcodes, all instruction-mode pairs, all written forms with an operand menu, all suffixes and flag states",
  tests="The tests spot-check encodings against fixed lists; most illegal combinations and flag states are not tried.",
  files=["nsasm/opcode_map.cc", "nsasm/addressing_mode.cc", "nsasm/instruction.cc"], mech=[("opcode table", "nsasm/opcode_map.cc"), ("mode selection", "nsasm/addressing_mode.cc: DeduceMode"), ("flag agreement", "nsasm/instruction.cc: CheckConsistency, FixAddressingMode")],
  tech="exhaustive enumeration of the instruction set against an independent instruction matrix", note="Complete over the stated sets. " + ABS),
 dict(id="P14", title="Decoding and encoding an instruction are exact inverses",
  statement="Decoding the bytes of any instruction under known register widths yields the instruction and operands those bytes mean and its exact length; too few bytes, or a width that is not known where it matters, is an error. Encoding that instruction at any address writes exactly those bytes there. A relative branch encodes the distance from the following instruction to its target, wrapping within the bank; a target out of reach, in another bank or not an address is an error and writes nothing, as is an operand without a value.",
  over=["inputs"], quant="all opcodes, operand values and widths; all branch targets within a bank from edge addresses",
  tests="The tests decode a fixed listing; operand values, truncated input and branch ranges are sampled.",
  files=["nsasm/decode.cc", "nsasm/instruction.cc"], mech=[("decoding", "nsasm/decode.cc: Decode"), ("encoding and branch range", "nsasm/instruction.cc: Instruction::Assemble")],
  tech="exhaustive enumeration of encodings and branch distances on the real code", note="All 1- and 2-byte operands; 3-byte operands by byte. " + ABS),
 dict(id="P15", title="A source line assembles to exactly the bytes it means, or is refused",
  statement="An instruction written in a source file, in any operand form, spelling, size suffix and with literal, label, constant or computed operands, assembles to the opcode of the addressing mode its form and operand size select followed by the operand's low bytes, least significant first (block moves destination first, branches as distances, add and sub with their carry prefix), sized by the register widths known there; forms the instruction lacks, width mismatches, unknown widths where one is needed, and operands without a value are errors. Data directives write each item's low 1, 2 or 3 bytes in order.",
  over=["inputs", "configurations"], quant="all instruction names, suffixes, operand forms, 33 operand texts and 7 entry modes; all data lists of up to two or three items",
  tests="No test runs a source line through the assembler as a whole.",
  files=["nsasm/parse.cc", "nsasm/addressing_mode.cc", "nsasm/instruction.cc", "nsasm/directive.cc", "nsasm/module.cc"], mech=[("operand forms", "nsasm/parse.cc: ParseInstructionCore"), ("mode selection", "nsasm/addressing_mode.cc: DeduceMode"), ("bytes written", "nsasm/instruction.cc: Instruction::Assemble; nsasm/directive.cc: Directive::Assemble")],
  tech="exhaustive enumeration of one-line programs through the whole assembler against an independent encoder", note="An immediate wider than the register is cut to the register's width, as the tool does by design. " + ABS),
 dict(id="P16", title="Static analysis never claims a status bit that can be otherwise",
  statement="After any sequence of instructions from any entry state, each of the emulation, accumulator-width, index-width and carry bits that the analysis calls off, on or unchanged since entry really is so in every processor state that can arise, whatever mixture of pushes and pulls, flag instructions, conditional carry branches, calls with or without a declared return state and asserted modes led there, and also after two paths join. For sequences of literal flag changes, carry changes, carry-primed mode exchanges and balanced flag pushes, every bit that cannot vary is known. A register pulled from known pushed bytes is known to hold them, low byte first.",
  over=["histories", "inputs"], quant="all sequences of up to 3 of 79 instruction forms and up to 5 (7) of the stack and flag ones from all 11 entry states, all pairs of joined paths",
  tests="No test runs the analysis over instruction sequences.",
  files=["nsasm/execution_state.h", "nsasm/instruction.cc", "nsasm/execution_state.cc", "nsasm/directive.cc"], mech=[("effect of an instruction on the tracked state", "nsasm/instruction.cc: Instruction::Execute, ExecuteBranch"), ("flag lattice and tracked stack", "nsasm/execution_state.h")],
  tech="bounded model checking: every instruction sequence in lockstep with the set of all processor states", note="Callees and interrupt handlers are assumed to preserve what they do not declare; memory writes other than stack-relative stores are assumed not to hit the tracked stack. " + ABS),
 dict(id="P18", title="Assembled code runs every instruction at the width it was encoded for",
  statement="If a program assembles, then on every path from its declared entry points each instruction whose operand size depends on a register width is reached only with the width it was encoded for, execution never runs into data, an origin change or past the end of the file, every instruction is reachable, and branches hold the distance to their target. Programs that violate this are refused. Conversely a native-mode program in which every path gives each such instruction one width is not refused for its flow.",
  over=["histories", "inputs"], quant="all programs of up to 3 lines over about 60 line forms, and of 4 to 6 lines over smaller menus, with branches to every line, from several entry states",
  tests="No test assembles a program with a branch or a join.",
  files=["nsasm/module.cc", "nsasm/instruction.cc", "nsasm/execution_state.h", "nsasm/directive.cc"], mech=[("fixpoint over lines", "nsasm/module.cc: Module::RunFirstPass"), ("state joins", "nsasm/execution_state.h"), ("width choice", "nsasm/instruction.cc: FixAddressingMode")],
  tech="exhaustive enumeration of small programs; every reachable processor state of each is explored and compared with the bytes", note="Calls are assumed to return with widths and stack unchanged unless a yields suffix says otherwise; jmp and jsr leave the routine. " + ABS),
 dict(id="P19", title="The disassembler finds exactly the code that runs, decoded as it runs",
  statement="Disassembling from entry points with given flags finds every instruction that can run from there (through fall-through and branches, with calls returning as their conventions say, and jumps and calls not followed) and nothing that no found instruction leads to. Each has the mnemonic, operand, width and suffix with which the processor runs it, and the reported flags hold on every path. It fails if and only if the code runs out of the image or an instruction can run at two widths; a failed attempt leaves the result as it was. Exactly the targets of calls and jumps in that code are reported, with flags that hold at each call and are no weaker than the calls agree on.",
  over=["inputs", "histories"], quant="all images of up to 3 or 4 pieces from a menu of about 50 kinds of code, entry points in sequence, also across bank ends and with overlapping code",
  tests="No test runs the disassembler.",
  files=["nsasm/disassemble.cc", "nsasm/decode.cc", "nsasm/execution_state.h", "nsasm/instruction.cc"], mech=[("worklist over code addresses", "nsasm/disassemble.cc: Disassemble"), ("decoding at known widths", "nsasm/decode.cc: Decode")],
  tech="exhaustive enumeration of images, with the concrete executions of each explored by an explicit-state interpreter of the processor's flags and stack", note="All images to the bound; the refusal and precision claims apply where the analysis cannot lose information that the property grants it (native entry, no unbounded stacks). Register values are not claimed. " + ABS),
 dict(id="P20", title="The listing of a disassembly assembles back to the same bytes",
  statement="After disassembling code from entry points and cleaning up, the listing (labels, entry flags, instructions with their suffixes and conventions, as the tools print them) is accepted by the assembler and yields exactly the bytes it was made from, at their places, provided instructions do not overlap, no code runs across a bank end, and the entry flags have a name in the language. Labels are unique, exactly the successful entry points are marked as such, a jump or call to one of them names it, folding leaves the processor state after an instruction as it was, and the listing does not depend on the order in which entry points were given.",
  over=["inputs", "histories"], quant="every opcode with edge operands in six modes; all images of up to 3 pieces of about 50 kinds, and of 4 or 5 of the pieces that interact with folding, calls and labels",
  tests="No test runs the disassembler or compares its listing with the assembler.",
  files=["nsasm/disassemble.cc", "nsasm/instruction.cc", "nsasm/parse.cc", "nsasm/assembler.cc"], mech=[("labels and folding", "nsasm/disassemble.cc: Cleanup"), ("printing", "nsasm/instruction.cc: Instruction::ToString")],
  tech="exhaustive enumeration of images; every listing is replayed through the real assembler and compared byte for byte", note="Known finding: PER to a place that has no label is printed with a numeric operand, which the assembler refuses; the harness gives those targets names to judge the rest. " + ABS),
 dict(id="P21", title="Every name means the definition the scoping rules select",
  statement="A plain name means the definition in the innermost open scope that has one, then the file's own global definition, then the global definition of a file without module; a qualified name means the definition of that module, in this file first. A label on a line that opens a scope belongs to the scope around it, one on a closing line to the scope it closes; export puts a definition among the file's globals. Every use of a name in data, .equ and branches gets the value of that definition. A program is refused exactly if a used name has none, a name is defined twice in one scope or module, brackets do not match, an .equ uses itself or a later .equ of its file, a branch target is not a line of code of the file, or .equ definitions of files need each other. After assembly an address has a name exactly if a named module has a global of that value, and the name is one of those.",
  over=["inputs", "configurations"], quant="all programs of up to 4 items of 14 forms and 6 of 9 forms, three module headers, six second-file situations, both file orders",
  tests="Two example tests resolve a handful of names; shadowing, exports out of nested scopes and clashes across files are not covered.",
  files=["nsasm/module.cc", "nsasm/assembler.cc", "nsasm/expression.h", "nsasm/parse.cc"], mech=[("scopes and lookup", "nsasm/module.cc: LoadAsmFile, LocalIndex, ModuleLookupContext"), ("names across files", "nsasm/assembler.cc: FindAssemblyOrder, AssemblerLookupContext")],
  tech="exhaustive enumeration of small programs against a reference resolver", note="Labels with no statement behind them in their file are not claimed to be defined. " + ABS),
 dict(id="P22", title="Output does not depend on the order of files or on hash order",
  statement="For any set of source files that refer to each other's definitions, every order of giving the files and every iteration order of the internal hash tables gives the same verdict, the same bytes and the same names of addresses; the error text does not depend on hash order. A set in which no file needs .equ values in a circle assembles to the bytes its definitions say; one in which a definition depends on itself is refused.",
  over=["inputs", "configurations"], quant="all dependency graphs of 2 to 4 files with up to 3 kinds of dependency, all orders of the files, up to 4 hash orders, three ways of naming modules",
  tests="One test gives three files in one order; hash order is whatever it happens to be.",
  files=["nsasm/assembler.cc", "nsasm/module.cc"], mech=[("ordering of modules", "nsasm/assembler.cc: FindAssemblyOrder"), ("names of addresses", "nsasm/module.cc: Assemble")],
  tech="exhaustive enumeration of dependency graphs x file orders x controlled hash iteration orders", note="Hash tables are replaced by ones whose iteration order the check controls. " + ABS),
 dict(id="P23", title="Statements land where the file says, and no byte is given twice",
  statement="Each statement is placed at the address following the one before it, or at the origin set in between; addresses continue at the start of the bank after its last byte. Every byte of every statement is emitted at that place, exactly once, nothing else is emitted, and a label has the address of its statement. A program is refused exactly if a byte would be given twice (in one file or by two), a statement with bytes has no address, or an origin is not an address. Afterwards the assembler reports exactly the emitted bytes as its own.",
  over=["inputs", "histories"], quant="all files of up to 4 lines of 16 forms with bank-edge origins, 6 lines of 7 forms, with each of five second files; statements about the size of a bank",
  tests="Tests assemble at one origin far from a bank edge and never overlap.",
  files=["nsasm/module.cc", "nsasm/assembler.cc", "nsasm/directive.cc", "nsasm/ranges.cc"], mech=[("address assignment", "nsasm/module.cc: RunFirstPass"), ("claims", "nsasm/module.cc: Assemble; nsasm/assembler.cc: Assemble")],
  tech="exhaustive enumeration of layouts against a byte-granular placement simulation", note="All files to the bound. " + ABS),
 dict(id="P24", title="Any text gives a program or an error, and each line means what it spells",
  statement="For every text, reading and assembling it ends, without a crash or memory error, in a program or a non-empty error, and doing it again gives the same bytes or the same error. A line is accepted exactly if its tokens spell labels and statements: an instruction with a size suffix only where its size varies, one of the operand forms (an operand in parentheses is indirect where it can be, else the beginning of an expression), an addressing mode the processor has for it, and a return convention only after jsr and jsl; or a directive with the kind of argument it takes. It is then read as exactly those, in order, with nothing skipped: mnemonic, suffix, addressing mode, the value and width of every operand and list item, mode and return convention. A line that is not of the language is never part of a program that assembles. Files with thousands of lines, labels, names, nested scopes or list items assemble like small ones, to exactly the bytes they spell.",
  over=["inputs"], quant="all lines of 2 bytes of any value, 5 characters of 18, 3 tokens of 48, 5 tokens of 12, every statement over 20 operands and 14 endings with every one-token edit of a set of them, files of 3 lines of 31 forms, sizes up to 10000",
  tests="Tests parse a handful of well-formed lines.",
  files=["nsasm/token.cc", "nsasm/parse.cc", "nsasm/module.cc", "nsasm/assembler.cc", "nsasm/expression.cc"], mech=[("tokens", "nsasm/token.cc: Tokenize"), ("statements of a line", "nsasm/parse.cc: Parse"), ("files", "nsasm/module.cc: LoadAsmFile")],
  tech="exhaustive enumeration of texts on the real code under the address sanitizer, with an independent parser and evaluator of each line", note="Expressions nested more than 257 deep are not covered: the recursive parser would exhaust the stack at about 100000 levels. " + ABS),
 dict(id="P27", title="The command line tools do what they say with real files",
  statement="quick_assemble succeeds exactly when the sources assemble and every byte has a place in the ROM (and, with '-', equals the ROM's byte); then its output file is the ROM, header included, with exactly the program's bytes changed; otherwise an existing output and the ROM stay as they were, no file is left where none was, the exit code is not 0 and something is said. quick_disassemble lists or reports every given entry, and every address that a listed instruction calls or jumps to; the address shown beside each instruction is its own, every instruction listed has the operand size of every processor state that can reach it from the entries through calls and jumps (unless an error was reported for a routine on the way), and unless instructions overlap, quick_assemble accepts the listing as the ROM's own. disassemble_more refuses sources that are not the ROM's own, lists no called or jumped-to routine that they already hold, lists or reports every target they call, and program and listing together are the ROM's own and leave nothing to find. Bad arguments and unreadable files are refused with a message.",
  over=["inputs"], quant="programs of 3 lines of 12 forms on three layouts, images of up to 3 pieces of up to 50 kinds, programs of up to 3 lines of 18 forms in a ROM with routines calling each other, 60 command lines",
  tests="No test runs any tool.",
  files=["util/quick_assemble.cc", "util/quick_disassemble.cc", "util/disassemble_more.cc", "util/dumb_disassemble.cc", "nsasm/rom.cc", "nsasm/assembler.cc", "nsasm/disassembler.cc"], mech=[("patching a ROM", "util/quick_assemble.cc"), ("following calls", "util/quick_disassemble.cc"), ("completing a program", "util/disassemble_more.cc")],
  tech="exhaustive enumeration of programs, ROM images and command lines run through the real executables", note="Calls are followed at most 100 levels deep by design; listings whose instructions overlap, or with an entry mode that has no name (e unknown with m or x known), are judged for closure only. " + ABS),
 dict(id="P28", title="The assembler reports exactly the calls that leave the program",
  statement="After assembly, the reported jump targets are exactly the addresses outside the program that a jsr, jsl or jmp with a numeric operand names (in the caller's bank for the short forms) or a .remote declares. The flags reported for a target hold in every processor state that can reach each call, are values some call or declaration has, and are as precise as the calls and declarations agree on. Reported return conventions are exactly those that an .entry or .remote declares, at their addresses, and an address counts as part of the program exactly if a byte was written there.",
  over=["histories", "inputs"], quant="all programs of up to 3 lines of about 45 forms and 4 lines of path and declaration menus, alone and with six other files in both orders",
  tests="No test looks at jump targets.",
  files=["nsasm/module.cc", "nsasm/assembler.cc", "nsasm/instruction.cc"], mech=[("targets of a line", "nsasm/module.cc: RunFirstPass; nsasm/instruction.cc"), ("union over files", "nsasm/assembler.cc: JumpTargets")],
  tech="exhaustive enumeration of small programs; every processor state at each call is explored and compared with the report", note="Calls by name are not reported by design. When declarations for one address differ, any of them may be reported. " + ABS),
 dict(id="P29", title="An error names the file and line, or the address, where it is",
  statement="When one line of a set of source files is wrong (in its characters, form, names, values, widths, placement, scopes or flow), the error starts with the path of that file and the number of that line, wherever in the file the line stands and whatever surrounds it; for a name defined twice, a bracket without partner or a second module name, one of the two lines is named. A write refused by the output sink is reported at the line that produced it. A failed read of a ROM is reported with the ROM's path and one of the addresses of the read; errors of opening, loading and saving files name the file.",
  over=["inputs"], quant="about 140 wrong lines at every place of every program of up to 2 of 13 forms, alone and in three files; every refused write; edge reads of every bank",
  tests="No test looks at the location of an error.",
  files=["nsasm/parse.cc", "nsasm/token.cc", "nsasm/module.cc", "nsasm/assembler.cc", "nsasm/rom.cc", "nsasm/error.h", "nsasm/location.h"], mech=[("locations of tokens and statements", "nsasm/parse.cc"), ("errors of the passes", "nsasm/module.cc: RunFirstPass, RunSecondPass, Assemble"), ("errors of reads", "nsasm/rom.cc: Rom::Read")],
  tech="exhaustive enumeration of erroneous lines x positions x surroundings on the real assembler", note="Errors that belong to no single line (circular files, running past the end of a file, files claiming the same memory) are not claimed to name one. " + ABS),
 dict(id="P33", title="The inspection tools show what the processor would run",
  statement="dumb_disassemble shows, from the given address on, exactly the consecutive instructions that the bytes of the ROM hold, each with its own address, its text (which assembles to its bytes), processor flags that hold after it (all that can be known, in the absence of instructions that restore unknown flags) and, for a branch, the processor's target and whether it is new; it goes on after an instruction that ends a path exactly when an earlier branch leads to the next address, with the flags that hold at a branch's target; it fails exactly when an instruction is not all there or its width cannot be known. print_opcode_map shows the processor's 256 opcodes. interactive_parse answers each line with its statements or an error, whatever came before.",
  over=["inputs"], quant="256 opcodes x 6 operands x 6 modes, all images of up to 2 pieces of 57 kinds and 3 of 23 at the start and end of banks and of the ROM, all pairs of 24 lines",
  tests="No test runs any tool.",
  files=["util/dumb_disassemble.cc", "nsasm/execution_state.cc", "util/print_opcode_map.cc", "util/interactive_parse.cc", "nsasm/decode.cc", "nsasm/instruction.cc", "nsasm/opcode_map.cc", "nsasm/addressing_mode.cc"], mech=[("decoding", "nsasm/decode.cc: Decode"), ("following flags", "nsasm/instruction.cc: Execute, ExecuteBranch"), ("instruction text", "nsasm/addressing_mode.cc: ArgsToString")],
  tech="exhaustive enumeration of ROM images and input lines run through the real executables, against a model of the processor", note="Straight-line decoding that never ends (a HiROM bank without an exit) is not explored. " + ABS),
 dict(id="P32", title="A source file is read as it is, line by line, or refused",
  statement="Opening a source file yields exactly its lines (up to white space at their ends and empty lines at the end of the file), whatever bytes it holds, however long its lines are, and however few bytes each read returns; if any read fails or the path is not a readable file, the result is an error; nothing stays open. A program assembles to the same bytes or the same error whether its lines end in LF or CRLF, with or without an end of the last line, and whether it comes from a file or from memory.",
  over=["inputs", "fault_sequences"], quant="all contents of up to 6 bytes of 7 values, sizes about all buffer sizes, every read failing or short, all programs of 3 lines of 16 forms stored in 6 ways",
  tests="Tests make their sources in memory and never read a file.",
  files=["nsasm/file.cc", "nsasm/file.h"], mech=[("reading lines", "nsasm/file.cc: OpenFile"), ("sources in memory", "nsasm/file.cc: MakeFakeFile")],
  level="fault_enumeration", tech="exhaustive enumeration of contents and exhaustive fault injection at the read system call", note="Where the code does not read through read or readv, only unreadable paths inject faults. " + ABS),
 dict(id="P30", title="A program counts as assembled only if every byte was written",
  statement="If the output sink refuses any write, assembling fails with the sink's error, nothing more is written after it, and the writes before it are those of a run without failures. A later run over the same files is not affected by the failed ones.",
  over=["fault_sequences", "inputs"], quant="every write of every program of up to 3 lines of 26 forms, also with other files, failing alone, with the next one, or with all later ones",
  tests="The test sink never fails in the tests.",
  files=["nsasm/instruction.cc", "nsasm/directive.cc", "nsasm/module.cc", "nsasm/assembler.cc"], mech=[("one or more writes per instruction", "nsasm/instruction.cc: Instruction::Assemble"), ("writes of lists", "nsasm/directive.cc: Directive::Assemble")],
  level="fault_enumeration", tech="exhaustive fault injection: every write of every enumerated program fails in turn", note="The sink's own reports are trusted here; other checks cover the real sinks. " + ABS),
 dict(id="P31", title="A printed statement reads back as the same statement",
  statement="Every accepted instruction, directive or label whose operands are numbers or names is printed as text that is accepted again and means the same: mnemonic, suffix, addressing form, operand values and widths, return convention, modes, lists, and whether a label is exported. Every flag state is printed as a mode of the language that holds in it and is as strong as a mode can be, alone and as a yields suffix.",
  over=["inputs"], quant="every instruction x suffix x written form x 29 operands x 13 return conventions, every directive, label form and flag state",
  tests="Tests print a few instructions and never read the text back.",
  files=["nsasm/instruction.cc", "nsasm/directive.cc", "nsasm/statement.cc", "nsasm/execution_state.cc", "nsasm/calling_convention.h"], mech=[("printing", "nsasm/instruction.cc: Instruction::ToString; nsasm/directive.cc: Directive::ToString"), ("flag names", "nsasm/execution_state.cc: StatusFlags::ToName")],
  tech="exhaustive enumeration of lines; each is parsed, printed and parsed again by the real code", note="Computed operands are printed for people and are not covered. " + ABS),
 dict(id="P25", title="The dump tool prints exactly the ROM's bytes, or fails",
  statement="The dump program prints an origin line for the requested address followed by data lines holding exactly the requested number of 1-, 2- or 3-byte little-endian values read at successive bank-wrapped addresses, at most the requested number per line with only the last line shorter. If any value cannot be read, or an argument is not a number or not an address, it prints a message and exits with a nonzero status; it never crashes.",
  over=["inputs", "configurations"], quant="edge starts x counts x strides x line lengths on each layout, and malformed command lines",
  tests="The program has no test.",
  files=["util/quick_dump.cc"], mech=[("argument handling and value loop", "util/quick_dump.cc: main")],
  tech="exhaustive enumeration of command lines on the real program with output comparison", note="The program is run as built from the tree. " + ABS),
 dict(id="P26", title="The recording sink passes exactly the runs that wrote what was expected",
  statement="Checking the recording sink succeeds exactly when the set of bytes written, at their bank-wrapped addresses, equals the set of expected bytes: a missing, different or extra byte is an error. Writing any address a second time is an error at that write, whatever the value.",
  over=["histories", "inputs"], quant="all pairs of expectations and all sequences of up to four writes around a bank edge",
  tests="The sink is what the other tests rely on; nothing tests it.",
  files=["test/test_sink.cc", "test/test_sink.h"], mech=[("recording and comparison", "test/test_sink.cc")],
  tech="bounded model checking of all write histories against a map model", note="All histories to the bound. " + ABS),
]
PROPS.sort(key=lambda p: p["id"])
