#!/usr/bin/env python3
"""Writes ../properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})

BF = "h800/bitfield.py"
p("C01", "Single bits are addressed by the documented numbering in every layout",
  "For every bit-field width up to the supported maximum, each of the four numbering schemes (LSB=0, LSB=1, MSB=0, MSB=1) and both display orders, reading the bit numbered i returns exactly the bit of the field's value that the documented diagrams assign to i, whatever the value is. An index that names no bit of the field is rejected with ValueError, for reads and for writes, and a rejected access leaves the value unchanged. Neither depends on earlier accesses to this or any other field.",
  ["inputs", "configurations"], "all widths 1..64, all 4x2 layouts, all values of that width, all integer indices (in and out of range)",
  "The bit-field tests exercise widths 8, 12 and 48 in 3 of the 8 layouts with a few values; index errors are never tested.",
  [BF], [("index translation", "BitField._rindex, _shift"), ("index validation", "BitField._checkIndex"), ("bit read", "BitField.__getitem__")],
  ["BitField[i]", "BitField[i] = v", "isBit/isBitSet/isBitClr"], [("value", "integer contents", "BitField._value")])
p("C02", "Range reads return exactly the addressed bits",
  "For every width, layout and value, reading an inclusive bit range [start:end] returns the unsigned integer formed by exactly the bits from start to end, most significant bit first, as the documented diagrams place them. A range whose ends are out of the field, or whose ends are given in the direction opposite to the field's display order, is rejected with ValueError. Neither depends on earlier accesses to this or any other field.",
  ["inputs", "configurations"], "all widths 1..64, all 8 layouts, all values, all pairs of integer range ends",
  "Tests read back two slices, one layout; every other (layout, start, end, value) combination is unexplored.",
  [BF], [("range validation", "BitField._checkRange"), ("mask and shift", "BitField._bitmask, _shift, _lsbIndex"), ("slice read", "BitField.__getitem__")], ["BitField[start:end]"])
p("C03", "Bit and range writes change exactly the addressed bits",
  "For every width, layout, prior value and in-range new value, writing a single bit or an inclusive bit range stores the new value in exactly those bits and leaves every other bit of the field as it was. Reading the same bit or range afterwards returns the value written.",
  ["inputs", "configurations", "histories"], "all widths 1..64, all 8 layouts, all prior values (so any history of earlier operations), all valid bits/ranges and fitting values",
  "Tests overwrite mostly zeroed fields in 3 layouts, so a write that fails to clear or that leaks into a neighbour is invisible.",
  [BF], [("slice/bit write", "BitField.__setitem__"), ("mask", "BitField._bitmask")], ["BitField[i] = v", "BitField[start:end] = v", "value"])
p("C04", "A bit-field never accepts or holds a value outside its width",
  "Constructing a bit-field with, assigning as its whole value, or writing to a bit or bit range, an integer that is negative or needs more bits than the target provides is rejected with ValueError and leaves the field unchanged; so after any sequence of operations 0 <= value <= 2**width - 1. Every fitting value is accepted and read back unchanged, and widths above the supported maximum, unknown numbering schemes and unknown orders are rejected.",
  ["inputs", "configurations", "histories"], "all widths, layouts, targets and all integers, including negative and just-too-large ones; one inductive step from an arbitrary valid state",
  "Only 256 into an 8-bit constructor and one over-wide field are tested; the write paths' range checks have no test at all.",
  [BF], [("value validation", "BitField._checkValue, __init__, value setter")], ["ValueError", "value", "int()"])
p("C05", "Set/clear operations and bit/range predicates agree with the bits",
  "For every width, layout and value: setting or clearing one numbered bit changes that bit only, for every valid number including 0, and doing so without a bit number affects all bits of the field. The predicates answer exactly what they are asked: is-bit queries are true iff the bit has the value, is-range(value) is true iff all bits of the range have that value, range-set is true iff all its bits are 1 and range-clear is true iff all its bits are 0.",
  ["inputs", "configurations"], "all widths 1..64, all 8 layouts, all values, all indices and ranges",
  "Predicates are tested on all-ones and one partial 8-bit value; index 0 and mixed ranges are not.",
  [BF], [("set/clear", "BitField.set, clear"), ("predicates", "BitField.isBit, isBitSet, isBitClr, isRange, isRangeSet, isRangeClr")], ["set()", "clear()", "is*()"])
p("C06", "Index metadata matches the documented diagram of every layout",
  "For every width and layout the reported list of bit numbers, read left to right, is exactly the sequence drawn in the documented diagram; it names each bit once, and the reported LSB and MSB numbers are the numbers of the bits of weight 1 and weight 2**(width-1). Reported width, length and maximum value agree with the construction parameters, and the printed form shows exactly width binary digits of the value.",
  ["inputs", "configurations"], "all widths 1..64 and 8 layouts; all values for the printed form",
  "Index lists are printed but never asserted in tests; lsb/msb/repr are untested.",
  [BF], [("virtual index", "BitField._vindex, indices, lsb, msb"), ("repr", "BitField.__repr__")], ["indices", "lsb", "msb", "width", "maxval", "len()", "repr()"])

W = "h800/word.py"
p("C07", "A machine word stores every 48-bit value exactly and nothing else",
  "A machine word constructed with, or assigned, any integer from 0 to 2**48-1 reports exactly that integer, and its bits are numbered 1 (most significant) to 48 (least significant). Any other integer is rejected with ValueError, on construction and on assignment, leaving the word unchanged; constant words (ALF, DEC, EBC, FLBIN, FLDEC, FXBIN, OCT, SPEC, CAC, MASKBASE, CONTROL, M, TAC, LINK, SEGNAME, SUBCALL) obey the same rule.",
  ["inputs", "histories"], "all integers (in range and out), any prior contents, all 16 constant kinds",
  "Tests use five values and two invalid ones for 7 of the 16 constants; assignment rejection is untested.",
  [W, "h800/instruction.py", "h800/instructions.py"], [("range check", "Word.__init__, Word.value setter"), ("constants", "Constant and its subclasses")], ["Word(v).value", "Word.value = v", "constant.value"])
p("C08", "Instruction words keep four independent 12-bit groups in place",
  "For all command, A, B and C values of at most 12 bits, the instruction word equals command*2**36 + A*2**24 + B*2**12 + C and each group reads back what was stored. Assigning one group, or the whole word, from any prior contents changes precisely that group (or all groups consistently), and a group value outside 0..4095 is rejected with ValueError without disturbing the other groups.",
  ["inputs", "histories"], "all 2**48 words, all group values including invalid ones, any assignment order (one step from an arbitrary word)",
  "Tests only set groups to 4095 in an otherwise zero word.",
  [W], [("group slices", "InstructionWord.__init__ and group setters")], ["command", "a", "b", "c", "value"])

INS = ["h800/instructions.py", "h800/instruction.py"]
p("C09", "Machine instructions encode to the documented 12-bit command code",
  "For every machine-instruction mnemonic and every legal operand combination, the instruction's 12-bit command code has the documented layout: sequence bit, five mask bits (masked form) or the fixed two-bit code followed by the A/B/C activity bits (unmasked form), or six peripheral-address bits, then the masked/peripheral marker bit, then the operation's five-bit code. Masked and unmasked forms of the same mnemonic differ exactly as the documented opcode table states, and the class named by the opcode table for a mnemonic is the one that encodes it.",
  ["inputs", "configurations"], "all 65 machine mnemonics in all their forms, all legal operands",
  "Tests compare instructions against helpers computed from the same opcode table, so a wrong table entry or layout shared by both goes unnoticed for most mnemonics and operand combinations.",
  INS, [("encoder", "Instruction.__init__"), ("opcode table", "OPCODES")], ["instruction.value"])
p("C10", "Illegal instruction operands are always rejected",
  "Constructing a machine instruction with a sequence or A/B/C activity value other than 0/1, a mask outside 0..31, a peripheral address outside 0..63, a mask together with A/B/C activity values, a mask for a mnemonic without a masked form, or a peripheral address together with any other operand always raises ValueError, for every mnemonic and whatever the other operands are. Legal operands are never rejected.",
  ["inputs"], "all mnemonics and forms, all integer operands in a wide band around the legal ranges",
  "Tests try about three invalid combinations per mnemonic, never negative values or combinations of valid and invalid operands.",
  INS, [("operand validation", "Instruction._check")], ["ValueError"])
p("C11", "Opcode generator functions agree with the instructions and the table",
  "For every mnemonic and all legal operands, the masked, unmasked, peripheral and print opcode generator functions return the documented 12-bit code, which is the code the corresponding instruction object encodes to. Command codes never exceed 12 bits.",
  ["inputs"], "all mnemonics of each form, all legal operands",
  "Tests use the generators as the oracle, so an error common to generator and encoder (or to the table) cannot be seen.",
  INS, [("generators", "make_masked_opcode, make_unmasked_opcode, make_peripheral_opcode, make_print_opcode")], ["make_*_opcode()"])
p("C12", "Different machine instructions never share a command code",
  "No command code can be produced by two different machine mnemonics in any of their masked, unmasked, peripheral, print or simulator forms, except the documented identities: the three print variants share one code range, and FNN is the unmasked NA instruction. So a command code determines its mnemonic, its form and its operands.",
  ["inputs"], "all pairs of mnemonics and forms, all operand values",
  "The duplicate test checks only the masked form of maskable instructions, not their unmasked form, and not operand recoverability.",
  INS, [("opcode table", "OPCODES"), ("generators", "make_*_opcode")], ["instruction.value"])

M = "h800/memory.py"
p("C13", "A memory bank returns what was last stored and isolates addresses",
  "For every address of a 2048-word bank and every 48-bit value, storing a value makes that address read back that value and leaves every other address unchanged; reading never changes memory. Storing to or reading a half-open address range affects or returns exactly the addresses in it, in order, and clearing a bank zeroes every address.",
  ["inputs", "histories"], "all addresses, all 48-bit values, arbitrary prior contents",
  "Tests write the same all-ones value everywhere, so misdirected or aliased writes cannot be seen.",
  [M, W], [("bank storage", "MemoryBank.__getitem__/__setitem__/clear")], ["bank[i]", "bank[i:j]", "bank.clear()"])
p("C14", "Memory rejects bad addresses and values without side effects",
  "Storing a value outside 0..2**48-1 at any address of a bank is rejected with ValueError, and reading or storing at an address outside 0..2047 raises an exception; so does a range store of a bad value (to at least one address), and a range read or store that reaches an address outside 0..2047. In all these cases every memory location keeps its contents. The bank never reports contents outside 0..2**48-1.",
  ["inputs"], "all integer addresses and values, in and out of range",
  "The invalid-argument test for memory is an empty stub.",
  [M, W], [("validation", "Word.value setter; bank address lookup")], ["exceptions", "bank contents"])
p("C15", "Memory modules are independent banks of the documented size",
  "A memory module has 4 banks and an expansion module 8, each of 2048 words, and size() reports banks x words. Storing to an address of one bank changes that location only: no other bank of the module, and no other module, changes, for every bank, address and value. A range of banks is those banks, in order, and a bank number outside the module is rejected.",
  ["inputs", "histories"], "all bank numbers, addresses and values; both module kinds",
  "Tests write the same value to every word, so banks aliasing one another would pass.",
  [M], [("bank tables", "MemoryModule, ExpansionMemoryModule")], ["module[b][i]", "size()", "len()"])

R = "h800/registers.py"
p("C16", "A register stores exactly its width and exposes its bits MSB-first",
  "A 16- or 24-bit register constructed with or assigned any value of its width reports exactly that value; any other integer is rejected with ValueError and leaves it unchanged. Its bits are numbered 1 (most significant) to width; reading or writing a bit or inclusive bit range touches exactly those bits, and clearing makes it 0.",
  ["inputs", "histories"], "both widths, all values, all bits and ranges, arbitrary prior contents",
  "The tests' value loops are empty (range(2**16, 16)), so only single-bit patterns and a handful of constants are covered.",
  [R, BF], [("register", "Register")], ["Register.value", "Register[i]", "Register[i:j]", "clear()"])
p("C17", "Register names, numbers and aliases map consistently",
  "Register numbers 0..31 and the 32 register names correspond one-to-one in documented order, looking a number up by name and a name up by number are inverses, and the four tape-counter aliases denote registers 28..31. Any other name or number is rejected with ValueError, in lookups and when indexing a register group, and indexing a group by a name or by its number yields the same register.",
  ["inputs"], "all integers as numbers, all register names and arbitrary other names",
  "No test exercises the lookup functions or access by name.",
  [R], [("tables", "REGISTERS, ALIASES"), ("lookup", "registerName, registerAlias, registerNumber, RegisterGroup.__getitem__")], ["registerName()", "registerNumber()", "registerAlias()", "group[key]"])
p("C18", "The 8x32 registers are independent and can be replaced and cleared",
  "The register file has 8 groups of 32 registers of the configured width; writing any register through its group leaves all other registers of all groups unchanged. Replacing a register in a group (by name or by number) or a group in the file makes later accesses through that key, and no other, see the replacement; invalid keys are rejected with ValueError and change nothing. Clearing a group or the file zeroes every register in it, regardless of what was done before, and clears nothing else.",
  ["inputs", "histories"], "all groups, registers, values, replacement keys; clear after any prior access or iteration",
  "Tests write one bit at a time or random values in lockstep, and their checks after clear() run over an exhausted iterator, so they assert nothing.",
  [R], [("group/file containers", "RegisterGroup, Registers"), ("clear", "RegisterGroup.clear, Registers.clear")], ["registers[g][r].value", "group[key] = reg", "clear()"])
p("C19", "Iterating memory or registers always visits every element in order",
  "Each time a memory bank, register group or register file is iterated from the start, it yields each of its elements exactly once, in ascending address/number order, and the very elements that indexing reaches. Earlier complete or abandoned iterations, stores, clears and rejected accesses do not affect later ones.",
  ["histories"], "any number of earlier complete or partial iterations (up to the stated bound of steps), any element",
  "Tests iterate but cannot tell a second iteration that yields nothing from one that passes.",
  [M, R], [("iteration", "MemoryBank.__iter__, RegisterGroup.__iter__, Registers.__iter__")], ["for x in bank/group/registers"])

PC = "h800/punchcard.py"
AC = "h800/arguscard.py"
p("C20", "Card columns are partitioned exactly by the card layout",
  "For every card line of any length and content that is not a '#' comment, each field holds exactly the columns its layout assigns to it: together, in order, the raw fields are the first 120 columns of the line (its newline removed), no column lost, duplicated or moved. The same holds for any other ascending list of field start columns and card width, and the reported layout gives each field's start column and width.",
  ["inputs", "configurations"], "all lines up to 132 columns; arbitrary small custom layouts",
  "Tests check one well-formed line with the default layout.",
  [PC], [("splitting", "PunchCard.__init__")], ["card.fields", "card.layout", "card.line"])
p("C21", "Card records report stripped fields by name, blank fields as absent",
  "For every card line, the stripped value of each field is that field without surrounding whitespace, or None exactly when the field is blank, and the record maps each field name to that stripped value. A card reports its line number in its record when it has one, and a line starting with '#' is reported as a comment with its text and any other line is not.",
  ["inputs"], "all lines up to 132 columns of printable characters and newline",
  "Tests check one line; blank/whitespace edge cases and comments are untested.",
  [PC], [("stripping", "PunchCard.__init__")], ["card.record", "card.strippedFields", "card.isComment", "card.comment"])
p("C22", "ARGUS cards separate remarks cards from code and isolate the mnemonic",
  "A card with P, R or L in column 1 has no label, operation, operands, sequence code or instruction, and its remarks are its whole text from column 9 on, stripped. On every other card the label, operation, three operands, sequence code and remarks are the stripped contents of their columns, and the instruction is the operation up to (excluding) its first comma, stripped.",
  ["inputs"], "all card lines up to 100 columns of printable characters",
  "The only ARGUS card test prints the records and asserts nothing.",
  [AC, PC], [("card interpretation", "arguscard.Card.__init__ and accessors")], ["Card accessors", "Card.record"])
p("C23", "A deck keeps every source line in order with its provenance",
  "For every list of lines, the deck has exactly one card per line that does not start with '#', in source order, each carrying its own text and its 1-based position in the source; the deck's field, stripped-field and record lists correspond card by card, and the deck's text form is its cards' texts, one per line. An ARGUS deck reports as log section the stripped text of columns 9 to 81 and the column-8 character of its first L card, and none if there is no L card.",
  ["inputs"], "decks of up to 4 arbitrary lines, any mix of comment, log, remark and code lines",
  "Deck tests print and assert nothing.",
  [PC, AC], [("deck construction", "punchcard.Deck.__init__, arguscard.Deck.__init__")], ["deck.cards", "deck.records", "log_section"])
p("C24", "Included source files are expanded in place with correct origins",
  "Reading a deck from a file yields the cards of its non-comment lines in order, with every line that starts with '$' replaced by the cards of the file it names, recursively; each card carries the name of the file it came from and its 1-based line number in that file. A missing source or include file ends with an error instead of a silently incomplete deck.",
  ["inputs", "configurations"], "file trees of up to three files with arbitrary line contents, include positions and nesting, and missing files",
  "No test reads a deck from a file.",
  [PC], [("source reading", "punchcard.Deck._readSource")], ["deck.cards[*].filename/linenum/line"])

ST = "h800/symbol_table.py"
p("C25", "Every well-formed label is filed under its tag, segment, subsegment and type",
  "Building the symbol table from a source file records, for every labelled card that is not excluded by an asterisk in column 8 and is well-formed, a definition under the label's tag (blanks removed, tag prefix split off), the file's segment (its name up to the first period), the subsegment selected by the most recent SETLOC, and type complex for ASSIGN or simple otherwise, carrying the card, its file and line, and the tag prefix. Symbols from earlier files are kept, and nothing else is recorded.",
  ["inputs", "histories"], "files of up to 3 cards with arbitrary labels, operations and SETLOCs within the stated character bounds, starting from empty and non-empty tables",
  "The symbol table has no tests.",
  [ST], [("table construction", "buildSymbolTable")], ["returned symbol table"])
p("C26", "Ill-formed and duplicate labels are reported and never recorded",
  "Every label that has lower-case letters, more than one comma, an unknown or unsupported tag prefix, or no operation adds exactly one error and no definition. A second definition of the same tag, segment, subsegment and type adds exactly one error and keeps the first definition, unless both are EQUALS with identical operands, which is silently accepted; a well-formed first definition adds no error.",
  ["inputs", "histories"], "files of up to 3 cards with arbitrary labels, operations and operands within the stated bounds",
  "The symbol table has no tests.",
  [ST], [("validation and duplicate detection", "buildSymbolTable")], ["error count", "returned symbol table"])
p("C27", "Symbol queries return exactly the matching symbols",
  "For every symbol table: exact lookup of a name returns its definitions iff the name is defined (with the requested type, if one is given) and nothing otherwise; prefix and suffix searches return exactly the names that start or end with the text, sorted; the absolute-symbol list is exactly the sorted names having a simple definition in some segment and subsegment; and the consistency check reports, when asked, exactly the sorted names that have only complex definitions.",
  ["inputs"], "all tables of up to 3 symbols x 2 segments x 2 subsegments with any subset of simple/complex definitions, arbitrary names up to the stated length",
  "The symbol queries have no tests.",
  [ST], [("queries", "findSymbolDef, getAbsoluteSymbols, checkSymbolTable")], ["return values"])
p("C28", "The symbol table object tracks definitions and undefined symbols",
  "After any sequence of additions, updates and prunings: a name is found iff it was added, with the file, line, segment and subsegment of its first addition, the value and type (absolute or complex) given last, and the references added to it, in order; re-adding a defined name changes nothing; the undefined list names, in order of addition and without repetition, symbols added without a value; and pruning removes from it exactly those that have since received a value.",
  ["histories", "inputs"], "all histories of up to 4 operations over 3 names with arbitrary values",
  "The symbol table object has no tests.",
  [ST], [("table", "SymbolTable, SymbolTableEntry")], ["lookup()", "undefines", "getNumSymbols()", "getNumUndefs()"])

p("C29", "The line-number generator numbers cards correctly in fixed columns",
  "For any start, end and positive step, the line-number generator prints exactly one line for each number start, start+step, ... not exceeding end, in order. Each number is zero-padded to a common width of at least four digits and at least the digits of the end number, placed in the requested start column, and each line is padded to the same length, through one column past the end column.",
  ["inputs"], "all start/end values up to 6 digits and steps, with the number of printed lines bounded",
  "The tools have no tests.",
  ["tools/genlines.py"], [("generator", "tools/genlines.py main")], ["standard output"])
p("C30", "Source checkers count and report exactly the offending cards",
  "For every source file, the instruction checker reports as invalid exactly the cards whose mnemonic is not a known machine instruction, constant, control, extended, miscellaneous or ARGUS instruction, ignoring cards with an asterisk in column 8 and cards without operation, prints one error per such card and the exact total; and the source parser reports the same cards as invalid. The instruction lister prints exactly the non-excluded cards whose operation matches the requested mnemonic, in source order. Several sources are taken in the order given, each as often as it is given, and included cards count under their own file and line.",
  ["inputs"], "files of up to 2 cards with arbitrary operation fields and column-8 characters, any requested mnemonic from a stated set",
  "The tools have no tests.",
  ["tools/check-instructions.py", "tools/parse.py", "tools/list-instructions.py", "h800/instructions.py"], [("checkers", "tools main functions")], ["standard output"])
p("C31", "The character set assigns every 6-bit code its documented character",
  "Every code from 0 to 63 maps to the character of the documented H-800 table: digits occupy codes 0-9 in order, letters A-I, J-R and S-Z occupy codes 17-25, 33-41 and 50-57 in order, and no two codes share a non-blank character, so every non-blank character has exactly one code.",
  ["inputs"], "all 6-bit codes and pairs of codes",
  "The character set has no tests.",
  ["h800/charset.py"], [("table", "CHARSET")], ["CHARSET[code]"])

p("C32", "The listing tool lists every card once, in order, with its origin",
  "For every source, the listing tool writes a file named after the source with suffix .lst holding exactly one line per card, in deck order: the name of the file the card comes from padded to 64 columns, its line number in that file padded to 6 columns, and its text unchanged. Comment lines are not listed, cards of included files appear in place of the include line under their own file name and line number, each source named gets its own listing, and the sources are left unchanged.",
  ["inputs"], "sources of up to 3 arbitrary lines within the stated lengths, with and without a final newline, includes, several sources",
  "The tools have no tests.",
  ["tools/listing.py", "h800/arguscard.py"], [("listing", "tools/listing.py main")], ["listing file", "source file"])
p("C33", "The page generator appends one correct heading per page",
  "For every source with a page range in its header, the page generator leaves all existing lines in place and appends a blank line, a log card naming the section, and for each page of the range in order a blank line, its page comment with the true page number, a heading with column 8, the section name padded to 72 columns and the page counted from 1, and a blank line. The section and its column 8 are those of the first log card (a blank column 8 stays blank), or else the header's file name up to its first dot with underscores as blanks, and '@'. A source without a section, or whose range ends before it starts, is an error and the file stays unchanged.",
  ["inputs"], "all page ranges of up to 3 pages, arbitrary log cards and file names within the stated lengths",
  "The tools have no tests.",
  ["tools/genpages.py", "h800/arguscard.py"], [("generator", "tools/genpages.py main")], ["source file after the run", "exit status"])
p("C34", "The symbol lister prints every definition exactly once, in order",
  "For all sources, the symbol lister prints exactly the recorded definitions: symbols sorted by name, below each its segments, below each its subsegments, below each one line per definition type (complex before simple), every level sorted, each definition with its tag prefix, the file (up to its first dot) and line of the card that defines it and that card's text; and it announces the exact number of errors found in all sources, or nothing if there are none.",
  ["inputs", "histories"], "all sources of up to 3 cards with arbitrary labels within the stated bounds, one or two files",
  "The tools have no tests.",
  ["tools/list-symbols.py", "h800/symbol_table.py"], [("lister", "tools/list-symbols.py main")], ["standard output", "standard error"])
p("C35", "The symbol checker reports exactly the errors and undefined symbols",
  "For all sources, the symbol checker prints for each file the exact number of errors met while building the table; with -c it reports each symbol that has complex definitions but no simple one, sorted and once each, and their exact number, and without -c none; and with several files it prints the total of both kinds of error.",
  ["inputs", "histories"], "all sources of up to 3 cards with arbitrary labels within the stated bounds, one or two files, with and without -c",
  "The tools have no tests.",
  ["tools/check-symbols.py", "h800/symbol_table.py"], [("checker", "tools/check-symbols.py main")], ["standard error"])
p("C36", "Instruction statistics count every use exactly",
  "For every source, the instruction checker's statistics show the number of cards, the number of cards with a mnemonic, and for each known instruction its number of uses (cards with an asterisk in column 8 and unknown mnemonics are not uses) and its percentage of the cards with a mnemonic, in alphabetical order or, when asked, most frequent first; the unused list is exactly the known instructions without a use, in alphabetical order, and with it the table shows only instructions that are used. A source without instructions gets a table too.",
  ["inputs"], "all sources of up to 3 cards from mixed operations, every combination of the statistics options",
  "The tools have no tests.",
  ["tools/check-instructions.py"], [("statistics", "tools/check-instructions.py main")], ["standard output"])
p("C37", "The symbol search finds exactly the matching symbols of all sources",
  "For all sources, a prefix or suffix search prints the sorted list of exactly the symbols, from any of the sources, that start or end with the text, and nothing if there are none; an exact search (also the default) prints an entry iff the symbol is defined and otherwise reports it undefined; each file's number of errors is reported exactly; and contradictory search options are refused.",
  ["inputs"], "all sources of up to 3 cards with arbitrary labels within the stated bounds, stated search texts, all combinations of the search options",
  "The tools have no tests.",
  ["tools/find-symbols.py", "h800/symbol_table.py"], [("search", "tools/find-symbols.py main")], ["standard output", "standard error", "exit status"])
p("C38", "Printed registers and memory show every element once, in octal",
  "For all contents, the printed form of a register is its value in octal with at least six digits; that of a register group is its 32 registers in number order; that of the register file is its 8 groups in order, one line each with the group number; and that of a memory bank is its 2048 words in address order, each in 16 octal digits. Replaced, assigned and cleared elements show their present contents, and printing changes nothing.",
  ["inputs", "histories"], "arbitrary contents of any one element, after assignment, replacement or clearing",
  "No test looks at a printed form.",
  [R, M], [("printed forms", "Register.__repr__, RegisterGroup.__repr__, Registers.__repr__, MemoryBank.__repr__")], ["repr()"])
p("C39", "Verbose and debug output never changes a result",
  "For all sources, running a tool with its verbose or debug option prints every line it prints without it, in the same order, reaches the same error counts and totals and writes the same files; a deck, symbol table or symbol check made with verbose output has the same cards, definitions and errors as without.",
  ["inputs", "configurations"], "all sources of up to 2 cards with arbitrary labels, column 8 and remarks within the stated bounds",
  "No test uses the verbose option.",
  ["tools", PC, ST], [("verbose output", "verbose arguments and -v, -d, -p options")], ["standard output", "files written"])
p("C40", "Tools refuse missing sources and malformed arguments",
  "Every tool run without arguments, or on a source that does not exist (alone, after an existing one, or included by one), ends with a non-zero exit status and leaves the sources as they are; the listing tool writes no listing for such a source; the instruction lister refuses every mnemonic that is not a known instruction and lists nothing; and the line-number generator refuses numbers of more than six digits or a missing end number and prints no line.",
  ["inputs", "configurations"], "all tools, arbitrary neighbouring cards, unknown mnemonics and long numbers within the stated bounds",
  "The tools have no tests.",
  ["tools", PC], [("refusals", "main() of every tool, punchcard.Deck._readSource")], ["exit status", "standard output", "files"])
p("C41", "The command code listing shows every instruction code once, in order",
  "The listing printed by the instruction module (print_instructions, or running the module) has one line per command code, in ascending order, each with the code in four octal digits and its mnemonic: for every maskable mnemonic every masked code, for every unmasked mnemonic every combination of sequence and A/B/C activity, for every peripheral mnemonic every peripheral address, the print codes once (as PRD) and the two simulator codes (S); nothing else is listed and no code appears twice.",
  ["inputs"], "all mnemonics and all operand values of the listed forms",
  "No test looks at the listing.",
  INS, [("listing", "print_instructions")], ["standard output"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
