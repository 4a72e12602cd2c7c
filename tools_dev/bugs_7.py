BUGS = []
def bug(id, prop, file, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo,
                     needs=needs, breaks=breaks))
B = "h800/bitfield.py"
W = "h800/word.py"
I = "h800/instruction.py"
IS = "h800/instructions.py"
M = "h800/memory.py"
R = "h800/registers.py"
PC = "h800/punchcard.py"
AC = "h800/arguscard.py"
ST = "h800/symbol_table.py"

bug("g09-shared-data", "C09", I,
    [("        self.data = BitField(0, width=12,\n                             numbering=BitField.BIT_SCHEME_MSB_1,\n                             order=BitField.BIT_ORDER_MSB_LEFT)\n", "        self.data = self._DATA\n        self.data.clear()\n"),
     ('    """Base opcode class."""\n', '    """Base opcode class."""\n    _DATA = BitField(0, width=12, numbering=BitField.BIT_SCHEME_MSB_1,\n                     order=BitField.BIT_ORDER_MSB_LEFT)\n\n')],
    """
from h800.instruction import GeneralMasked
from h800.instructions import OPCODES
a = GeneralMasked(OPCODES["BA"], 0, 3)
v = a.value
GeneralMasked(OPCODES["BA"], 1, 5)
assert a.value == v
""", "two instructions alive at once", "the first takes the code of the second")

bug("g07-word-int", "C07", W,
    [("        self.data.value = value\n", "        if value != self.value:\n            self.data[1:48] = value & (2 ** 47 - 1)\n            self.data[1] = value // (2 ** 47 + 1)\n")],
    """
from h800.word import Word
w = Word(0)
w.value = 2 ** 47
assert w.value == 2 ** 47, w.value
""", "assigning exactly 2**47", "zero is stored")

bug("g08-command-reset", "C08", W,
    [("        self._c = self.data[37:48] = value\n", "        self._c = self.data[37:48] = value\n        if self.data[1:12] == 0:\n            self.data[1:12] = self._command\n")],
    """
from h800.word import InstructionWord as I
w = I(1, 2, 3, 4)
w.value = 0
w.c = 7
assert w.command == 0
""", "the whole word assigned, then the C group", "the command of an earlier time returns")

bug("g10-sequence-paddr0", "C10", I,
    [("            if self._sequence is not None or self._mask is not None or \\\n                    self._a is not None or self._b is not None or \\\n                    self._c is not None:\n", "            if self._sequence or self._mask is not None or \\\n                    self._a is not None or self._b is not None or \\\n                    self._c is not None:\n")],
    """
from h800.instruction import Instruction
from h800.instructions import OPCODES
try:
    Instruction(OPCODES["RF"], sequence=0, paddr=0)
except ValueError:
    pass
else:
    assert False
""", "sequence 0 with peripheral address 0", "accepted")

bug("g13-store-list", "C13", M,
    [("        for addr in self._data:\n            self._data[addr].value = 0\n", "        for addr in self._data:\n            if not self._data[addr].value & 0o7777777777777777 >> 1:\n                continue\n            self._data[addr].value = 0\n")],
    """
from h800.memory import MemoryBank
b = MemoryBank()
b[5] = 2 ** 47
b.clear()
assert b[5] == 0
""", "a word with only its first bit set", "clear leaves it")

bug("g15-bank-range", "C15", M,
    [("    NUM_BANKS = 8\n", "    NUM_BANKS = 8\n\n    def __contains__(self, bank):\n        return False\n"), ("        self._current = 0\n\n    def __getitem__(self, key):\n        if isinstance(key, slice):\n            banks = []\n            for i in range(key.start, key.stop):\n                banks.append(self._data[i])\n            return banks\n        else:\n            return self._data[key]\n\n    def __len__(self):\n        return len(self._data)\n\n    def size(self):\n        return self.NUM_BANKS * len(self._data[0])\n\n\nclass Exp", "        self._current = 0\n\n    def __getitem__(self, key):\n        if isinstance(key, slice):\n            banks = []\n            for i in range(key.start, key.stop):\n                banks.append(self._data[i % self.NUM_BANKS])\n            return banks\n        else:\n            return self._data[key]\n\n    def __len__(self):\n        return len(self._data)\n\n    def size(self):\n        return self.NUM_BANKS * len(self._data[0])\n\n\nclass Exp")],
    """
from h800.memory import MemoryModule
try:
    MemoryModule()[2:5]
except KeyError:
    pass
else:
    assert False
""", "a range of banks past the last", "wraps to the first bank")

bug("g17-alias-group", "C17", R,
    [("            if key not in REGISTERS:\n                raise ValueError(\"Invalid register name %s!\" % key)\n            return self._registers[REGISTERS[key]]\n", "            if key.rstrip('+') not in REGISTERS:\n                raise ValueError(\"Invalid register name %s!\" % key)\n            return self._registers[REGISTERS[key.rstrip('+')]]\n")],
    """
from h800.registers import RegisterGroup
try:
    RegisterGroup()["X0+"]
except ValueError:
    pass
else:
    assert False
""", "a name followed by a plus sign", "accepted")

bug("g18-group-current", "C18", R,
    [("            if key < 0 or key >= self._NUM_GROUPS:\n                raise ValueError(\"Invalid register group number %d!\" % key)\n            self._registers[key] = value\n", "            self._registers[key] = value\n            if key < 0 or key >= self._NUM_GROUPS:\n                raise ValueError(\"Invalid register group number %d!\" % key)\n")],
    """
from h800.registers import Registers, RegisterGroup
r = Registers()
try:
    r[8] = RegisterGroup()
except ValueError:
    pass
assert len(r) == 8
""", "a group stored under a bad number", "the file grows though the store is refused")

bug("g20-end-column", "C20", PC,
    [("                    fwidth = width - col + 1\n", "                    fwidth = max(width - col + 1, 1)\n")],
    """
from h800.punchcard import PunchCard
c = PunchCard("ABCDEF", width=3, fields=[1, 4])
assert c.layout == [(1, 3), (4, 0)] and c.fields == ["ABC", ""]
""", "a last field that starts after the card's width", "it has a column")

bug("g21-linenum", "C21", PC,
    [("            if linenum != 0:\n                self._record[\"linenum\"] = linenum\n            for i, field in enumerate(self._fields):\n", "            if linenum != 0:\n                self._record[\"linenum\"] = linenum\n            elif filename:\n                self._record[\"linenum\"] = 0\n            for i, field in enumerate(self._fields):\n")],
    """
from h800.punchcard import PunchCard
assert "linenum" not in PunchCard("A", filename="f").record
""", "a card with a file but no line number", "the record has line 0")

bug("g23-class-log", "C23", AC,
    [("        self._logSection = None\n        self._logSectionCol8 = None\n        for card", "        for card"),
     ("                self._logSection = card.line[8:81].strip()\n                self._logSectionCol8 = card.record[\"column8\"]\n                break\n", "                Deck._logSection = card.line[8:81].strip()\n                Deck._logSectionCol8 = card.record[\"column8\"]\n                break\n"),
     ('    """A simple class to represent a deck of ARGUS punch-cards."""\n', '    """A simple class to represent a deck of ARGUS punch-cards."""\n    _logSection = _logSectionCol8 = None\n\n')],
    """
from h800.arguscard import Deck
Deck(["L       ONE"])
assert Deck(["        TWO"]).log_section is None
""", "a deck with a log card before one without", "the second deck has the log section of the first")

bug("g23-stop-empty", "C23", PC,
    [("            for i, line in enumerate(self._lines):\n                if line.startswith('#'):\n", "            for i, line in enumerate(self._lines):\n                if line.startswith('#') or line == '\\x1a':\n")],
    """
from h800.punchcard import Deck
assert len(Deck(["\\x1a"]).cards) == 1
""", "a line of one SUB character", "it is lost")

bug("g24-line-cache", "C24", PC,
    [("        lines = []\n        with open(filename, 'r') as f:\n            if self._verbose:\n                print((\"Reading %s...\" % filename))\n            lines = f.readlines()\n", "        with open(filename, 'r') as f:\n            if self._verbose:\n                print((\"Reading %s...\" % filename))\n            lines = self._read.setdefault(filename, f.readlines())\n"),
     ('    """A simple class to represent a deck of punch-cards."""\n', '    """A simple class to represent a deck of punch-cards."""\n    _read = {}\n\n')],
    """
import os, tempfile
from h800.punchcard import Deck
d = tempfile.mkdtemp()
p = os.path.join(d, "x.src")
try:
    open(p, "w").write("ONE\\n")
    Deck(file=p)
    open(p, "w").write("TWO\\n")
    assert Deck(file=p).cards[0].line == "TWO"
finally:
    os.remove(p)
    os.rmdir(d)
""", "a file read, changed and read again", "its old lines")

bug("g24-include-comment", "C24", PC,
    [("                incname = line[1:].split()[0]\n", "                incname = line[1:].split('#')[0].split()[0]\n")],
    """
with Scratch() as s:
    s.file("a#b.src", "X")
    s.file("m.src", "$a#b.src")
    from h800.punchcard import Deck
    try:
        ok = [c.line for c in Deck(file="m.src").cards] == ["X"]
    except SystemExit:
        ok = False
    assert ok
""", "a name with a number sign", "another file is sought")

bug("g25-setloc-last", "C25", ST,
    [("                subseg = command.split(',')[1].strip()\n", "                subseg = command.split(',')[-1].strip()\n")],
    """
with Scratch() as s:
    from h800.symbol_table import buildSymbolTable
    s.file("m.src", card(op="SETLOC,B,C"), card(label="A", op="TX"))
    t, n = buildSymbolTable("m.src", {})
    assert list(t["A"]["m"]) == ["B"]
""", "a SETLOC with two commas", "the last part is taken")

bug("g25-carry", "C25", ST,
    [("    subseg = \"1\"        # Current subsegment, default is 1 (no starting SETLOC)\n", "    subseg = \"1\"        # Current subsegment, default is 1 (no starting SETLOC)\n    for tag in symtab:\n        for s in symtab[tag].get(seg, ()):\n            subseg = s\n")],
    """
with Scratch() as s:
    from h800.symbol_table import buildSymbolTable
    s.file("m.a.src", card(op="SETLOC,B"), card(label="A", op="TX"))
    s.file("m.b.src", card(label="Q", op="TX"))
    t, n = buildSymbolTable("m.a.src", {})
    t, n = buildSymbolTable("m.b.src", t)
    assert list(t["Q"]["m"]) == ["1"]
""", "two sources of one segment, the first with SETLOC", "the second starts in the subsegment of the first")

bug("g25-col8-setloc", "C25", ST,
    [("        if card.column8 == \"*\":\n            continue\n        command = card.operation\n", "        command = card.operation\n        if card.column8 == \"*\" and not (command or '').startswith(\"SETLOC\"):\n            continue\n")],
    """
with Scratch() as s:
    from h800.symbol_table import buildSymbolTable
    s.file("m.src", card(col8="*", op="SETLOC,B"), card(label="A", op="TX"))
    t, n = buildSymbolTable("m.src", {})
    assert list(t["A"]["m"]) == ["1"]
""", "an excluded SETLOC", "it takes effect")

bug("g26-same-seg", "C26", ST,
    [("                prevdef = symtab[tagName][seg][subseg]\n                if symtype not in prevdef.keys():\n", "                prevdef = symtab[tagName][seg][subseg]\n                if symtype not in prevdef.keys() or \\\n                        prevdef[symtype][\"file\"] > card.filename:\n")],
    """
with Scratch() as s:
    from h800.symbol_table import buildSymbolTable
    import contextlib, io
    s.file("m.b.src", card(label="A", op="TX"))
    s.file("m.a.src", card(label="A", op="TX"))
    with contextlib.redirect_stderr(io.StringIO()):
        t, n = buildSymbolTable("m.b.src", {})
        t, n = buildSymbolTable("m.a.src", t)
    assert n == 1 and t["A"]["m"]["1"]["simple"]["file"] == "m.b.src"
""", "two sources of one segment in descending order of name", "a duplicate replaces the definition")

bug("g28-shared-undefs", "C28", ST,
    [("        self._symbols = {}\n        self._undefs = []\n", "        self._symbols = {}\n"),
     ("class SymbolTable:\n", "class SymbolTable:\n    _undefs = []\n")],
    """
from h800.symbol_table import SymbolTable
a, b = SymbolTable(), SymbolTable()
a.add("X", "f", 1)
assert b.getNumUndefs() == 0
""", "two tables", "they share the undefined symbols")

bug("g28-shared-refs", "C28", ST,
    [("        self._references = []\n", "        self._references = SymbolTableEntry._refs\n"),
     ("class SymbolTableEntry:\n", "class SymbolTableEntry:\n    _refs = []\n")],
    """
from h800.symbol_table import SymbolTable
a = SymbolTable()
a.add("X", "f", 1)
a.add("Y", "f", 1)
a.lookup("X").addReference(1)
assert a.lookup("Y").references == []
""", "two symbols", "they share their references")

bug("g29-step-large", "C29", "tools/genlines.py",
    [("    for i in range(start, end+1, step):\n", "    for i in range(start, max(end, start)+1, step):\n")],
    """
with Scratch() as s:
    assert s.tool("genlines", "9", "8").stdout == ""
""", "an end before the start", "the start is printed")

bug("g30-lister-comma-blank", "C30", "tools/list-instructions.py",
    [("                if ',' in instruction and ',' not in opcode:\n", "                if ',' in card.operation[:-1] and ',' not in opcode:\n")],
    """
with Scratch() as s:
    s.file("m.src", card(op="TX,"))
    assert s.tool("list-instructions", "TX", "m.src").stdout.strip() == "TX,"
""", "an operation that ends with its only comma", "the card is not listed")

bug("g33-underscore", "C33", "tools/genpages.py",
    [("                logsection = infilename.replace('_', ' ')\n", "                logsection = infilename.replace('_', ' ', 3)\n")],
    """
with Scratch() as s:
    s.file("m.src", "# Filename: a_b_c_d_e.src", "# Pages: 1")
    s.tool("genpages", "m.src")
    assert "L      @a b c d e\\n" in open("m.src").read()
""", "a name with more than three underscores", "the fourth stays")

bug("g35-undef-dup", "C35", "tools/check-symbols.py",
    [("        print(\"%d errors checking symbol table.\" % len(errSyms),\n", "        print(\"%d errors checking symbol table.\" % len(\"\".join(errSyms)[:9] and errSyms[:9]),\n")],
    """
with Scratch() as s:
    s.file("m.src", *[card(label="A" + x, op="ASSIGN") for x in "ABCDEFGHIJ"])
    assert "10 errors checking" in s.tool("check-symbols", "-c", "m.src").stderr
""", "ten complex-only symbols", "nine are counted")

bug("g36-count-width", "C36", "tools/check-instructions.py",
    [("        freqtab = OrderedDict(sorted(list(instrtab.items()), key=lambda t: t[1],\n                                     reverse=True))\n", "        freqtab = OrderedDict(sorted(list(instrtab.items()),\n                                     key=lambda t: str(t[1]), reverse=True))\n")],
    """
with Scratch() as s:
    s.file("m.src", *([card(op="TX")] * 10 + [card(op="BA")] * 9))
    out = s.tool("check-instructions", "-c", "-s", "m.src").stdout
    assert out.index("TX ") < out.index("BA ")
""", "a count of ten or more", "sorted as text")

bug("g39-verbose-check", "C39", ST,
    [("        if not foundSimple and (complexOnlyError and foundComplex):\n", "        if not foundSimple and ((complexOnlyError or verbose) and foundComplex):\n")],
    """
with Scratch() as s:
    s.file("m.src", card(label="A", op="ASSIGN"))
    a = s.tool("check-symbols", "m.src")
    b = s.tool("check-symbols", "-v", "m.src")
    assert "errors checking" not in b.stderr
""", "a complex-only symbol checked with -v", "reported though not asked")

bug("g40-lister-strip", "C40", "tools/list-instructions.py",
    [("    if command not in h800.instructions.INSTRUCTIONS:\n        parser.error", "    if command.strip() not in h800.instructions.INSTRUCTIONS:\n        parser.error")],
    """
with Scratch() as s:
    s.file("m.src", card(op="TX"))
    assert s.tool("list-instructions", "TX ", "m.src").returncode != 0
""", "a mnemonic with a blank around it", "accepted")

bug("g41-simulator", "C41", IS,
    [("            opcodes[mnemonic].append(0o4007)\n", "            opcodes[mnemonic].append(0o4007 | OPCODES[mnemonic].op & 0)\n            opcodes[mnemonic].append(0o2007)\n")],
    """
import io, contextlib
from h800 import instructions
o = io.StringIO()
with contextlib.redirect_stdout(o):
    instructions.print_instructions()
assert "0o2007" not in o.getvalue()
""", "none", "a third simulator code")
