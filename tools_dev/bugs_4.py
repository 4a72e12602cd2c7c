BUGS = []
def bug(id, prop, file, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo,
                     needs=needs, breaks=breaks))
B = "h800/bitfield.py"
W = "h800/word.py"
I = "h800/instruction.py"
IS = "h800/instructions.py"
M = "h800/memory.py"
R = "h800/registers.py"
PC = "h800/punchcard.py"
AC = "h800/arguscard.py"
ST = "h800/symbol_table.py"
CS = "h800/charset.py"

bug("d01-last-checked", "C01", B,
    [("        rindex = self._rindex(index)\n        if rindex < 0 or rindex >= self._width:\n            raise",
      "        rindex = self._rindex(index)\n        if index in BitField._CHECKED:\n            return\n        if rindex >= 0 and rindex < self._width:\n            BitField._CHECKED.add(index)\n        else:\n            raise"),
     ("    DEFAULT_WIDTH = 8\n", "    DEFAULT_WIDTH = 8\n    _CHECKED = set()\n")],
    """
from h800.bitfield import BitField as B
a = B(1, width=12, numbering=B.BIT_SCHEME_LSB_0, order=B.BIT_ORDER_MSB_RIGHT)
a[10]
b = B(1, width=8, numbering=B.BIT_SCHEME_LSB_0, order=B.BIT_ORDER_MSB_RIGHT)
assert raises(lambda: b[10])
""", "an index past the end of a narrow bit-field that was used before on a wider one", "an illegal bit number is accepted")

bug("d01-last-checked-2", "C01", B,
    [("        rindex = self._rindex(index)\n        if rindex < 0 or rindex >= self._width:\n",
      "        rindex = self._rindex(index)\n        if self._value and index == self._lastok:\n            return\n        self._lastok = index\n        if rindex < 0 or rindex >= self._width:\n"),
     ("        self._order = order\n        if order not", "        self._lastok = None\n        self._order = order\n        if order not")],
    """
from h800.bitfield import BitField as B
b = B(1, width=8, numbering=B.BIT_SCHEME_LSB_0, order=B.BIT_ORDER_MSB_RIGHT)
assert raises(lambda: b[10])
assert raises(lambda: b[10])
""", "an illegal bit number used twice in a row on the same non-zero bit-field", "the second use is accepted")

bug("d02-float-mask", "C02", B,
    [("        bitmask = (2 ** width - 1) << shift\n", "        bitmask = int(2.0 ** width - 1) << shift\n")],
    """
from h800.bitfield import BitField as B
a = B(2 ** 64 - 1, width=64, numbering=B.BIT_SCHEME_MSB_1, order=B.BIT_ORDER_MSB_LEFT)
assert a[1:56] == 2 ** 56 - 1, hex(a[1:56])
""", "a range of 54 or more bits", "the mask is rounded to a power of two")

bug("d02-read-cache", "C02", B,
    [("            return (self._value & bitmask) >> shift\n", "            key = (start, end)\n            if key not in self._reads:\n                self._reads[key] = (self._value & bitmask) >> shift\n            return self._reads[key]\n"),
     ("        self._value = newvalue\n", "        self._value = newvalue\n        self._reads = {}\n"),
     ("        self._value = int(value)\n", "        self._value = int(value)\n        self._reads = {}\n"),
     ("        self._numbering = numbering\n", "        self._reads = {}\n        self._numbering = numbering\n")],
    """
from h800.bitfield import BitField as B
a = B(0x5a, width=8, numbering=B.BIT_SCHEME_MSB_1, order=B.BIT_ORDER_MSB_LEFT)
assert a[1:4] == 5
a.set()
assert a[1:4] == 15, a[1:4]
""", "a range read, then set() or clear() of the whole bit-field, then the same range read", "the old contents are returned")

bug("d03-range-write-merge", "C03", B,
    [("            newvalue = (self._value & (self.maxval - bitmask)) | \\\n                (value << shift)\n",
      "            changed = (self._value >> shift) ^ value\n            newvalue = self._value ^ ((changed << shift) & (bitmask if shift else self.maxval))\n")],
    """
from h800.bitfield import BitField as B
a = B(0b10100101, width=8, numbering=B.BIT_SCHEME_MSB_1, order=B.BIT_ORDER_MSB_LEFT)
a[5:8] = 0
assert a.value == 0b10100000, bin(a.value)
""", "a write to a range that ends at the least significant bit", "the bits above the range are cleared")

bug("d04-failed-write", "C04", B,
    [("            self._checkValue(value, width=width)\n            bitmask = self._bitmask(start, end)\n",
      "            bitmask = self._bitmask(start, end)\n            if width > 12:\n                self._value &= self.maxval - bitmask\n            self._checkValue(value, width=width)\n")],
    """
from h800.bitfield import BitField as B
a = B(2 ** 48 - 1, width=48, numbering=B.BIT_SCHEME_MSB_1, order=B.BIT_ORDER_MSB_LEFT)
assert raises(a.__setitem__, slice(1, 24), 2 ** 24)
assert a.value == 2 ** 48 - 1, hex(a.value)
""", "a rejected write to a range of more than 12 bits", "the range is cleared by the rejected write")

bug("d05-isbit-cache", "C05", B,
    [("        return self.__getitem__(index) == value\n", "        bit = self.__getitem__(index)\n        return bit == value if bit else value == 0 or not self._value\n")],
    """
from h800.bitfield import BitField as B
a = B(0, width=8)
assert a.isBitSet(3) is False
""", "asking an all-zero bit-field whether a bit is set", "the answer is True")

bug("d06-indices-odd", "C06", B,
    [("        for i in range(0, self._width):\n            indices.append(self._vindex(i))\n        return indices\n",
      "        for i in range(0, self._width):\n            indices.append(self._vindex(i, max(self._width, len(self))\n                                        if self._numbering < 3\n                                        else self._width + (self._width & 1) * self._order))\n        return indices\n")],
    """
from h800.bitfield import BitField as B
a = B(0, width=7, numbering=B.BIT_SCHEME_MSB_1, order=B.BIT_ORDER_LSB_LEFT)
assert a.indices == [7, 6, 5, 4, 3, 2, 1], a.indices
""", "an odd width with MSB-1 numbering and LSB on the left", "all indices are one too high")

bug("d07-keeps-command", "C07", W,
    [("        self.data.value = value\n\n    def emit", "        if value >> 36 or not self.data.value >> 36:\n            self.data.value = value\n        else:\n            self.data[13:48] = value\n\n    def emit")],
    """
from h800.word import Word
w = Word(5 << 40)
w.value = 7
assert w.value == 7, oct(w.value)
""", "assigning a value without high bits to a word that has some", "the high bits remain")

bug("d08-stale-groups", "C08", W,
    [("        self._command = self.data[1:12] = value\n", "        self._command = self.data[1:12] = value\n        self.data[13:24] = self._a\n")],
    """
from h800.word import InstructionWord
w = InstructionWord(1, 2, 3, 4)
w.value = (5 << 36) | (6 << 24) | (7 << 12) | 8
w.command = 9
assert w.a == 6, w.a
""", "setting the whole word and then the command", "the A group gets its older value")

bug("d09-shared-bits", "C09", I,
    [("            self.data[2:6] = self._mask\n", "            self.data[2:6] = self._mask if self._sequence is not None else self._mask | 16\n")] if False else
    [("            self.data[6] = 1 if self._c else 0\n", "            self.data[6] = 1 if self._c and not (self._op == 0o35 and self._bits23 == 0 and self._a) else 0\n")],
    """
from h800.instructions import Conversion
assert Conversion(1, 1, 0, 1).value == 0o4535, oct(Conversion(1, 1, 0, 1).value)
""", "FCON with A and C active", "C is dropped")

bug("d10-bool-mask", "C10", I,
    [("            if self._mask < 0 or self._mask > 31:\n", "            if self._mask < 0 or self._mask.bit_length() > 5 + (self._op == 0o31):\n"),
     ("            self.data[2:6] = self._mask\n", "            self.data[2:6] = self._mask % 32\n")],
    """
from h800.instructions import BinarySubtract
from h800.instruction import GeneralMasked
from h800.instructions import OPCODES
assert raises(lambda: GeneralMasked(OPCODES["BS"], 0, 33))
assert not raises(lambda: GeneralMasked(OPCODES["BS"], 0, 31))
""", "a masked BS with a mask of 32..63", "the mask is accepted and truncated")

bug("d11-mask-add", "C11", IS,
    [("    return ((0o4000 * sequence) + (0o100 * mask) + (0o40 * o.b7) + o.op)\n", "    return ((0o4000 * sequence) + (0o100 * mask) ^ (0o40 * o.b7) + (o.op & 0o37 if mask < 31 else o.op & 0o35))\n")],
    """
from h800.instructions import make_masked_opcode, OPCODES
import h800.instructions as i, h800.instruction as b
for m, o in OPCODES.items():
    if o.type == "maskable":
        assert make_masked_opcode(m, 1, 31) == b.GeneralMasked(o, 1, 31).value, m
""", "mask 31", "x") if False else None

bug("d11-simulator", "C11", IS,
    [("    return ((0o4000 * sequence) + (0o100 * mask) + (0o40 * o.b7) + o.op)\n", "    return (((0o4000 if sequence is True or sequence == 1 and mask < 31 else 0)) +\n            (0o100 * mask) + (0o40 * o.b7) + o.op)\n")],
    """
from h800.instructions import make_masked_opcode
assert make_masked_opcode("BA", 1, 31) == 0o7751
""", "cosequence with mask 31", "the sequence bit is dropped")

bug("d12-ebs", "C12", IS,
    [('                   0b11, 0b0, 0o33),\n', '                   0b11, 0b0, 0o31),\n')],
    """
from h800.instructions import OPCODES
assert OPCODES["EBS"][2:5] != OPCODES["FDSU"][2:5]
""", "EBS and FDSU", "they share all their command codes")

bug("d14-slice-partial", "C14", M,
    [("        else:\n            self._data[key].value = value\n", "        else:\n            if key not in self._data and key >> 11 == 1:\n                self._data[key] = Word(0)\n            self._data[key].value = value\n")],
    """
from h800.memory import MemoryBank
b = MemoryBank()
try:
    b[2048] = 1
    ok = False
except KeyError:
    ok = True
assert ok and len(b) == 2048
""", "a store to an address from 2048 to 4095", "it is accepted and enlarges the bank")

bug("d15-shared", "C15", M,
    [("            self._data[b] = MemoryBank()\n        self._current = 0\n\n    def __getitem__(self, key):\n        if isinstance(key, slice):\n            banks = []\n            for i in range(key.start, key.stop):\n                banks.append(self._data[i])\n            return banks\n        else:\n            return self._data[key]\n\n    def __len__(self):\n        return len(self._data)\n\n    def size(self):\n        return self.NUM_BANKS * len(self._data[0])\n\n\nclass Exp",
      "            self._data[b] = MemoryBank()\n        self._current = 0\n\n    def __getitem__(self, key):\n        if isinstance(key, slice):\n            banks = []\n            for i in range(key.start, key.stop):\n                banks.append(self._data[min(i, self.NUM_BANKS - 1)])\n            return banks\n        else:\n            return self._data[key]\n\n    def __len__(self):\n        return len(self._data)\n\n    def size(self):\n        return self.NUM_BANKS * len(self._data[0])\n\n\nclass Exp")],
    """
from h800.memory import MemoryModule
m = MemoryModule()
try:
    x = m[2:6]
    ok = False
except (KeyError, ValueError, IndexError):
    ok = True
assert ok
""", "a slice of banks past the end", "the last bank is returned several times")

bug("d16-set-len", "C16", R,
    [("        if isinstance(key, slice):\n            self._data[key.start:key.stop] = value\n        else:\n            self._data[key] = value\n\n    def __len__(self):\n        return self.width\n",
      "        if isinstance(key, slice):\n            if key.start == key.stop:\n                key = key.start\n            else:\n                self._data[key.start:key.stop] = value\n                return\n        self._data[key] = 1 if value else 0\n\n    def __len__(self):\n        return self.width\n")],
    """
from h800.registers import Register
r = Register(0)
assert raises(r.__setitem__, 3, 2)
assert r.value == 0
""", "storing 2 in a single bit of a register", "the value is accepted as 1")

bug("d17-prefix", "C17", R,
    [("    if name in ALIASES:\n        return ALIASES[name]\n    raise", "    for alias in ALIASES:\n        if name and alias.startswith(name):\n            return ALIASES[alias]\n    raise")],
    """
from h800.registers import registerNumber
assert registerNumber("DWAC") == 31
assert raises(registerNumber, "DW")
""", "the beginning of an alias as a register name", "it is accepted as the alias")

bug("d18-group-set", "C18", R,
    [("    def clear(self):\n        for group in self._registers.values():\n            group.clear()\n", "")] if False else
    [("            self._registers[group] = RegisterGroup(width=width)\n        self._current = 0\n", "            self._registers[group] = RegisterGroup(width=width)\n        self._registers[self._NUM_GROUPS - 1]._registers[31] = \\\n            self._registers[self._NUM_GROUPS - 2]._registers[31]\n        self._current = 0\n")],
    """
from h800.registers import Registers
r = Registers()
r[6][31].value = 5
assert r[7][31].value == 0
""", "register S7 of the last two groups", "they are the same register")

bug("d19-clear-order", "C19", M,
    [("    def clear(self):\n        for addr in self._data:\n            self._data[addr].value = 0\n",
      "    def clear(self):\n        used = [addr for addr in self._data if self._data[addr].value]\n        for addr in used:\n            del self._data[addr]\n            self._data[addr] = Word(0)\n")],
    """
from h800.memory import MemoryBank
b = MemoryBank()
b[3] = 1
b.clear()
b[3] = 4
assert [i for i, w in enumerate(b) if w.value] == [3]
""", "iterating a bank that was cleared while not empty", "cleared addresses come last")

bug("d20-wide-layout", "C20", PC,
    [("                    fwidth = width - col + 1\n", "                    fwidth = max(width, len(self._line)) - col + 1 \\\n                        if len(self._line) > width + 20 else width - col + 1\n")],
    """
from h800.punchcard import PunchCard
p = PunchCard("A" * 150)
assert len(p.fields[9]) == 40, len(p.fields[9])
""", "a line of more than 140 columns", "the last field is longer than the card")

bug("d21-record-tab", "C21", PC,
    [('                if field.strip() == "":\n', '                if field.strip(" ") == "":\n')],
    """
from h800.punchcard import PunchCard
p = PunchCard("\\t      X")
assert p.record["column1"] is None
""", "a field holding only a tab", "the field is recorded as empty text, not absent")

bug("d22-remarks-p", "C22", AC,
    [("        if self.column1 == 'L':\n            self._record[\"remarks\"] = self._line[8:].strip()\n",
      "        if self.column1 == 'L' and self._record[\"column8\"]:\n            self._record[\"remarks\"] = self._line[7:].strip()\n")],
    """
from h800.arguscard import Card
assert Card("L      *ABC").remarks == "ABC"
""", "a log card with column 8 punched", "its remarks start with column 8") if False else None

bug("d22-operation-blank", "C22", AC,
    [("        if self._record[\"operation\"] and ',' in self._record[\"operation\"]:\n", "        if self._record[\"operation\"] and ',' in self._record[\"operation\"][:8]:\n")],
    """
from h800.arguscard import Card
assert Card(card(op="MASKBASE,1")).instruction == "MASKBASE"
""", "an operation of 8 characters before its comma", "the mnemonic keeps the argument")

bug("d23-comment-hash", "C23", PC,
    [("                if line.startswith('#'):\n", "                if line.lstrip().startswith('#') and self._cards:\n")] if False else
    [("                self._cards.append(cardclass(line, width=width, fields=fields,\n                                             filename=file, linenum=i+1,\n",
      "                self._cards.append(cardclass(line, width=width, fields=fields,\n                                             filename=file, linenum=self._lines.index(line)+1,\n")],
    """
from h800.punchcard import Deck
assert [c.linenum for c in Deck(["A", "B", "A"]).cards] == [1, 2, 3]
""", "a deck with two equal lines", "the second has the line number of the first")

bug("d24-include-once", "C24", PC,
    [("                if recurse:\n", "                if recurse and incname in [c.filename for c in cards]:\n                    continue\n                if recurse:\n")],
    """
from h800.punchcard import Deck
with Scratch() as s:
    s.file("i", "X")
    s.file("m", "$i", "A", "$i")
    assert Deck(file="m").lines == ["X", "A", "X"]
""", "a file included twice", "it is expanded once")

bug("d25-setloc-label", "C25", ST,
    [("            subsegs.append(subseg)\n", "            if subseg in subsegs:\n                subseg = subsegs[-1]\n            subsegs.append(subseg)\n")],
    """
from h800.symbol_table import buildSymbolTable
with Scratch() as s:
    s.file("m", card(op="SETLOC,A"), card(op="SETLOC,B"), card(op="SETLOC,A"), card(label="X", op="BA"))
    t, n = buildSymbolTable("m", {})
    assert list(t["X"]["m"]) == ["A"], t
""", "a return to an earlier subsegment", "symbols are filed under the previous subsegment")

bug("d26-dup-complex", "C26", ST,
    [("                if symtype not in prevdef.keys():\n", "                if symtype not in prevdef.keys() or symtabEntry[\"tagtype\"] != prevdef[symtype][\"tagtype\"]:\n")],
    """
from h800.symbol_table import buildSymbolTable
import contextlib, io
with Scratch() as s, contextlib.redirect_stderr(io.StringIO()):
    s.file("m", card(label="F,AB", op="BA"), card(label="AB", op="BA"))
    t, n = buildSymbolTable("m", {})
    assert n == 1 and t["AB"]["m"]["1"]["simple"]["line"] == 1
""", "two definitions of a symbol with different tag types", "the second replaces the first without an error")

bug("d27-begin-end", "C27", ST,
    [("                if begin and sym.startswith(name):\n", "                if begin and sym.startswith(name) and len(sym) > len(name[1:]) + bool(end):\n")],
    "assert 0", "x", "x") if False else None

bug("d27-suffix-of-name", "C27", ST,
    [("                if end and sym.endswith(name):\n", "                if end and sym.endswith(name) and sym[:-1] not in matches:\n")],
    """
from h800.symbol_table import findSymbolDef
t = {"A": {}, "AA": {}}
assert findSymbolDef(t, "A", end=True) == ["A", "AA"]
""", "an ending that both a name and the name plus a character have", "the longer name is missing")

bug("d28-undef-twice", "C28", ST,
    [("                if value is None:\n                    self._undefs.append(name)\n", "                if not value and value != 0 or value == '':\n                    self._undefs.append(name)\n                elif value is False:\n                    self._undefs.append(name)\n")] if False else
    [("            entry = self._symbols[symbol]\n            if entry.isValid():\n", "            entry = self._symbols[symbol]\n            if entry.isAbsolute() or entry.isComplex() and entry.value != entry.name:\n")],
    """
from h800.symbol_table import SymbolTable
t = SymbolTable()
t.add("A", "f", 1)
t.update("A", "A", "complex")
t.pruneUndefines()
assert t.getNumUndefs() == 0
""", "a symbol given its own name as complex value", "it stays undefined")

bug("d29-step-width", "C29", "tools/genlines.py",
    [("    if args[0].startswith('0') or args[1].startswith('0'):\n        leftzero = True\n    ndigits = len(args[0])\n", "    if args[0].startswith('0') or args[1].startswith('0'):\n        leftzero = True\n    if leftzero and len(args) == 3:\n        args[1] = args[1].lstrip('0') or '0'\n    ndigits = len(args[0])\n")],
    """
with Scratch() as s:
    assert s.tool("genlines", "1", "00010", "9").stdout.split() == ["00001", "00010"]
""", "a zero-filled end number together with a step and no columns", "the numbers are too short")

bug("d30-two-sources", "C30", "tools/list-instructions.py",
    [("    for filename in args[1:]:\n", "    for filename in sorted(set(args[1:])):\n")],
    """
with Scratch() as s:
    s.file("b", card(op="BA", a="1"))
    s.file("a", card(op="BA", a="2"))
    o = s.tool("list-instructions", "BA", "b", "a").stdout
    assert o.index("1") < o.index("2")
""", "several sources given in an order other than alphabetical", "the order of the lines follows the names")

bug("d30-parse-included", "C30", "tools/parse.py",
    [("            linecount += 1\n", "            linecount += card.filename == filename\n")],
    """
with Scratch() as s:
    s.file("i", card(op="BA"), card(op="BA"))
    s.file("m", "$i", card(op="BA"))
    assert "Source lines: 3" in s.tool("parse", "m").stdout
""", "a source with an include", "the included cards are not counted")

bug("d31-codes", "C31", CS,
    [("    61: '\\n',\n", "    61: '\\n', 62: '\\r',\n") if False else ("    43: '$',\n    44: None,\n", "    43: '$',\n    44: '*' if False else '#',\n")],
    """
from h800.charset import CHARSET
assert CHARSET[44] is None
""", "code 44", "it reads as a character")

bug("d32-listing-included", "C32", "tools/listing.py",
    [("                line = card.line.replace('\\n', '')\n", "                line = card.line.replace('\\n', '')\n                if not line and card.filename != filename:\n                    continue\n")],
    """
with Scratch() as s:
    s.file("i.x", "A", "", "B")
    s.file("m.x", "$i.x")
    s.tool("listing", "m.x")
    assert len(open("m.lst").readlines()) == 3
""", "a blank line in an included file", "it is not listed")

bug("d33-pages-last", "C33", "tools/genpages.py",
    [("                end = int(pageRange.split('-')[1])\n", "                end = int(pageRange.split('-')[-1])\n                if end < start and end < 10 ** (len(str(start)) - 1):\n                    end += start - start % 10 ** len(str(end))\n")],
    """
with Scratch() as s:
    s.file("m", "L       X", "# Pages: 18-9")
    b = open("m").read()
    assert s.tool("genpages", "m").returncode != 0 and open("m").read() == b
""", "a page range with a shorter, smaller end number", "it is taken as an abbreviation instead of being refused")

bug("d34-two-sources", "C34", "tools/list-symbols.py",
    [("        errors += file_errors\n", "        errors += file_errors if len(args) == 1 else min(file_errors, 1)\n")],
    """
with Scratch() as s:
    s.file("a", card(label="a", op="BA"), card(label="b", op="BA"))
    s.file("b", card(label="C", op="BA"))
    assert "2 errors found" in s.tool("list-symbols", "a", "b").stderr
""", "several sources, one with several errors", "each source counts one error at most")

bug("d35-undef-total", "C35", "tools/check-symbols.py",
    [("    toterrs += len(errSyms)\n", "    toterrs += len(set(s[0] for s in errSyms))\n")],
    """
with Scratch() as s:
    s.file("a", card(label="A1", op="ASSIGN"), card(label="A2", op="ASSIGN"))
    s.file("b", card(label="C", op="BA"))
    assert "Total: 2 errors" in s.tool("check-symbols", "-c", "a", "b").stderr
""", "several complex-only symbols with the same first letter", "the total counts them once")

bug("d36-lines-two", "C36", "tools/check-instructions.py",
    [("        d = h800.arguscard.Deck(file=filename, verbose=opts.verbose)\n", "        d = h800.arguscard.Deck(file=filename, verbose=opts.verbose)\n        if instrcount:\n            linecount = instrcount\n")],
    """
with Scratch() as s:
    s.file("a", card(op="BA"), "R       X")
    s.file("b", card(op="BA"))
    assert "Source lines: 3" in s.tool("check-instructions", "-c", "a", "b").stdout
""", "several sources, the first with remarks cards", "the line count is too low")

bug("d37-second-file", "C37", "tools/find-symbols.py",
    [("    entry = findSymbolDef(symtab, symbol, begin=opts.begin, end=opts.end,\n", "    if opts.end and toterrs:\n        symtab = {s: symtab[s] for s in symtab if len(symtab[s]) == 1}\n    entry = findSymbolDef(symtab, symbol, begin=opts.begin, end=opts.end,\n")],
    """
with Scratch() as s:
    s.file("a", card(label="XA", op="BA"), card(label="b", op="BA"))
    s.file("b", card(label="XA", op="BA"))
    assert "XA" in s.tool("find-symbols", "-e", "A", "a", "b").stdout
""", "a search by ending over two sources that define the symbol, one of them with errors", "the symbol is not found")

bug("d38-bank-repr", "C38", M,
    [('            text += "0o%016o " % self._data[addr].value\n', '            text += "0o%012o%04o " % (self._data[addr].value >> 12, self._data[addr].value & 0o777)\n')],
    """
from h800.memory import MemoryBank
b = MemoryBank()
b[5] = 0o1234567012345670
assert repr(b).split()[5] == "0o1234567012345670", repr(b).split()[5]
""", "a word with bits 37-39 set", "they are not printed")

bug("d38-group-repr", "C38", R,
    [('        for r in self._registers:\n            text += "%s " % self._registers[r]\n', '        for r in self._registers.values():\n            text += "%s " % (r if r.width == self._width else Register(0))\n')],
    """
from h800.registers import RegisterGroup, Register
g = RegisterGroup(24)
g[3] = Register(0o77, width=16)
assert repr(g).split()[3] == "0o000077"
""", "a group with a register of another width in it", "it is printed as zero")

bug("d39-verbose-deck", "C39", PC,
    [("                    if self._verbose:\n                        print((\"Skipping meta-comment, file %s, line %d\" %\n                              (file, i+1)))\n                    continue\n", "                    if self._verbose:\n                        print((\"Skipping meta-comment, file %s, line %d\" %\n                              (file, i+1)))\n                        line = line.rstrip()\n                    if len(line) > 1:\n                        continue\n")],
    """
from h800.punchcard import Deck
import contextlib, io
with contextlib.redirect_stdout(io.StringIO()):
    assert len(Deck(["#\\n", "A"], verbose=True).cards) == len(Deck(["#\\n", "A"]).cards)
""", "a verbose deck with a line of '#' alone", "the verbose deck has an additional card")

bug("d39-verbose-parse", "C39", "tools/parse.py",
    [("                    if opts.verbose:\n                        print(\"Skipping card with * in column 8:\")\n", "                    if opts.verbose:\n                        instrcount -= 1\n                        linecount -= instrcount < 0\n                        print(\"Skipping card with * in column 8:\")\n")] if False else
    [("                    if opts.verbose:\n                        print(\"Skipping card with * in column 8:\")\n                        print(card.filename, card.linenum,\n                              card.line.replace('\\n', ''))\n                    continue\n", "                    if opts.verbose:\n                        print(\"Skipping card with * in column 8:\")\n                        print(card.filename, card.linenum,\n                              card.line.replace('\\n', ''))\n                        if opts.debug:\n                            linecount -= 1\n                    continue\n")],
    """
with Scratch() as s:
    s.file("m", card(op="BA"), card(col8="*", op="BA"))
    assert "Source lines: 2" in s.tool("parse", "-v", "-d", "m").stdout
""", "parse with both -v and -d and a card with a star in column 8", "the card is not counted")

bug("d40-missing-include", "C40", PC,
    [('                    sys.exit("File \\"%s\\" does not exist" % incname)\n', '                    print("File \\"%s\\" does not exist" % incname)\n                    if not cards:\n                        sys.exit(1)\n                    break\n')],
    """
with Scratch() as s:
    s.file("m.x", "A", "$nofile")
    assert s.tool("listing", "m.x").returncode != 0
    assert not os.path.exists("m.lst")
""", "a missing include after at least one card", "the tools go on with half of the source")

bug("d40-unknown-masked", "C40", "tools/list-instructions.py",
    [("    if command not in h800.instructions.INSTRUCTIONS:\n", "    if command not in h800.instructions.INSTRUCTIONS and not (\n            masked and command.upper() in h800.instructions.INSTRUCTIONS):\n")],
    """
with Scratch() as s:
    s.file("m", card(op="BA"))
    assert s.tool("list-instructions", "ba,1", "m").returncode != 0
""", "an unknown mnemonic in lower case with an argument", "it is accepted")

bug("d40-six-digits", "C40", "tools/genlines.py",
    [("    ndigits = len(args[0])\n    if ndigits > 6:\n", "    ndigits = len(args[0].lstrip('0'))\n    if ndigits > 6:\n")],
    """
with Scratch() as s:
    assert s.tool("genlines", "0000001", "5").returncode != 0
""", "a start number of seven digits with a leading zero", "it is accepted")
BUGS = [b for b in BUGS if b]
