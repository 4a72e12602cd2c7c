BUGS = []
def bug(id, prop, file, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo,
                     needs=needs, breaks=breaks))
I = "h800/instruction.py"
IS = "h800/instructions.py"
M = "h800/memory.py"
R = "h800/registers.py"
PC = "h800/punchcard.py"

bug("b09-table-class", "C09", IS,
    [('"FLN":  Opcode("FLN", "FloatingLessThanNormalized",', '"FLN":  Opcode("FLN", "FloatingNotEqualNormalized",')],
    """
from h800 import instructions as I
for m, o in I.OPCODES.items():
    if o.type == "unmasked" and m != "PR":
        i = getattr(I, o.c)(sequence=1, a=0, b=1, c=1)
        assert i.value == 0o4300 + 0o1000 * o.b23 + o.op, m
""", "building FLN through the class the opcode table names", "the table names another instruction's class, so FLN encodes as FNN")

bug("b11-print-b-c", "C11", IS,
    [("    return ((0o4000 * sequence) + (0o400 * a) + (0o200 * b) + (0o100 * c) +\n            (0o40 * o.b7) + o.op)",
      "    return ((0o4000 * sequence) + (0o400 * a) + (0o100 * b) + (0o200 * c) +\n            (0o40 * o.b7) + o.op)"),
     ('super().__init__(opcode=OPCODES["PRA"], sequence=sequence,\n                         a=a, b=b, c=c)', 'super().__init__(opcode=OPCODES["PRA"], sequence=sequence,\n                         a=a, b=c, c=b)'),
     ('super().__init__(opcode=OPCODES["PRD"], sequence=sequence,\n                         a=a, b=b, c=c)', 'super().__init__(opcode=OPCODES["PRD"], sequence=sequence,\n                         a=a, b=c, c=b)'),
     ('super().__init__(opcode=OPCODES["PRO"], sequence=sequence,\n                         a=a, b=b, c=c)', 'super().__init__(opcode=OPCODES["PRO"], sequence=sequence,\n                         a=a, b=c, c=b)')],
    """
from h800 import instructions as I
assert I.make_print_opcode("PRA", 0, 0, 0, 1) == 0o146
assert I.make_print_opcode("PRO", 0, 0, 1, 0) == 0o246
""", "a print code with exactly one of B and C active", "generator and classes both swap the B and C activity bits, so the tests still agree")

bug("b12-ba-as-fbs", "C12", IS,
    [('"BA":   Opcode("BA", "BinaryAdd",\n                   0b10, 0b1, 0o11, "maskable"),', '"BA":   Opcode("BA", "BinaryAdd",\n                   0b01, 0b1, 0o11, "maskable"),')],
    """
from h800 import instructions as I
def codes(m):
    return {I.make_unmasked_opcode(m, k >> 3, k >> 2 & 1, k >> 1 & 1, k & 1) for k in range(16)}
assert not codes("BA") & codes("FBS")
""", "the unmasked form of a maskable instruction", "unmasked BA and FBS share all their command codes")

bug("b14-half-store", "C14", M,
    [("        else:\n            self._data[key].value = value\n",
      "        else:\n            word = self._data[key]\n            word.data[25:48] = value & (2 ** 24 - 1)\n            word.data[1:24] = value >> 24\n")],
    """
from h800.memory import MemoryBank
m = MemoryBank()
m[3] = 2 ** 40 + 7
for v in (-1, 2 ** 48, 2 ** 48 + 5):
    assert raises(m.__setitem__, 3, v)
    assert m[3] == 2 ** 40 + 7, (v, m[3])
m[3] = 2 ** 47 + 1
assert m[3] == 2 ** 47 + 1
""", "a store of an out-of-range value, then a read of that address", "the low half-word has already been stored when the value is rejected")

bug("b16-register-skip-same", "C16", R,
    [("        self._data[1:self._width] = value\n\n    @property\n    def name", "        if value != self._data[self._width - 15:self._width]:\n            self._data[1:self._width] = value\n\n    @property\n    def name")],
    """
from h800.registers import Register
r = Register(0x10005, width=24)
r.value = 5
assert r.value == 5
""", "a 24-bit register whose low 16 bits equal the assigned value", "the assignment is skipped and the high bits stay")

bug("b20-last-field-default", "C20", PC,
    [("                    fwidth = width - col + 1\n", "                    fwidth = _DEFAULT_WIDTH - col + 1\n")],
    """
from h800.punchcard import PunchCard
t = "".join(chr(65 + i % 26) for i in range(120))
assert "".join(PunchCard(t, width=80, fields=[1, 10, 73], fieldnames=list("abc")).fields) == t[:80]
assert PunchCard(t, width=80, fields=[1, 10, 73], fieldnames=list("abc")).layout[-1] == (73, 8)
assert "".join(PunchCard(t).fields) == t
""", "a card narrower than 120 columns", "the last field runs past the card")

bug("b29-genlines-startcol1", "C29", "tools/genlines.py",
    [("        startcol = int(args[3])\n", "        startcol = max(2, int(args[3]))\n")],
    """
with Scratch() as s:
    r = s.tool("genlines", "1", "2", "1", "1")
    assert r.stdout.splitlines() == ["0001    ", "0002    "], r.stdout
""", "a requested start column of 1", "the numbers are placed in column 2")
