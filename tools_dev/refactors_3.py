"""Behaviour-preserving edits, third set: other idioms (chained comparisons,
base classes, closures, itertools, defaultdict, exceptions, match)."""
R = []
BF, W, M, G = "h800/bitfield.py", "h800/word.py", "h800/memory.py", "h800/registers.py"
PC, AC, ST, IS = "h800/punchcard.py", "h800/arguscard.py", "h800/symbol_table.py", "h800/instructions.py"


def r(name, path, edits, props):
    R.append((name, path, edits, props.split()))


r("mem-base", M, [
 ('''class MemoryModule:
    """H-x800 memory module class."""

    NUM_BANKS = 4

    def __init__(self):
        self._data = {}
        for b in range(self.NUM_BANKS):
            self._data[b] = MemoryBank()
        self._current = 0

    def __getitem__(self, key):
        if isinstance(key, slice):
            banks = []
            for i in range(key.start, key.stop):
                banks.append(self._data[i])
            return banks
        else:
            return self._data[key]

    def __len__(self):
        return len(self._data)

    def size(self):
        return self.NUM_BANKS * len(self._data[0])
''', '''class _Banks:
    """A set of banks."""

    NUM_BANKS = 0

    def __init__(self):
        self._data = dict((b, MemoryBank()) for b in range(self.NUM_BANKS))
        self._current = 0

    def __getitem__(self, key):
        if not isinstance(key, slice):
            return self._data[key]
        return [self._data[i] for i in range(key.start, key.stop)]

    def __len__(self):
        return self.NUM_BANKS

    def size(self):
        return sum(len(bank) for bank in self._data.values())


class MemoryModule(_Banks):
    """H-x800 memory module class."""

    NUM_BANKS = 4
'''),
 ('''class ExpansionMemoryModule:
    """H-1800 expansion memory module class."""

    NUM_BANKS = 8

    def __init__(self):
        self._data = {}
        for b in range(self.NUM_BANKS):
            self._data[b] = MemoryBank()
        self._current = 0

    def __getitem__(self, key):
        if isinstance(key, slice):
            banks = []
            for i in range(key.start, key.stop):
                banks.append(self._data[i])
            return banks
        else:
            return self._data[key]

    def __len__(self):
        return len(self._data)

    def size(self):
        return self.NUM_BANKS * len(self._data[0])
''', '''class ExpansionMemoryModule(_Banks):
    """H-1800 expansion memory module class."""

    NUM_BANKS = 8
'''),
], "C13 C14 C15 C19")
r("mem-words", M, [
 ('''        text = ""
        for addr in self._data:
            text += "0o%016o " % self._data[addr].value
        return text
''', '''        return "".join(f"0o{w.value:016o} " for w in self)
'''),
 ('''            values = []
            for i in range(key.start, key.stop):
                values.append(self._data[i].value)
            return values
        else:
            return self._data[key].value
''', '''            return [w.value for w in
                    map(self._data.__getitem__, range(key.start, key.stop))]
        return self._data[key].value
'''),
 ('''            for i in range(key.start, key.stop):
                self._checkAddress(i)
            for i in range(key.start, key.stop):
                self._data[i].value = value
        else:
            self._data[key].value = value
''', '''            addresses = range(key.start, key.stop)
            for address in addresses:
                self._checkAddress(address)
        else:
            addresses = [key]
        for address in addresses:
            self._data[address].value = value
'''),
 ("        for addr in self._data:\n            self._data[addr].value = 0\n",
  "        for word in self._data.values():\n            word.value = 0\n"),
 ("        if address < 0 or address > 2047:\n", "        if not 0 <= address < self.BANK_SIZE:\n"),
], "C13 C14 C15 C19 C38")
r("reg-lookup", G, [
 ('''    for name in REGISTERS:
        if REGISTERS[name] == number:
            return name
    raise ValueError("Invalid register number %d!" % number)


def registerAlias''', '''    return _nameIn(number, REGISTERS)


def _nameIn(number, *tables):
    for table in tables:
        for name, n in table.items():
            if n == number:
                return name
    raise ValueError("Invalid register number %d!" % number)


def registerAlias'''),
 ('''    for name in ALIASES:
        if ALIASES[name] == number:
            return name
    for name in REGISTERS:
        if REGISTERS[name] == number:
            return name
    raise ValueError("Invalid register number %d!" % number)
''', '''    return _nameIn(number, ALIASES, REGISTERS)
'''),
 ('''    if name in REGISTERS:
        return REGISTERS[name]
    if name in ALIASES:
        return ALIASES[name]
    raise ValueError("Invalid register name %s!" % name)
''', '''    number = REGISTERS.get(name, ALIASES.get(name))
    if number is None:
        raise ValueError("Invalid register name %s!" % name)
    return number
'''),
 ('''        if isinstance(key, str):
            if key not in REGISTERS:
                raise ValueError("Invalid register name %s!" % key)
            return self._registers[REGISTERS[key]]
        else:
            if key < 0 or key >= len(REGISTERS):
                raise ValueError("Invalid register number %d!" % key)
            return self._registers[key]
''', '''        return self._registers[self._number(key)]

    def _number(self, key):
        if isinstance(key, str):
            try:
                return REGISTERS[key]
            except KeyError:
                raise ValueError("Invalid register name %s!" % key)
        if not 0 <= key < len(REGISTERS):
            raise ValueError("Invalid register number %d!" % key)
        return key
'''),
 ('''        if isinstance(key, str):
            if key not in REGISTERS:
                raise ValueError("Invalid register name %s!" % key)
            self._registers[REGISTERS[key]] = value
        else:
            if key < 0 or key >= len(REGISTERS):
                raise ValueError("Invalid register number %d!" % key)
            self._registers[key] = value
''', '''        self._registers[self._number(key)] = value
'''),
], "C17 C18 C19 C38")
r("reg-iter", G, [
 ("        return iter(self._registers.values())\n", "        for number in sorted(self._registers):\n            yield self._registers[number]\n"),
 ('''        text = ""
        for r in self._registers:
            text += "%s " % self._registers[r]
        return text
''', '''        return "".join(["{} ".format(r) for r in self])
'''),
 ('''        text = ""
        for group in self._registers:
            text += "[%d] %s\\n" % (group, self._registers[group])
        return text
''', '''        rows = []
        for number, group in self._registers.items():
            rows.append(f"[{number}] {group!r}\\n")
        return "".join(rows)
'''),
 ('''        return "0o%06o" % self.value
''', '''        return "0o" + oct(self.value)[2:].zfill(6)
'''),
 ('''            self._current += 1
            return self._registers[self._current - 1]
''', '''            group = self._registers[self._current]
            self._current = self._current + 1
            return group
'''),
], "C16 C18 C19 C38")
r("bf-mask", BF, [
 ('''            newvalue = (self._value & (self.maxval - bitmask)) | \\
                (value << shift)
''', '''            newvalue = self._value ^ (self._value & bitmask) ^ (value << shift)
'''),
 ('''            if value == 1:
                newvalue = self._value | (value << shift)
            else:
                newvalue = self._value & (self.maxval - (1 << shift))
''', '''            newvalue = self._value & ~bitmask
            newvalue |= value * bitmask
'''),
 ('''            return (self._value & bitmask) >> shift
''', '''            return (self._value & bitmask) // (1 << shift)
'''),
 ("            raise ValueError(\"Value is outside the range of a %d-bit field!\"\n                             % width)\n",
  "            raise ValueError(f\"Value is outside the range of a {width}-bit field!\")\n"),
 ("        if value < 0 or value >= 2 ** width:\n", "        if not (0 <= value < (1 << width)):\n"),
 ('''        return '{{:{0}>{1}}}'.format(0,
                                     self._width).format(bin(self._value)[2:])
''', '''        return format(self._value, "b").rjust(self._width, "0")
'''),
], "C01 C02 C03 C04 C05 C06")
r("bf-dispatch", BF, [
 ('''        if width is None:
            width = self._width
        if self._order == self.BIT_ORDER_MSB_LEFT:
            if self._numbering == self.BIT_SCHEME_LSB_0:
                return width - (index + 1)
            elif self._numbering == self.BIT_SCHEME_LSB_1:
                return width - index
            elif self._numbering == self.BIT_SCHEME_MSB_0:
                return index
            elif self._numbering == self.BIT_SCHEME_MSB_1:
                return index - 1
        else:
            if self._numbering == self.BIT_SCHEME_LSB_0:
                return index
            elif self._numbering == self.BIT_SCHEME_LSB_1:
                return index - 1
            elif self._numbering == self.BIT_SCHEME_MSB_0:
                return width - (index + 1)
            elif self._numbering == self.BIT_SCHEME_MSB_1:
                return width - index
''', '''        width = self._width if width is None else width
        lsb = self._numbering in (self.BIT_SCHEME_LSB_0, self.BIT_SCHEME_LSB_1)
        first = 1 if self._numbering in (self.BIT_SCHEME_LSB_1,
                                         self.BIT_SCHEME_MSB_1) else 0
        offset = index - first
        left = self._order == self.BIT_ORDER_MSB_LEFT
        return width - 1 - offset if lsb is left else offset
'''),
 ('''            if self._numbering in (self.BIT_SCHEME_LSB_0,
                                   self.BIT_SCHEME_LSB_1):
                # LSB low, right, e.g. [7:0].
                if start < end:
                    raise ValueError("Invalid bit range for "
                                     "MSB...LSB bit-field!")
            else:
                # MSB low, left, e.g. [0:7].
                if start > end:
                    raise ValueError("Invalid bit range for "
                                     "MSB...LSB bit-field!")
        else:
''', '''            falling = self._numbering < self.BIT_SCHEME_MSB_0
            if start != end and (start < end) == falling:
                raise ValueError("Invalid bit range for MSB...LSB bit-field!")
        else:
'''),
], "C01 C02 C03 C04 C05 C06")
r("word-const", W, [
 ("class Word:\n", "_MAX = (1 << 48) - 1\n\n\ndef _check(value):\n    if not 0 <= value <= _MAX:\n        raise ValueError(\"Invalid value for 48-bit word!\")\n    return value\n\n\nclass Word:\n"),
 ('''        if data < 0 or data > (2 ** 48 - 1):
            raise ValueError("Invalid value for 48-bit word!")
        self.data = ''', '''        _check(data)
        self.data = '''),
 ('''        if value < 0 or value > (2 ** 48 - 1):
            raise ValueError("Invalid value for 48-bit word!")
        self.data.value = value
''', '''        self.data.value = _check(value)
'''),
], "C07 C08 C13 C14")
r("instr-listing", IS, [
 ('''            for i in range(2):
                for j in range(2):
                    for k in range(2):
                        for l in range(2):
                            opcodes[mnemonic].append(
                                make_unmasked_opcode(mnemonic, i, j, k, l))
''', '''            for bits in itertools.product((0, 1), repeat=4):
                opcodes[mnemonic].append(make_unmasked_opcode(mnemonic, *bits))
'''),
 ('''    opmap = {}
    for mnemonic in opcodes:
        opvals = sorted(opcodes[mnemonic])
        for opval in opvals:
            opmap[opval] = mnemonic
    for opval in sorted(opmap):
        print("0o%04o %s" % (opval, opmap[opval]))
''', '''    opmap = {opval: mnemonic for mnemonic, opvals in opcodes.items()
             for opval in opvals}
    print("\\n".join("0o{:04o} {}".format(*pair)
                    for pair in sorted(opmap.items())))
'''),
 ("def print_instructions():\n", "import itertools\n\n\ndef print_instructions():\n"),
], "C41 C11")
r("card-fields", PC, [
 ('''            for i, col in enumerate(fields):
                fstart = col
                if i == len(fields) - 1:
                    fwidth = width - col + 1
                else:
                    fwidth = fields[i+1] - col
                self._layout.append((fstart, fwidth))
            for s, w in self._layout:
                self._fields.append(self._line[s-1:s-1+w])
''', '''            ends = list(fields[1:]) + [width + 1]
            self._layout = [(a, b - a) for a, b in zip(fields, ends)]
            self._fields = [self._line[a - 1:a - 1 + n]
                            for a, n in self._layout]
'''),
 ('''                if field.strip() == "":
                    self._strippedFields.append(None)
                    self._record[fieldnames[i]] = None
                else:
                    self._strippedFields.append(field.strip())
                    self._record[fieldnames[i]] = field.strip()
''', '''                text = field.strip() or None
                self._strippedFields.append(text)
                self._record[fieldnames[i]] = text
'''),
 ('''        self._record = dict.fromkeys(fieldnames)
''', '''        self._record = {name: None for name in fieldnames}
'''),
], "C20 C21 C22 C23 C24")
r("deck-generator", PC, [
 ('''        for i, line in enumerate(lines):
            if line.startswith('#'):
                if self._verbose:
                    print(("Skipping meta-comment, file %s, line %d" %
                          (filename, i+1)))
                continue
            if line.startswith('$'):
                incname = line[1:].split()[0]
                if not os.path.isfile(incname):
                    sys.exit("File \\"%s\\" does not exist" % incname)
                if recurse:
                    icards = self._readSource(incname)
                    cards.extend(icards)
                else:
                    cards.append(self._cardclass(line, width=self._width,
                                                 fields=self._fields,
                                                 filename=filename,
                                                 linenum=i+1,
                                                 verbose=self._verbose))
            else:
                cards.append(self._cardclass(line, width=self._width,
                                             fields=self._fields,
                                             filename=filename,
                                             linenum=i+1,
                                             verbose=self._verbose))
        return cards
''', '''        return list(self._cardsOf(filename, lines, recurse))

    def _cardsOf(self, filename, lines, recurse):
        for linenum, line in enumerate(lines, 1):
            kind = line[:1]
            if kind == '#':
                if self._verbose:
                    print("Skipping meta-comment, file %s, line %d" %
                          (filename, linenum))
            elif kind == '$' and recurse:
                incname = line[1:].split()[0]
                if not os.path.isfile(incname):
                    sys.exit("File \\"%s\\" does not exist" % incname)
                yield from self._readSource(incname)
            else:
                if kind == '$':
                    incname = line[1:].split()[0]
                    if not os.path.isfile(incname):
                        sys.exit("File \\"%s\\" does not exist" % incname)
                yield self._cardclass(line, width=self._width,
                                      fields=self._fields, filename=filename,
                                      linenum=linenum, verbose=self._verbose)
'''),
 ('''        for card in self._cards:
            self._fields.append(card.fields)
            self._strippedFields.append(card.strippedFields)
            self._records.append(card.record)
''', '''        self._fields = [c.fields for c in self._cards]
        self._strippedFields = [c.strippedFields for c in self._cards]
        self._records = [c.record for c in self._cards]
'''),
 ('''        lines = []
        for card in self._cards:
            lines.append(str(card))
        return '\\n'.join(lines)
''', '''        return '\\n'.join(map(str, self._cards))
'''),
], "C23 C24 C25 C32 C39 C40")
r("argus-update", AC, [
 ('''        if self.column1 == 'P' or self.column1 == 'R' or self.column1 == 'L':
            self._record["label"] = None
            self._record["operation"] = None
            self._record["operand1"] = None
            self._record["operand2"] = None
            self._record["operand3"] = None
            self._record["misc"] = None
            self._record["remarks"] = self._line[8:].strip()
        if self.column1 == 'L':
            self._record["remarks"] = self._line[8:].strip()
        self._record["instruction"] = self._record["operation"]
        if self._record["operation"] and ',' in self._record["operation"]:
            self._record["instruction"] = \\
                self._record["operation"].split(',')[0].strip()
''', '''        if self.column1 in ('P', 'R', 'L'):
            self._record.update(dict.fromkeys(
                ("label", "operation", "operand1", "operand2", "operand3",
                 "misc")), remarks=self._line[8:].strip())
        operation = self._record["operation"]
        if operation:
            head, comma, _ = operation.partition(',')
            operation = head.strip() if comma else head
        self._record["instruction"] = operation
'''),
 ('''        for card in self._cards:
            if card.record["column1"] == 'L':
                # This will only recognise the first log section in a deck.
                self._logSection = card.line[8:81].strip()
                self._logSectionCol8 = card.record["column8"]
                break
''', '''        first = next((c for c in self._cards if c.column1 == 'L'), None)
        if first is not None:
            self._logSection = first.line[8:81].strip()
            self._logSectionCol8 = first.column8
'''),
], "C21 C22 C23 C25 C30 C33")
r("sym-queries", ST, [
 ('''        foundSimple = foundComplex = False
        for seg in sorted(symtab[symbol].keys()):
            for subseg in sorted(symtab[symbol][seg].keys()):
                if "simple" in symtab[symbol][seg][subseg].keys():
                    foundSimple = True
                if "complex" in symtab[symbol][seg][subseg].keys():
                    foundComplex = True
        if not foundSimple and (complexOnlyError and foundComplex):
            errSyms.append(symbol)
''', '''        kinds = {kind for subsegs in symtab[symbol].values()
                 for defs in subsegs.values() for kind in defs}
        if complexOnlyError and "complex" in kinds and "simple" not in kinds:
            errSyms.append(symbol)
'''),
 ('''    syms = []
    for symbol in sorted(symtab.keys()):
        found = False
        for seg in sorted(symtab[symbol].keys()):
            for subseg in sorted(symtab[symbol][seg].keys()):
                if "simple" in symtab[symbol][seg][subseg].keys():
                    syms.append(symbol)
                    found = True
                    break
            if found:
                break
    return syms
''', '''    return [symbol for symbol in sorted(symtab)
            if any("simple" in defs for seg in symtab[symbol].values()
                   for defs in seg.values())]
'''),
 ('''        if begin or end:
            for sym in symNames:
                if begin and sym.startswith(name):
                    matches.append(sym)
                if end and sym.endswith(name):
                    matches.append(sym)
            return matches
''', '''        if begin or end:
            tests = [t for on, t in ((begin, str.startswith), (end, str.endswith)) if on]
            return [sym for sym in symNames for t in tests if t(sym, name)]
'''),
], "C27 C35 C37 C28")
r("sym-entry", ST, [
 ('''        self._absoluteValue = self._complexValue = None
        self._symtype = symtype                    # Type of record
        if symtype == "absolute":
            self._absoluteValue = value      # Absolute value
        else:
            self._complexValue = value       # Complex value
''', '''        self._symtype = symtype
        absolute = symtype == "absolute"
        self._absoluteValue, self._complexValue = \\
            (value, None) if absolute else (None, value)
'''),
 ('''        for symbol in list(self._undefs):
            entry = self._symbols[symbol]
            if entry.isValid():
                print("Removing %s from undefined symbols list" % (symbol))
                self._undefs.remove(symbol)
''', '''        keep = []
        for symbol in self._undefs:
            if self._symbols[symbol].isValid():
                print("Removing %s from undefined symbols list" % (symbol))
            else:
                keep.append(symbol)
        self._undefs[:] = keep
'''),
 ('''        entry = None
        if name in self._symbols:
            entry = self._symbols[name]
        return entry
''', '''        return self._symbols.get(name)
'''),
], "C28")
r("sym-build", ST, [
 ('''            if tagName not in list(symtab.keys()):
                symtab[tagName] = {}
                symtab[tagName][seg] = {}
                symtab[tagName][seg][subseg] = {}
                symtab[tagName][seg][subseg][symtype] = symtabEntry
            elif seg not in symtab[tagName].keys():
                symtab[tagName][seg] = {}
                symtab[tagName][seg][subseg] = {}
                symtab[tagName][seg][subseg][symtype] = symtabEntry
            elif subseg not in symtab[tagName][seg].keys():
                symtab[tagName][seg][subseg] = {}
                symtab[tagName][seg][subseg][symtype] = symtabEntry
            else:
''', '''            place = symtab.get(tagName, {}).get(seg, {}).get(subseg)
            if place is None:
                for key in (tagName,):
                    symtab.setdefault(key, {}).setdefault(seg, {})[subseg] = \\
                        {symtype: symtabEntry}
            else:
'''),
 ('''            strLabel = card.label.strip().replace(' ', '')
''', '''            strLabel = "".join(card.label.strip().split(' '))
'''),
 ('''                tagPrefix = strLabel.split(',')[0]
                tagName = strLabel.split(',')[1]
''', '''                tagPrefix, tagName = strLabel.split(',')
'''),
], "C25 C26 C34 C35 C37 C39")
