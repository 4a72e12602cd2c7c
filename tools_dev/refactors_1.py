R = []
def r(name, path, edits, props):
    R.append((name, path, edits, props.split()))
BF = "h800/bitfield.py"
BFP = "C01 C02 C03 C04 C05 C06"
r("bf-vindex-comprehension", BF, [
 ("        indices = []\n        for i in range(0, self._width):\n            indices.append(self._vindex(i))\n        return indices\n",
  "        return [self._vindex(i) for i in range(self._width)]\n"),
 ("            return (self._value & bitmask) >> shift\n        else:\n            index = key",
  "            return (self._value >> shift) & (bitmask >> shift)\n        else:\n            index = key"),
], BFP)
r("bf-tables", BF, [
 ("""        if width is None:
            width = self._width
        if self._order == self.BIT_ORDER_MSB_LEFT:
            if self._numbering == self.BIT_SCHEME_LSB_0:
                return width - (index + 1)
            elif self._numbering == self.BIT_SCHEME_LSB_1:
                return width - index
            elif self._numbering == self.BIT_SCHEME_MSB_0:
                return index
            elif self._numbering == self.BIT_SCHEME_MSB_1:
                return index - 1
        else:
            if self._numbering == self.BIT_SCHEME_LSB_0:
                return index
            elif self._numbering == self.BIT_SCHEME_LSB_1:
                return index - 1
            elif self._numbering == self.BIT_SCHEME_MSB_0:
                return width - (index + 1)
            elif self._numbering == self.BIT_SCHEME_MSB_1:
                return width - index
""", """        width = self._width if width is None else width
        base = self._numbering % 2
        msbFirst = self._numbering >= self.BIT_SCHEME_MSB_0
        position = index - base
        if msbFirst != (self._order == self.BIT_ORDER_MSB_LEFT):
            position = width - 1 - position
        return position
"""),
 ("        shift = index\n        # print(\"BIT", "        shift = int(index)\n        # print(\"BIT"),
 ("        bitmask = (2 ** width - 1) << shift\n", "        bitmask = ((1 << width) - 1) << shift\n"),
 ("        if value < 0 or value >= 2 ** width:\n", "        if not 0 <= value < (1 << width):\n"),
 ("            newvalue = (self._value & (self.maxval - bitmask)) | \\\n                (value << shift)\n",
  "            newvalue = (self._value & ~bitmask) | (value << shift)\n"),
 ("            if value == 1:\n                newvalue = self._value | (value << shift)\n            else:\n                newvalue = self._value & (self.maxval - (1 << shift))\n",
  "            newvalue = self._value ^ ((((self._value >> shift) & 1) ^ value) << shift)\n"),
], BFP + " C07 C08 C16")
r("bf-loops", BF, [
 ("            return (self._value & bitmask) >> shift\n        else:\n            index = key",
  "            result = 0\n            for i in range(rend - rstart + 1):\n                result |= ((self._value >> (shift + i)) & 1) << i\n            return result\n        else:\n            index = key"),
 ("""        return '{{:{0}>{1}}}'.format(0,
                                     self._width).format(bin(self._value)[2:])
""", """        digits = []
        value = self._value
        for _ in range(self._width):
            digits.append(str(value & 1))
            value >>= 1
        return "".join(reversed(digits))
"""),
], BFP)
r("bf-format", BF, [
 ("""        return '{{:{0}>{1}}}'.format(0,
                                     self._width).format(bin(self._value)[2:])
""", """        return f"{self._value:b}".zfill(self._width)
"""),
 ("            raise ValueError(\"Invalid index for %d-bit bit-field!\" %\n                             self._width)",
  "            raise ValueError(f\"Invalid index for {self._width}-bit bit-field!\")"),
 ("        return self.__getitem__(index) == value\n", "        return self[index] == value\n"),
 ("        return not self.isBitSet(index)\n", "        return self.isBit(index, 0)\n"),
], BFP)
W = "h800/word.py"
r("word-groups", W, [
 ("        self.data[1:12] = self._command = command   # Command code.\n        self.data[13:24] = self._a = a              # A address group.\n        self.data[25:36] = self._b = b              # B address group.\n        self.data[37:48] = self._c = c              # C address group.\n",
  "        for (lo, hi), group in zip(((1, 12), (13, 24), (25, 36), (37, 48)),\n                                   (command, a, b, c)):\n            self.data[lo:hi] = group\n"),
 ("        self._command = self.data[1:12] = value\n", "        self.data[1:12] = value\n"),
 ("        self._a = self.data[13:24] = value\n", "        setattr(self, '_a', value)\n        self.data[slice(13, 24)] = value\n"),
 ("        if value < 0 or value > (2 ** 48 - 1):\n            raise ValueError(\"Invalid value for 48-bit word!\")\n        self.data.value = value\n",
  "        self._check(value)\n        self.data.value = value\n\n    @staticmethod\n    def _check(value):\n        if not 0 <= value <= 0xffffffffffff:\n            raise ValueError(\"Invalid value for 48-bit word!\")\n"),
], "C07 C08 C13")
M = "h800/memory.py"
r("mem-list", M, [
 ("        self._data = {}\n        for addr in range(self.BANK_SIZE):\n            self._data[addr] = Word(0)\n",
  "        self._data = {addr: Word() for addr in range(self.BANK_SIZE)}\n"),
 ("            values = []\n            for i in range(key.start, key.stop):\n                values.append(self._data[i].value)\n            return values\n        else:\n            return self._data[key].value\n",
  "            return [self._data[i].value for i in range(key.start, key.stop)]\n        return self._data[key].value\n"),
 ("            for i in range(key.start, key.stop):\n                self._data[i].value = value\n        else:\n            self._data[key].value = value\n",
  "            addresses = range(key.start, key.stop)\n        else:\n            addresses = (key,)\n        for address in addresses:\n            self._data[address].value = value\n"),
 ("        return iter(self._data.values())\n", "        for addr in sorted(self._data):\n            yield self._data[addr]\n"),
 ("        for addr in self._data:\n            self._data[addr].value = 0\n", "        for word in self._data.values():\n            word.value = 0\n"),
], "C13 C14 C15 C19")
r("mem-while", M, [
 ("            for i in range(key.start, key.stop):\n                self._data[i].value = value\n",
  "            i = key.start\n            while i < key.stop:\n                self._data[i].value = value\n                i += 1\n"),
 ("        self._data = {}\n        for b in range(self.NUM_BANKS):\n            self._data[b] = MemoryBank()\n",
  "        self._data = dict((b, MemoryBank()) for b in range(self.NUM_BANKS))\n"),
 ("        return self.NUM_BANKS * len(self._data[0])\n", "        return sum(len(bank) for bank in self._data.values())\n"),
], "C13 C14 C15 C19")
G = "h800/registers.py"
r("reg-maps", G, [
 ("    for name in REGISTERS:\n        if REGISTERS[name] == number:\n            return name\n    raise ValueError(\"Invalid register number %d!\" % number)\n\n\ndef registerAlias",
  "    names = {num: name for name, num in REGISTERS.items()}\n    if number not in names:\n        raise ValueError(\"Invalid register number %d!\" % number)\n    return names[number]\n\n\ndef registerAlias"),
 ("    for name in ALIASES:\n        if ALIASES[name] == number:\n            return name\n    for name in REGISTERS:\n        if REGISTERS[name] == number:\n            return name\n    raise ValueError(\"Invalid register number %d!\" % number)\n",
  "    for table in (ALIASES, REGISTERS):\n        for name, num in table.items():\n            if num == number:\n                return name\n    raise ValueError(f\"Invalid register number {number}!\")\n"),
 ("    if name in REGISTERS:\n        return REGISTERS[name]\n    if name in ALIASES:\n        return ALIASES[name]\n    raise ValueError(\"Invalid register name %s!\" % name)\n",
  "    number = REGISTERS.get(name, ALIASES.get(name))\n    if number is None:\n        raise ValueError(\"Invalid register name %s!\" % name)\n    return number\n"),
 ("        if isinstance(key, str):\n            if key not in REGISTERS:\n                raise ValueError(\"Invalid register name %s!\" % key)\n            return self._registers[REGISTERS[key]]\n        else:\n            if key < 0 or key >= len(REGISTERS):\n                raise ValueError(\"Invalid register number %d!\" % key)\n            return self._registers[key]\n",
  "        return self._registers[self._number(key)]\n\n    @staticmethod\n    def _number(key):\n        if isinstance(key, str):\n            try:\n                return REGISTERS[key]\n            except KeyError:\n                raise ValueError(\"Invalid register name %s!\" % key)\n        if not 0 <= key < len(REGISTERS):\n            raise ValueError(\"Invalid register number %d!\" % key)\n        return key\n"),
 ("            self._registers[REGISTERS[regname]] = \\\n                Register(name=regname, width=width)\n", "            number = REGISTERS[regname]\n            self._registers[number] = Register(0, regname, width)\n"),
], "C16 C17 C18 C19")
I = "h800/instruction.py"
r("instr-arith", I, [
 ("        if self._a is not None:\n            # print(\"*** a: %d\" % 1 if self._a else 0)\n            self.data[4] = 1 if self._a else 0\n",
  "        for bit, flag in ((4, self._a), (5, self._b), (6, self._c)):\n            if flag is not None:\n                self.data[bit] = int(bool(flag))\n"),
 ("        if b is not None:\n            # print(\"*** b: %d\" % 1 if self._b else 0)\n            self.data[5] = 1 if self._b else 0\n", ""),
 ("        if c is not None:\n            # print(\"*** c: %d\" % 1 if self._c else 0)\n            self.data[6] = 1 if self._c else 0\n", ""),
 ("        if self._a is not None:\n            if self._a not in (0, 1, True, False):\n                raise ValueError(\"A must be boolean!\")\n        if self._b is not None:\n            if self._b not in (0, 1, True, False):\n                raise ValueError(\"B must be boolean!\")\n        if self._c is not None:\n            if self._c not in (0, 1, True, False):\n                raise ValueError(\"C must be boolean!\")\n",
  "        for name in \"abc\":\n            flag = getattr(self, \"_\" + name)\n            if flag is not None and flag not in (0, 1):\n                raise ValueError(\"%s must be boolean!\" % name.upper())\n"),
 ("            if self._a is not None or self._b is not None or \\\n                    self._c is not None or self._paddr is not None:\n                raise ValueError(\"Cannot specify A, B, C, or peripheral \"\n                                 \"address with mask!\")\n",
  "            if any(x is not None for x in (self._a, self._b, self._c,\n                                           self._paddr)):\n                raise ValueError(\"Cannot specify A, B, C, or peripheral \"\n                                 \"address with mask!\")\n"),
 ("            if self._mask < 0 or self._mask > 31:", "            if self._mask not in range(32):"),
], "C09 C10 C11 C12")
IS = "h800/instructions.py"
r("opcodes-shift", IS, [
 ("    return ((0o4000 * sequence) + (0o100 * mask) + (0o40 * o.b7) + o.op)\n", "    return sequence << 11 | mask << 6 | o.b7 << 5 | o.op\n"),
 ("    return ((0o4000 * sequence) + (0o1000 * o.b23) + (0o400 * a) +\n            (0o200 * b) + (0o100 * c) + o.op)\n",
  "    code = sequence\n    for bits, field in ((2, o.b23), (1, a), (1, b), (1, c), (6, o.op)):\n        code = (code << bits) | field\n    return code\n"),
 ("    return ((0o100 * paddr) + (0o40 * o.b7) + o.op)\n", "    return sum((paddr * 64, o.b7 * 32, o.op))\n"),
], "C09 C11 C12")
PC = "h800/punchcard.py"
PCP = "C20 C21 C22 C23 C24 C25"
r("card-zip", PC, [
 ("            for i, col in enumerate(fields):\n                fstart = col\n                if i == len(fields) - 1:\n                    fwidth = width - col + 1\n                else:\n                    fwidth = fields[i+1] - col\n                self._layout.append((fstart, fwidth))\n            for s, w in self._layout:\n                self._fields.append(self._line[s-1:s-1+w])\n",
  "            ends = list(fields[1:]) + [width + 1]\n            self._layout = [(s, e - s) for s, e in zip(fields, ends)]\n            self._fields = [self._line[s - 1:][:w] for s, w in self._layout]\n"),
 ("            for i, field in enumerate(self._fields):\n                if field.strip() == \"\":\n                    self._strippedFields.append(None)\n                    self._record[fieldnames[i]] = None\n                else:\n                    self._strippedFields.append(field.strip())\n                    self._record[fieldnames[i]] = field.strip()\n",
  "            self._strippedFields = [f.strip() or None for f in self._fields]\n            self._record.update(zip(fieldnames, self._strippedFields))\n"),
], PCP)
r("card-helper", PC, [
 ("                if field.strip() == \"\":\n                    self._strippedFields.append(None)\n                    self._record[fieldnames[i]] = None\n                else:\n                    self._strippedFields.append(field.strip())\n                    self._record[fieldnames[i]] = field.strip()\n",
  "                text = self._clean(field)\n                self._strippedFields.append(text)\n                self._record[fieldnames[i]] = text\n\n    @staticmethod\n    def _clean(field):\n        text = field.strip()\n        return text if len(text) > 0 else None\n"),
 ("        self._line = line.replace('\\n', '')\n", "        self._line = ''.join(line.split('\\n'))\n"),
 ("        self._comment = line.startswith('#')\n", "        self._comment = line[:1] == '#'\n"),
], PCP)
r("deck-helper", PC, [
 ("                incname = line[1:].split()[0]\n", "                incname, *_ = line[1:].split()\n"),
 ("                    icards = self._readSource(incname)\n                    cards.extend(icards)\n", "                    cards += self._readSource(incname)\n"),
 ("        for card in self._cards:\n            self._fields.append(card.fields)\n            self._strippedFields.append(card.strippedFields)\n            self._records.append(card.record)\n",
  "        self._fields = [card.fields for card in self._cards]\n        self._strippedFields = [c.strippedFields for c in self._cards]\n        self._records = list(map(lambda card: card.record, self._cards))\n"),
 ("        for i, line in enumerate(lines):\n            if line.startswith('#'):\n                if self._verbose:\n                    print((\"Skipping meta-comment, file %s, line %d\" %\n                          (filename, i+1)))\n                continue\n            if line.startswith('$'):",
  "        i = -1\n        for line in lines:\n            i += 1\n            first = line[0]\n            if first == '#':\n                if self._verbose:\n                    print(\"Skipping meta-comment, file %s, line %d\" %\n                          (filename, i+1))\n                continue\n            if first == '$':"),
], PCP)
AC = "h800/arguscard.py"
r("argus-loop", AC, [
 ("        if self.column1 == 'P' or self.column1 == 'R' or self.column1 == 'L':\n            self._record[\"label\"] = None\n            self._record[\"operation\"] = None\n            self._record[\"operand1\"] = None\n            self._record[\"operand2\"] = None\n            self._record[\"operand3\"] = None\n            self._record[\"misc\"] = None\n            self._record[\"remarks\"] = self._line[8:].strip()\n        if self.column1 == 'L':\n            self._record[\"remarks\"] = self._line[8:].strip()\n",
  "        if self.column1 in ('P', 'R', 'L'):\n            for name in (\"label\", \"operation\", \"operand1\", \"operand2\",\n                         \"operand3\", \"misc\"):\n                self._record[name] = None\n            self._record[\"remarks\"] = self._line[8:].strip()\n"),
 ("        self._record[\"instruction\"] = self._record[\"operation\"]\n        if self._record[\"operation\"] and ',' in self._record[\"operation\"]:\n            self._record[\"instruction\"] = \\\n                self._record[\"operation\"].split(',')[0].strip()\n",
  "        operation = self._record[\"operation\"]\n        if operation:\n            operation = operation.partition(',')[0].strip()\n        self._record[\"instruction\"] = operation\n"),
 ("        for card in self._cards:\n            if card.record[\"column1\"] == 'L':\n                # This will only recognise the first log section in a deck.\n                self._logSection = card.line[8:81].strip()\n                self._logSectionCol8 = card.record[\"column8\"]\n                break\n",
  "        logcard = next((c for c in self._cards if c.column1 == 'L'), None)\n        if logcard is not None:\n            self._logSection = logcard.line[8:81].strip()\n            self._logSectionCol8 = logcard.column8\n"),
], "C22 C23 C25 C30")
ST = "h800/symbol_table.py"
STP = "C25 C26 C27 C28"
r("sym-setdefault", ST, [
 ("            if tagName not in list(symtab.keys()):\n                symtab[tagName] = {}\n                symtab[tagName][seg] = {}\n                symtab[tagName][seg][subseg] = {}\n                symtab[tagName][seg][subseg][symtype] = symtabEntry\n            elif seg not in symtab[tagName].keys():\n                symtab[tagName][seg] = {}\n                symtab[tagName][seg][subseg] = {}\n                symtab[tagName][seg][subseg][symtype] = symtabEntry\n            elif subseg not in symtab[tagName][seg].keys():\n                symtab[tagName][seg][subseg] = {}\n                symtab[tagName][seg][subseg][symtype] = symtabEntry\n            else:\n                prevdef = symtab[tagName][seg][subseg]\n",
  "            prevdef = symtab.setdefault(tagName, {}).setdefault(\n                seg, {}).setdefault(subseg, {})\n            if True:\n"),
 ("                tagPrefix = strLabel.split(',')[0]\n                tagName = strLabel.split(',')[1]\n", "                tagPrefix, tagName = strLabel.split(',')\n"),
 ("            strLabel = card.label.strip().replace(' ', '')\n", "            strLabel = ''.join(card.label.strip().split(' '))\n"),
 ("        found = False\n        for seg in sorted(symtab[symbol].keys()):\n            for subseg in sorted(symtab[symbol][seg].keys()):\n                if \"simple\" in symtab[symbol][seg][subseg].keys():\n                    syms.append(symbol)\n                    found = True\n                    break\n            if found:\n                break\n",
  "        if any(\"simple\" in types for subsegs in symtab[symbol].values()\n               for types in subsegs.values()):\n            syms.append(symbol)\n"),
 ("            for sym in symNames:\n                if begin and sym.startswith(name):\n                    matches.append(sym)\n                if end and sym.endswith(name):\n                    matches.append(sym)\n            return matches\n",
  "            if not (begin and end):\n                test = str.startswith if begin else str.endswith\n                return [s for s in symNames if test(s, name)]\n            for sym in symNames:\n                if begin and sym.startswith(name):\n                    matches.append(sym)\n                if end and sym.endswith(name):\n                    matches.append(sym)\n            return matches\n"),
 ("        for symbol in list(self._undefs):\n            entry = self._symbols[symbol]\n            if entry.isValid():\n                print(\"Removing %s from undefined symbols list\" % (symbol))\n                self._undefs.remove(symbol)\n",
  "        keep = []\n        for symbol in self._undefs:\n            if self._symbols[symbol].isValid():\n                print(\"Removing %s from undefined symbols list\" % (symbol))\n            else:\n                keep.append(symbol)\n        self._undefs[:] = keep\n"),
], STP)
r("sym-helper", ST, [
 ("                    if command == \"EQUALS\":\n                        prevcard = prevdef[symtype][\"card\"]\n                        if prevcard.operation == \"EQUALS\":\n                            if card.addressa == prevcard.addressa and \\\n                                    card.addressb == prevcard.addressb \\\n                                    and card.addressc == prevcard.addressc:\n                                # Equivalent assignment, ignore.\n                                continue\n",
  "                    prevcard = prevdef[symtype][\"card\"]\n                    if command == prevcard.operation == \"EQUALS\" and \\\n                            _operands(card) == _operands(prevcard):\n                        continue\n"),
 ("def checkSymbolTable(", "def _operands(card):\n    return (card.addressa, card.addressb, card.addressc)\n\n\ndef checkSymbolTable("),
 ("            if ',' in command:\n                subseg = command.split(',')[1].strip()\n            else:\n                subseg = \"0\"\n",
  "            parts = command.split(',')\n            subseg = parts[1].strip() if len(parts) > 1 else \"0\"\n"),
 ("            if strLabel.upper() != strLabel:\n", "            if any(ch.islower() for ch in strLabel):\n"),
], STP)
r("genlines-fmt", "tools/genlines.py", [
 ("""    for i in range(start, end+1, step):
        print("%s%s%s" % ((startcol - 1) * ' ',
                          "{num:{fill}{width}}".format(num=i, fill='0',
                                                       width=width),
                          (endcol + 2 - startcol - width) * ' '))
""", """    i = start
    while i <= end:
        number = str(i).zfill(width)
        line = ' ' * (startcol - 1) + number
        print(line.ljust(endcol + 1))
        i += step
"""),
], "C29")
r("genlines-fstr", "tools/genlines.py", [
 ("""        print("%s%s%s" % ((startcol - 1) * ' ',
                          "{num:{fill}{width}}".format(num=i, fill='0',
                                                       width=width),
                          (endcol + 2 - startcol - width) * ' '))
""", """        print(_line(i, width, startcol, endcol))
"""),
 ("def main():\n", "def _line(num, width, startcol, endcol):\n    return f\"{' ' * (startcol - 1)}{num:0{width}d}\" + \\\n        ' ' * (endcol + 2 - startcol - width)\n\n\ndef main():\n"),
 ("    minwidth = 4\n    width = numdigits\n    if width < minwidth:\n        width = minwidth\n    if width < ndigits:\n        width = ndigits\n", "    width = max(4, numdigits, ndigits)\n"),
], "C29")
r("genlines-pct", "tools/genlines.py", [
 ("""        print("%s%s%s" % ((startcol - 1) * ' ',
                          "{num:{fill}{width}}".format(num=i, fill='0',
                                                       width=width),
                          (endcol + 2 - startcol - width) * ' '))
""", """        sys.stdout.write("".rjust(startcol - 1) + "%0*d" % (width, i) + " " * (endcol + 2 - startcol - width) + "\\n")
"""),
], "C29")
r("tools-set", "tools/check-instructions.py", [
 ("    instrtab = {}\n    for instruction in h800.instructions.INSTRUCTIONS:\n        instrtab[instruction] = 0\n", "    instrtab = dict.fromkeys(h800.instructions.INSTRUCTIONS, 0)\n"),
 ("                if card.instruction not in list(instrtab.keys()):\n                    print(\"*** ERROR: Invalid instruction \\\"%s\\\":\" %\n                          card.instruction)\n                    print(\"File %s, line %d: %s\" %\n                          (card.filename, card.linenum, card.line))\n",
  "                if card.instruction not in instrtab:\n                    print(f'*** ERROR: Invalid instruction \"{card.instruction}\":\\nFile {card.filename}, line {card.linenum}: {card.line}')\n"),
 ("tools/list-instructions.py", "                if ',' in instruction and ',' not in opcode:\n                    instruction = instruction.split(',')[0]\n", "                if ',' not in opcode:\n                    instruction = instruction.partition(',')[0]\n"),
 ("tools/parse.py", "                if card.instruction not in h800.instructions.INSTRUCTIONS:", "                if not card.instruction in set(h800.instructions.INSTRUCTIONS):"),
 ("tools/parse.py", "    if errcount == 1:\n        print(\"1 error encountered.\")\n    else:\n        print(\"%d errors encountered.\" % errcount)\n", "    print(\"%d error%s encountered.\" % (errcount, \"\" if errcount == 1 else \"s\"))\n"),
], "C30")
r("charset-build", "h800/charset.py", [
 ("CHARSET = {", "_TABLE = {"),
 ("h800/charset.py", "_TABLE = {", "_TABLE = {"),
], "")
