From 09508aebf033af1806a0a1e03bda0a44ac419f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:18:52 +0000
Subject: [PATCH 01/22] fix: bit-fields reject negative values and 2**width

---
 h800/bitfield.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index a4af429..452f4e7 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -110,8 +110,8 @@ class BitField:
             raise ValueError("Width is greater than maximum allowed!")
         self._maxval = 2 ** width - 1
         self._value = value
-        if self._value > self._maxval:
-            raise ValueError("Value is greater than maximum allowed by "
+        if self._value < 0 or self._value > self._maxval:
+            raise ValueError("Value is outside the range allowed by "
                              "bit-field width!")
         self._numbering = numbering
         if numbering not in (self.BIT_SCHEME_LSB_0, self.BIT_SCHEME_LSB_1,
@@ -315,8 +315,8 @@ class BitField:
             width = self.width
         if width < 0 or width > self.maxval:
             raise ValueError("Illegal bit-field width %d!" % self.width)
-        if value > 2 ** width:
-            raise ValueError("Value is greater than allowed for %d-bit field!"
+        if value < 0 or value >= 2 ** width:
+            raise ValueError("Value is outside the range of a %d-bit field!"
                              % width)
 
     def _bitmask(self, start, end):
-- 
2.43.0


From 412cdcf24211cda9c8ea82a2a2f46d11ab8e594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:18:54 +0000
Subject: [PATCH 02/22] fix: range masks of LSB-left bit-fields start at the
 range's LSB

---
 h800/bitfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index 452f4e7..ffe877b 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -326,7 +326,7 @@ class BitField:
         if width == self._width:
             shift = 0
         else:
-            shift = self._shift(rend)
+            shift = self._shift(self._lsbIndex(rstart, rend))
         bitmask = (2 ** width - 1) << shift
         # print("BM: %d:%d | %d:%d | S=%d | B=0x%x" %
         #       (start, end, rstart, rend, shift, bitmask))
-- 
2.43.0


From af81576d936f1f6bb98f7f6ca3aa60b0f4beaf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:18:55 +0000
Subject: [PATCH 03/22] fix: BitField.set/clear treat bit number 0 as a bit,
 not as 'all bits'

---
 h800/bitfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index ffe877b..b08d4d6 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -410,7 +410,7 @@ class BitField:
 
     def set(self, index=None):
         "Set the specified bit (or all bits if not specified) to 1."
-        if index:
+        if index is not None:
             self._checkIndex(index)
             self.__setitem__(index, 1)
         else:
@@ -418,7 +418,7 @@ class BitField:
 
     def clear(self, index=None):
         "Set the specified bit (or all bits if not specified) to 0."
-        if index:
+        if index is not None:
             self._checkIndex(index)
             self.__setitem__(index, 0)
         else:
-- 
2.43.0


From 1cfb89340b219e595ff5d561ec623039bd641c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:18:57 +0000
Subject: [PATCH 04/22] fix: range predicates compare all bits of the range

---
 h800/bitfield.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index b08d4d6..a93ab96 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -447,7 +447,8 @@ class BitField:
         if value == 0:
             return True if subfield == 0 else False
         else:
-            setval = int(bitmask)
+            setval = bitmask >> self._shift(self._lsbIndex(
+                *self._getRange(start, end)))
             return True if subfield == setval else False
 
     def isRangeSet(self, start, end):
@@ -456,4 +457,4 @@ class BitField:
 
     def isRangeClr(self, start, end):
         "Return True if the specified range of bits are all 0."
-        return not self.isRangeSet(start, end)
+        return self.isRange(start, end, 0)
-- 
2.43.0


From 8bc944372540fbfed1395290ef26844b25f8298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:18:58 +0000
Subject: [PATCH 05/22] fix: replacing a register or register group stores it
 under its number

---
 h800/registers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/h800/registers.py b/h800/registers.py
index cf8aa3e..19165d7 100755
--- a/h800/registers.py
+++ b/h800/registers.py
@@ -167,9 +167,13 @@ class RegisterGroup:
         if isinstance(key, slice):
             raise ValueError("Slices not supported!")
         if isinstance(key, str):
-            self._registers[key] = value
-        else:
+            if key not in REGISTERS:
+                raise ValueError("Invalid register name %s!" % key)
             self._registers[REGISTERS[key]] = value
+        else:
+            if key < 0 or key >= len(REGISTERS):
+                raise ValueError("Invalid register number %d!" % key)
+            self._registers[key] = value
 
     def __len__(self):
         return len(self._registers)
@@ -227,6 +231,8 @@ class Registers:
         if not isinstance(key, int):
             raise ValueError("Invalid register group number %s!" % key)
         else:
+            if key < 0 or key >= self._NUM_GROUPS:
+                raise ValueError("Invalid register group number %d!" % key)
             self._registers[key] = value
 
     def __len__(self):
-- 
2.43.0


From fa708b3bac0bf7f8dfff67ecf18ef26019f10050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:24 +0000
Subject: [PATCH 06/22] fix: every iteration over a register group starts at
 the first register

---
 h800/registers.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/h800/registers.py b/h800/registers.py
index 19165d7..1bd2f7b 100755
--- a/h800/registers.py
+++ b/h800/registers.py
@@ -145,7 +145,6 @@ class RegisterGroup:
         for regname in REGISTERS:
             self._registers[REGISTERS[regname]] = \
                 Register(name=regname, width=width)
-        self._current = 0
 
     @property
     def width(self):
@@ -179,14 +178,7 @@ class RegisterGroup:
         return len(self._registers)
 
     def __iter__(self):
-        return self
-
-    def __next__(self):
-        if self._current >= len(REGISTERS):
-            raise StopIteration
-        else:
-            self._current += 1
-            return self._registers[self._current - 1]
+        return iter(self._registers.values())
 
     def __repr__(self):
         text = ""
-- 
2.43.0


From 4d58464f946f0e37f9018d18d35e3b85883c601d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:26 +0000
Subject: [PATCH 07/22] fix: clearing registers works whatever was iterated
 before

---
 h800/registers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/registers.py b/h800/registers.py
index 1bd2f7b..9caf886 100755
--- a/h800/registers.py
+++ b/h800/registers.py
@@ -187,7 +187,7 @@ class RegisterGroup:
         return text
 
     def clear(self):
-        for register in self:
+        for register in self._registers.values():
             register.clear()
 
 
@@ -247,5 +247,5 @@ class Registers:
         return text
 
     def clear(self):
-        for group in self:
+        for group in self._registers.values():
             group.clear()
-- 
2.43.0


From dc496ef95f084d0b6fb9885e54a57b7551513886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:27 +0000
Subject: [PATCH 08/22] fix: every iteration over a memory bank starts at
 address 0

---
 h800/memory.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/h800/memory.py b/h800/memory.py
index ee4fe3e..c20226a 100755
--- a/h800/memory.py
+++ b/h800/memory.py
@@ -15,7 +15,6 @@ class MemoryBank:
         for addr in range(self.BANK_SIZE):
             self._data[addr] = Word(0)
         self._width = self.MEMORY_WIDTH
-        self._current = 0
 
     def _checkValue(self, value):
         if value < 0 or value > (2 ** self._width - 1):
@@ -64,14 +63,7 @@ class MemoryBank:
         return len(self._data)
 
     def __iter__(self):
-        return self
-
-    def __next__(self):
-        if self._current >= len(self._data):
-            raise StopIteration
-        else:
-            self._current += 1
-            return self._data[self._current - 1]
+        return iter(self._data.values())
 
     def __repr__(self):
         text = ""
-- 
2.43.0


From 0879a14620974927d339d545a3bd32846dbe1d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:29 +0000
Subject: [PATCH 09/22] fix: remarks of P, R and L cards start in column 9

---
 h800/arguscard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/arguscard.py b/h800/arguscard.py
index a1e19c0..33e61e9 100755
--- a/h800/arguscard.py
+++ b/h800/arguscard.py
@@ -41,9 +41,9 @@ class Card(punchcard.PunchCard):
             self._record["operand2"] = None
             self._record["operand3"] = None
             self._record["misc"] = None
-            self._record["remarks"] = self._line[9:].strip()
+            self._record["remarks"] = self._line[8:].strip()
         if self.column1 == 'L':
-            self._record["remarks"] = self._line[9:].strip()
+            self._record["remarks"] = self._line[8:].strip()
         self._record["instruction"] = self._record["operation"]
         if self._record["operation"] and ',' in self._record["operation"]:
             self._record["instruction"] = \
-- 
2.43.0


From a4ca12690ac1bd82a22959f63e82938bc2cfe50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:30 +0000
Subject: [PATCH 10/22] fix: card fields do not contain the line's newline

---
 h800/punchcard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/punchcard.py b/h800/punchcard.py
index 06cf50e..4336429 100755
--- a/h800/punchcard.py
+++ b/h800/punchcard.py
@@ -65,7 +65,7 @@ class PunchCard:
                 self._layout.append((fstart, fwidth))
             self._fields = []
             for s, w in self._layout:
-                self._fields.append(line[s-1:s-1+w])
+                self._fields.append(self._line[s-1:s-1+w])
             self._strippedFields = []
             self._record = {}
             if linenum != 0:
-- 
2.43.0


From 0ebf761027d524b84f915482deb0da0d73065da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:31 +0000
Subject: [PATCH 11/22] fix: comment cards have empty fields and record instead
 of raising AttributeError

---
 h800/punchcard.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/h800/punchcard.py b/h800/punchcard.py
index 4336429..b649336 100755
--- a/h800/punchcard.py
+++ b/h800/punchcard.py
@@ -55,6 +55,9 @@ class PunchCard:
         self._linenum = linenum
         self._verbose = verbose
         self._comment = line.startswith('#')
+        self._fields = []
+        self._strippedFields = []
+        self._record = dict.fromkeys(fieldnames)
         if not self._comment:
             for i, col in enumerate(fields):
                 fstart = col
@@ -63,11 +66,8 @@ class PunchCard:
                 else:
                     fwidth = fields[i+1] - col
                 self._layout.append((fstart, fwidth))
-            self._fields = []
             for s, w in self._layout:
                 self._fields.append(self._line[s-1:s-1+w])
-            self._strippedFields = []
-            self._record = {}
             if linenum != 0:
                 self._record["linenum"] = linenum
             for i, field in enumerate(self._fields):
-- 
2.43.0


From c8ee848c62cc8b57e4b8b25eef0a48927e68c933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:33 +0000
Subject: [PATCH 12/22] fix: detect multiply-defined symbols within a
 subsegment

---
 h800/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 631e9bc..44b28ef 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -277,7 +277,7 @@ def buildSymbolTable(filename, symtab, verbose=False):
                 symtab[tagName][seg][subseg] = {}
                 symtab[tagName][seg][subseg][symtype] = symtabEntry
             else:
-                prevdef = symtab[tagName]
+                prevdef = symtab[tagName][seg][subseg]
                 if symtype not in prevdef.keys():
                     symtab[tagName][seg][subseg][symtype] = symtabEntry
                 else:
-- 
2.43.0


From 9a974e15ad05b220bc922b28536a223032488a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:35 +0000
Subject: [PATCH 13/22] fix: list each absolute symbol once, in any segment

---
 h800/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 44b28ef..baff2d9 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -323,8 +323,8 @@ def checkSymbolTable(symtab, verbose=False, complexOnlyError=False):
 def getAbsoluteSymbols(symtab):
     """Return a list of the symbols that have absolute definitions."""
     syms = []
-    found = False
     for symbol in sorted(symtab.keys()):
+        found = False
         for seg in sorted(symtab[symbol].keys()):
             for subseg in sorted(symtab[symbol][seg].keys()):
                 if "simple" in symtab[symbol][seg][subseg].keys():
-- 
2.43.0


From aab5077a8e58e28375e627685c2ddaa823257fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:36 +0000
Subject: [PATCH 14/22] fix: symbol table entries report their value and can be
 updated

---
 h800/symbol_table.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index baff2d9..f7f75a0 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -14,12 +14,7 @@ class SymbolTableEntry:
     def __init__(self, name, value=None, symtype=None, file=None, line=0,
                  segment=None, subsegment=None):
         self._name = name                    # Symbol name
-        self._absoluteValue = self._complexValue = None
-        self._symtype = symtype                    # Type of record
-        if symtype == "absolute":
-            self._absoluteValue = value      # Absolute value
-        else:
-            self._complexValue = value       # Complex value
+        self.setValue(value, symtype)
         self._file = file
         self._line = line
         self._segment = segment
@@ -32,7 +27,9 @@ class SymbolTableEntry:
 
     @property
     def value(self):
-        return self._value
+        if self.isAbsolute():
+            return self._absoluteValue
+        return self._complexValue
 
     @property
     def references(self):
@@ -67,6 +64,14 @@ class SymbolTableEntry:
     def isMultiple(self):
         return self.isAbsolute() and self.isComplex()
 
+    def setValue(self, value, symtype=None):
+        self._absoluteValue = self._complexValue = None
+        self._symtype = symtype                    # Type of record
+        if symtype == "absolute":
+            self._absoluteValue = value      # Absolute value
+        else:
+            self._complexValue = value       # Complex value
+
     def addReference(self, ref):
         self._references.append(ref)
 
@@ -100,12 +105,9 @@ class SymbolTable:
     def update(self, name, value=None, symtype=None):
         if name:
             if name not in list(self._symbols.keys()):
-                self.context.error("symbol \"%s\" not defined!" % (name))
+                print("ERROR: Symbol \"%s\" not defined!" % (name))
             else:
-                entry = self._symbols[name]
-                entry.value = value
-                entry.type = symtype
-                self._symbols[name] = entry
+                self._symbols[name].setValue(value, symtype)
 
     def resolve(self, maxPasses=10):
         nPrevUndefs = nUndefs = len(self._undefs)
-- 
2.43.0


From 3821513017a9d36d30fa282120ade1cbbde07add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:37 +0000
Subject: [PATCH 15/22] fix: pruning undefined symbols does not skip entries

---
 h800/symbol_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index f7f75a0..2633b2a 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -131,11 +131,11 @@ class SymbolTable:
         # Prune the undefs list.
         numUndefs = len(self._undefs)
         print("Pruning undefined symbols list (%d undefs)" % numUndefs)
-        for i, symbol in enumerate(self._undefs):
+        for symbol in list(self._undefs):
             entry = self._symbols[symbol]
             if entry.isValid():
                 print("Removing %s from undefined symbols list" % (symbol))
-                del self._undefs[i]
+                self._undefs.remove(symbol)
         print("Removed %d symbols from undef list" %
               (numUndefs - len(self._undefs)))
 
-- 
2.43.0


From ad88d0653a3484b372a8e4a7428d0f019f7d07fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:59 +0000
Subject: [PATCH 16/22] fix: genlines does not number past the end number

---
 tools/genlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/genlines.py b/tools/genlines.py
index c530463..4b290ed 100755
--- a/tools/genlines.py
+++ b/tools/genlines.py
@@ -69,7 +69,7 @@ def main():
     if len(args) >= 5:
         endcol = int(args[4])
 
-    for i in range(start, end+step, step):
+    for i in range(start, end+1, step):
         print("%s%s%s" % ((startcol - 1) * ' ',
                           "{num:{fill}{width}}".format(num=i, fill='0',
                                                        width=width),
-- 
2.43.0


From 0764f35b3121d7a5399f06ddede72db4d707e2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:01 +0000
Subject: [PATCH 17/22] fix: opcode table names the class that encodes TS

---
 h800/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/instructions.py b/h800/instructions.py
index 06c3f07..361eaab 100755
--- a/h800/instructions.py
+++ b/h800/instructions.py
@@ -173,7 +173,7 @@ OPCODES = {
     "TX":   Opcode("TX", "Transfer",
                    0b10, 0b1, 0o20, "maskable"),
 
-    "TS":   Opcode("TS", "TransferAndChangeSequence",
+    "TS":   Opcode("TS", "TransferChangeSequence",
                    0b10, 0b1, 0o04, "maskable"),
 
     "HA":   Opcode("HA", "HalfAdd",
-- 
2.43.0


From efdd7aa218c8d975a6cf55f3931589816fd30f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:02 +0000
Subject: [PATCH 18/22] fix: parse counts symbol errors of all source files

---
 tools/parse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/parse.py b/tools/parse.py
index 8a59c7b..ee915a2 100755
--- a/tools/parse.py
+++ b/tools/parse.py
@@ -44,10 +44,11 @@ def main():
 
     symtab = {}
     for filename in args:
-        symtab, errcount = buildSymbolTable(filename, symtab,
-                                            verbose=opts.verbose)
+        symtab, symerrs = buildSymbolTable(filename, symtab,
+                                           verbose=opts.verbose)
         print("%s: %d errors encountered building symbol table." %
-              (filename, errcount), file=sys.stderr)
+              (filename, symerrs), file=sys.stderr)
+        errcount += symerrs
 
     for filename in args:
         d = h800.arguscard.Deck(file=filename, verbose=opts.verbose)
-- 
2.43.0


From e3e07a55131b360cdc6adc4a6968c44035403f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:53 +0000
Subject: [PATCH 19/22] fix: a fuzzy symbol search with no defined symbol finds
 nothing

---
 h800/symbol_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 2633b2a..79a2937 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -365,6 +365,8 @@ def findSymbolDef(symtab, name, symtype=None, begin=False, end=False,
         if fuzzy:
             # Try fuzzy finder.
             absSyms = getAbsoluteSymbols(symtab)
+            if not absSyms:
+                return []
             matches = process.extract(name, absSyms, limit=10)
             if len(matches) > 0:
                 matchList = []
-- 
2.43.0


From 17fd69d2853022aaf8a07000f9dafe814b7435a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:53 +0000
Subject: [PATCH 20/22] fix: a blank column 8 of the log card stays blank in
 page headings

---
 tools/genpages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/genpages.py b/tools/genpages.py
index b063d50..8e3eac7 100755
--- a/tools/genpages.py
+++ b/tools/genpages.py
@@ -36,7 +36,7 @@ def main():
     d = h800.arguscard.Deck(inlines)
 
     logsection = d.log_section
-    logsectioncol8 = d.log_section_col8
+    logsectioncol8 = d.log_section_col8 or " "
 
     for line in inlines:
         if logsection is None:
-- 
2.43.0


From 2d3b3ea5b1ad2c8fcc009d0e111c3ef8281de031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:53 +0000
Subject: [PATCH 21/22] fix: statistics of a source without instructions

---
 tools/check-instructions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/check-instructions.py b/tools/check-instructions.py
index 850422a..f91dccb 100755
--- a/tools/check-instructions.py
+++ b/tools/check-instructions.py
@@ -99,6 +99,9 @@ def main():
                               (card.filename, card.linenum, card.line))
                         errcount += 1
 
+    # Percentages are of the instructions found, if there are any.
+    total = float(instrcount or 1)
+
     if opts.count:
         print("\nSource lines: %d" % linecount)
         print("\nInstruction Frequencies:")
@@ -110,13 +113,13 @@ def main():
                 if opts.unused and freqtab[inst] != 0 or not opts.unused:
                     print("%-8s %6d  %6.2f%%" %
                           (inst, freqtab[inst],
-                           100 * float(freqtab[inst])/float(instrcount)))
+                           100 * float(freqtab[inst])/total))
         else:
             for inst in sorted(instrtab.keys()):
                 if opts.unused and instrtab[inst] != 0 or not opts.unused:
                     print("%-8s %6d  %6.2f%%" %
                           (inst, instrtab[inst],
-                           100 * float(freqtab[inst])/float(instrcount)))
+                           100 * float(freqtab[inst])/total))
 
     if opts.unused:
         print("\nUnused Instructions:")
-- 
2.43.0


From c3e74ccdd6b5a8c2eea139cd351332c892b30783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:16 +0000
Subject: [PATCH 22/22] fix: a range store past the end of a bank stores
 nothing

---
 h800/memory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/h800/memory.py b/h800/memory.py
index c20226a..129c22c 100755
--- a/h800/memory.py
+++ b/h800/memory.py
@@ -54,6 +54,8 @@ class MemoryBank:
 
     def __setitem__(self, key, value):
         if isinstance(key, slice):
+            for i in range(key.start, key.stop):
+                self._checkAddress(i)
             for i in range(key.start, key.stop):
                 self._data[i].value = value
         else:
-- 
2.43.0

