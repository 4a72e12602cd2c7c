"""Which harnesses decide which property, with their bounds."""

LAYOUTS = [(n, o) for o in ("MSB_LEFT", "LSB_LEFT")
           for n in ("LSB_0", "LSB_1", "MSB_0", "MSB_1")]


def T(module, fn, params=None, **opts):
    return {"module": "props." + module, "fn": fn, "params": params or {},
            "opts": opts}


def layouts(fn, **params):
    return [T("bitfield", fn, dict(params, num=n, order=o))
            for n, o in LAYOUTS]


from props import opspec

BANDS = [(1, 16), (17, 32), (33, 48), (49, 64)]
NARROW = [(1, 32), (33, 64)]


def banded(fn, bands=BANDS, **params):
    return [T("bitfield", fn, dict(params, num=n, order=o, wl=lo, wh=hi),
              weight=hi) for n, o in LAYOUTS for lo, hi in bands]


def bf_history(ops_list, widths, layouts=LAYOUTS):
    return [T("bitfield", "history",
              {"num": n, "order": o, "ops": ops, "wl": w, "wh": w},
              weight=w)
            for ops in ops_list for w in widths for n, o in layouts]


def beside(what, tier):
    """Pairs of fields: same layout and other width; other layout."""
    ws = [(5, 3)] if tier == "quick" else [(3, 5), (5, 3), (8, 12), (48, 12)]
    r = []
    for a in LAYOUTS:
        for b in LAYOUTS:
            for wa, wb in ([(3, 5)] + ws if a == b else
                           [(4, 4)] + ws[1:]):
                r.append(T("bitfield", "side_by_side",
                           {"a": a, "b": b, "wa": wa, "wb": wb,
                            "what": what}, max_witness=4))
    return r


def again(how, tier):
    """Repeated and shared bit numbers; the same key before and after."""
    ws = [(3, 5)] if tier == "quick" else [(3, 5), (5, 3), (8, 12)]
    r = []
    for a in LAYOUTS:
        for b in (LAYOUTS if tier != "quick" else [a]):
            r += [T("bitfield", "reuse", {"a": a, "b": b, "wa": wb, "wb": wa,
                                          "how": how}, max_witness=3)
                  for wa, wb in ws]
        r += [T("bitfield", "reread", {"num": a[0], "order": a[1], "w": w,
                                       "how": how, "op": op}, max_witness=2)
              for op in ("setall", "clrall", "value", "setbit", "clrbit",
                         "bit") for w in ([4] if tier == "quick"
                                          else [4, 7, 16])]
    return r


def settled(tier):
    """Fields of settled width."""
    return [T("bitfield", "bit_at", {"num": n, "order": o, "w": w},
              weight=90, max_witness=2) for n, o in LAYOUTS
            for w in ((1, 24, 64) if tier == "quick" else
                      (1, 2, 16, 24, 32, 33, 48, 53, 54, 63, 64))]


def settled_ranges(tier):
    r = []
    for w in (1, 24, 64) if tier == "quick" else \
            (1, 2, 16, 24, 32, 33, 48, 53, 54, 63, 64):
        ns = [n for n in (1, 2, 3, 8, 12, 23, 24, 31, 32, 33, 52, 53, 54, 63,
                          64) if n <= w]
        ends = []
        for n in ns:
            for lo in (0, 1, 5, (w - n) // 2, w - n - 1, w - n):
                if 0 <= lo <= w - n and [lo, n] not in ends:
                    ends.append([lo, n])
        r += [T("bitfield", "range_at", {"num": n, "order": o, "w": w,
                                         "ends": ends}, weight=90,
                max_witness=2) for n, o in LAYOUTS]
    return r


def C01(tier):
    r = settled(tier) + layouts("bit_read") + layouts("bit_write_reject") + \
        layouts("bit_query_reject")
    r += bf_history([["readbit", "bit", "readbit", "badbit", "readbit"],
                     ["readbit", "value", "readbit"]],
                    [8, 48] if tier == "quick" else [1, 3, 8, 16, 48, 64])
    r += beside("bit", tier) + again("bit", tier)
    return r


def C02(tier):
    r = settled_ranges(tier) + banded("range_read")
    r += bf_history([["readrange", "range", "readrange"],
                     ["readrange", "readrange"],
                     ["value", "readrange"]],
                    [8] if tier == "quick" else [1, 5, 8, 16, 24])
    r += beside("range", tier) + again("range", tier)
    return r


def C03(tier):
    r = settled(tier) + settled_ranges(tier) + \
        layouts("bit_write") + banded("range_write") + \
        layouts("range_write_reject")
    r += bf_history([["bit", "range", "bit"], ["range", "bit", "readrange"],
                     ["range", "range"], ["bit", "bit", "readbit"],
                     ["clrall", "range", "setall", "bit"]],
                    [8] if tier == "quick" else [1, 5, 8, 16, 24])
    r += beside("range", tier)
    return r


def C04(tier):
    r = layouts("construct") + layouts("assign") + \
        layouts("write_bounds", what="bit") + \
        banded("write_bounds", NARROW, what="range") + \
        [T("bitfield", "construct_params")]
    r += bf_history([["range", "badvalue", "bit", "badbit"],
                     ["value", "badvalue", "value"],
                     ["setall", "range", "setbit", "badvalue"]],
                    [8, 48] if tier == "quick" else [1, 5, 8, 16, 24, 48])
    return r


def C05(tier):
    r = settled(tier) + settled_ranges(tier) + \
        layouts("set_clear") + layouts("bit_query") + \
        banded("range_query", [(1, 16), (24, 24), (48, 48)]
               if tier == "quick" else BANDS) + \
        layouts("range_query_reject")
    r += bf_history([["setbit", "clrbit", "query"],
                     ["clrall", "setbit", "qrange"],
                     ["setall", "clrbit", "qrange"],
                     ["qrange", "range", "qrange"]],
                    [5] if tier == "quick" else [1, 5, 8, 16])
    r += beside("query", tier)
    return r


def C06(tier):
    r = []
    for lo, hi in BANDS:
        r += layouts("metadata", wlo=lo, whi=hi)
    for w in ((1, 2, 3, 7, 8, 12, 16, 24, 31, 48, 63, 64)
              if tier == "quick" else range(1, 65)):
        r += [T("bitfield", "printed", {"num": n, "order": o, "w": w},
                weight=w) for n, o in LAYOUTS]
    r += bf_history([["meta", "range", "meta"], ["value", "meta", "badbit"]],
                    [1, 8, 17] if tier == "quick" else range(1, 65))
    return r


KINDS = ["Word"] + list(opspec.CONSTANTS)


def C07(tier):
    r = [T("word", fn, {"kind": k}) for k in KINDS
         for fn in ("construct", "assign", "bits")] + [T("word", "default")]
    for ops in (["value", "bad", "bit"], ["bit", "group", "value"],
                ["bad", "bit", "bad", "group"]):
        r += [T("word", "word_history", {"ops": ops, "kind": k})
              for k in (KINDS if tier == "thorough" else KINDS[:3])]
    return r


def C08(tier):
    r = [T("word", "iw_construct"), T("word", "iw_keywords")]
    r += [T("word", "iw_assign", {"group": g})
          for g in ("command", "a", "b", "c", "value")]
    gs = ["command", "a", "b", "c", "value", "bad"]
    for x in gs:
        for y in gs:
            if tier == "quick":
                r.append(T("word", "iw_history", {"ops": [x, y]}))
            else:
                for z in gs:
                    r.append(T("word", "iw_history", {"ops": [x, y, z]}))
    return r


MNEMONICS = list(opspec.CLASSES)


def C09(tier):
    n = len(MNEMONICS)
    r = [T("instr", fn, {"m": m}) for m in MNEMONICS
         for fn in ("encode", "encode_positional", "encode_bools")]
    k = 8 if tier == "quick" else 1
    r += [T("instr", "encode_history",
            {"ms": [MNEMONICS[(j + 7 * i) % n] for i in range(8)] +
             [MNEMONICS[j]]}) for j in range(0, n, k)]
    r.append(T("instr", "table"))
    return r


def _forms(m):
    r = []
    for f, t in (("masked", opspec.MASKED), ("unmasked", opspec.UNMASKED),
                 ("peripheral", opspec.PERIPHERAL), ("print", opspec.PRINT)):
        if m in t:
            r.append(f)
    return r + (["simulator"] if m == "S" else [])


def C10(tier):
    r = [T("instr", "reject", {"m": m, "form": f})
         for m in MNEMONICS for f in _forms(m)]
    r += [T("instr", "mask_and_active", {"m": m}) for m in opspec.MASKED]
    r += [T("instr", "paddr_and_others", {"m": m}) for m in MNEMONICS]
    r += [T("instr", "mask_elsewhere", {"m": m}) for m in MNEMONICS
          if m not in opspec.MASKED]
    return r


def C11(tier):
    r = [T("instr", "generators", {"m": m}) for m in MNEMONICS
         if m not in ("S", "PR")]
    g = [m for m in MNEMONICS if m not in ("S", "PR")]
    step = 8
    r += [T("instr", "generator_history", {"ms": g[k:k + step] + g[k:k + 1]})
          for k in range(0, len(g), step)]
    return r


def C12(tier):
    return [T("instr", "distinct", {"a": k >> 2 & 1, "b": k >> 1 & 1,
                                    "c": k & 1, "part": p, "parts": 4})
            for k in range(8) for p in range(4)]


def blocks(lo, hi, n):
    """Split [lo, hi] into ranges of n values."""
    return [(x, min(x + n - 1, hi)) for x in range(lo, hi + 1, n)]


SPOTS = [(0, 9), (62, 65), (126, 129), (254, 257), (510, 513), (1020, 1027),
         (1534, 1537), (2038, 2047)]


def C13(tier):
    quick = tier == "quick"
    r = [T("memory", "store", {"lo": a, "hi": b}, max_witness=2)
         for a, b in blocks(0, 2047, 64)]
    r += [T("memory", "fill_all", {"order": o}, weight=5)
          for o in ("up", "down", "mixed")]
    ws = SPOTS if quick else blocks(0, 2047, 32)
    r += [T("memory", "slices", {"lo": a, "hi": b, "maxlen": 4 if quick
                                 else 5}, max_witness=2)
          for a, b in ws]
    r += [T("memory", "long_slices", {"lo": a, "hi": b}, max_witness=2)
          for a, b in (SPOTS if quick else blocks(0, 2047, 64))]
    r += [T("memory", "clear", {"lo": a, "hi": b}, max_witness=2)
          for a, b in (SPOTS if quick else blocks(0, 2047, 64))]
    hist = [["store", "store", "read"], ["store", "range", "read"],
            ["range", "store", "clear", "store"],
            ["store", "clear", "read", "iter"],
            ["store", "badvalue", "badaddr", "read"],
            ["iter", "store", "clear", "range"]]
    r += [T("memory", "bank_history", {"ops": h, "window": w},
            max_witness=2, weight=3)
          for h in hist for w in ([[0, 2], [2045, 2047], [1022, 1024]]
                                  if quick else
                                  [[0, 5], [1020, 1026], [2042, 2047],
                                   [510, 514]])]
    return r


def C14(tier):
    quick = tier == "quick"
    r = [T("memory", "bad_address"), T("memory", "bad_range", max_witness=6)]
    bl = blocks(0, 2047, 64)
    r += [T("memory", "bad_value", {"lo": a, "hi": b}, max_witness=2)
          for a, b in bl]
    r += [T("memory", "never_outside", {"lo": a, "hi": b}, max_witness=2)
          for a, b in (SPOTS if quick else bl)]
    r += [T("memory", "bad_value_range", {"lo": a, "hi": min(b, 2045)},
            max_witness=2) for a, b in (SPOTS if quick else bl)]
    for h in (["badvalue", "store", "badvalue"], ["badaddr", "badvalue"],
              ["store", "badaddr", "clear", "badvalue"]):
        r += [T("memory", "bank_history", {"ops": h, "window": w},
                max_witness=2)
              for w in ([0, 2], [1022, 1025], [2045, 2047])]
    return r


def C15(tier):
    quick = tier == "quick"
    r = []
    for kind, n in (("module", 4), ("expansion", 8)):
        r += [T("memory", "sizes", {"kind": kind}),
              T("memory", "bank_ranges", {"kind": kind}, max_witness=6),
              T("memory", "isolate_all", {"kind": kind}, weight=50),
              T("memory", "clear_one", {"kind": kind}, weight=5)]
        for b in range(n):
            r += [T("memory", "isolate", {"kind": kind, "bank": b, "lo": x,
                                          "hi": y}, max_witness=1, weight=2)
                  for x, y in ([(0, 3), (1023, 1024), (2046, 2047)] if quick
                               else blocks(0, 2047, 64))]
    return r


WIDTHS = (16, 24)


def C16(tier):
    r = [T("registers", "default")]
    for w in WIDTHS:
        r += [T("registers", fn, {"width": w})
              for fn in ("construct", "assign", "bits", "ranges")]
        hs = [["value", "bit", "range"], ["bit", "clear", "bit"],
              ["range", "bad", "value"], ["clear", "range", "bit", "bad"],
              ["range", "range"]]
        if tier == "thorough":
            ops = ["value", "bit", "range", "clear", "bad"]
            hs = [[x, y, z] for x in ops for y in ops for z in ops]
        r += [T("registers", "register_history", {"width": w, "ops": h})
              for h in hs]
    return r


def C17(tier):
    r = [T("registers", "names")]
    top = 5 if tier == "quick" else 8
    for n in range(0, top + 1):
        r.append(T("registers", "numbers", {"length": n}))
        for w in WIDTHS:
            r.append(T("registers", "group_by_name",
                       {"length": n, "width": w}))
    r += [T("registers", "group_by_number", {"width": w}) for w in WIDTHS]
    return r


def C18(tier):
    r = []
    for w in WIDTHS:
        r += [T("registers", "write", {"width": w, "group": g},
                max_witness=5) for g in range(8)]
        r += [T("registers", fn, {"width": w}, max_witness=5)
              for fn in ("group_index", "replace_group", "two_files")]
        r += [T("registers", "replace", {"width": w, "how": h},
                max_witness=5) for h in ("name", "number")]
        r += [T("registers", "replace_bad", {"width": w, "length": n},
                max_witness=5) for n in (None, 0, 1, 2, 3, 4)]
        r += [T("registers", "clear", {"width": w, "what": x},
                max_witness=5) for x in ("file", "group")]
    return r


def C19(tier):
    quick = tier == "quick"
    r = [T("memory", "iterate", {"lo": a, "hi": b}, max_witness=2)
         for a, b in ([(0, 3), (1023, 1024), (2046, 2048)] if quick
                      else blocks(0, 2048, 64))]
    r += [T("memory", "iterate_nested")]
    r += [T("memory", "iterate_after", {"ops": ops, "lo": a, "hi": a + 2,
                                        "sparse": sp}, max_witness=2)
          for sp in (True, False) for a in ((3,) if quick else (0, 1022, 2044))
          for ops in (["store", "clear"], ["store", "bad", "store"],
                      ["range", "read", "clear", "store"],
                      ["store", "store", "range"])]
    r += [T("memory", "iterate_elements", {"lo": a, "hi": b}, max_witness=2)
          for a, b in (SPOTS if quick else blocks(0, 2047, 64))]
    for w in WIDTHS:
        r += [T("registers", fn, {"width": w}, max_witness=5)
              for fn in ("iterate_group", "iterate_group_nested",
                         "iterate_file", "iterate_file_again")]
        r += [T("registers", "iterate_after", {"width": w, "op": op},
                max_witness=4) for op in ("clear", "bad", "one", "none")]
        r += [T("registers", "iterate_replaced", {"width": w, "how": h},
                max_witness=5) for h in ("name", "number")]
    return r


def kinds(fn, **params):
    return [T("cards", fn, dict(params, kind=k), max_witness=6)
            for k in ("punch", "argus")]


# lengths around the field boundaries, and all lengths
EDGES = [(0, 2), (6, 9), (18, 21), (31, 34), (45, 48), (59, 62), (74, 77),
         (79, 82), (118, 122), (131, 132)]
ALL_LENGTHS = [(0, 20), (21, 40), (41, 60), (61, 80), (81, 100), (101, 120),
               (121, 132)]


def pairs(step=1, base="-", mark="f"):
    """Field modes with two free fields each."""
    out = []
    for i in range(10):
        for j in range(i + 1, 10):
            if (j - i) % step == 0 or j == i + 1:
                m = [base] * 10
                m[i] = m[j] = mark
                out.append("".join(m))
    return out


SINGLE = ["-" * i + "f" + "-" * (9 - i) for i in range(10)]
XSINGLE = ["x" * i + "f" + "x" * (9 - i) for i in range(10)]


def C20(tier):
    quick = tier == "quick"
    r = []
    for lo, hi in ALL_LENGTHS:
        r += kinds("raw_fields", modes="x" * 10, lo=lo, hi=hi)
    for lo, hi in EDGES if quick else ALL_LENGTHS:
        for m in (["fffff-----", "-----fffff"] if quick else
                  ["fffff-----", "-----fffff", "f-f-f-f-f-", "-f-f-f-f-f"]):
            r += kinds("raw_fields", modes=m, lo=lo, hi=hi)
    for n in (1, 2, 3) if quick else (1, 2, 3, 4):
        for m in range(0, 11 if quick else 14):
            if n < 3 or not quick or m in (0, 3, 5, 8, 10):
                r.append(T("cards", "custom_layout",
                           {"n": n, "top": 6 if quick else 8,
                            "width": 8 if quick else 11, "lens": [m, m]},
                           weight=n, max_witness=6))
    r += [T("cards", "other_layouts", {"n": n, "cls": c}, max_witness=6)
          for n in ((2,) if quick else (2, 3)) for c in ("punch", "argus")]
    for n in (133, 150, 200) if quick else (133, 150, 161, 200, 257, 400):
        r += kinds("raw_fields", modes="x" * 10, lo=n, hi=n)
        r += kinds("raw_fields", modes="-----fffff", lo=n, hi=n)
    return r + [T("cards", "two_cards")]


def C21(tier):
    quick = tier == "quick"
    r = []
    for lo, hi in EDGES if quick else ALL_LENGTHS:
        r += kinds("comment", modes="f" + "x" * 9, lo=lo, hi=hi)
        r += kinds("stripped", modes="x" * 10, lo=lo, hi=hi)
        for m in ["fff-------", "---fff----", "------ffff"] if quick else \
                pairs() + ["fffff-----", "-----fffff"]:
            r += kinds("stripped", modes=m, lo=lo, hi=hi)
    for n in (140, 200):
        r += kinds("stripped", modes="------ffff", lo=n, hi=n)
    if not quick:
        r += kinds("stripped", modes="f" * 10, lo=110, hi=110)
    return r


def C22(tier):
    quick = tier == "quick"
    r = []
    C = [("code_card", m) for m in
         (["fff-------", "---fff----", "------ffff", "x" * 10] if quick else
          pairs() + ["x" * 10, "f---fffff-", "---fffffff"])]
    C += [("remarks_card", m) for m in
          (["xff-------", "x--fff----", "x-----ffff", "x" * 10] if quick else
           pairs() + ["x" * 10, "f---fffff-", "---fffffff"])]
    for lo, hi in EDGES if quick else ALL_LENGTHS:
        r += [T("cards", fn, {"modes": m, "lo": lo, "hi": hi}, max_witness=6)
              for fn, m in C]
    r += [T("cards", "code_card", {"modes": "------ffff", "lo": n, "hi": n},
            max_witness=6) for n in (140, 200)]
    r += [T("cards", "remarks_card", {"modes": "x-----ffff", "lo": n,
                                      "hi": n}, max_witness=6)
          for n in (140, 200)]
    for n in range(0, 14):
        r.append(T("cards", "mnemonic_exact",
                   {"lo": n, "hi": n, "alphabet": "AB ,"}, max_witness=6))
        if not quick or n < 10:
            r.append(T("cards", "mnemonic_exact",
                       {"lo": n, "hi": n, "alphabet": TEXT}, max_witness=6))
    return r


TEXT = "".join([chr(c) for c in range(32, 127)]) + "\t"


def C23(tier):
    quick = tier == "quick"
    r = []
    for lens in ([], [9], [1, 1, 1], [9, 2], [2, 9]) if quick else \
            ([], [9], [1, 1, 1, 1], [9, 2], [2, 9], [2, 2, 2], [9, 9],
             [2, 2, 1, 1]):
        r += kinds("deck", lens=lens)
    # control characters that are not white space
    r += kinds("deck", lens=[1, 1], alphabet="A\x00\x01\x08\x1a\x1b\x7f")
    for lo, hi in EDGES[:-2] if quick else ALL_LENGTHS:
        r += [T("cards", "log_card", {"modes": m, "lo": lo, "hi": hi},
                max_witness=6)
              for m in ("x-ff------", "x---f---f-", "x-x-----ff")]
    r += [T("cards", "log_includes", {}, max_witness=6)]
    r += kinds("two_decks")
    r += [T("cards", "deck_layout", {"n": 2 if quick else 3}, max_witness=6)]
    for n in (12, 101) if quick else (12, 40, 101, 1001):
        r += kinds("long_deck", n=n, file=False)
    return r


def C24(tier):
    quick = tier == "quick"
    r = []
    for k in ("source", "none", "include", "nested"):
        r += kinds("missing", where=k, size=3)
    shapes = [(0, None, None), (1, None, None), (2, None, None),
              (3, None, None), (2, 0, None), (2, 1, None), (1, 2, None),
              (1, 1, 1)]
    if not quick:
        shapes += [(2, 2, None), (2, 1, 1), (1, 2, 1), (3, 1, None),
                   (4, None, None)]
    for m, a, b in shapes:
        r += kinds("includes", main=m, one=a, two=b, size=3)
    for m, a, b in [(4, 1, 2), (3, 3, 1)] + (
            [] if quick else [(5, 1, 2), (4, 3, 2), (3, 4, 2)]):
        r += kinds("include_tree", main=m, one=a, two=b)
    r += kinds("read_again") + kinds("include_names")
    for n in (3, 9) if quick else (3, 9, 20, 40):
        r += kinds("include_chain", top=n)
    for n in (12, 101) if quick else (12, 40, 101, 1001):
        r += kinds("long_deck", n=n, file=True)
    return r


def C25(tier):
    quick = tier == "quick"
    st = lambda fn, **p: T("symtab", fn, p, max_witness=6)
    r = [st("log_cards"), st("setloc_label"), st("included"),
         st("file_names"), st("built_again", ops=["TX", "ASSIGN"]),
         st("one_segment", n=1, ops=["TX", "ASSIGN"]),
         st("included_tree", nested=False, remark=True),
         st("included_tree", nested=True, remark=not quick)]
    for n in range(1, 6 if quick else 12):
        r.append(st("one_label", n=n, alphabet=TEXT))
    for n in range(6, 12):
        r.append(st("one_label", n=n, alphabet="ABZ,1 a"))
    for n in range(1, 9 if quick else 14):
        r.append(st("one_operation", n=n))
    for n in (1, 2, 3) if quick else (1, 2, 3, 4):
        r.append(st("subsegments", n=n, ops=["ASSIGN", "TX"] if n < 3
                    else ["TX"]))
    r += [st("some_cards", n=2, size=2, alphabet="AB", ops=["ASSIGN", "TX"]),
          st("some_cards", n=1, size=2, alphabet="AB", files=2,
             ops=["ASSIGN", "TX"]),
          st("some_cards", n=2, size=3, alphabet="AZ,", ops=["TX"])]
    if not quick:
        r += [st("some_cards", n=3, size=2, alphabet="AB",
                 ops=["ASSIGN", "TX"]),
              st("some_cards", n=2, size=1, alphabet="AB", files=2,
                 ops=["ASSIGN", "TX"])]
    return r


def C26(tier):
    quick = tier == "quick"
    st = lambda fn, **p: T("symtab", fn, p, max_witness=6)
    r = [st("operands", col=c) for c in range(3)]
    r += [st("one_segment", n=1, ops=["TX", "ASSIGN", "EQUALS"]),
          st("one_segment", n=2, ops=["TX"])]
    for n in range(1, 6 if quick else 12):
        r.append(st("one_label", n=n, alphabet=TEXT))
    for n in range(6, 12):
        r.append(st("one_label", n=n, alphabet="ABFLSXZ,a ",
                    ops=["TX", ""]))
    r += [st("some_cards", n=2, size=2, alphabet="AB", ops=OPS_),
          st("some_cards", n=2, size=3, alphabet="BL,a", ops=["TX"]),
          st("some_cards", n=2, size=1, alphabet="A", ops=["EQUALS", "TX"],
             operands=2),
          st("some_cards", n=3, size=1, alphabet="AB", ops=["EQUALS", "TX"],
             operands=1),
          st("some_cards", n=1, size=2, alphabet="AB", files=2, ops=OPS_)]
    if not quick:
        r += [st("some_cards", n=3, size=1, alphabet="AB", ops=OPS_),
              st("some_cards", n=2, size=1, alphabet="AB",
                 ops=["EQUALS", "TX", "ASSIGN"], operands=3),
              st("some_cards", n=4, size=1, alphabet="AB",
                 ops=["EQUALS", "TX"], operands=1)]
    return r


OPS_ = ["ASSIGN", "EQUALS", "TX", "RESERVE", ""]


def C27(tier):
    quick = tier == "quick"
    st = lambda fn, **p: T("symtab", fn, p, max_witness=6)
    r = [st("built_queries")]
    al = "ABa1"
    full = list(range(8))
    for n, size, shapes in ((1, 2, full), (2, 2, full), (3, 1, [0, 1, 3]),
                            (3, 2, [5])) + \
            (() if quick else ((3, 2, [0, 1, 5]), (4, 1, [0, 6]))):
        for t in (None, "simple", "complex") + (("other", "Simple")
                                                if n == 1 else ()):
            r.append(st("exact", n=n, size=size, shapes=shapes, alphabet=al,
                        symtype=t))
        r += [st(f, n=n, size=size, shapes=shapes, alphabet=al)
              for f in ("absolutes", "consistency")]
    for n, size in ((1, 3), (2, 3), (3, 2)) if quick else \
            ((1, 4), (2, 4), (3, 3), (4, 1)):
        r += [st("affix", n=n, size=size, alphabet="AB1", end=e)
              for e in (False, True)]
    r += [st("affix", n=n, size=size, alphabet=al, end=e)
          for n, size, al in ((1, 4, "AZaz0 9"), (2, 3, "AZ,")) +
          (() if quick else ((3, 3, "AZz"), (2, 6, "AZa")))
          for e in (False, True)]
    return r


def C28(tier):
    quick = tier == "quick"
    st = lambda fn, **p: T("symtab", fn, p, max_witness=6)
    r = [st("symbolic_names", n=n) for n in ((1, 2, 3) if quick
                                             else (1, 2, 3, 4))]
    hs = [["add"], ["add", "add"], ["update", "add"], ["add", "update"],
          ["add", "add", "prune"], ["add", "update", "prune"],
          ["add", "prune", "update", "prune"], ["add", "add", "update"],
          ["add", "update", "add"], ["add", "update", "resolve"],
          ["add", "update", "prune", "update", "prune"]]
    if not quick:
        ops = ["add", "update", "prune"]
        hs = [["add", x, y] for x in ops for y in ops] + \
            [["add", "add", x, "prune"] for x in ops] + hs
    r += [st("history", ops=h) for h in hs]
    r += [st("references", n=3 if quick else 5), st("two_tables")]
    r += [st("text_values", size=n, ops=ops) for n in (1, 2)
          for ops in (["update", "prune"], ["update", "update", "prune"],
                      ["update", "prune", "forget", "prune"])]
    # three symbols, all fresh, some updated, then pruned
    r += [st("history", ops=["add", "add", "add", "prune"]),
          st("history", ops=["add", "add", "update", "prune"],
             names=["A", "B"]),
          st("history", ops=["add", "add", "update", "update", "prune"],
             names=["A", "B"])]
    return r


def C29(tier):
    quick = tier == "quick"
    tl = lambda fn, **p: T("tools", fn, p, max_witness=6)
    most = 5 if quick else 10
    r = []
    for la in range(1, 7):
        for lb in range(la, min(6, la + 1) + 1):
            r.append(tl("numbering", la=la, lb=lb, most=most))
    for la, lb in ((1, 4), (4, 2), (2, 6), (6, 3)):
        r.append(tl("numbering", la=la, lb=lb, most=most))
    for la, lb, st in ((1, 2, 1), (2, 3, 2), (4, 4, 2), (4, 4, 3), (5, 6, 3),
                       (3, 4, 1)):
        r.append(tl("numbering", la=la, lb=lb, most=most, step=st))
    for sc in ([1, 3], [4, 9]) if quick else ([1, 4], [5, 9], [10, 20]):
        for la, lb in ((2, 2), (4, 5)) if quick else ((2, 2), (4, 5), (6, 6)):
            if sc[0] + lb <= 8:
                r.append(tl("numbering", la=la, lb=lb, most=2, step=1,
                            startcol=sc))
            r.append(tl("numbering", la=la, lb=lb, most=2, step=1,
                        startcol=sc, endcol=[sc[0] + 3, sc[0] + 9]))
    return r


def C30(tier):
    quick = tier == "quick"
    tl = lambda fn, **p: T("tools", fn, p, max_witness=6)
    r = []
    for tool in ("check-instructions", "parse"):
        for n in (1, 2, 3, 4) if quick else range(1, 14):
            r.append(tl("check_one", tool=tool, n=n))
        if tool == "check-instructions":
            for f in (["-i"], ["-a"]):
                r.append(tl("check_one", tool=tool, n=3, flags=f))
                r.append(tl("check_many", tool=tool, n=2,
                            ops=["TX", "FOO", ""], flags=f))
        r += [tl("check_mnemonic", tool=tool, part=i, parts=6)
              for i in range(6)]
        r += [tl("check_many", tool=tool, n=2, ops=MIX),
              tl("check_many", tool=tool, n=3, ops=["TX", "FOO"]),
              tl("check_files", tool=tool)]
        for t in (False, True):
            r += [tl("check_set", tool=tool, sizes=[2, 1], tree=t,
                     ops=["TX", "FOO", ""]),
                  tl("check_set", tool=tool, sizes=[1, 1], tree=t,
                     ops=["TX", "FOO"], flags=["-v"]),
                  tl("check_set", tool=tool, sizes=[1, 1], tree=t,
                     ops=["TX", "FOO"],
                     flags=["-d" if tool == "parse" else "-p"])]
        r.append(tl("check_set", tool=tool, sizes=[1, 1, 1],
                    ops=["TX", "FOO"]))
        r += [tl("check_set", tool=tool, sizes=[1, 1], tree=t, again=True,
                 ops=["TX", "FOO"]) for t in (False, True)]
        if not quick:
            r += [tl("check_many", tool=tool, n=3, ops=MIX),
                  tl("check_many", tool=tool, n=5, ops=["TX", "FOO"])]
    r += [tl("parse_labels", n=n) for n in (1, 2)]
    for d in (False, True):
        for t in (False, True):
            for want in ("TX", "TX,9"):
                r.append(tl("list_set", want=want, sizes=[2, 1], details=d,
                            tree=t, ops=["TX", "TX,9", "BA"]))
            r.append(tl("list_set", want="TX", sizes=[1, 1], details=d,
                        tree=t, ops=["TX", "BA"], again=True))
        r.append(tl("list_set", want="TX", sizes=[1, 1, 1], details=d,
                    ops=["TX", "BA"]))
    for want in ("TX", "BA", "TX,", "TX,9"):
        r += [tl("listing", want=want, n=2, ops=["TX", "TX,9", "T X",
                                                 "TX ,", "TXA", "BA"]),
              tl("listing", want=want, n=3, ops=["TX", "TX,9"]),
              tl("listing", want=want, n=1, size=3, details=True)]
        for n in (1, 2, 3, 4) if quick else range(1, 8):
            r.append(tl("listing", want=want, n=1, size=n))
    return r


MIX = ["TX", "TX,9", "FOO", "FOO , A", "", "SETLOC,B", "tx"]


def C31(tier):
    return [T("tools", "charset", {}, max_witness=6),
            T("tools", "charset_size", {}, max_witness=6),
            T("tools", "charset_table", {}, max_witness=6)]


def rp(fn, **p):
    return T("reports", fn, p, max_witness=6)


def C32(tier):
    quick = tier == "quick"
    r = [rp("listing_file", lens=ls) for ls in
         ([0], [3], [2, 2], [1, 3, 1]) +
         (() if quick else ([12], [3, 3], [2, 2, 2]))]
    long = "part." + "0123456789" * 7
    r += [rp("listing_file", lens=[2, 2], eof=False),
          rp("listing_file", lens=[2], name=long + ".src", lst=long + ".lst"),
          rp("listing_file", lens=[2], name="a.b.src", lst="a.b.lst"),
          rp("listing_includes", two=False), rp("listing_includes", two=True)]
    r += [rp("listing_tree", lens=ls, main=m, twice=t)
          for ls in ([1, 1], [2], [1, 1, 1]) for m, t in ((1, False),
                                                         (2, True))]
    r += [rp("listing_long", before=n) for n in
          ((9, 98, 120) if quick else (9, 98, 120, 999, 10000))]
    return r


def C33(tier):
    quick = tier == "quick"
    r = [rp("pages_log_card", size=n, order=o) for o in range(3) for n in
         ((1, 2, 3, 5) if quick else (1, 2, 3, 4, 5, 8, 12, 40, 72))]
    r += [rp("pages_range", lo=lo, hi=lo + 2, most=4 if quick else 12)
          for lo in (1, 8, 98, 997)]
    r += [rp("pages_filename", size=n, dot=d) for d in (False, True)
          for n in ((1, 3, 4) if quick else range(1, 7))]
    r += [rp("pages_filename", size=n, dot=False, alphabet="A_")
          for n in (8, 9)]
    r += [rp("pages_wrong")]
    return r


def C34(tier):
    quick = tier == "quick"
    r = [rp("symbol_listing", n=1, size=3, alphabet="AB,Z a",
            ops=["TX", "ASSIGN", ""]),
         rp("symbol_listing", n=2, size=2, alphabet="AB",
            ops=["TX", "ASSIGN"]),
         rp("symbol_listing", n=2, size=3, alphabet="BZ,", ops=["TX"]),
         rp("symbol_listing", n=3, size=1, alphabet="ABC", ops=["TX"]),
         rp("symbol_listing", n=3, size=1, alphabet="A",
            ops=["TX", "ASSIGN", "SETLOC,B", "SETLOC"]),
         rp("symbol_listing", n=1, size=2, alphabet="AB", files=2,
            ops=["TX", "ASSIGN"]),
         rp("symbol_listing", n=2, size=1, alphabet="Aa", files=2,
            ops=["TX"]),
         rp("symbol_listing", n=3, size=1, alphabet="AB", include=True,
            ops=["TX"]),
         rp("symbol_listing", n=2, size=1, alphabet="A", files=2,
            include=True, ops=["TX", "ASSIGN", "SETLOC,B"])]
    r += [rp("symbol_listing", n=1, size=2, alphabet="AB", files=1, long=True,
             include=i, ops=["TX", "ASSIGN"]) for i in (False, True)]
    if not quick:
        r += [rp("symbol_listing", n=4, size=1, alphabet="AB",
                 ops=["TX", "ASSIGN"]),
              rp("symbol_listing", n=2, size=1, alphabet="AB", files=2,
                 ops=["TX", "ASSIGN"])]
    return r


def C35(tier):
    quick = tier == "quick"
    r = []
    for f in (True, False):
        r += [rp("symbol_check", n=1, size=3, alphabet="AB,Z a", flag=f,
                 ops=["TX", "ASSIGN", ""]),
              rp("symbol_check", n=2, size=2, alphabet="AB", flag=f,
                 ops=["TX", "ASSIGN"]),
              rp("symbol_check", n=3, size=1, alphabet="A", flag=f,
                 ops=["TX", "ASSIGN", "SETLOC,B"]),
              rp("symbol_check", n=1, size=2, alphabet="AB", files=2, flag=f,
                 ops=["TX", "ASSIGN"]),
              rp("symbol_check", n=1, size=1, alphabet="ABa", files=3, flag=f,
                 ops=["TX", "ASSIGN"]),
              rp("symbol_check", n=2, size=1, alphabet="Aa", files=2, flag=f,
                 ops=["TX", "ASSIGN"]),
              rp("symbol_check", n=2, size=1, alphabet="Aa", include=True,
                 flag=f, ops=["TX", "ASSIGN"]),
              rp("symbol_check", n=2, size=1, alphabet="A", files=2, flag=f,
                 include=True, ops=["TX", "ASSIGN"])]
        if not quick:
            r += [rp("symbol_check", n=4, size=1, alphabet="AB", flag=f,
                     ops=["TX", "ASSIGN"]),
                  rp("symbol_check", n=2, size=1, alphabet="AB", files=2,
                     flag=f, ops=["TX", "ASSIGN"])]
    return r


def C36(tier):
    quick = tier == "quick"
    r = []
    for f in (["-c"], ["-u"], ["-c", "-u"], ["-c", "-s"],
              ["-c", "-s", "-u"]):
        r += [rp("statistics", n=1, ops=MIX, flags=f),
              rp("statistics", n=2, ops=["TX", "TX,9", "FOO", "BA", ""],
                 flags=f),
              rp("statistics", n=3, ops=["TX", "BA", "SETLOC,B"], flags=f),
              rp("statistics", n=1, ops=["TX", "BA", "FOO"], files=2,
                 flags=f),
              rp("statistics", n=2, ops=["TX", "FOO"], files=2, mixed=True,
                 flags=f),
              rp("statistics", n=1, ops=["TX", "BA"], files=3, mixed=True,
                 flags=f)]
        r += [rp("statistics", n=1, ops=["TX", "BA"], flags=f,
                 more=[("TX", [0, 1, 9, 10]), ("BA", [2, 9, 12])]),
              rp("statistics", n=1, ops=["TX", "FOO"], flags=f,
                 more=[("TX", [99, 120]), ("BA", [3, 100]),
                       ("TN", [7])])]
        if not quick:
            r += [rp("statistics", n=3, ops=MIX, flags=f),
                  rp("statistics", n=5, ops=["TX", "BA"], flags=f)]
    return r


def C37(tier):
    quick = tier == "quick"
    r = [rp("search_conflict")]
    for w in ("A", "AB", "B1"):
        for f in ("-b", "-e"):
            r += [rp("search", n=1, size=3, alphabet="AB1,Z a", flag=f,
                     want=w, ops=["TX", "ASSIGN", ""]),
                  rp("search", n=2, size=2, alphabet="AB1", flag=f, want=w,
                     ops=["TX"]),
                  rp("search", n=3, size=2 if not quick else 1,
                     alphabet="AB", flag=f, want=w, ops=["TX"]),
                  rp("search", n=1, size=2, alphabet="AB1", flag=f, want=w,
                     ops=["TX"], files=2),
                  rp("search", n=2, size=1, alphabet="ABa", flag=f, want=w,
                     ops=["TX"], files=2),
                  rp("search", n=2, size=2, alphabet="AB", flag=f, want=w,
                     ops=["TX"], include=True)]
        for fs in ([], ["-x"]):
            r += [rp("search_exact", n=1, size=3, alphabet="AB1,Z a", want=w,
                     flags=fs, ops=["TX", "ASSIGN", ""]),
                  rp("search_exact", n=2, size=2, alphabet="AB1", want=w,
                     flags=fs, ops=["TX", "ASSIGN"]),
                  rp("search_exact", n=1, size=2, alphabet="AB1", want=w,
                     flags=fs, ops=["TX", "ASSIGN"], files=2)]
    # in the text sought: lower case, blanks and commas
    for w in ("a", "aB", "B,A", "A B", ",", "A,"):
        for f in ("-b", "-e"):
            r += [rp("search", n=1, size=3, alphabet="AB,a ", flag=f, want=w,
                     ops=["TX"]),
                  rp("search", n=2, size=1, alphabet="ABa", flag=f, want=w,
                     ops=["TX"])]
        for fs in ([], ["-x"]):
            r += [rp("search_exact", n=1, size=3, alphabet="AB,a ", want=w,
                     flags=fs, ops=["TX", "ASSIGN"]),
                  rp("search_exact", n=2, size=1, alphabet="ABa", want=w,
                     flags=fs, ops=["TX"])]
    return r


def ex(fn, **p):
    return T("extras", fn, p, max_witness=6)


def C38(tier):
    quick = tier == "quick"
    r = []
    for w in WIDTHS:
        r += [ex("print_register", width=w), ex("print_file", width=w)]
        r += [ex("print_group", width=w, how=h)
              for h in ("value", "replace", "clear", "other")]
    r += [ex("print_bank", at=k) for k in
          ((0, 1, 1024, 2046, 2047) if quick else
           [0, 1, 2, 2045, 2046, 2047] + list(range(63, 2040, 64)))]
    return r


def C39(tier):
    quick = tier == "quick"
    r = []
    for t in ("check-instructions", "parse", "list-symbols", "check-symbols",
              "find-symbols", "list-instructions", "listing"):
        r += [ex("verbose_tool", tool=t, more="-v", sizes=[1],
                 alphabet="AB a"),
              ex("verbose_tool", tool=t, more="-v", sizes=[2], alphabet="A"),
              ex("verbose_tool", tool=t, more="-v", sizes=[1, 1],
                 alphabet="A")]
        if not quick:
            r += [ex("verbose_tool", tool=t, more="-v", sizes=[2],
                     alphabet="AB a"),
                  ex("verbose_tool", tool=t, more="-v", sizes=[3],
                     alphabet="A")]
    r += [ex("verbose_tool", tool="check-instructions", more="-p", sizes=[1]),
          ex("verbose_tool", tool="parse", more="-d", sizes=[1]),
          ex("verbose_tool", tool="parse", more="-d -v", sizes=[2],
             alphabet="A"),
          ex("verbose_tool", tool="check-instructions", more="-p -v",
             sizes=[2], alphabet="A")]
    for k in ("punch", "argus"):
        for f in (False, True):
            r += [ex("verbose_deck", kind=k, lens=ls, file=f)
                  for ls in ([9], [1, 1], [2, 2])]
    r += [ex("verbose_table", n=1, alphabet="AB a", ops=OPS39),
          ex("verbose_table", n=2, alphabet="A,", ops=OPS39)]
    return r


OPS39 = ["TX", "ASSIGN", "EQUALS", "SETLOC,B", ""]


def C40(tier):
    quick = tier == "quick"
    r = [ex("one_number")]
    tools = ("check-instructions", "parse", "list-symbols", "check-symbols",
             "find-symbols", "list-instructions", "listing", "genpages")
    r += [ex("no_source", tool=t) for t in tools + ("genlines",)]
    r += [ex("missing_source", tool=t, size=n) for t in tools
          for n in ((2,) if quick else (2, 9, 20))]
    r += [ex("odd_opcode")]
    r += [ex("bad_opcode", size=n) for n in (1, 2, 3, 4)]
    r += [ex("bad_numbers", la=a, lb=b) for a, b in
          ((7, 1), (1, 7), (7, 7), (6, 7), (8, 6))]
    return r


def tasks(pid, tier):
    return globals()[pid](tier)


from props.scope import describe                        # noqa: E402,F401


def C41(tier):
    return [T("instr", "code_listing", {"ms": MNEMONICS[k:k + 8]},
              max_witness=4) for k in range(0, len(MNEMONICS), 8)]
