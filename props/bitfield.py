"""Bit-field harnesses (C01-C06).

The oracle is the diagram at the top of h800/bitfield.py, read as arithmetic:
bit number i of a W-bit field has weight 2**pos(i)."""
from h800.bitfield import BitField

SCHEMES = {
    "LSB_0": BitField.BIT_SCHEME_LSB_0, "LSB_1": BitField.BIT_SCHEME_LSB_1,
    "MSB_0": BitField.BIT_SCHEME_MSB_0, "MSB_1": BitField.BIT_SCHEME_MSB_1}
ORDERS = {"MSB_LEFT": BitField.BIT_ORDER_MSB_LEFT,
          "LSB_LEFT": BitField.BIT_ORDER_LSB_LEFT}


def pos(num, w, i):
    """log2 of the weight of bit number i."""
    if num == "LSB_0":
        return i
    if num == "LSB_1":
        return i - 1
    if num == "MSB_0":
        return w - 1 - i
    return w - i


def valid_index(S, num, w, i):
    p = pos(num, w, i)
    return S.And(p >= 0, p < w)


def direction(num, order, start, end):
    """Ranges are written in the order the bits are drawn."""
    descending = (num[:3] == "LSB") == (order == "MSB_LEFT")
    return start >= end if descending else start <= end


def valid_range(S, num, order, w, s, e):
    return S.And(valid_index(S, num, w, s), valid_index(S, num, w, e),
                 direction(num, order, s, e))


def span(S, num, w, s, e):
    """(position of the least significant bit, number of bits)."""
    a, b = pos(num, w, s), pos(num, w, e)
    lo = S.ite(a < b, a, b)
    hi = S.ite(a < b, b, a)
    return lo, hi - lo + 1


def field(S, num, order, wl=1, wh=64, tag=""):
    w = S.int("width" + tag, wl, wh)
    v = S.int("value" + tag, 0, 2 ** wh - 1)
    S.assume(v >> w == 0)
    f = BitField(v, width=w, numbering=SCHEMES[num], order=ORDERS[order])
    return f, w, v


# -- C01 --------------------------------------------------------------------

def bit_read(S, num, order, wl=1, wh=64):
    f, w, v = field(S, num, order, wl, wh)
    i = S.int("i", -200, 200)
    if S.fork(valid_index(S, num, w, i)):
        got = f[i]
        S.check("bit value", got == (v >> pos(num, w, i)) & 1)
        S.observe("got", got)
    else:
        r = S.attempt(lambda: f[i])
        S.check("bad index rejected", r.raised(ValueError))
    S.check("read keeps value", f.value == v)


def bit_at(S, num, order, w):
    """Every bit number of a field of settled width, one after the other,
    with a symbolic value."""
    v = S.int("value", 0, 2 ** w - 1)
    f = BitField(v, width=w, numbering=SCHEMES[num], order=ORDERS[order])
    i = S.settle_int("i", -1, w + 1)
    p = pos(num, w, i)
    if p < 0 or p >= w:
        r = S.attempt(lambda: f[i])
        S.check("bad index rejected", r.raised(ValueError))
        return
    S.check("bit value", f[i] == (v >> p) & 1)
    b = S.int("b", 0, 1)
    f[i] = b
    S.check("only that bit", f.value == (v & ~(1 << p)) | (b << p))
    S.check("reads back", f[i] == b)
    S.check("queries", S.And(S.Iff(f.isBitSet(i), b == 1),
                             S.Iff(f.isBitClr(i), b == 0)))


def range_at(S, num, order, w, ends):
    """Ranges of settled width and ends, with a symbolic value."""
    v = S.int("value", 0, 2 ** w - 1)
    f = BitField(v, width=w, numbering=SCHEMES[num], order=ORDERS[order])
    lo, n = S.pick("range", ends)
    hi = lo + n - 1
    a, b = [x for x in range(0, w + 1) if pos(num, w, x) in (lo, hi)] * (
        2 if lo == hi else 1)
    s, e = (a, b) if direction(num, order, a, b) else (b, a)
    ones = (1 << n) - 1
    sub = (v >> lo) & ones
    S.check("range value", f[s:e] == sub)
    S.check("isRangeSet", S.Iff(f.isRangeSet(s, e), sub == ones))
    S.check("isRangeClr", S.Iff(f.isRangeClr(s, e), sub == 0))
    x = S.int("x", 0, ones)
    f[s:e] = x
    S.check("only those bits", f.value == (v & ~(ones << lo)) | (x << lo))
    S.check("reads back", f[s:e] == x)


def bit_write_reject(S, num, order, wl=1, wh=64):
    f, w, v = field(S, num, order, wl, wh)
    i = S.int("i", -200, 200)
    b = S.int("b", 0, 1)
    S.assume(S.Not(valid_index(S, num, w, i)))
    how = S.pick("how", ["item", "set", "clear"])
    if how == "item":
        r = S.attempt(S.setitem, f, i, b)
    elif how == "set":
        r = S.attempt(f.set, i)
    else:
        r = S.attempt(f.clear, i)
    S.check("bad index rejected", r.raised(ValueError))
    S.check("rejected write keeps value", f.value == v)


def bit_query_reject(S, num, order, wl=1, wh=64):
    f, w, v = field(S, num, order, wl, wh)
    i = S.int("i", -200, 200)
    S.assume(S.Not(valid_index(S, num, w, i)))
    how = S.pick("how", ["isBit", "isBitSet", "isBitClr"])
    if how == "isBit":
        r = S.attempt(f.isBit, i, 1)
    elif how == "isBitSet":
        r = S.attempt(f.isBitSet, i)
    else:
        r = S.attempt(f.isBitClr, i)
    S.check("bad index rejected", r.raised(ValueError))
    S.check("query keeps value", f.value == v)


# -- C02 --------------------------------------------------------------------

def range_read(S, num, order, wl=1, wh=64):
    f, w, v = field(S, num, order, wl, wh)
    s = S.int("start", -200, 200)
    e = S.int("end", -200, 200)
    if S.fork(valid_range(S, num, order, w, s, e)):
        got = f[s:e]
        lo, n = span(S, num, w, s, e)
        S.check("range value", got == (v >> lo) & ((1 << n) - 1))
        S.observe("got", got)
    else:
        r = S.attempt(lambda: f[s:e])
        S.check("bad range rejected", r.raised(ValueError))
    S.check("read keeps value", f.value == v)


# -- C03 --------------------------------------------------------------------

def bit_write(S, num, order, wl=1, wh=64):
    f, w, v = field(S, num, order, wl, wh)
    i = S.int("i", 0, 64)
    b = S.int("b", 0, 1)
    S.assume(valid_index(S, num, w, i))
    f[i] = b
    p = pos(num, w, i)
    S.check("only that bit", f.value == (v & ~(1 << p)) | (b << p))
    S.check("reads back", f[i] == b)
    S.observe("value", f.value)


def range_write(S, num, order, wl=1, wh=64):
    f, w, v = field(S, num, order, wl, wh)
    s = S.int("start", 0, 64)
    e = S.int("end", 0, 64)
    S.assume(valid_range(S, num, order, w, s, e))
    lo, n = span(S, num, w, s, e)
    x = S.int("x", 0, 2 ** 64 - 1)
    S.assume(x >> n == 0)
    f[s:e] = x
    want = (v & ~(((1 << n) - 1) << lo)) | (x << lo)
    S.check("only those bits", f.value == want)
    S.check("reads back", f[s:e] == x)
    S.observe("value", f.value)


def range_write_reject(S, num, order, wl=1, wh=64):
    f, w, v = field(S, num, order, wl, wh)
    s = S.int("start", -200, 200)
    e = S.int("end", -200, 200)
    S.assume(S.Not(valid_range(S, num, order, w, s, e)))
    x = S.int("x", 0, 2 ** 64 - 1)
    r = S.attempt(S.setitem, f, slice(s, e), x)
    S.check("bad range rejected", r.raised(ValueError))
    S.check("rejected write keeps value", f.value == v)


# -- C04 --------------------------------------------------------------------

BIG = 2 ** 70


def construct(S, num, order):
    w = S.int("width", 1, 64)
    v = S.int("value", -BIG, BIG)
    fits = S.And(v >= 0, v >> w == 0)
    r = S.attempt(BitField, v, width=w, numbering=SCHEMES[num],
                  order=ORDERS[order])
    if r.ok:
        S.check("only fitting values accepted", fits)
        S.check("value stored", r.value.value == v)
        S.check("int()", int(r.value) == v)
    else:
        S.check("fitting values accepted", S.Not(fits))
        S.check("ValueError", r.raised(ValueError))


def construct_params(S):
    kind = S.pick("kind", ["width", "numbering", "order"])
    if kind == "width":
        w = S.int("width", 65, 4096)
        num, order = 0, 0
        v = S.int("value", 0, 2 ** 64 - 1)
    else:
        w = S.int("width", 1, 64)
        v = S.int("value", 0, 1)
        num = S.int("numbering", -300, 300)
        order = S.int("order", -300, 300)
        if kind == "numbering":
            S.assume(S.Or(num < 0, num > 3))
            S.assume(S.And(order >= 0, order <= 1))
        else:
            S.assume(S.And(num >= 0, num <= 3))
            S.assume(S.Or(order < 0, order > 1))
    r = S.attempt(BitField, v, width=w, numbering=num, order=order)
    S.check("bad parameter rejected", r.raised(ValueError))


def assign(S, num, order, wl=1, wh=64):
    f, w, v = field(S, num, order, wl, wh)
    x = S.int("x", -BIG, BIG)
    fits = S.And(x >= 0, x >> w == 0)
    r = S.attempt(setattr, f, "value", x)
    if r.ok:
        S.check("only fitting values accepted", fits)
        S.check("value stored", f.value == x)
    else:
        S.check("fitting values accepted", S.Not(fits))
        S.check("ValueError", r.raised(ValueError))
        S.check("rejected keeps value", f.value == v)
    S.observe("value", f.value)


def write_bounds(S, num, order, what, wl=1, wh=64):
    f, w, v = field(S, num, order, wl, wh)
    x = S.int("x", -BIG, BIG)
    if what == "bit":
        i = S.int("i", 0, 64)
        S.assume(valid_index(S, num, w, i))
        lo, n = pos(num, w, i), 1
        key = i
    else:
        s = S.int("start", 0, 64)
        e = S.int("end", 0, 64)
        S.assume(valid_range(S, num, order, w, s, e))
        lo, n = span(S, num, w, s, e)
        key = slice(s, e)
    fits = S.And(x >= 0, x >> n == 0)
    r = S.attempt(S.setitem, f, key, x)
    if r.ok:
        S.check("only fitting values accepted", fits)
        S.check("value in range", S.And(f.value >= 0, f.value >> w == 0))
    else:
        S.check("fitting values accepted", S.Not(fits))
        S.check("ValueError", r.raised(ValueError))
        S.check("rejected keeps value", f.value == v)


# -- C05 --------------------------------------------------------------------

def set_clear(S, num, order, wl=1, wh=64):
    f, w, v = field(S, num, order, wl, wh)
    how = S.pick("how", ["set", "clear"])
    alls = S.pick("all", ["bit", "all", "none"])
    one = 1 if how == "set" else 0
    op = f.set if how == "set" else f.clear
    if alls == "bit":
        i = S.int("i", 0, 64)
        S.assume(valid_index(S, num, w, i))
        op(i)
        p = pos(num, w, i)
        S.check("changes that bit only",
                f.value == (v & ~(1 << p)) | (one << p))
    else:
        if alls == "none":
            op(None)
        else:
            op()
        S.check("changes all bits",
                f.value == ((1 << w) - 1 if one else 0))
    S.observe("value", f.value)


def bit_query(S, num, order, wl=1, wh=64):
    f, w, v = field(S, num, order, wl, wh)
    i = S.int("i", 0, 64)
    S.assume(valid_index(S, num, w, i))
    bit = (v >> pos(num, w, i)) & 1
    b = S.int("b", 0, 1)
    S.check("isBit", S.Iff(f.isBit(i, b), bit == b))
    S.check("isBitSet", S.Iff(f.isBitSet(i), bit == 1))
    S.check("isBitClr", S.Iff(f.isBitClr(i), bit == 0))
    S.check("query keeps value", f.value == v)


def range_query(S, num, order, wl=1, wh=64):
    f, w, v = field(S, num, order, wl, wh)
    s = S.int("start", 0, 64)
    e = S.int("end", 0, 64)
    S.assume(valid_range(S, num, order, w, s, e))
    lo, n = span(S, num, w, s, e)
    ones = (1 << n) - 1
    sub = (v >> lo) & ones
    b = S.int("b", 0, 1)
    S.check("isRange", S.Iff(f.isRange(s, e, b),
                             sub == S.ite(b == 1, ones, 0)))
    S.check("isRangeSet", S.Iff(f.isRangeSet(s, e), sub == ones))
    S.check("isRangeClr", S.Iff(f.isRangeClr(s, e), sub == 0))
    S.check("query keeps value", f.value == v)


def range_query_reject(S, num, order, wl=1, wh=64):
    f, w, v = field(S, num, order, wl, wh)
    s = S.int("start", -200, 200)
    e = S.int("end", -200, 200)
    S.assume(S.Not(valid_range(S, num, order, w, s, e)))
    how = S.pick("how", ["isRange", "isRangeSet", "isRangeClr"])
    if how == "isRange":
        r = S.attempt(f.isRange, s, e, 1)
    elif how == "isRangeSet":
        r = S.attempt(f.isRangeSet, s, e)
    else:
        r = S.attempt(f.isRangeClr, s, e)
    S.check("bad range rejected", r.raised(ValueError))


# -- C06 --------------------------------------------------------------------

def metadata(S, num, order, wlo, whi):
    w = S.int("width", wlo, whi)
    v = S.int("value", 0, 2 ** whi - 1)
    S.assume(v >> w == 0)
    f = BitField(v, width=w, numbering=SCHEMES[num], order=ORDERS[order])
    S.check("width", f.width == w)
    S.check("len", len(f) == w)
    S.check("maxval", f.maxval == (1 << w) - 1)
    S.check("numbering", f.numbering == SCHEMES[num])
    S.check("order", f.order == ORDERS[order])
    lsb = {"LSB_0": 0, "LSB_1": 1, "MSB_0": w - 1, "MSB_1": w}[num]
    msb = {"LSB_0": w - 1, "LSB_1": w, "MSB_0": 0, "MSB_1": 1}[num]
    S.check("lsb", f.lsb == lsb)
    S.check("msb", f.msb == msb)
    idx = f.indices
    S.check("indices count", len(idx) == w)
    left = msb if order == "MSB_LEFT" else lsb
    up = (num[:3] == "MSB") == (order == "MSB_LEFT")
    ok = True
    for k, n in enumerate(idx):
        ok = S.And(ok, n == (left + k if up else left - k))
    S.check("indices order", ok)
    S.check("value kept", f.value == v)


def printed(S, num, order, w):
    v = S.int("value", 0, 2 ** w - 1)
    f = BitField(v, width=w, numbering=SCHEMES[num], order=ORDERS[order])
    text = repr(f)
    S.check("length", len(text) == w)
    ok = True
    for k in range(w):
        want = (v >> (w - 1 - k)) & 1
        ok = S.And(ok, S.Iff(text[k:k + 1] == "1", want == 1),
                   S.Iff(text[k:k + 1] == "0", want == 0))
    S.check("digits", ok)
    S.check("str", str(f) == text)
    S.observe("text", text)


# -- histories: mixed operations against a plain integer ---------------------

def _operand(S, k, num, order, w):
    i = S.int("i%d" % k, 0, 64)
    S.assume(valid_index(S, num, w, i))
    return i


def _range(S, k, num, order, w):
    s = S.int("s%d" % k, 0, 64)
    e = S.int("e%d" % k, 0, 64)
    S.assume(valid_range(S, num, order, w, s, e))
    return s, e


def history(S, num, order, ops, wl=1, wh=64, other=True):
    """Perform ops on one field while a second field stands by."""
    wmax = wh
    f, w, v = field(S, num, order, wl, wh)
    if other:
        g, gw, gv = field(S, "MSB_0", "MSB_LEFT", 1, wh, "_other")
    ref = v
    for k, op in enumerate(ops):
        if op == "bit":
            i = _operand(S, k, num, order, w)
            b = S.int("b%d" % k, 0, 1)
            f[i] = b
            p = pos(num, w, i)
            ref = (ref & ~(1 << p)) | (b << p)
        elif op == "range":
            s, e = _range(S, k, num, order, w)
            lo, n = span(S, num, w, s, e)
            x = S.int("x%d" % k, 0, 2 ** wmax - 1)
            S.assume(x >> n == 0)
            f[s:e] = x
            ref = (ref & ~(((1 << n) - 1) << lo)) | (x << lo)
        elif op == "value":
            x = S.int("x%d" % k, 0, 2 ** wmax - 1)
            S.assume(x >> w == 0)
            f.value = x
            ref = x
        elif op == "setbit":
            i = _operand(S, k, num, order, w)
            f.set(i)
            ref = ref | (1 << pos(num, w, i))
        elif op == "clrbit":
            i = _operand(S, k, num, order, w)
            f.clear(i)
            ref = ref & ~(1 << pos(num, w, i))
        elif op == "setall":
            f.set()
            ref = (1 << w) - 1
        elif op == "clrall":
            f.clear()
            ref = 0
        elif op == "readbit":
            i = _operand(S, k, num, order, w)
            S.check("bit read in history",
                    f[i] == (ref >> pos(num, w, i)) & 1)
        elif op == "readrange":
            s, e = _range(S, k, num, order, w)
            lo, n = span(S, num, w, s, e)
            S.check("range read in history",
                    f[s:e] == (ref >> lo) & ((1 << n) - 1))
        elif op == "query":
            i = _operand(S, k, num, order, w)
            S.check("query in history",
                    S.Iff(f.isBitSet(i), (ref >> pos(num, w, i)) & 1 == 1))
        elif op == "qrange":
            s, e = _range(S, k, num, order, w)
            lo, n = span(S, num, w, s, e)
            sub = (ref >> lo) & ((1 << n) - 1)
            S.check("range set in history",
                    S.Iff(f.isRangeSet(s, e), sub == (1 << n) - 1))
            S.check("range clear in history",
                    S.Iff(f.isRangeClr(s, e), sub == 0))
        elif op == "meta":
            S.check("lsb in history", (1 << pos(num, w, f.lsb)) == 1)
            S.check("msb in history", pos(num, w, f.msb) == w - 1)
        elif op == "badbit":
            r = S.attempt(S.setitem, f, S.int("i%d" % k, 65, 100), 1)
            S.check("rejected in history", r.raised(ValueError))
        elif op == "badvalue":
            x = S.int("x%d" % k, -BIG, BIG)
            S.assume(S.Or(x < 0, x >> w != 0))
            r = S.attempt(setattr, f, "value", x)
            S.check("rejected in history", r.raised(ValueError))
        S.check("value after each step", f.value == ref)
        S.check("value in range", S.And(f.value >= 0, f.value >> w == 0))
    if other:
        S.check("other field unchanged",
                S.And(g.value == gv, g.width == gw))
    S.observe("value", f.value)


def side_by_side(S, a, b, wa, wb, what):
    """The same bit numbers on two fields of different layout or width:
    what one does leaves no trace in the other."""
    fa, _, va = field(S, a[0], a[1], wa, wa, "_a")
    fb, _, vb = field(S, b[0], b[1], wb, wb, "_b")
    s = S.settle_int("start", 0, max(wa, wb))
    e = s
    if what in ("range", "query"):
        e = S.settle_int("end", 0, max(wa, wb))
    ok_a = valid_range(S, a[0], a[1], wa, s, e)
    ok_b = valid_range(S, b[0], b[1], wb, s, e)
    S.assume(S.And(ok_a, ok_b))
    fields = [[fa, a[0], wa, va], [fb, b[0], wb, vb]]
    for k in (0, 1, 0):
        f, num, w, v = fields[k]
        lo, n = span(S, num, w, s, e)
        sub = (v >> lo) & ((1 << n) - 1)
        if what == "bit":
            S.check("bit of its own", f[s] == sub)
            S.check("query of its own", S.Iff(f.isBitSet(s), sub == 1))
            f[s] = 1 - sub
            v = v ^ (1 << lo)
        elif what == "range":
            S.check("range of its own", f[s:e] == sub)
            f[s:e] = ((1 << n) - 1) ^ sub
            v = v ^ (((1 << n) - 1) << lo)
        else:
            S.check("set of its own",
                    S.Iff(f.isRangeSet(s, e), sub == (1 << n) - 1))
            S.check("clear of its own", S.Iff(f.isRangeClr(s, e), sub == 0))
            if k == 0:
                f.set(s)
                v = v | (1 << pos(num, w, s))
        fields[k][3] = v
        for g, gnum, gw, gv in fields:
            S.check("values of their own", g.value == gv)
            S.check("metadata of their own", S.And(
                g.width == gw, len(g) == gw, g.maxval == (1 << gw) - 1,
                pos(gnum, gw, g.lsb) == 0, pos(gnum, gw, g.msb) == gw - 1))


def reuse(S, a, b, wa, wb, how):
    """A bit number or range used before on another field, or refused before
    on this one, is judged by this field alone, every time."""
    fa, _, va = field(S, a[0], a[1], wa, wa, "_a")
    fb, _, vb = field(S, b[0], b[1], wb, wb, "_b")
    s = S.settle_int("start", -1, max(wa, wb) + 1)
    e = s if how == "bit" else S.settle_int("end", -1, max(wa, wb) + 1)
    fields = [(fa, a, wa, va), (fb, b, wb, vb)]
    for k in (0, 1, 1, 0):
        f, (num, order), w, v = fields[k]
        key = s if how == "bit" else slice(s, e)
        r = S.attempt(lambda: f[key])
        if S.fork(valid_range(S, num, order, w, s, e)):
            lo, n = span(S, num, w, s, e)
            S.check("read of its own", r.ok and
                    r.value == (v >> lo) & ((1 << n) - 1))
        else:
            S.check("rejected every time", r.raised(ValueError))
            r = S.attempt(S.setitem, f, key, 1)
            S.check("write rejected every time", r.raised(ValueError))
            if how == "bit":
                q = S.attempt(f.isBit, s, 1)
            else:
                q = S.attempt(f.isRange, s, e, 1)
            S.check("query rejected every time", q.raised(ValueError))
        S.check("values kept", S.And(fa.value == va, fb.value == vb))


def reread(S, num, order, w, how, op):
    """The same bit or range read before and after a change."""
    f, _, v = field(S, num, order, w, w)
    s = S.settle_int("start", 0, w)
    e = s if how == "bit" else S.settle_int("end", 0, w)
    S.assume(valid_range(S, num, order, w, s, e))
    lo, n = span(S, num, w, s, e)
    ones = (1 << n) - 1

    def agree(ref):
        sub = (ref >> lo) & ones
        if how == "bit":
            S.check("bit read", f[s] == sub)
            S.check("bit query", S.And(S.Iff(f.isBitSet(s), sub == 1),
                                       S.Iff(f.isBitClr(s), sub == 0)))
        else:
            S.check("range read", f[s:e] == sub)
            S.check("range query", S.And(
                S.Iff(f.isRangeSet(s, e), sub == ones),
                S.Iff(f.isRangeClr(s, e), sub == 0)))
        S.check("value", S.And(f.value == ref, int(f) == ref))

    ref = v
    agree(ref)
    for k in (0, 1):
        if op in ("setall", "clrall"):
            if (op == "setall") == (k == 0):
                f.set()
                ref = (1 << w) - 1
            else:
                f.clear()
                ref = 0
        elif op == "value":
            ref = S.int("x%d" % k, 0, (1 << w) - 1)
            f.value = ref
        else:
            i = _operand(S, k, num, order, w)
            p = pos(num, w, i)
            if op == "setbit":
                f.set(i)
                ref = ref | (1 << p)
            elif op == "clrbit":
                f.clear(i)
                ref = ref & ~(1 << p)
            else:
                b = S.int("b%d" % k, 0, 1)
                f[i] = b
                ref = (ref & ~(1 << p)) | (b << p)
        agree(ref)
