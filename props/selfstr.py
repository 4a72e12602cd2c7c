"""Self-test of the string encoding (not a property): pipelines of string
operations on symbolic text pinned to a value must give what the same
pipeline gives on the native text."""


def apply(x, ops):
    for op in ops:
        k = op[0]
        if not isinstance(x, str):
            x = repr_list(x)
        if k == "strip":
            x = x.strip()
        elif k == "lstrip":
            x = x.lstrip()
        elif k == "rstrip":
            x = x.rstrip()
        elif k == "slice":
            x = x[op[1]:op[2]]
        elif k == "del":
            x = x.replace(op[1], "")
        elif k == "sub":
            x = x.replace(op[1], op[2])
        elif k == "split0":
            x = x.split(op[1])[0]
        elif k == "split1":
            p = x.split(op[1])
            x = p[1] if len(p) > 1 else x
        elif k == "last":
            x = x.split(op[1])[-1]
        elif k == "splitall":
            p = x.split(op[1])
            x = "|".join(p)
        elif k == "joinsplit":
            x = "|".join(x.split(op[1]))
        elif k == "nows":
            x = "".join(x.split())
        elif k == "wsplit":
            p = x.split()
            x = "|".join(p)
        elif k == "part":
            a, b, c = x.partition(op[1])
            x = c + b + a
        elif k == "rpart":
            a, b, c = x.rpartition(op[1])
            x = c + b + a
        elif k == "findcut":
            i = x.find(op[1])
            x = x[:i] if i >= 0 else x
        elif k == "rfindcut":
            i = x.rfind(op[1])
            x = x[i + 1:] if i >= 0 else x
        elif k == "upper":
            x = x.upper()
        elif k == "lower":
            x = x.lower()
        elif k == "isup":
            x = x + ("T" if x.upper() == x else "F")
        elif k == "cat":
            x = op[1] + x + op[1]
        elif k == "fmt":
            x = "<%s:%-6s>" % (x, x)
        elif k == "count":
            x = x + str(x.count(op[1]))
        elif k == "in":
            x = x + ("T" if op[1] in x else "F")
        elif k == "starts":
            x = x + ("T" if x.startswith(op[1]) else "F")
        elif k == "ends":
            x = x + ("T" if x.endswith(op[1]) else "F")
        elif k == "bool":
            x = x + ("T" if x else "F")
        elif k == "len":
            x = x + ("T" if len(x) > op[1] else "F")
        elif k == "just":
            x = x.ljust(6) + "." + x.rjust(4)
        elif k == "pick":
            x = x if x in ("A", "AB", "B") else x + "?"
        elif k == "dict":
            x = x + {"A": "1", "AB": "2", "": "3"}.get(x, "4")
        elif k == "iter":
            x = "".join([c for c in x if c != op[1]])
    return x


def repr_list(x):
    return "|".join(x)


def pinned(S, value, ops, lens):
    t = S.str("t", lens[1], lens[0], "AB,b \t")
    want = apply(value, ops)
    S.assume(t == value)
    got = apply(t, ops)
    S.check("same", got == want)
    S.check("not different", S.Not(got == want + "x"))
    S.observe("got", got)


def free(S, ops, n):
    t = S.str("t", n, 0 if n % 2 else n, "AB,b \t")
    S.observe("got", apply(t, ops))
