"""Self-test of the floating-point encoding (not a property): expressions over
a symbolic integer pinned to a value must give what they give natively."""


def results(x, y, c):
    return [int(x / y), int(x / y * 4), x / y == c, x / y < c, x / y >= c,
            int(float(x)), float(x) == x, x < c, x == c, int(x * c),
            int(x - c), int(c - x), round(x / y), int(float(x) / 8),
            -x / y <= -c, int(-x / y), x / y != 1, x / y == 1, x / y > 1]


def narrow(S, value, y, c):
    x = S.int("x", max(value - 3, 0), value + 3)
    got = results(x, y, c)
    x = S.settle(x)
    want = results(x, y, c)
    for i in range(len(got)):
        S.check("result %d" % i, got[i] == want[i])
