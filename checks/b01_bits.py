"""B01 the immutable bit sequence."""
import random
from amlib.utils.bits import bits

MC = [("MCBits", "MCBits.cfg")]
NONE = 99999


def lsb(b):
    return [int(x) for x in b]


def raw(b):
    return [b.to_int() >> i & 1 for i in range(len(b))]


def run(n, maxlen, seed):
    rng = random.Random(seed)
    pool, ev = [bits()], []
    lists = [[]]

    def length():
        return rng.choice([0, 1, 2, 7, 8, 9, 15, 16, 17] + [31, 32, 33, 63, 64, 65] * (maxlen > 69) + [rng.randrange(maxlen + 1)])

    def other(y):
        """The right operand in one of the forms that are converted."""
        k = rng.randrange(5)
        v = lists[y]
        s = "".join(map(str, reversed(v)))
        if k == 0 and s:
            return s
        if k == 1:
            return tuple(v)
        if k == 2:
            return list(v)
        if k == 3 and (not v or v[-1]):
            return sum(b << i for i, b in enumerate(v))
        return pool[y]

    for _ in range(n):
        x, y = rng.randrange(len(pool)), rng.randrange(len(pool))
        X, Y, LX = pool[x], pool[y], len(lists[x])
        op = rng.choice(["int", "int", "str", "iter", "bytes", "resize", "same", "slice", "slice", "add", "add", "mul", "and", "or", "xor",
                         "rev", "get", "get", "tostr", "toiter", "toint", "tobytes", "len", "eq", "eq"])
        e = dict(op=op, x=x + 1, y=y + 1, i=0, n=0, q=[], big=False)
        new = None
        if op == "int":
            if rng.random() < .4:
                e["i"], e["n"] = rng.choice([0, 1, 2, 3, 255, 256, rng.getrandbits(30), rng.getrandbits(9)]), NONE
                new = rng.choice([bits, bits.from_int])(e["i"])
            else:
                e["i"], e["n"] = rng.choice([0, -1, 1, -2, 7, -128, rng.getrandbits(30) - 2**29, rng.getrandbits(9) - 256]), rng.randrange(25)
                new = rng.choice([bits, bits.from_int])(e["i"], e["n"])
        elif op == "str":
            e["q"] = [rng.getrandbits(1) for _ in range(length())]
            s = "".join(str(b) + rng.choice(["", "", "", "_", " ", "\t"]) for b in e["q"])
            if e["q"] and rng.random() < .2:
                s = "+" + s
            new = rng.choice([bits, bits.from_str])(s)
        elif op == "iter":
            e["q"] = [rng.getrandbits(1) for _ in range(length())]
            new = rng.choice([lambda q: bits(list(q)), lambda q: bits(tuple(q)), lambda q: bits.from_iter(iter(q)), lambda q: bits(x for x in q),
                              lambda q: bits([bool(x) for x in q]), lambda q: bits.from_iter([x * 5 for x in q])])(e["q"])
        elif op == "bytes":
            e["q"] = [rng.getrandbits(8) for _ in range(rng.randrange(5))]
            e["n"], e["big"] = rng.randrange(8 * len(e["q"]) + 4), rng.random() < .4
            args = (e["n"], "big") if e["big"] else rng.choice([(e["n"],), (e["n"], "little")])
            new = rng.choice([lambda b, *a: bits.from_bytes(b, *a), lambda b, *a: bits(b, *a), lambda b, *a: bits(bytearray(b), *a),
                              lambda b, *a: bits(memoryview(b), *a)])(bytes(e["q"]), *args)
        elif op == "resize":
            e["n"] = rng.randrange(LX + 4)
            new = bits(X, e["n"])
        elif op == "same":
            new = bits(X)
        elif op == "slice":
            e["i"], e["n"] = (rng.choice([NONE, rng.randint(-LX - 2, LX + 2)]) for _ in "ab")
            new = X[None if e["i"] == NONE else e["i"]:None if e["n"] == NONE else e["n"]]
        elif op == "add":
            new = X + other(y) if rng.random() < .6 else bits_radd(X, Y, other, x, y)
        elif op in ("and", "or", "xor"):
            f = {"and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b}[op]
            new = f(X, other(y)) if rng.random() < .6 else f(other(x), Y)
        elif op == "mul":
            e["n"] = rng.randrange(4 if LX < 20 else 2)
            new = X * e["n"] if rng.random() < .6 else e["n"] * X
        elif op == "rev":
            new = X.reversed()
        elif op == "get":
            if not LX:
                continue
            e["i"] = rng.choice([0, -1, LX - 1, -LX, rng.randrange(-LX, LX)] + [k for k in (7, 8, 15, 16, 31, 32, 63, 64) if k < LX])
            e["r"] = [X[e["i"]]]
        elif op == "tostr":
            s = rng.choice([str(X), X.to_str(), repr(X)[6:-2], f"{X}"])
            e["r"] = [int(c) for c in s]
        elif op == "toiter":
            e["r"] = rng.choice([list(X), [b for b in X]])
        elif op == "toint":
            v = rng.choice([int(X), X.to_int()])
            e["r"] = [v >> i & 1 for i in range(max(LX, v.bit_length()))]
        elif op == "tobytes":
            e["big"] = rng.random() < .4
            e["r"] = list(X.to_bytes("big") if e["big"] else rng.choice([X.to_bytes(), bytes(X), X.to_bytes(byteorder="little")]))
        elif op == "len":
            e["r"] = [len(X), int(bool(X))]
        elif op == "eq":
            if rng.random() < .5:
                Y = pool[y] = bits(list(lists[y]))
                o = other(x) if lists[y] == lists[x] else other(y)
                e["r"] = [int(X == o), int(X != o)]
            else:
                o = pool[x] if rng.random() < .3 else bits("".join(map(str, reversed(lists[x]))))
                e["y"] = x + 1
                e["r"] = [int(X == o), int(X != o)]
        if new is not None:
            if not isinstance(new, bits):
                return [dict(spec="TBits", cfg={}, ev=[], id=f"bits seed={seed}", bad=f"bits: {op} gives {type(new).__name__}")]
            e["r"] = raw(new)
        e["ax"], e["ay"] = raw(pool[e["x"] - 1]), raw(pool[e["y"] - 1])
        ev.append(e)
        if new is not None:
            if len(new) > maxlen:
                new = bits()
                ev.append(dict(op="iter", x=1, y=1, i=0, n=0, q=[], big=False, r=[], ax=[], ay=[]))
                pool.append(None)
                lists.append(None)
                pool[-1], lists[-1] = bits(), []
                # (the specification has both objects)
                pool.insert(-1, bits(e["r"])); lists.insert(-1, e["r"])
            else:
                pool.append(new); lists.append(e["r"])
    return [dict(spec="TBits", cfg={}, ev=ev, id=f"bits n={n} maxlen={maxlen} seed={seed}")]


def bits_radd(X, Y, other, x, y):
    return other(x) + Y


def wrong(_):
    """What is no bit sequence is refused, and never equal to one."""
    bad = []
    for what, f, ex in [("a negative number", lambda: bits(-1), ValueError), ("a negative number", lambda: bits.from_int(-2 ** 70), ValueError),
                        ("a negative string", lambda: bits("-1"), ValueError), ("a string with digits", lambda: bits("012"), ValueError),
                        ("a string and a length", lambda: bits("01", 2), ValueError), ("bytes without a length", lambda: bits(b"x"), ValueError),
                        ("an iterable and a length", lambda: bits([1, 0], 1), ValueError), ("None", lambda: bits(None), TypeError),
                        ("a float", lambda: bits(1.0), TypeError), ("a sequence plus None", lambda: bits("1") + None, TypeError),
                        ("a string index", lambda: bits("1")["0"], TypeError), ("a sequence times a sequence", lambda: bits("1") * bits("1"), TypeError)]:
        try:
            f()
        except ex:
            continue
        except Exception as e:
            bad.append(f"{what}: {e!r}")
        else:
            bad.append(what + " is accepted")
    if bits("1") == None or bits() == None or bits("1") == 1.0:
        bad.append("a bit sequence equals something else")
    return [dict(spec="TBits", cfg={}, ev=[], id="bits wrong values", **(dict(bad="; ".join(bad)) if bad else {}))]


def jobs(tier, rng):
    yield "wrong", dict(_=0)
    for rep in range(64 if tier == "quick" else 200):
        yield "run", dict(n=120, maxlen=rng.choice([3, 9, 18, 70, 150]), seed=rng.getrandbits(30))
