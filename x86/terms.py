"""Hash-consed 32-bit word terms. A value is a Python int (constant) or a Node."""
M32 = 0xffffffff


class Node:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return "n%d" % self.id


_tab = {}
nodes = []


def mk(op, *a):
    key = (op,) + tuple(x if type(x) is not Node else ("#", x.id) for x in a)
    n = _tab.get(key)
    if n is None:
        n = Node()
        n.op = op
        n.a = a
        n.id = len(nodes)
        nodes.append(n)
        _tab[key] = n
    return n


def var(name, *idx):
    return mk("var", name, *idx)


def _isc(x):
    return type(x) is int


def _key(x):
    return x.id


def add(a, b):
    if _isc(a):
        a, b = b, a
    if _isc(b):
        if _isc(a):
            return (a + b) & M32
        if b == 0:
            return a
        if a.op == "add" and _isc(a.a[1]):
            return add(a.a[0], (a.a[1] + b) & M32)
        return mk("add", a, b)
    if a.id > b.id:
        a, b = b, a
    return mk("add", a, b)


def sub(a, b):
    if _isc(b):
        return add(a, (-b) & M32)
    if a is b:
        return 0
    return mk("sub", a, b)


def xor(a, b):
    if _isc(a):
        a, b = b, a
    if _isc(b):
        if _isc(a):
            return a ^ b
        if b == 0:
            return a
        if b == M32:
            return not_(a)
        return mk("xor", a, b)
    if a is b:
        return 0
    if a.id > b.id:
        a, b = b, a
    return mk("xor", a, b)


def and_(a, b):
    if _isc(a):
        a, b = b, a
    if _isc(b):
        if _isc(a):
            return a & b
        if b == 0:
            return 0
        if b == M32:
            return a
        return mk("and", a, b)
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("and", a, b)


def or_(a, b):
    if _isc(a):
        a, b = b, a
    if _isc(b):
        if _isc(a):
            return a | b
        if b == 0:
            return a
        if b == M32:
            return M32
        return mk("or", a, b)
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    # shl(x, n) | lshr(x, 32 - n) is a rotation
    for p, q in ((a, b), (b, a)):
        if p.op == "shl" and q.op == "shr" and p.a[0] is q.a[0] and p.a[1] + q.a[1] == 32:
            return ror(p.a[0], q.a[1])
    return mk("or", a, b)


def not_(a):
    if _isc(a):
        return a ^ M32
    if a.op == "not":
        return a.a[0]
    return mk("not", a)


def shl(a, n):
    if n >= 32:
        return 0
    if n == 0:
        return a
    if _isc(a):
        return (a << n) & M32
    return mk("shl", a, n)


def shr(a, n):
    if n >= 32:
        return 0
    if n == 0:
        return a
    if _isc(a):
        return a >> n
    return mk("shr", a, n)


def sar(a, n):
    n = min(n, 31)
    if n == 0:
        return a
    if _isc(a):
        return ((a - (1 << 32) if a >> 31 else a) >> n) & M32
    return mk("sar", a, n)


def ror(a, n):
    n &= 31
    if n == 0:
        return a
    if _isc(a):
        return ((a >> n) | (a << (32 - n))) & M32
    if a.op == "ror":
        return ror(a.a[0], n + a.a[1])
    return mk("ror", a, n)


def mul(a, b):
    if _isc(a) and _isc(b):
        return a * b & M32
    if _isc(a):
        a, b = b, a
    return mk("mul", a, b)


def byte(a, k):
    """byte k (0 = least significant) of a word, as an atom (word, k) or an int"""
    if _isc(a):
        return (a >> (8 * k)) & 0xff
    if a.op == "bytes":
        return a.a[k]
    return (a, k)


class B:
    pass


def frombytes(bs):
    """four byte atoms -> word; bs[0] least significant. A byte is an int or (node, k)"""
    b0 = bs[0]
    if type(b0) is int:
        if type(bs[1]) is int and type(bs[2]) is int and type(bs[3]) is int:
            return b0 | bs[1] << 8 | bs[2] << 16 | bs[3] << 24
    elif b0[1] == 0 and all(type(bs[k]) is tuple and bs[k][0] is b0[0] and bs[k][1] == k for k in (1, 2, 3)):
        return b0[0]
    # zero extension and shifts of one word by whole bytes stay in canonical form
    key = ("bytes",) + tuple(x if type(x) is int else ("#", x[0].id, x[1]) for x in bs)
    n = _tab.get(key)
    if n is None:
        n = Node()
        n.op = "bytes"
        n.a = tuple(bs)
        n.id = len(nodes)
        nodes.append(n)
        _tab[key] = n
    return n


def children(n):
    if n.op == "var":
        return ()
    if n.op == "bytes":
        return tuple(x[0] for x in n.a if type(x) is tuple)
    return tuple(x for x in n.a if type(x) is Node)


def rebuild(n, f):
    """n with every child node c replaced by f(c)"""
    op, a = n.op, n.a
    if op == "bytes":
        return frombytes([x if type(x) is int else byte(f(x[0]), x[1]) for x in a])
    g = [f(x) if type(x) is Node else x for x in a]
    return BUILD[op](*g)


BUILD = {"add": add, "sub": sub, "xor": xor, "and": and_, "or": or_, "not": not_, "shl": shl, "shr": shr, "sar": sar,
         "ror": ror, "mul": mul}


def evaluate(n, a):
    """value of node n from the values a of its children (in order); ints"""
    op = n.op
    if op == "add":
        return (a[0] + a[1]) & M32
    if op == "sub":
        return (a[0] - a[1]) & M32
    if op == "xor":
        return a[0] ^ a[1]
    if op == "and":
        return a[0] & a[1]
    if op == "or":
        return a[0] | a[1]
    if op == "not":
        return a[0] ^ M32
    if op == "shl":
        return (a[0] << a[1]) & M32
    if op == "shr":
        return a[0] >> a[1]
    if op == "sar":
        return ((a[0] - (1 << 32) if a[0] >> 31 else a[0]) >> a[1]) & M32
    if op == "ror":
        return ((a[0] >> a[1]) | (a[0] << (32 - a[1]))) & M32
    if op == "mul":
        return a[0] * a[1] & M32
    raise KeyError(op)
