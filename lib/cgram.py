"""Independent C grammar: prints syntax trees as token text with the fewest
parentheses the standard's precedence and associativity rules allow.

Trees: "a" identifier, ("lit", "$n0"), ("bin", op, l, r), ("asg", op, l, r), ("un", op, e), ("post", op, e),
("cond", c, a, b), ("cast", T, e), ("sizeof", e), ("sizeofT", T), ("call", f, [args]), ("idx", a, i), ("mem", op, e, f),
("comma", a, b)."""

BIN = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", ">", "<=", ">="], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]
BINLEV = {o: 3 + i for i, l in enumerate(BIN) for o in l}
ASG = ["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "^=", "|="]
UN = ["-", "+", "~", "!", "*", "&"]
LEVEL = {"comma": 0, "asg": 1, "cond": 2, "cast": 13, "un": 14, "pre": 14, "sizeof": 14, "sizeofT": 14, "post": 15, "call": 15,
         "idx": 15, "mem": 15, "lit": 16}


KINDS = {"c": "CHARACTER", "s": "STRING", "x": "INTEGER_HEX", "o": "INTEGER_OCT", "l": "INTEGER_L", "u": "INTEGER_U",
         "L": "INTEGER_LL", "U": "INTEGER_ULL", "k": "INTEGER_UL"}
TYPES = {"int": ("int", 0), "char *": ("*", 0, ("char", 0)), "T": ("int", 0), "struct S *": ("*", 0, ("struct", 0, "S", ()))}


def level(t):
    if isinstance(t, str):
        return 16
    if t[0] == "bin":
        return BINLEV[t[1]]
    return LEVEL[t[0]]


def text(t, need=0):
    if level(t) < need:
        return "( " + text(t, 0) + " )"
    if isinstance(t, str):
        return t
    k = t[0]
    if k == "lit":
        return t[1]
    if k == "bin":
        l = BINLEV[t[1]]
        return text(t[2], l) + " " + t[1] + " " + text(t[3], l + 1)
    if k == "asg":
        return text(t[2], 14) + " " + t[1] + " " + text(t[3], 1)
    if k == "cond":
        return text(t[1], 3) + " ? " + text(t[2], 0) + " : " + text(t[3], 2)
    if k == "comma":
        return text(t[1], 0) + " , " + text(t[2], 1)
    if k == "cast":
        return "( " + t[1] + " ) " + text(t[2], 13)
    if k == "un":
        return t[1] + " " + text(t[2], 13)
    if k == "pre":
        return t[1] + " " + text(t[2], 14)
    if k == "sizeof":
        return "sizeof " + text(t[1], 14)
    if k == "sizeofT":
        return "sizeof ( " + t[1] + " )"
    if k == "post":
        return text(t[2], 15) + " " + t[1]
    if k == "call":
        return text(t[1], 15) + " ( " + " , ".join(text(x, 1) for x in t[2]) + " )"
    if k == "idx":
        return text(t[1], 15) + " [ " + text(t[2], 0) + " ]"
    if k == "mem":
        return text(t[2], 15) + " " + t[1] + " " + t[3]
    raise ValueError(k)


def want(t):
    """The tree pnut's nodes spell for t (parentheses dropped, comma flattened)."""
    if isinstance(t, str):
        return t
    k = t[0]
    if k == "lit":
        return (KINDS.get(t[1][1], "INTEGER"), t[1][1:]) if t[1][0] == "$" else ("INTEGER", -int(t[1]))
    if k in ("bin", "asg"):
        return (t[1], want(t[2]), want(t[3]))
    if k == "cond":
        return ("?", want(t[1]), want(t[2]), want(t[3]))
    if k == "comma":
        a, b = want(t[1]), want(t[2])
        return (",",) + (a[1:] if a[0] == "," else (a,)) + (b[1:] if b[0] == "," else (b,))
    if k == "cast":
        return ("CAST", TYPES[t[1]], want(t[2]))
    if k in ("un", "pre"):
        return ("pre" + t[1] if k == "pre" else t[1], want(t[2]))
    if k == "post":
        return ("post" + t[1], want(t[2]))
    if k == "sizeof":
        return ("sizeof", want(t[1]))
    if k == "sizeofT":
        return ("sizeof", TYPES[t[1]])
    if k == "call":
        return ("call", want(t[1]), tuple(want(x) for x in t[2]))
    if k == "idx":
        return ("[", want(t[1]), want(t[2]))
    if k == "mem":
        return (t[1], want(t[2]), t[3])
    raise ValueError(k)
