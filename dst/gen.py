"""Program generator and renderer.

A program is a JSON value (lists), so that scenarios can be stored, shrunk and
replayed. Expressions and statements are lists whose first item is the kind:

expressions   ["int",n] ["float",s] ["str",s] ["bool",b] ["var",name] ["sps"]
              ["bin",op,a,b] ["not",a] ["inc",name,"pre"|"post",+1|-1]
              ["call",name,[args]] ["idx",a,b] ["in",a,b,colon] ["neg",a]
              ["cmp",op,a,b] (case-insensitive) ["dot",a,name,[args]]
              ["slice",a,from|None,to|None,step|None,colons]
              ["chain",[operators],[operands]] (no parentheses: precedence decides)
statements    ["set",name,e] ["cset",name,op,e] ["expr",e] ["kw",name,[args]]
              ["if",c,body,[[c,body]..],else|None]
              ["for",var,["range",a,b,by|None],body] ["for",var,["in",e],body]
              ["while",c,body]
              ["select",many,desc,[[name,desc,image,isdefault]..],[[label,body]..],default|None]
              ["break"] ["continue"] ["cancel",e|None] ["return"]
              ["exec",prog,tail|["tail",x]|None] ["raw",text]
"""

from __future__ import annotations

import json
import random

ZERO_ARG = {
    "SelectAll", "DeSelectAll", "SelectAllPlugins", "DeSelectAllPlugins",
    "ResetAllPluginNames", "SelectAllEspms", "DeSelectAllEspms", "ResetAllEspmNames",
}


# --------------------------------------------------------------------- rendering

def lit(s: str, q: str = '"') -> str:
    out = []
    raw = len(s) % 2 == 1       # line ends and tabs as they are, or as escapes
    for ch in s:
        if raw and ch in "\n\r\t":
            out.append(ch)
        elif ch == "\\":
            out.append("\\\\")
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\t":
            out.append("\\t")
        elif ch == "\r":
            out.append("\\r")
        elif ch == q:
            out.append("\\x%02x" % ord(ch))
        else:
            out.append(ch)
    return q + "".join(out) + q


def rx(e) -> str:
    k = e[0]
    if k == "int":
        return str(e[1]) if e[1] >= 0 else "(-%d)" % -e[1]
    if k == "float":
        return e[1]
    if k == "str":
        return lit(e[1], e[2] if len(e) > 2 else '"')
    if k == "badlit":
        return e[1]
    if k == "lit":          # a literal given as source text, value known
        return e[1]
    if k == "bool":
        return "True" if e[1] else "False"
    if k == "var":
        return e[1]
    if k == "sps":
        return "SubPackages"
    if k == "bin":
        return "(%s %s %s)" % (rx(e[2]), e[1], rx(e[3]))
    if k == "not":
        return "(%s %s)" % (e[2] if len(e) > 2 else "not", rx(e[1]))
    if k == "inc":
        op = "++" if e[3] > 0 else "--"
        return ("(%s%s)" % (op, e[1])) if e[2] == "pre" else ("(%s%s)" % (e[1], op))
    if k == "call":
        return "%s(%s)" % (e[1], ", ".join(rx(a) for a in e[2]))
    if k == "idx":
        return "%s[%s]" % (rx(e[1]), rx(e[2]))
    if k == "in":
        return "(%s in %s%s)" % (rx(e[1]), rx(e[2]), ":" if e[3] else "")
    if k == "neg":
        return "(-%s)" % rx(e[1])
    if k == "cmp":
        return "(%s %s: %s)" % (rx(e[2]), e[1], rx(e[3]))
    if k == "dot":
        return "%s.%s(%s)" % (rx(e[1]), e[2], ", ".join(rx(a) for a in e[3]))
    if k == "slice":
        t = (rx(e[2]) if e[2] is not None else "") + ":" + (rx(e[3]) if e[3] is not None else "")
        if e[5] > 1 or e[4] is not None:
            t += ":" + (rx(e[4]) if e[4] is not None else "")
        return "%s[%s]" % (rx(e[1]), t)
    if k == "chain":
        t = rx(e[2][0])
        for op, a in zip(e[1], e[2][1:]):
            t += " %s %s" % (op, rx(a))
        return "(%s)" % t
    raise ValueError(e)


def strip(s: str) -> str:
    """Outermost parentheses are not needed (and can hurt) at top level."""
    if s.startswith("(") and s.endswith(")"):
        depth = 0
        inq = None
        i = 0
        while i < len(s):
            ch = s[i]
            if inq:
                if ch == "\\":
                    i += 1
                elif ch == inq:
                    inq = None
            elif ch in "\"'":
                inq = ch
            elif ch == "(":
                depth += 1
            elif ch == ")":
                depth -= 1
                if depth == 0 and i != len(s) - 1:
                    return s
            i += 1
        return s[1:-1]
    return s


def rs(st, ind: str, out: list[str]) -> None:
    k = st[0]
    nx = ind + "  "
    if k == "set":
        out.append("%s%s = %s" % (ind, st[1], rx(st[2])))
    elif k == "cset":
        out.append("%s%s %s %s" % (ind, st[1], st[2], rx(st[3])))
    elif k == "expr":
        e = st[1]
        if e[0] == "inc":
            out.append("%s%s%s" % (ind, e[1], "++" if e[3] > 0 else "--"))
        else:
            out.append(ind + rx(e))
    elif k == "kw":
        out.append(ind + (st[1] + " " + ", ".join(rx(a) for a in st[2])).rstrip())
    elif k == "if":
        out.append("%sIf %s" % (ind, rx(st[1])))
        rbody(st[2], nx, out)
        for c, b in st[3]:
            out.append("%sElif %s" % (ind, rx(c)))
            rbody(b, nx, out)
        if st[4] is not None:
            out.append("%sElse" % ind)
            rbody(st[4], nx, out)
        out.append("%sEndIf" % ind)
    elif k == "for":
        h = st[2]
        if h[0] == "range":
            t = "from %s to %s" % (rx(h[1]), rx(h[2]))
            if h[3] is not None:
                t += " by %s" % rx(h[3])
        else:
            t = "in %s" % rx(h[1])
        out.append("%sFor %s %s" % (ind, st[1], t))
        rbody(st[3], nx, out)
        out.append("%sEndFor" % ind)
    elif k == "while":
        out.append("%sWhile %s" % (ind, rx(st[1])))
        rbody(st[2], nx, out)
        out.append("%sEndWhile" % ind)
    elif k == "select":
        parts = [rx(st[2])]
        for name, desc, image, isdef in st[3]:
            nm = name
            if isdef:
                if nm[0] == "str":
                    nm = ["str", "|" + nm[1]] + nm[2:]
                else:
                    nm = ["bin", "+", ["str", "|"], nm]
            parts += [rx(nm), rx(desc), rx(image)]
        out.append("%s%s %s" % (ind, "SelectMany" if st[1] else "SelectOne", ", ".join(parts)))
        for label, body in st[4]:
            out.append("%sCase %s" % (nx, rx(label)))
            rbody(body, nx + "  ", out)
        if st[5] is not None:
            out.append("%sDefault" % nx)
            rbody(st[5], nx + "  ", out)
        out.append("%sEndSelect" % ind)
    elif k == "break":
        out.append(ind + "Break")
    elif k == "continue":
        out.append(ind + "Continue")
    elif k == "cancel":
        out.append(ind + ("Cancel" if st[1] is None else "Cancel " + rx(st[1])))
    elif k == "return":
        out.append(ind + "Return")
    elif k == "exec":
        out.append("%sExec(%s)" % (ind, rx(exec_arg(st, render(st[1])))))
    elif k == "raw":
        out.append(ind + st[1])
    else:
        raise ValueError(st)


def exec_arg(st, text):
    """The argument of an Exec; its text may end with a number that is known only then."""
    if st[2] is None:
        return ["str", text]
    last = "\n; "
    x = st[2]
    if x[0] == "tail":
        x = x[1]
        if writes(st):
            last = "\ne0 = "
    return ["bin", "+", ["str", text + last], ["call", "str", [x]]]


def writes(st):
    """Does the Exec end with an assignment to e0?"""
    return st[2] is not None and st[2][0] == "tail" and not any(s[0] == "raw" for b in bodies(st[1]) for s in b)


def rbody(body, ind, out):
    for st in body:
        rs(st, ind, out)


def render(prog) -> str:
    out: list[str] = []
    rbody(prog, "", out)
    return "\n".join(out) + ("\n" if out else "")


def norm(prog):
    """Normal form: no bare expression where the grammar would take it as an argument
    of the statement before it, no missing case, ..."""
    res = []
    for st in prog:
        k = st[0]
        if k in ("expr", "exec", "raw"):
            prev = res[-1] if res else None
            if prev is not None and (
                (prev[0] == "kw" and not prev[2]) or (prev[0] == "cancel" and prev[1] is None)
                or prev[0] == "raw"
            ):
                if k == "expr":
                    st = ["set", "m", st[1]]
                else:
                    res.append(["set", "m", ["int", 0]])
        if k == "expr":
            pass
        elif k == "if":
            st = ["if", st[1], norm(st[2]), [[c, norm(b)] for c, b in st[3]],
                  None if st[4] is None else norm(st[4])]
        elif k == "for":
            st = ["for", st[1], st[2], norm(st[3])]
        elif k == "while":
            st = ["while", st[1], norm(st[2])]
        elif k == "select":
            cases = [[l, norm(b)] for l, b in st[4]]
            dflt = None if st[5] is None else norm(st[5])
            if not cases and dflt is None:
                cases = [[["str", "A"], []]]
            st = ["select", st[1], st[2], st[3], cases, dflt]
        elif k == "exec":
            st = ["exec", norm(st[1]), st[2]]
        res.append(st)
    return res


def bodies(prog):
    """Yield every statement list of a program (to walk or edit it)."""
    yield prog
    for st in prog:
        k = st[0]
        if k == "if":
            yield from bodies(st[2])
            for _c, b in st[3]:
                yield from bodies(b)
            if st[4] is not None:
                yield from bodies(st[4])
        elif k == "for":
            yield from bodies(st[3])
        elif k == "while":
            yield from bodies(st[2])
        elif k == "select":
            for _l, b in st[4]:
                yield from bodies(b)
            if st[5] is not None:
                yield from bodies(st[5])
        elif k == "exec":
            yield from bodies(st[1])


# -------------------------------------------------------------------- generation

#: features with their default weights; a swarm configuration picks a subset
FEATURES = {
    "if": 3, "for": 2, "while": 1, "select": 3, "exec": 1, "break": 1, "continue": 1,
    "cancel": 0.6, "return": 0.6, "selkw": 4, "rename": 2, "note": 3, "ini": 2,
    "query": 5, "require": 1, "inc": 1, "assign": 3, "unset": 0.4, "badtype": 0.3,
    "unicode": 1, "missing": 0.4, "multidef": 0.4, "notenonstr": 0.4, "loopsp": 1,
    "sidefx": 1.5, "badcall": 0.2, "rich": 1, "flag": 0.8, "types": 0.6,
}

TEXTS = ["a", "b c", "x;y", "end", "If", "1.2", "", "\u00e9", "\u20ac1", "na\u00efve \u4e2d",
         "ls\u2028nel\x85", "q'q", 'd"d', "back\\slash", "tab\there", "line\nbreak", "cr\r\nlf", "lone\rcr\x0b", "|bar", "\u00df\u0130", "\U0001f600"]

PLAIN = ["a", "b c", "x;y", "end", "If", "1.2", ""]


def calls(e):
    """Whether an expression, or a list of them, has something that may not be there a second time."""
    return isinstance(e, list) and (bool(e) and e[0] in ("call", "inc", "var", "dot") or any(calls(x) for x in e))


class Gen:
    def __init__(self, rng: random.Random, feats: dict[str, float], layout=None,
                 size: int = 14, depth: int = 3):
        self.r = rng
        self.f = feats
        self.layout = layout or []
        self.size = size
        self.maxdepth = depth
        self.nmark = 0
        self.inis = []                   # the edits so far
        self.nloop = 0
        self.vars: list[str] = []        # integer variables surely set at top level
        self.loops = 0                   # enclosing loops
        self.cases = 0

    def has(self, f: str) -> bool:
        return self.f.get(f, 0) > 0

    def chance(self, f: str, p: float) -> bool:
        return self.has(f) and self.r.random() < p

    def mark(self) -> str:
        self.nmark += 1
        return "m%d" % self.nmark

    # ---- expressions
    def text(self):
        pool = TEXTS if self.has("unicode") else PLAIN
        t = self.r.choice(pool)
        if self.r.random() < 0.5:
            t += self.mark()
        t = self.pad(t)
        if self.r.random() < 0.01:
            t = t + "0123456789abcdef" * self.r.choice([5, 20, 300])
        q = '"' if self.r.random() < 0.8 else "'"
        return ["str", t, q]

    def pad(self, t):
        """Now and then with what a careless reader would strip, join or fold."""
        r = self.r
        if r.random() > 0.1:
            return t
        return r.choice([" %s", "%s ", " %s ", "[%s]", "%s.", "../%s", "%s/", "\\%s", "a//%s", "%s;c", "; %s", "%%%s",
                         "%s=1", "A%sZ", "%s\t", "%s\n", "%s\r\n", "\n%s"]) % t

    def arg(self, pre=""):
        return ["str", self.pad(pre + self.mark())]

    def query_str(self):
        q = ["call", self.r.choice(["GetFilename", "GetFolder"]), [self.arg()]]
        return q if self.r.random() < 0.93 else ["bin", "+", q, json.loads(json.dumps(q))]

    def query_int(self):
        q = self.one_query()
        # sometimes the same twice
        return q if self.r.random() < 0.93 else ["bin", "+", q, json.loads(json.dumps(q))]

    def one_query(self):
        r = self.r
        c = r.randrange(7)
        if c < 4:
            f = ["CompareGameVersion", "CompareSEVersion", "CompareGEVersion", "CompareWBVersion"][c]
            return ["call", f, [self.arg("1.")]]
        if c == 4:
            return ["call", r.choice(["GetPluginStatus", "GetEspmStatus"]), [self.arg()]]
        if c == 5:
            return ["call", "GetPluginLoadOrder", [self.arg()]]
        return ["call", "GetPluginLoadOrder", [self.arg(), self.int_expr(0)]]

    def query_bool(self):
        n = self.r.choice([1, 1, 2, 3])
        args = [self.arg() for _ in range(n)]
        if n > 1 and self.r.random() < 0.3:
            args[-1] = args[0]
        return ["call", "DataFileExists", args]

    def var(self):
        if self.vars:
            return self.r.choice(self.vars)
        return None

    def int_expr(self, d: int = 1):
        r = self.r
        c = r.random()
        v = self.var()
        if self.chance("unset", 0.04):
            return ["var", "u%d" % r.randrange(3)]
        if d >= 0 and self.chance("rich", 0.15):
            return self.rich_int(d)
        if v and self.chance("sidefx", 0.15):
            return ["inc", v, r.choice(["pre", "post"]), r.choice([1, 1, -1])]
        if self.chance("query", 0.25):
            return self.query_int()
        if v and c < 0.5:
            return ["var", v]
        if d > 0 and c < 0.75:
            if r.random() < 0.3:
                return ["bin", "*", self.int_expr(d - 1), ["int", r.randrange(4)]]
            return ["bin", r.choice(["+", "-"]), self.int_expr(d - 1), self.int_expr(d - 1)]
        return ["int", r.randrange(0, 6)]

    def str_expr(self, d: int = 1):
        r = self.r
        c = r.random()
        if self.chance("rich", 0.2):
            return self.rich_str(d)
        if self.chance("query", 0.2):
            return self.query_str()
        if c < 0.25:
            return ["call", "str", [self.int_expr(0)]]
        if d > 0 and c < 0.45:
            return ["bin", "+", self.str_expr(d - 1), self.str_expr(d - 1)]
        return self.text()

    def cond(self, d: int = 1):
        r = self.r
        c = r.random()
        if d >= 0 and self.chance("rich", 0.25):
            return self.rich_bool(d)
        if self.chance("query", 0.4):
            if r.random() < 0.5:
                return self.query_bool()
            return ["bin", r.choice(["==", ">", "<=", "!="]), self.query_int(), ["int", r.randrange(-1, 2)]]
        if d > 0 and c < 0.2:
            return ["bin", r.choice(["and", "or"]), self.cond(d - 1), self.cond(d - 1)]
        if d > 0 and c < 0.3:
            return ["not", self.cond(d - 1), r.choice(["not", "not", "!"])]
        if c < 0.4:
            return ["bool", r.random() < 0.6]
        if c < 0.5 and self.layout:
            return ["in", ["str", self.pick_sp()], ["sps"], r.random() < 0.5]
        return ["bin", r.choice(["==", "!=", "<", ">", "<=", ">="]), self.int_expr(0), self.int_expr(0)]

    # less common forms; the operands are made so that the order and the number of
    # their evaluations show
    def small(self):
        """An integer, often with an effect"""
        r = self.r
        v = self.var()
        c = r.random()
        if v and self.has("sidefx") and c < 0.35:
            return ["inc", v, r.choice(["pre", "post"]), r.choice([1, 1, -1])]
        if self.has("query") and c < 0.5:
            return self.query_int()
        if v and c < 0.6:
            return ["var", v]
        return ["int", r.randrange(0, 5)]

    def word(self):
        """A string, often with an effect"""
        r = self.r
        v = self.var()
        c = r.random()
        if self.has("query") and c < 0.35:
            return self.query_str()
        if v and self.has("sidefx") and c < 0.6:
            return ["call", "str", [["inc", v, r.choice(["pre", "post"]), 1]]]
        if c < 0.7 and v:
            return ["call", "str", [["var", v]]]
        return ["str", r.choice(["aBcabC", "F0", "x", "", "Core.esp"])]

    def rich_int(self, d):
        r = self.r
        c = r.randrange(9)
        if c == 0:
            return ["neg", self.small()]
        if c == 1:
            return ["bin", "%", self.small(), ["int", r.randrange(1, 5)]]
        if c == 2:
            return ["bin", "^", ["int", r.randrange(0, 4)], ["int", r.randrange(0, 4)]]
        if c == 3:
            return ["call", "int", [["str", r.choice(["12", "-3", " 4 ", "07"])]]]
        if c == 4:
            return ["call", r.choice(["find", "rfind"]),
                    [self.word(), self.word()] + [self.small() for _ in range(r.choice([0, 0, 1, 2]))]]
        if c == 5:
            return ["dot", self.word(), r.choice(["find", "rfind"]),
                    [self.word()] + [self.small() for _ in range(r.choice([0, 0, 1, 2]))]]
        if c == 6:
            return ["dot", self.word(), "len", []]
        if c == 7:
            return ["call", "len", [self.word()]]
        n = r.randint(2, 4)
        return ["chain", [r.choice(["+", "-", "*"]) for _ in range(n - 1)],
                [self.small() for _ in range(n)]]

    def rich_str(self, d):
        r = self.r
        c = r.randrange(7)
        if c < 3:
            part = [self.small() if r.random() < 0.6 else None for _ in range(3)]
            if part[2] is not None and (r.random() < 0.7 or not self.has("badtype")):
                part[2] = ["int", r.choice([1, 2, -1])] if r.random() < 0.8 or not self.has("badtype") else part[2]
            return ["slice", self.word(), part[0], part[1], part[2], r.choice([1, 2])]
        if c == 3:
            return ["dot", self.word(), "lower", []]
        if c == 4:
            return ["dot", ["call", "len", [self.word()]], "str", []]
        if c == 5:
            return ["idx", ["bin", "+", self.word(), ["str", "abcdefgh"]], ["bin", "%", self.small(), ["int", 3]]]
        n = r.randint(2, 4)
        return ["chain", ["+"] * (n - 1), [self.word() for _ in range(n)]]

    def rich_bool(self, d):
        r = self.r
        c = r.randrange(8)
        if c == 0:
            return ["cmp", r.choice(["==", "!=", "<", ">", "<=", ">="]), self.word(), self.word()]
        if c == 1:
            return ["bin", r.choice(["==", "!=", "<", ">", "<=", ">="]), self.word(), self.word()]
        if c == 2:
            return ["call", r.choice(["startswith", "endswith"]),
                    [self.word()] + [self.word() for _ in range(r.choice([0, 1, 2, 3]))]]
        if c == 3:
            return ["dot", self.word(), r.choice(["startswith", "endswith"]),
                    [self.word() for _ in range(r.choice([0, 1, 2, 3]))]]
        if c == 4 and self.layout:
            return ["in", self.word(), ["sps"], r.random() < 0.5]
        if c == 5 and self.layout:
            return ["in", self.word(), ["idx", ["sps"], ["bin", "*", self.small(), ["int", 0]]], r.random() < 0.5]
        if c == 6:
            return ["bin", r.choice(["and", "or", "&", "|"]),
                    ["bin", r.choice(["==", "<"]), self.small(), self.small()],
                    ["bin", r.choice(["!=", ">"]), self.small(), self.small()]]
        return ["chain", [r.choice(["+", "-"]), r.choice(["<", ">", "==", "!="]), r.choice(["and", "or", "&", "|"])],
                [self.small(), self.small(), self.small(), ["bin", "==", self.small(), self.small()]]]

    def bad(self):
        """An expression that fails when evaluated."""
        r = self.r
        return r.choice([
            ["bin", "-", ["str", "s"], ["int", 1]],
            ["bin", "+", ["str", "s"], ["int", 1]],
            ["idx", ["str", "abc"], ["int", 7]],
            ["idx", ["str", "abc"], ["str", "z"]],
            ["bin", "<", ["str", "s"], ["int", 1]],
            ["call", "noSuchFunction", [["int", 1]]],
            ["bin", "/", ["int", 1], ["int", 0]],
            ["inc", "neverset", "post", r.choice([1, -1])],
            ["inc", "neverset", "pre", r.choice([1, -1])],
            ["bin", "+", ["inc", "neverset", "pre", r.choice([1, -1])], ["int", 1]],
            ["call", "str", []],
            ["neg", ["str", "s"]],
            ["cmp", "==", ["str", "s"], ["int", 1]],
            ["dot", ["str", "s"], "noSuchMethod", []],
            ["dot", ["int", 3], "lower", []],
            ["slice", ["str", "abc"], ["int", 0], ["int", 1], ["int", 0], 2],
            ["slice", ["str", "abc"], ["str", "a"], None, None, 1],
            ["call", "find", [["str", "a"]]],
            ["call", "int", [["str", "x1"]]],
            ["in", ["int", 1], ["sps"], False],
            ["in", ["str", "a"], ["str", "abc"], False],
            ["bin", "%", ["int", 1], ["int", 0]],
            ["bin", "^", ["str", "a"], ["int", 2]],
            ["bin", "*", ["str", "a"], ["int", 2]],
            ["bin", "/", ["str", "a"], ["int", 2]],
            ["bin", "%", ["str", "a"], ["int", 2]],
            ["bin", ">=", ["int", 1], ["str", "s"]],
            ["bin", "<=", ["sps"], ["int", 1]],
            ["call", "Exec", [["str", "v0 = 1"]]],
            ["call", "EndExec", [["int", 1]]],
            ["badlit", "'\\x'"],
            ["badlit", '"\\u12"'],
            ["idx", ["sps"], ["int", 99]],
            ["idx", ["int", 12], ["int", 0]],
            ["slice", ["int", 12], ["int", 0], None, None, 1],
        ])

    def badcall(self):
        r = self.r
        return r.choice([
            ["call", "GetFilename", []],
            ["call", "GetFilename", [["str", "a"], ["str", "b"]]],
            ["call", "GetFilename", [["int", 3]]],
            ["call", "CompareGameVersion", [["int", 3]]],
            ["call", "DataFileExists", []],
            ["call", "DataFileExists", [["str", "a"], ["int", 1]]],
            ["call", "GetPluginLoadOrder", [["str", "a"], ["str", "b"]]],
            ["call", "GetPluginLoadOrder", [["str", "a"], ["int", 1], ["int", 2]]],
            ["call", "GetPluginStatus", [["bool", True]]],
            ["call", "GetFolder", [["str", "a"], ["int", 2]]],
        ])

    # ---- names
    def case_variant(self, s: str) -> str:
        c = self.r.random()
        if c < 0.55:
            return s
        if c < 0.7:
            return s.upper()
        if c < 0.82:
            return s.lower()
        if c < 0.9:
            return s.casefold()
        return s.swapcase()

    def pick_sp(self) -> str:
        if self.chance("missing", 0.12) or not self.layout:
            if self.layout and self.r.random() < 0.4:
                n = self.r.choice(self.layout)[0]
                return self.r.choice([n + " ", n[:-1], n[1:], " " + n])
            return self.r.choice(["Nope", "missing pkg"])
        return self.case_variant(self.r.choice(self.layout)[0])

    def pick_pg(self) -> str:
        from .layout import plugins_of
        pgs = [p for name, files in self.layout for p in plugins_of(files)]
        if self.chance("missing", 0.12) or not pgs:
            return self.r.choice(["nope.esp", "gone.esm"])
        if self.chance("missing", 0.08):
            # near misses
            p = self.r.choice(pgs)
            q = self.r.choice([f for _n, files in self.layout for f in files])
            return self.r.choice([p[:-4], p + " ", q, p[:-1], p[1:], p.replace(".", "_")])
        return self.case_variant(self.r.choice(pgs))

    def name_expr(self, s: str):
        return self.fx(["str", s])

    # ---- statements
    def stmt(self, d: int):
        r = self.r
        kinds, weights = [], []
        for k, w in self.f.items():
            if w <= 0:
                continue
            if k in ("unicode", "missing", "multidef", "notenonstr", "sidefx", "unset", "rich"):
                continue
            if k in ("if", "for", "while", "select", "exec", "loopsp", "flag") and d <= 0:
                continue
            if k == "break" and not (self.loops or self.cases):
                continue
            if k == "continue" and not self.loops:
                continue
            if k == "loopsp" and not self.layout:
                continue
            kinds.append(k)
            weights.append(w)
        if not kinds:
            return ["set", "m", ["int", 0]]
        k = r.choices(kinds, weights)[0]
        self.size -= 1
        return getattr(self, "s_" + k)(d)

    def body(self, d: int, lo: int = 0, hi: int = 3):
        n = self.r.randint(lo, hi)
        res = []
        for _ in range(n):
            if self.size <= 0:
                break
            st = self.stmt(d)
            if st and st[0] == "seq":
                res.extend(st[1])
            else:
                res.append(st)
        return res

    def s_assign(self, d):
        r = self.r
        c = r.random()
        if c < 0.6 or not self.vars:
            name = r.choice(["v0", "v1", "v2", "v3"])
            if r.random() < 0.05:
                # another variable
                name = r.choice(["V0", "v00", "_v0", "v0x", "Note1", "SelectAllX", "IfX", "inner", "x1", "nota"])
                st = ["set", name, self.int_expr()]
                self.vars.append(name)
                return st
            return ["set", name, self.int_expr()]
        if c < 0.8:
            if r.random() < 0.2:
                return ["cset", self.var(), "*=", ["int", r.randrange(4)]]
            return ["cset", self.var(), r.choice(["+=", "-="]), self.int_expr(0)]
        return ["set", r.choice(["s0", "s1"]), self.str_expr()]

    def s_inc(self, d):
        v = self.var()
        if not v:
            return self.s_assign(d)
        return ["expr", ["inc", v, "post", self.r.choice([1, 1, -1])]]

    def s_query(self, d):
        r = self.r
        c = r.random()
        if c < 0.5:
            return ["set", "m", self.query_str()]
        if c < 0.7:
            return ["expr", self.one_query()]
        if c < 0.85:
            return ["set", "m", self.query_bool()]
        return ["set", "m", ["bin", "+", self.query_str(), self.query_str()]]

    def s_require(self, d):
        n = self.r.choice([1, 2, 3, 4, 4])
        args = [self.arg("1.")]
        for _ in range(n - 1):
            args.append(self.r.choice([["str", ""], ["str", "2." + self.mark()]]))
        if self.vars and self.chance("sidefx", 0.4):
            args[0] = ["bin", "+", ["str", "v"], ["call", "str", [["inc", self.var(), "post", 1]]]]
        elif self.chance("query", 0.3):
            args[0] = self.query_str()
        if self.chance("badcall", 0.15):
            args = [] if self.r.random() < 0.4 else (args + [["str", "z"]] * 5)[:5]
        return ["kw", "RequireVersions", args]

    def s_note(self, d):
        if self.chance("notenonstr", 0.15):
            e = self.r.choice([["int", 3], ["bool", True], self.int_expr(0)])
        else:
            e = self.str_expr()
        return ["kw", "Note", [e]]

    def s_ini(self, d):
        r = self.r
        if self.inis and r.random() < 0.25:
            # the same edit again, with or without another comment
            args = r.choice(self.inis)
            if len(args) == 3:
                return ["expr", ["call", "DisableINILine", list(args)]]
            args = args[:4] + [r.choice([[], [self.text()], [["str", "c" + self.mark()]]]), args[4:]][r.random() < 0.3]
            return ["expr", ["call", "EditINI", args]]
        st = self.one_ini()
        if not calls(st[1][2]):
            self.inis.append(st[1][2])
        return st

    def one_ini(self):
        r = self.r
        f = ["str", r.choice(["Oblivion.ini", "oblivion.INI", "a.ini", "dir\\b.ini", "\u00e9.ini" if self.has("unicode") else "c.ini"])]
        s = ["str", self.pad(r.choice(["General", "Display", "gen", "general"]))]
        f[1] = self.pad(f[1])
        # settings edited once, and settings edited again and again
        k = ["str", "b" + self.mark() if r.random() < 0.5 else r.choice(["bKey", "bkey", "iKey"])]
        k[1] = self.pad(k[1])
        f, s, k = self.fx(f), self.fx(s), self.fx(k)
        if r.random() < 0.4:
            return ["expr", ["call", "DisableINILine", [f, s, k]]]
        v = r.choice([self.int_expr(0), self.str_expr(0), ["bool", True], ["float", "1.5"], ["int", 1], ["int", 1],
                      ["bool", r.random() < 0.5], ["float", "1.0"], ["str", "1"]])
        args = [f, s, k, v]
        if r.random() < 0.5:
            args.append(self.fx(self.text()))
        return ["expr", ["call", "EditINI", args]]

    def fx(self, e):
        """Now and then an effect or a query that leaves the string alone."""
        r = self.r
        c = r.random()
        if c < 0.1 and self.vars and self.has("sidefx"):
            return ["bin", "+", e, ["slice", ["call", "str", [["inc", self.var(), r.choice(["pre", "post"]), 1]]],
                                    ["int", 9], None, None, 1]]
        if c < 0.18 and self.has("query"):
            return ["bin", "+", e, ["slice", self.query_str(), ["int", 99], None, None, 1]]
        return e

    def s_selkw(self, d):
        r = self.r
        c = r.random()
        esp = r.random() < 0.2
        if c < 0.28:
            return ["kw", "SelectSubPackage", [self.name_expr(self.pick_sp())]]
        if c < 0.42:
            return ["kw", "DeSelectSubPackage", [self.name_expr(self.pick_sp())]]
        if c < 0.60:
            return ["kw", "SelectEspm" if esp else "SelectPlugin", [self.name_expr(self.pick_pg())]]
        if c < 0.78:
            return ["kw", "DeSelectEspm" if esp else "DeSelectPlugin", [self.name_expr(self.pick_pg())]]
        if c < 0.83:
            return ["kw", "SelectAll", []]
        if c < 0.88:
            return ["kw", "DeSelectAll", []]
        if c < 0.94:
            return ["kw", "SelectAllEspms" if esp else "SelectAllPlugins", []]
        return ["kw", "DeSelectAllEspms" if esp else "DeSelectAllPlugins", []]

    def s_rename(self, d):
        r = self.r
        c = r.random()
        esp = r.random() < 0.2
        if c < 0.6:
            new = ["str", self.pad("new" + self.mark() + ".esp")]
            if self.chance("query", 0.3):
                new = self.query_str()
            old = self.pick_pg()
            if r.random() < 0.15:
                # another case, the same name or that of another plugin
                new = ["str", r.choice([old.swapcase(), old, old.upper(), self.pick_pg()])]
            return ["kw", "RenameEspm" if esp else "RenamePlugin", [self.name_expr(old), self.fx(new)]]
        if c < 0.93:
            return ["kw", "ResetEspmName" if esp else "ResetPluginName", [self.name_expr(self.pick_pg())]]
        return ["kw", "ResetAllEspmNames" if esp else "ResetAllPluginNames", []]

    def s_if(self, d):
        r = self.r
        elifs = [[self.cond(), self.body(d - 1)] for _ in range(r.choice([0, 0, 0, 1, 2]) if r.random() < 0.96 else 5)]
        els = self.body(d - 1) if r.random() < 0.5 else None
        return ["if", self.cond(), self.body(d - 1, 1), elifs, els]

    def s_for(self, d):
        r = self.r
        self.nloop += 1
        v = r.choice(["i", "j", "k%d" % self.nloop])
        a, b = ["int", r.randrange(0, 4)], ["int", r.randrange(0, 5) if r.random() < 0.95 else r.randrange(8, 20)]
        by = None
        c = r.random()
        if c < 0.25:
            by = ["int", r.choice([2, 3, -1, -2, 1])]
        if self.chance("sidefx", 0.2) and self.vars:
            a = ["bin", "*", ["inc", self.var(), "post", 1], ["int", 0]]
        if self.chance("query", 0.2):
            b = ["bin", "+", ["int", 2], ["call", "CompareGameVersion", [self.arg()]]]
        self.loops += 1
        body = self.body(d - 1, 1)
        self.loops -= 1
        return ["for", v, ["range", a, b, by], body]

    def s_loopsp(self, d):
        r = self.r
        self.nloop += 1
        self.loops += 1
        c = r.random()
        if c < 0.5:
            v = "sp"
            h = ["in", ["sps"]]
            body = self.body(d - 1, 0, 2)
            if self.has("selkw") and r.random() < 0.4:
                body.append(["kw", "SelectSubPackage", [["var", v]]])
        elif c < 0.8:
            v = "fl"
            h = ["in", ["idx", ["sps"], ["int", r.randrange(len(self.layout))]]]
            body = self.body(d - 1, 0, 2)
        else:
            v = "ch"
            h = ["in", ["str", r.choice(["ab", "xyz", "", "a b", " ", "aaB", "\u00e9\ufb01x", "-1\t"])]]
            if self.chance("query", 0.3):
                h = ["in", self.query_str()]
            body = self.body(d - 1, 0, 2)
        self.loops -= 1
        return ["for", v, h, body]

    def s_while(self, d):
        r = self.r
        self.nloop += 1
        w = "w%d" % self.nloop
        n = r.randrange(1, 4) if r.random() < 0.95 else 12
        self.loops += 1
        body = self.body(d - 1, 0, 3)
        self.loops -= 1
        init = ["set", w, ["int", 0]]
        if r.random() < 0.5:
            c = ["bin", "<=", ["inc", w, "post", 1], ["int", n]]
            loop = ["while", c, body]
        else:
            c = ["bin", "<", ["var", w], ["int", n]]
            if self.chance("query", 0.3):
                c = ["bin", "and", c, self.query_bool()]
            loop = ["while", c, [["cset", w, "+=", ["int", 1]]] + body]
        return ["seq", [init, loop]]

    def s_select(self, d):
        r = self.r
        many = r.random() < 0.5
        n = r.randint(1, 4) if r.random() < 0.95 else r.randint(5, 13)
        names = []
        for i in range(n):
            if self.has("unicode") and r.random() < 0.15:
                names.append("\u00c9%d" % i)
            else:
                names.append(r.choice(["Opt", "opt", "Choice "]) + "ABCDEFGHIJKLM"[i])
            if i and r.random() < 0.12:
                # names that differ in case, blanks or a bar only
                nm = names[r.randrange(i)]
                names[i] = r.choice([nm.swapcase(), nm + " ", " " + nm, "|" + nm, nm.lower(), nm[:-1], nm + "\n",
                                    nm + "\r\n", "\n" + nm, nm + "\t", nm + "x" * 70, nm.replace("\u00c9", "E\u0301")])
        if n > 1 and r.random() < 0.06:
            names[1] = names[0]
        opts = []
        ndef = 0
        for nm in names:
            isdef = r.random() < (0.35 if (many or ndef == 0 or self.chance("multidef", 0.3)) else 0)
            ndef += isdef
            img = ["str", r.choice(["", "", " ", "img\\a.png", " b.png ", "C D.PNG"])]
            desc = self.text()
            if r.random() < 0.15:
                desc = self.str_expr(0)
            ne = ["str", nm]
            if nm.startswith("|") and not isdef and r.random() < 0.5:
                ne = ["bin", "+", ["str", "|"], ["str", nm[1:]]]
            if self.chance("rich", 0.1):
                # a name only known when the dialog is put
                ne = r.choice([self.word(), self.query_str(), ["var", "s0"]]) if self.has("query") else self.word()
            if self.chance("rich", 0.1):
                desc = ["bin", "+", ["str", r.choice([" ", "\t", "d "])], self.word()]
            if self.chance("rich", 0.06):
                img = self.word()
            opts.append([ne, desc, img, bool(isdef)])
        desc = self.text() if r.random() < 0.7 else self.str_expr()
        if self.vars and self.chance("sidefx", 0.2):
            desc = ["bin", "+", ["str", "d"], ["call", "str", [["inc", self.var(), "post", 1]]]]
        cases = []
        labels = list(names)
        if r.random() < 0.4:
            r.shuffle(labels)
        if r.random() < 0.2:
            labels = labels[:-1]
        if r.random() < 0.15:
            labels.append("unlisted")
        if labels and r.random() < 0.08:
            labels.append(labels[0])
        self.cases += 1
        saved = self.loops
        for lb in labels:
            le = ["str", lb]
            if self.chance("rich", 0.08):
                le = r.choice([self.word(), ["var", "s0"]])
            if r.random() < 0.1 and self.has("query"):
                le = ["bin", "+", ["str", lb], ["call", "lower", [["str", ""]]]]
            b = self.body(d - 1, 0, 2)
            if r.random() < 0.7 or not self.has("nobreak_ok"):
                if r.random() < 0.75:
                    b = b + [["break"]]
            cases.append([le, b])
        dflt = None
        if r.random() < 0.5 or not cases:
            dflt = self.body(d - 1, 0, 2)
            if r.random() < 0.5:
                dflt = dflt + [["break"]]
        self.cases -= 1
        self.loops = saved
        if self.has("badtype") and r.random() < 0.05:
            # one part of the dialog that is no string
            bad = r.choice([["int", 3], ["bool", True], ["float", "1.5"]])
            k = r.randrange(5)
            if k < 3:
                opts[r.randrange(len(opts))][[0, 1, 2][k]] = bad
            elif k == 3:
                desc = bad
            elif cases:
                cases[r.randrange(len(cases))][0] = bad
        return ["select", many, desc, opts, cases, dflt]

    def s_exec(self, d):
        sub = self.body(d - 1, 0, 3)
        tail = None
        c = self.r.random()
        if c < 0.5:
            tail = self.int_expr(0)
            if c < 0.3:
                tail = ["tail", tail]
        return ["exec", sub, tail]

    def s_break(self, d):
        return ["break"]

    def s_continue(self, d):
        return ["continue"]

    def s_cancel(self, d):
        r = self.r
        c = r.random()
        if c < 0.4:
            return ["cancel", None]
        if self.has("rich") and r.random() < 0.5:
            return ["cancel", self.word()]
        return ["cancel", self.str_expr(0)]

    def s_return(self, d):
        return ["return"]

    def s_badtype(self, d):
        r = self.r
        if self.vars and self.has("sidefx") and r.random() < 0.4:
            return self.bad_fx()
        if r.random() < 0.2:
            c = [["expr", ["call", "Exec", r.choice([[], [["str", "v0 = 1"], ["str", "v1 = 2"]], [["int", 3]]])]],
                 ["for", "fx", ["in", ["int", 3]], [["set", "m", ["int", 1]]]],
                 ["for", "fx", ["range", ["float", "0.5"], ["int", 3], None], [["set", "m", ["int", 1]]]],
                 ["for", "fx", ["range", ["int", 0], ["int", 3], ["int", 0]], [["set", "m", ["int", 1]]]]]
            A, o = ["str", "A"], r.choice([["int", 3], ["bool", True], ["float", "0.5"]])
            many, desc, opt, case = r.random() < 0.5, A, [A, A, A, False], A
            k = r.randrange(5)
            if k < 3:
                opt = opt[:k] + [o] + opt[k + 1:]
            elif k == 3:
                desc = o
            else:
                case = o
            c.append(["select", many, desc, [opt, [["str", "Z"], A, A, True]],
                      [[case, [["set", "m", ["int", 1]]]]], None])
            c.append(["kw", r.choice(["Note", "SelectPlugin", "DeSelectSubPackage", "SelectSubPackage", "ResetPluginName",
                                      "RenamePlugin", "RequireVersions", "DeSelectEspm"]), []])
            c.append(["kw", "RenamePlugin", [["str", "a.esp"]]])
            if not self.loops:
                c += [["continue"]] * 2
                if not self.cases:
                    c += [["break"]] * 2
            return r.choice(c)
        b = self.bad()
        if b[0] == "inc":
            return ["set", "m", b]
        c = self.r.random()
        if c < 0.4:
            return ["set", "m", b]
        if c < 0.6:
            return ["kw", "Note", [["call", "str", [b]]]]
        if c < 0.8:
            return ["if", b, self.body(0), [], None]
        return ["set", "m", ["bin", "+", self.int_expr(0), b]]

    def bad_fx(self):
        """A statement that fails after, or while, it had effects."""
        r = self.r
        x = ["inc", self.var(), r.choice(["pre", "post"]), 1]
        t = ["call", "str", [x]]
        ini = ["call", r.choice(["EditINI"]), [["str", "x.ini"], ["str", "s"], ["str", self.mark()], x]]
        b = self.bad()
        return r.choice([
            ["cset", "neverset", r.choice(["+=", "-=", "*="]), x],
            ["cset", "s0" if self.has("rich") else "neverset", "-=", x],
            ["set", "m", ["bin", "+", x, b]],
            ["set", self.var(), ["bin", "-", t, x]],
            ["set", "m", ["call", "noSuchFunction", [x]]],
            ["set", "m", ["call", "GetFilename", [x]]],
            ["set", "m", ["call", "GetFilename", [t, t]]],
            ["set", "m", ["idx", ["str", "abc"], ["bin", "+", x, ["int", 9]]]],
            ["set", "m", ["dot", x, "lower", []]],
            ["expr", ["call", "EditINI", [["str", "x.ini"], t, t]]],
            ["expr", ["call", "DisableINILine", [["str", "x.ini"], t, t, x]]],
            ["set", "m", ["bin", "+", ini, b]],
            ["set", "m", ["bin", "-", ini, x]],
            ["kw", r.choice(["SelectPlugin", "DeSelectSubPackage", "ResetPluginName"]), [t, t]],
            ["kw", r.choice(["SelectAll", "DeSelectAllPlugins", "ResetAllPluginNames"]), [t]],
            ["kw", "RenamePlugin", [t]],
            ["kw", "RenamePlugin", [t, t, x]],
            ["kw", "Note", [t, x]],
            ["kw", "RequireVersions", [t, t, t, t, t]],
            ["kw", "Note", [["bin", "+", t, x]]],
            ["kw", "SelectSubPackage", [["bin", "+", t, b]]],
            ["for", "fx", ["range", x, t, None], [["set", "m", x]]],
            ["for", "fx", ["range", x, ["int", 5], ["bin", "*", x, ["int", 0]]], [["set", "m", x]]],
            ["for", "fx", ["in", x], [["set", "m", x]]],
            ["cancel", x],
            ["if", ["bin", "<", x, t], [["set", "m", x]], [], None],
            ["if", ["bool", False], [], [[["bin", "<", t, x], []]], None],
            ["while", ["bin", ">", t, x], [["break"]]],
            ["exec", [["set", "m", ["bin", "-", t, x]]], x],
            ["select", r.random() < 0.5, ["bin", "+", t, x], [[["str", "A"], ["str", ""], ["str", ""], False]],
             [[["str", "A"], []]], None],
            ["select", r.random() < 0.5, t, [[["str", "A"], t, ["str", ""], False], [x, ["str", ""], ["str", ""], False]],
             [[["str", "A"], []]], None],
            ["select", r.random() < 0.5, t, [[["str", "A"], t, ["str", ""], False]], [[x, []], [["str", "A"], []]], None],
        ])

    def s_flag(self, d):
        """A flag set by one statement decides what a later one does."""
        r = self.r
        g = r.choice(["g0", "g1"])
        self.nloop += 1
        val = r.randrange(2)
        out = [["set", g, ["int", r.randrange(2)]]] if r.random() < 0.7 else []
        c = r.random()
        if c < 0.5 and self.has("select"):
            many = r.random() < 0.4
            cases = [[["str", n], [["set", g, ["int", i]]] + ([["break"]] if r.random() < 0.8 else [])]
                     for i, n in enumerate("XYZ"[:r.choice([2, 2, 3])])]
            opts = [[["str", n], ["str", ""], ["str", ""], i == 1 and many] for i, n in enumerate("XYZ"[:len(cases)])]
            out += [["set", g, ["int", 0]], ["select", many, ["str", self.mark()], opts, cases, None]]
        elif c < 0.8 and self.has("query"):
            out.append(["set", g, ["bin", "+", self.query_int(), ["int", 1]]])
        else:
            out.append(["set", g, ["bin", "%", self.int_expr(0), ["int", 2]]])
        what = ["note", "assign", "selkw", "ini"]
        if self.loops:
            what += ["break", "continue", "continue"]
        if self.loops or self.cases:
            what += ["break", "break"]
        what = [w for w in what if self.has(w)] or ["assign"]
        then = self.body(d - 1, 0, 1) + [getattr(self, "s_" + r.choice(what))(0)]
        els = self.body(d - 1, 0, 2) if r.random() < 0.3 else None
        out.append(["if", ["bin", r.choice(["==", "!=", ">"]), ["var", g], ["int", val]], then, [], els])
        return ["seq", out]

    def s_types(self, d):
        """Other types and operators than the usual ones."""
        r = self.r
        c = r.randrange(8)
        if c < 2:
            out = [["set", "f0", r.choice([["float", "1.5"], ["int", 3], ["float", "0.25"], ["bin", "/", ["int", 3], ["int", 2]],
                                           ["call", "float", [["str", "2.5"]]], ["int", -4]])]]
            for _ in range(r.choice([1, 1, 2, 3])):
                op = r.choice(["+=", "-=", "*=", "/=", "%=", "^="])
                x = {"/=": ["int", r.choice([1, 2, -4])], "%=": ["int", r.choice([2, 3, -3])],
                     "^=": ["int", r.choice([0, 1, 2])]}.get(op, None)
                out.append(["cset", "f0", op, x or r.choice([self.small(), ["float", "0.5"]])])
            if r.random() < 0.6:
                out.append(["set", "m", ["call", r.choice(["str", "int", "float"]), [["var", "f0"]]]])
            if r.random() < 0.4:
                out.append(["if", ["bin", r.choice([">", "<=", "=="]), ["var", "f0"], ["int", 2]], self.body(d - 1, 0, 1), [],
                            None])
            return ["seq", out]
        if c == 2:
            return ["seq", [["set", "s2", self.word()], ["cset", "s2", "+=", self.str_expr(0)]]]
        if c == 3:
            t = r.choice([self.small(), self.word(), ["float", r.choice(["0.0", "0.5"])], ["str", ""], ["bool", False]])
            return ["if", t if r.random() < 0.7 else ["not", t], self.body(d - 1, 0, 2), [], self.body(d - 1, 0, 1)]
        if c == 4 and d > 0:
            self.nloop += 1
            w = "w%d" % self.nloop
            self.loops += 1
            b = self.body(d - 1, 0, 2)
            self.loops -= 1
            return ["seq", [["set", w, ["int", r.randrange(4)]],
                            ["while", ["var", w], [["expr", ["inc", w, r.choice(["pre", "post"]), -1]]] + b]]]
        if c == 5 and self.layout:
            e = ["idx", ["sps"], ["int", r.randrange(len(self.layout))]]
            out = [["set", "p0", e]]
            k = r.randrange(4)
            if k == 0:
                self.loops += 1
                out.append(["for", "fl", ["in", ["var", "p0"]], self.body(d - 1, 0, 2) if d > 0 else []])
                self.loops -= 1
            elif k == 1:
                out.append(["set", "m", ["bin", r.choice(["==", "!="]), ["var", "p0"], ["str", self.pick_sp()]]])
            elif k == 2:
                out.append(["set", "m", ["call", "str", [["var", "p0"]]]])
            else:
                out.append(["set", "m", ["in", self.word(), ["var", "p0"], r.random() < 0.5]])
            return ["seq", out]
        if c == 6:
            q = r.choice("\"'")
            t, v = r.choice([("a\\qb", "aqb"), ("\\u0041", "A"), ("\\t|", "\t|"), ("\\x41b", "Ab"), ("\\\\n", "\\n"),
                             ("\\\"", '"'), ("\\'", "'")])
            return ["set", "m", ["lit", q + t + q, v]]
        return ["set", r.choice(["m", "v0"]) if not self.vars else "m",
                r.choice([["bin", "and", self.small(), self.word()], ["bin", "or", self.word(), self.small()],
                          ["var", self.var() or "m"] if self.var() else ["int", 2], ["not", self.word(), "!"]])]

    def s_badcall(self, d):
        return ["set", "m", self.badcall()]

    def s_void(self, d):
        """The value of a function that has none (no reference semantics)."""
        r = self.r
        e = ["call", "DisableINILine", [["str", "v.ini"], ["str", "s"], ["str", self.mark()]]]
        c = r.randrange(4)
        if c == 0:
            return ["kw", "Note", [e]]
        if c == 1:
            return ["kw", "Note", [["call", "str", [r.choice([e, ["sps"]])]]]]
        if c == 2:
            return ["set", "s1", ["bin", "+", ["str", "v"], ["call", "str", [e]]]]
        return ["set", "m", r.choice([e, ["sps"], ["bin", "==", e, e], ["bin", "==", ["sps"], ["sps"]]])]

    def program(self):
        r = self.r
        prog = []
        for i in range(r.randint(1, 3)):
            v = "v%d" % i
            prog.append(["set", v, ["int", r.randrange(4)]])
            self.vars.append(v)
        if self.has("rich") and r.random() < 0.5:
            prog.append(["set", "s0", ["str", r.choice(["OptA", "optB", "|OptC", "Choice B", "F0"])]])
        while self.size > 0:
            st = self.stmt(self.maxdepth)
            if st[0] == "seq":
                prog.extend(st[1])
            else:
                prog.append(st)
        return prog


def swarm(rng: random.Random, base: dict[str, float], keep: tuple[str, ...] = (), p: float = 0.75):
    """A random sub-configuration of the features (swarm testing)."""
    res = {}
    for k, w in base.items():
        if k in keep or rng.random() < p:
            res[k] = w * rng.choice([0.5, 1, 1, 2])
    return res


def features(*names: str, **weights: float) -> dict[str, float]:
    res = {n: FEATURES[n] for n in names}
    res.update(weights)
    return res
