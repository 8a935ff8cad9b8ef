"""Reference interpreter: what a script does, step by step, written independently of
/repo from the language's documentation and the properties. It is a generator that
yields the callbacks it makes and is resumed with their answers; rewinding is replaying
a prefix of the answers."""

from __future__ import annotations

from . import decide, gen as G
from .layout import base, is_plugin, plugins_of


class ScriptError(Exception):
    """An error of the script itself."""


class EnvError(Exception):
    """An exception raised by the environment (identified by its token)."""

    def __init__(self, token):
        self.token = token


class TooLong(Exception):
    """The script executes more steps than a scenario may."""


class Unknown(TooLong):
    """The reference has no opinion."""


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Ended(Exception):
    def __init__(self, status):
        self.status = status


class SP:
    def __init__(self, name, files):
        self.name = name
        self.files = files


SPS = "<<SubPackages>>"


class Sps:
    pass


SPSV = Sps()


class State:
    __slots__ = ("vars", "sps", "pgs", "ren", "dis", "mod", "notes", "jr")

    def __init__(self):
        self.vars = {}
        self.sps = []
        self.pgs = []
        self.ren = []      # list of [key, value] in order of first rename
        self.dis = []
        self.mod = []
        self.notes = []
        self.jr = []       # what an embedder's visitors recorded

    def copy(self):
        s = State()
        s.vars = dict(self.vars)
        s.sps = list(self.sps)
        s.pgs = list(self.pgs)
        s.ren = [list(x) for x in self.ren]
        s.dis = list(self.dis)
        s.mod = list(self.mod)
        s.notes = list(self.notes)
        s.jr = list(self.jr)
        return s

    def snap(self):
        jr = {"jr": [list(x) for x in self.jr]} if self.jr else {}
        return {
            **jr,
            "vars": {k: vrepr(v) for k, v in sorted(self.vars.items())},
            "sps": sorted(self.sps, key=str.casefold),
            "pgs": sorted(self.pgs, key=str.casefold),
            "ren": [list(x) for x in self.ren],
            "dis": [list(x) for x in self.dis],
            "mod": [list(x) for x in self.mod],
            "notes": list(self.notes),
        }


def vrepr(v):
    if v is None:
        return ["void", ""]
    if isinstance(v, SP):
        return ["SubPackage", v.name]
    if isinstance(v, Sps):
        return ["SubPackage[]", ""]
    if isinstance(v, bool):
        return ["bool", repr(v)]
    if isinstance(v, int):
        return ["integer", repr(v)]
    if isinstance(v, float):
        return ["float", repr(v)]
    return ["string", v]


NUM = (int, float)

QUERIES = {
    # name -> (kind, required types, optional types, varargs)
    "CompareGameVersion": ("compareGameVersion", [str], [], False),
    "CompareSEVersion": ("compareSEVersion", [str], [], False),
    "CompareGEVersion": ("compareGEVersion", [str], [], False),
    "CompareWBVersion": ("compareWBVersion", [str], [], False),
    "GetPluginLoadOrder": ("getPluginLoadOrder", [str], [int], False),
    "GetPluginStatus": ("getPluginStatus", [str], [], False),
    "GetEspmStatus": ("getPluginStatus", [str], [], False),
    "GetFilename": ("getFilename", [str], [], False),
    "GetFolder": ("getFolder", [str], [], False),
    "DataFileExists": ("dataFileExists", [str], [], True),
}

#: keyword spellings -> operation
KW = {
    "SelectSubPackage": "ssp", "DeSelectSubPackage": "dsp",
    "SelectPlugin": "spg", "SelectEspm": "spg",
    "DeSelectPlugin": "dpg", "DeSelectEspm": "dpg",
    "SelectAll": "sall", "DeSelectAll": "dall",
    "SelectAllPlugins": "sallp", "SelectAllEspms": "sallp",
    "DeSelectAllPlugins": "dallp", "DeSelectAllEspms": "dallp",
    "RenamePlugin": "ren", "RenameEspm": "ren",
    "ResetPluginName": "res", "ResetEspmName": "res",
    "ResetAllPluginNames": "resall", "ResetAllEspmNames": "resall",
    "Note": "note", "RequireVersions": "req",
}


#: operation -> method of a keyword visitor
VISIT = {
    "ssp": "SelectSubPackage", "dsp": "DeSelectSubPackage", "spg": "SelectPlugin", "dpg": "DeSelectPlugin",
    "sall": "SelectAll", "dall": "DeSelectAll", "sallp": "SelectAllPlugins", "dallp": "DeSelectAllPlugins",
    "ren": "RenamePlugin", "res": "ResetPluginName", "resall": "ResetAllPluginNames", "note": "Note",
    "req": "RequireVersions",
}


class Model:
    """One execution, from a given state. In mode "own" the keywords, the INI functions and
    the function Own() are those of an embedder, in mode "basic" they do nothing or do not exist."""

    def __init__(self, prog, layout, init=None, mode=None):
        self.prog = prog
        self.layout = [SP(n, list(f)) for n, f in layout]
        self.mode = mode
        self.st = init.copy() if init is not None else State()
        self.step_state = self.st
        self.answers = 0          # callbacks answered so far
        self.nsteps = 0
        self.step_answers = 0     # ... at the start of the current step
        self.msg = []             # of the Cancel the step confirms
        self.at = None            # (statement, part of it) being executed

    # -- plumbing
    def step(self):
        self.nsteps += 1
        if self.nsteps > 3000:
            raise TooLong()
        self.step_state = self.st
        self.st = self.st.copy()
        self.step_answers = self.answers
        self.msg = []

    def call(self, kind, args):
        r = yield (kind, args)
        self.answers += 1
        return r

    def issue(self, issue):
        # the driver answers with the severity in force
        s = yield from self.call("?", issue)
        if s == "ERROR":
            raise ScriptError(issue)
        if s == "WARNING":
            yield from self.call("warning", [])

    # -- expressions
    def ev(self, e, typ=None):
        v = yield from self._ev(e)
        if typ is not None and not isinstance(v, typ):
            raise ScriptError("type")
        return v

    def _ev(self, e):
        k = e[0]
        if k in ("int", "bool"):
            return e[1]
        if k == "str":
            return e[1]
        if k == "float":
            return float(e[1])
        if k == "badlit":
            raise ScriptError("literal")
        if k == "lit":
            return e[2]
        if k == "sps":
            return SPSV
        if k == "var":
            if e[1] not in self.st.vars:
                yield from self.issue("USAGE_OF_NOTSET_VARIABLES")
                return 0
            return self.st.vars[e[1]]
        if k == "bin":
            a = yield from self._ev(e[2])
            b = yield from self._ev(e[3])
            return self.binop(e[1], a, b)
        if k == "not":
            a = yield from self._ev(e[1])
            return not a
        if k == "neg":
            a = yield from self._ev(e[1])
            if not isinstance(a, NUM) or isinstance(a, bool):
                raise ScriptError("type")
            return -a
        if k == "cmp":
            a = yield from self._ev(e[2])
            b = yield from self._ev(e[3])
            if not isinstance(a, str) or not isinstance(b, str):
                raise ScriptError("type")
            return self.binop(e[1], a.lower(), b.lower())
        if k == "chain":
            return (yield from self.chain(list(e[1]), list(e[2])))
        if k == "slice":
            a = yield from self._ev(e[1])
            part = []
            for x in e[2:5]:
                part.append((yield from self._ev(x)) if x is not None else None)
            if not isinstance(a, str) or any(x is not None and not isinstance(x, int) for x in part):
                raise ScriptError("type")
            if part[2] == 0 and part[2] is not None:
                raise ScriptError("zero")
            return a[part[0]:part[1]:part[2]]
        if k == "dot":
            return (yield from self.dotcall(e[1], e[2], e[3]))
        if k == "inc":
            if e[1] not in self.st.vars:
                raise ScriptError("name")
            v = self.binop("+", self.st.vars[e[1]], e[3])
            self.st.vars[e[1]] = v
            return v
        if k == "idx":
            a = yield from self._ev(e[1])
            b = yield from self._ev(e[2])
            if not isinstance(b, int) or not isinstance(a, (str, Sps, SP)):
                raise ScriptError("type")
            seq = self.layout if isinstance(a, Sps) else (a.name if isinstance(a, SP) else a)
            try:
                return seq[b]
            except IndexError:
                raise ScriptError("index")
        if k == "in":
            item = yield from self._ev(e[1])
            cont = yield from self._ev(e[2])
            if isinstance(cont, Sps):
                names = [sp.name for sp in self.layout]
            elif isinstance(cont, SP):
                names = cont.files
            else:
                raise ScriptError("type")
            if isinstance(item, SP):
                item = item.name
            if not isinstance(item, str):
                raise ScriptError("type")
            if e[3]:
                return item.lower() in [n.lower() for n in names]
            return item in names
        if k == "call":
            return (yield from self.fcall(e[1], e[2]))
        raise AssertionError(e)

    PREC = {"^": 10, "*": 9, "/": 9, "%": 9, "+": 8, "-": 8, ">": 7, ">=": 7, "<": 6, "<=": 6,
            "==": 5, "!=": 5, "or": 4, "|": 4, "and": 3, "&": 3}

    def chain(self, ops, operands):
        """Operators of one precedence apply from left to right."""
        if not ops:
            return (yield from self._ev(operands[0]))
        low = min(self.PREC[o] for o in ops)
        i = max(n for n, o in enumerate(ops) if self.PREC[o] == low)
        a = yield from self.chain(ops[:i], operands[:i + 1])
        b = yield from self.chain(ops[i + 1:], operands[i + 1:])
        return self.binop(ops[i], a, b)

    METHODS = ("str", "int", "float", "len", "startswith", "endswith", "lower", "find", "rfind")

    def dotcall(self, obj, name, eargs):
        v = yield from self._ev(obj)
        own = self.mode == "own" and name == "Own" and isinstance(v, str)
        if isinstance(v, str):
            known = name in self.METHODS or own
        else:
            known = isinstance(v, NUM) and name == "str"
        if not known:
            raise ScriptError("name")
        args = [v]
        for a in eargs:
            args.append((yield from self._ev(a)))
        if own:
            n = yield from self.call("function", ["."] + [vrepr(a) for a in args])
            self.st.jr.append(["function", n])
            return n
        return self.basic(name, args)

    def basic(self, name, args):
        lo, hi = {"startswith": (1, 99), "endswith": (1, 99), "find": (2, 4), "rfind": (2, 4)}.get(name, (1, 1))
        if not lo <= len(args) <= hi:
            raise ScriptError("arity")
        v = args[0]
        if name == "str":
            return v.name if isinstance(v, SP) else str(v)
        if name == "lower":
            return v.lower() if isinstance(v, str) else v
        if name == "len":
            return len(v) if isinstance(v, str) else 0
        if name in ("int", "float"):
            if not isinstance(v, (str, int, float)):
                return {"int": 0, "float": 0.0}[name]
            try:
                return int(v) if name == "int" else float(v)
            except ValueError:
                raise ScriptError("value")
        if name in ("startswith", "endswith"):
            if not isinstance(v, str):
                return False
            return any(isinstance(p, str) and (v[:len(p)] if name == "startswith" else v[max(0, len(v) - len(p)):]) == p
                       for p in args[1:])
        if not (isinstance(v, str) and isinstance(args[1], str) and all(isinstance(x, int) for x in args[2:])):
            return -1
        start = args[2] if len(args) > 2 else 0
        end = args[3] if len(args) > 3 and args[3] != -1 else None
        return v.find(args[1], start, end) if name == "find" else v.rfind(args[1], start, end)

    def binop(self, op, a, b):
        if isinstance(a, SP) or isinstance(b, SP):
            if op in ("==", "!="):
                if not isinstance(a, (SP, str)) or not isinstance(b, (SP, str)):
                    raise ScriptError("type")
                na = a.name if isinstance(a, SP) else a
                nb = b.name if isinstance(b, SP) else b
                return (na.casefold() == nb.casefold()) == (op == "==")
        num = isinstance(a, NUM) and isinstance(b, NUM)
        strs = isinstance(a, str) and isinstance(b, str)
        if op == "+":
            if num or strs:
                return a + b
        elif op == "%":
            if num:
                if b == 0:
                    raise ScriptError("zero")
                return a % b
        elif op == "^":
            if num:
                if a == 0 and b < 0:
                    raise ScriptError("zero")
                return a ** b
        elif op in ("-", "*", "/"):
            if num:
                if op == "-":
                    return a - b
                if op == "*":
                    return a * b
                if b == 0:
                    raise ScriptError("zero")
                return a / b
        elif op in ("<", ">", "<=", ">="):
            if num or strs:
                return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        elif op == "==":
            return a == b
        elif op == "!=":
            return a != b
        elif op in ("and", "&"):
            return a and b
        elif op in ("or", "|"):
            return bool(a or b)
        raise ScriptError("type")

    def fcall(self, name, eargs):
        known = name in QUERIES or name in self.METHODS or name in ("EditINI", "DisableINILine")
        if self.mode == "basic":
            known = name in self.METHODS
        if not known and not (self.mode == "own" and name == "Own"):
            raise ScriptError("name")
        args = []
        for a in eargs:
            args.append((yield from self._ev(a)))
        if name in QUERIES:
            kind, req, opt, var = QUERIES[name]
            if len(args) < len(req) or (len(args) > len(req) + len(opt) and not var):
                raise ScriptError("arity")
            types = req + opt
            for i, a in enumerate(args):
                if not isinstance(a, types[min(i, len(types) - 1)]):
                    raise ScriptError("type")
            if kind == "getPluginLoadOrder" and len(args) == 1:
                args.append(-1)
            return (yield from self.call(kind, args))
        if name == "Own":
            n = yield from self.call("function", [vrepr(a) for a in args])
            self.st.jr.append(["function", n])
            return n
        if name == "DisableINILine":
            if len(args) != 3:
                raise ScriptError("arity")
            if self.mode == "own":
                yield from self.own(name, args)
                return None
            self.st.dis.append([args[0], args[1], args[2]])
            return None
        if name == "EditINI":
            if not 4 <= len(args) <= 5:
                raise ScriptError("arity")
            if self.mode == "own":
                yield from self.own(name, args)
                return None
            self.st.mod.append([args[0], args[1], args[2], vrepr(args[3]),
                                args[4] if len(args) > 4 else ""])
            return None
        return self.basic(name, args)

    def own(self, name, args):
        """A visitor of an embedder: asks, then records unless it is told not to."""
        args = [name] + [vrepr(a) for a in args]
        n = yield from self.call("keyword", args)
        if n % 3:
            self.st.jr.append(args + [n])

    # -- statements
    def body(self, prog):
        for st in prog:
            yield from self.stmt(st)

    def run(self):
        try:
            yield from self.body(self.prog)
        except (Break, Continue):
            raise ScriptError("stray")
        self.step()
        yield from self.call("complete", [])
        raise Ended("COMPLETE")

    def stmt(self, st):
        k = st[0]
        self.step()
        self.at = (st, 0)
        if k == "set":
            v = yield from self._ev(st[2])
            self.st.vars[st[1]] = v
        elif k == "cset":
            v = yield from self._ev(st[3])
            if st[1] not in self.st.vars:
                raise ScriptError("name")
            self.st.vars[st[1]] = self.binop(st[2][0], self.st.vars[st[1]], v)
        elif k == "expr":
            yield from self._ev(st[1])
        elif k == "kw":
            yield from self.keyword(st)
        elif k == "if":
            c = yield from self._ev(st[1])
            if c:
                yield from self.body(st[2])
                return
            for i, (cond, b) in enumerate(st[3]):
                self.at = (st, 1 + i)
                c = yield from self._ev(cond)
                if c:
                    yield from self.body(b)
                    return
            if st[4] is not None:
                yield from self.body(st[4])
        elif k == "for":
            h = st[2]
            if h[0] == "range":
                a = yield from self.ev(h[1], int)
                b = yield from self.ev(h[2], int)
                by = 1
                if h[3] is not None:
                    by = yield from self.ev(h[3], int)
                if by == 0:
                    raise ScriptError("zero")
                values = []
                while (by > 0 and a <= b) or (by < 0 and a >= b):
                    values.append(a)
                    a += by
            else:
                v = yield from self._ev(h[1])
                if isinstance(v, Sps):
                    values = list(self.layout)
                elif isinstance(v, SP):
                    values = list(v.files)
                elif isinstance(v, str):
                    values = list(v)
                else:
                    raise ScriptError("type")
            for v in values:
                self.step()
                self.at = (st, 0)
                self.st.vars[st[1]] = v
                try:
                    yield from self.body(st[3])
                except Break:
                    break
                except Continue:
                    continue
        elif k == "while":
            while True:
                self.step()
                self.at = (st, 0)
                c = yield from self._ev(st[1])
                if not c:
                    break
                try:
                    yield from self.body(st[2])
                except Break:
                    break
                except Continue:
                    continue
        elif k == "select":
            yield from self.select(st)
        elif k == "break":
            raise Break()
        elif k == "continue":
            raise Continue()
        elif k == "cancel":
            msg = []
            if st[1] is not None:
                msg = [(yield from self.ev(st[1], str))]
            self.step()
            self.msg = msg
            if (yield from self.call("cancel", msg)):
                raise Ended("CANCEL")
        elif k == "return":
            self.step()
            if (yield from self.call("complete", [])):
                raise Ended("RETURN")
        elif k == "exec":
            v = None
            if st[2] is not None:
                v = yield from self._ev(st[2][1] if st[2][0] == "tail" else st[2])
            yield from self.body(st[1])
            if G.writes(st):
                self.written(v)
        elif k == "raw":
            if len(st) > 2:
                raise Unknown()     # the parser may repair it
            raise ScriptError("malformed")
        else:
            raise AssertionError(st)

    def written(self, v):
        """The assignment at the end of an Exec."""
        self.step()
        if type(v) not in (int, bool):
            raise Unknown()
        self.st.vars["e0"] = v

    def select(self, st):
        _k, many, desc, opts, cases, dflt = st
        d = yield from self.ev(desc, str)
        options = []
        defaults = []
        for name, de, im, isdef in opts:
            n = yield from self.ev(name, str)
            dd = yield from self.ev(de, str)
            ii = yield from self.ev(im, str)
            if isdef:
                defaults.append(len(options))
            elif n.startswith("|"):
                n = n[1:]
                defaults.append(len(options))
            options.append([n, dd, ii if ii.strip() else None])
        if not many:
            if not defaults:
                defaults = [0]
            if len(defaults) != 1:
                yield from self.issue("MULTIPLE_DEFAULTS_IN_SELECT_ON")
                defaults = defaults[:1]
        self.step()
        if many:
            sel = yield from self.call("selectMany", [d, options, [options[i] for i in defaults]])
        else:
            sel = yield from self.call("selectOne", [d, options, options[defaults[0]]])
        found = ft = False
        for i, (label, body) in enumerate(cases):
            if found and not many and not ft:
                break
            self.step()
            self.at = (st, 1 + i)
            lb = yield from self.ev(label, str)
            if ft or lb in sel:
                found = ft = True
                try:
                    yield from self.body(body)
                except Break:
                    ft = False
        if dflt is not None and (ft or not found):
            try:
                yield from self.body(dflt)
            except Break:
                pass

    def keyword(self, st):
        op = KW[st[1]]
        args = []
        for a in st[2]:
            args.append((yield from self._ev(a)))
        arity = {"ssp": 1, "dsp": 1, "spg": 1, "dpg": 1, "ren": 2, "res": 1, "note": 1,
                 "sall": 0, "dall": 0, "sallp": 0, "dallp": 0, "resall": 0}
        s = self.st
        if op == "req":
            if not 1 <= len(args) <= 4:
                raise ScriptError("arity")
            args = [args[0]] + [a or None for a in args[1:]]
            args += [None] * (4 - len(args))
            self.step()
            if self.mode == "own":
                yield from self.own(VISIT[op], args)
            else:
                yield from self.call("requiresVersions", args)
            return
        if len(args) != arity[op]:
            raise ScriptError("arity")
        if op == "note":
            if not isinstance(args[0], str):
                yield from self.issue("USAGE_OF_ANYTHING_IN_NOTE")
            a = args[0]
            a = a.name if isinstance(a, SP) else str(a)
            if self.mode == "own":
                yield from self.own("Note", [a])
            elif self.mode is None:
                s.notes.append(a)
            return
        if self.mode == "own":
            yield from self.own(VISIT[op], args)
            return
        if self.mode == "basic":
            return
        args = [a.name if isinstance(a, SP) else a for a in args]
        if not all(isinstance(a, str) for a in args):
            raise Unknown()
        f = str.casefold
        if op == "ssp":
            for sp in self.layout:
                if f(sp.name) == f(args[0]):
                    break
            else:
                yield from self.issue("SELECT_MISSING_SUBPACKAGE")
                return
            if f(sp.name) not in map(f, s.sps):
                s.sps.append(sp.name)
            self.add_plugins(s, plugins_of(sp.files))
        elif op == "dsp":
            s.sps = [n for n in s.sps if f(n) != f(args[0])]
        elif op == "spg":
            for sp in self.layout:
                for pg in plugins_of(sp.files):
                    if f(pg) == f(args[0]):
                        self.add_plugins(s, [pg])
                        return
            yield from self.issue("SELECT_MISSING_PLUGIN")
        elif op == "dpg":
            s.pgs = [n for n in s.pgs if f(n) != f(args[0])]
        elif op == "sall":
            s.sps = [sp.name for sp in self.layout]
            self.all_plugins(s)
        elif op == "dall":
            s.sps = []
            s.pgs = []
        elif op == "sallp":
            self.all_plugins(s)
        elif op == "dallp":
            s.pgs = []
        elif op == "ren":
            for it in s.ren:
                if f(it[0]) == f(args[0]):
                    it[1] = args[1]
                    break
            else:
                s.ren.append([args[0], args[1]])
        elif op == "res":
            s.ren = [it for it in s.ren if f(it[0]) != f(args[0])]
        elif op == "resall":
            s.ren = []

    def add_plugins(self, s, names):
        for n in names:
            if n.casefold() not in [x.casefold() for x in s.pgs]:
                s.pgs.append(n)

    def all_plugins(self, s):
        # the plugins of the selected sub-packages
        s.pgs = []
        for n in s.sps:
            for sp in self.layout:
                if sp.name.casefold() == n.casefold():
                    self.add_plugins(s, plugins_of(sp.files))
                    break


# ------------------------------------------------------------------------ driver

class _Run:
    """A model execution that can be restarted from a prefix of its answers."""

    def __init__(self, prog, layout, init=None, mode=None, prefix=()):
        self.prog = prog
        self.layout = layout
        self.init = init
        self.mode = mode
        self.path = []
        self.restart(prefix)

    def restart(self, prefix):
        self.m = Model(self.prog, self.layout, self.init, self.mode)
        self.g = self.m.run()
        self.path = []
        self.res = self.advance(None, None)
        for val in prefix:
            assert self.res[0] == "call"
            self.send(val)

    def send(self, val):
        self.path.append(val)
        self.res = self.advance(val, None)

    def throw(self, token):
        self.res = self.advance(None, EnvError(token))

    def advance(self, val, exc):
        try:
            if exc is not None:
                kind, args = self.g.throw(exc)
            else:
                kind, args = self.g.send(val)
            return ("call", kind, args)
        except ScriptError as e:
            return ("error", ["script"])
        except EnvError as e:
            return ("error", ["env", e.token])
        except Ended as e:
            return ("end", e.status)


class _Finished(Exception):
    pass


class Start:
    """Where an execution starts, and what it leaves: the states and places of its events."""

    def __init__(self, init=None, mode=None, prefix=(), sev=None, plain=False):
        self.plain = plain      # error(), cancel(), complete() are those of ManagerUserInterface
        self.init = init
        self.mode = mode
        self.prefix = list(prefix)
        self.sev = sev
        self.states = []
        self.places = []


def run_model(prog, layout, decisions, sev=None, cap=150, where=None, start=None):
    """Run the reference interpreter in the environment described by the decisions.
    Returns (events, ending); an event is [kind, args, state]."""
    start = start or Start()
    sev = dict(sev or {}) if start.sev is None else start.sev
    sev.setdefault("default", "WARNING")
    script = decide.Script(decisions)
    events = []
    captured = []          # prefix of answers at the step of event i
    run = _Run(prog, layout, start.init, start.mode, start.prefix)

    def snap():
        return run.m.step_state.snap()

    def event(kind, args):
        """Record a callback and decide it: ("ans", n) | ("ex", token) | ("flow",)"""
        events.append([kind, args, snap()])
        if where is not None:
            where.append(run.m.at)
        captured.append(run.path[: run.m.step_answers])
        start.states.append(run.m.step_state)
        start.places.append(captured[-1])
        if len(events) >= cap:
            raise _Finished(["stop"])
        d = script.next(kind, args)
        if d[0] == "sev":
            sev[d[1]] = d[2]
            return ("ans", d[3])
        if d[0] == "ans":
            return ("ans", d[1])
        if d[0] == "ex":
            return ("ex", d[2])
        if d[0] == "bx":
            raise _Finished(["raised", d[2]])
        if d[0] == "ab":
            return ("ab",)
        if d[0] == "rw":
            return ("rw", captured[d[1] % len(captured)])
        raise AssertionError(d)

    def error(tag):
        act = event("error", tag)
        if act[0] == "ans":
            if start.plain:
                raise _Finished(["raised", tag[1] if tag[0] == "env" else None])
            raise _Finished(["end", "ERROR", snap()])
        if act[0] == "ex":
            raise _Finished(["raised", act[1]])
        flow(act)

    def flow(act):
        if act[0] == "rw":
            run.restart(act[1])
            return
        prefix = run.path[: run.m.step_answers]
        act = event("cancel", list(run.m.msg))
        if act[0] == "ans":
            if start.plain or decide.answer_value("cancel", act[1]):
                raise _Finished(["end", "CANCEL", snap()])
            run.restart(prefix)
        elif act[0] == "ex":
            error(["env", act[1]])
        else:
            flow(act)

    try:
        while True:
            res = run.res
            if res[0] == "end":
                start.states.append(run.m.st)
                raise _Finished(["end", res[1], run.m.st.snap()])
            if res[0] == "error":
                error(res[1])
                continue
            _c, kind, args = res
            if kind == "?":
                run.send(sev.get(args, sev["default"]))
                continue
            act = event(kind, args)
            if act[0] == "ex":
                run.throw(act[1])
            elif act[0] != "ans":
                flow(act)
            elif kind == "selectOne":
                i = decide.pick_one(act[1], len(args[1]))
                run.send([args[2][0] if i == -1 else "unlisted" if i == -2 else args[1][i][0]])
            elif kind == "selectMany":
                ids = decide.pick_many(act[1], len(args[1]))
                if ids == [-1]:
                    run.send([o[0] for o in args[2]])
                else:
                    run.send(["unlisted" if i == -2 else args[1][i][0] for i in ids])
            elif start.plain and kind in decide.CONFIRM:
                run.send(True)
            else:
                run.send(decide.answer_value(kind, act[1], args))
    except _Finished as f:
        return events, f.args[0]
