"""The simulated environment of the real code: packages, a runner whose callbacks are
answered, delayed into rewinds/aborts, or failed by the decisions of a scenario, and
canonical snapshots of everything a user can observe. Only the public API of the
package is used."""

from __future__ import annotations

import os
import sys
import zlib

REPO = os.environ.get("DST_REPO", "/repo")
SRC = os.path.join(REPO, "src")
if SRC not in sys.path:
    sys.path.insert(0, SRC)
sys.dont_write_bytecode = True

from antlr4 import InputStream  # noqa: E402,F401
from antlr4.error.Errors import ParseCancellationException  # noqa: E402
from wizard.contexts import WizardTerminationContext  # noqa: E402
from wizard.manager import SelectOption  # noqa: E402
from wizard.scriptrunner import WizardScriptRunner  # noqa: E402
from wizard.severity import Issue, Severity  # noqa: E402
from wizard.value import SubPackage, SubPackages  # noqa: E402
import wizard.errors as werrors  # noqa: E402

from . import decide  # noqa: E402

if not os.path.realpath(werrors.__file__).startswith(os.path.realpath(SRC)):
    raise SystemExit("wizard package not imported from %s" % SRC)


class SimStop(BaseException):
    """Ends a simulated run from outside (event cap, step budget)."""


class SimBase(BaseException):
    """An exception that is not an ordinary one."""


class SimError(Exception):
    """An ordinary exception of the environment."""


class OsSim(OSError):
    pass


class NoText(Exception):
    def __str__(self):
        raise RuntimeError("no text")


class SubTypeError(TypeError):
    pass


class NoArgs(IndexError):
    pass


class NoArgsType(TypeError):
    pass


class TwoArgs(IndexError):
    pass


ODD = {"NoText": NoText, "SubTypeError": SubTypeError, "NoArgs": NoArgs,
       "NoArgsType": NoArgsType, "TwoArgs": TwoArgs,
       "ParseCancellationException": ParseCancellationException}


def make_exc(name: str, token: str, salt: int = 0) -> BaseException:
    t = {
        "ValueError": ValueError, "TypeError": TypeError, "KeyError": KeyError,
        "RuntimeError": RuntimeError, "IndexError": IndexError, "OSError": OSError,
        "AttributeError": AttributeError, "LookupError": LookupError,
        "MemoryError": MemoryError, "NotImplementedError": NotImplementedError,
        "AssertionError": AssertionError, "ArithmeticError": ArithmeticError,
        "RecursionError": RecursionError, "TimeoutError": TimeoutError,
        "StopIteration": StopIteration, "SimError": SimError, "EOFError": EOFError,
        "NameError": NameError, "Exception": Exception,
        "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit,
        "GeneratorExit": GeneratorExit, "SimBase": SimBase,
    }.get(name)
    if t is not None:
        e = t(token)
    elif name in ("ExceptionGroup", "BaseExceptionGroup"):
        e = BaseExceptionGroup(token, [KeyboardInterrupt() if name[0] == "B" else ValueError()])
    elif name == "UnicodeDecodeError":
        e = UnicodeDecodeError("utf-8", b"\xff", 0, 1, token)
    elif name in ODD:
        e = ODD[name](*(() if name.startswith("NoArgs") else (token,) * (1 + (name == "TwoArgs"))))
    elif name in ("WizardTypeError", "WizardParseError", "WizardNameError", "WizardError",
                  "WizardIndexError"):
        e = getattr(werrors, name)(None, token)
    else:
        raise ValueError(name)
    e.sim_token = token  # type: ignore
    # some have a history of their own
    h = zlib.crc32(("%s %s %d" % (name, token, salt)).encode()) % 8
    if h == 0:
        e.__cause__ = LookupError("earlier")
    elif h == 1:
        e.__context__ = TypeError("earlier")
    elif h == 2:
        e.__suppress_context__ = True
        e.add_note("a note")
    return e


ORDINARY = ["ValueError", "TypeError", "KeyError", "RuntimeError", "IndexError", "OSError",
            "AttributeError", "MemoryError", "NotImplementedError", "AssertionError",
            "RecursionError", "TimeoutError", "SimError", "WizardTypeError",
            "WizardParseError", "WizardNameError", "WizardError", "WizardIndexError",
            "EOFError", "Exception", "LookupError", "NameError", "ExceptionGroup", "UnicodeDecodeError", *ODD]
NOT_ORDINARY = ["KeyboardInterrupt", "SystemExit", "GeneratorExit", "SimBase", "BaseExceptionGroup"]


def text_of(exc: BaseException) -> str:
    try:
        return str(exc)
    except RuntimeError:
        return "-"


def tokens(exc: BaseException | None) -> list[str]:
    """Tokens of simulated exceptions an exception is or was caused by."""
    res: list[str] = []
    todo = [exc]
    seen: set[int] = set()
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        t = getattr(e, "sim_token", None)
        if t is not None:
            res.append(t)
        todo += [e.__cause__, e.__context__]
        # a wrapper may carry the exception as an argument
        todo += [a for a in e.args if isinstance(a, BaseException)]
    return res


def handled() -> list[BaseException]:
    """Exceptions that are being handled where a run starts: Python makes them the context of what is raised in it."""
    res: list[BaseException] = []
    e = sys.exception()
    while e is not None and not any(e is x for x in res):
        res.append(e)
        e = e.__cause__ or e.__context__
    return res


def caused(exc: BaseException, outside: list[BaseException] | tuple = ()) -> str | None:
    """Token of the simulated exception that `exc` is, or was raised from."""
    seen = {id(e) for e in outside}
    e: BaseException | None = exc
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        t = getattr(e, "sim_token", None)
        if t is not None:
            return t
        e = e.__cause__ or e.__context__
    return None


def cause_token(exc: BaseException) -> str | None:
    """Token of the simulated exception among the explicit causes of `exc`."""
    e = exc.__cause__
    n = 0
    while e is not None and n < 50:
        t = getattr(e, "sim_token", None)
        if t is not None:
            return t
        e = e.__cause__
        n += 1
    return None


# ------------------------------------------------------------------ snapshots

def vrepr(value) -> list:
    v = value.value
    t = str(value.type)
    if isinstance(v, SubPackage):
        return [t, v.name]
    if isinstance(v, SubPackages):
        return [t, ""]
    if isinstance(v, str):
        return [t, v]
    if isinstance(v, (bool, int, float)):
        return [t, repr(v)]
    return [t, ""]


def prepr(v) -> list:
    """raw python value of an INI setting"""
    if v is None:
        return ["void", ""]
    if isinstance(v, bool):
        return ["bool", repr(v)]
    if isinstance(v, int):
        return ["integer", repr(v)]
    if isinstance(v, float):
        return ["float", repr(v)]
    if isinstance(v, str):
        return ["string", v]
    if isinstance(v, SubPackage):
        return ["SubPackage", v.name]
    return [type(v).__name__, ""]


def snap_state(st) -> dict:
    t = st.tweaks
    return {
        "vars": {k: vrepr(v) for k, v in sorted(st.variables.items())},
        "sps": [sp.name for sp in st.subpackages],
        "pgs": [pg.name for pg in st.plugins],
        "ren": [[pg.name, nm] for pg, nm in st.renames.items()],
        "dis": [[d.filename, d.section, d.setting] for d in t.disabled],
        "mod": [[m.filename, m.section, m.setting, prepr(m.value), m.comment] for m in t.modified],
        "notes": list(st.notes),
    }


def snap_tweaks(st) -> list:
    t = st.tweaks
    return [
        list(t.files()),
        [[f, [[m.filename, m.section, m.setting, prepr(getattr(m, "value", None))]
              for m in t.tweaks(f)]] for f in t.files()],
        bool(t),
    ]


def check_views(st):
    """The per-file views of the tweaks against the full lists; an error text or None."""
    t = st.tweaks
    full = [("m", m.filename, m.section, m.setting) for m in t.modified]
    full += [("d", d.filename, d.section, d.setting) for d in t.disabled]
    names = list(t.files())
    if {n.lower() for n in names} != {f[1].lower() for f in full}:
        return "files() is %r, tweaks are %r" % (names, full)
    if bool(t) != bool(full):
        return "bool(tweaks) is %r, tweaks are %r" % (bool(t), full)
    for n in names + [n.swapcase() for n in names] + ["no such.ini"]:
        if n.swapcase().lower() != n.lower():
            continue
        got = [("m" if hasattr(x, "value") else "d", x.filename, x.section, x.setting) for x in t.tweaks(n)]
        want = [f for f in full if f[1].lower() == n.lower()]
        if sorted(got) != sorted(want):
            return "tweaks(%r) is %r, expected %r" % (n, got, want)
        for k in "md":
            if [g for g in got if g[0] == k] != [w for w in want if w[0] == k]:
                return "tweaks(%r) is %r, expected order %r" % (n, got, want)
    return None


def check_inventory(ctx, layout):
    """What can be selected, as the keyword visitor tells it, against the packages."""
    try:
        kv = ctx.factory.kvisitor
        got_s, got_p = [sp.name for sp in kv.subpackages], [pg.name for pg in kv.plugins]
        per = [[pg.name for pg in kv.plugins_for(sp)] for sp in kv.subpackages]
    except AttributeError as e:
        return "the keyword visitor: %r" % e
    from .layout import plugins_of

    want = [plugins_of(files) for _n, files in layout]
    if got_s != [n for n, _f in layout]:
        return "available sub-packages %r" % got_s
    if per != want:
        return "plugins of the sub-packages %r, expected %r" % (per, want)
    flat, seen = [], set()
    for n in sum(want, []):
        if n.casefold() not in seen:
            seen.add(n.casefold())
            flat.append(n)
    if got_p != flat:
        return "available plugins %r, expected %r" % (got_p, flat)
    return None


def orepr(o) -> list:
    return [o.name, o.description, o.image]


class SimSubPackage(SubPackage):
    def __init__(self, name, files, hook=None):
        super().__init__(name)
        self._simfiles = list(files)
        self.hook = hook

    @property
    def files(self):
        if self.hook is not None:
            self.hook(self.name)
        # any iterable will do; one that lists as it goes may fail in the middle
        kind = zlib.crc32(self.name.encode()) % 4
        return (list(self._simfiles), tuple(self._simfiles), iter(self._simfiles), self._listing())[kind]

    def _listing(self):
        for f in self._simfiles:
            if self.hook is not None:
                self.hook(self.name)
            yield f


def make_packages(layout, hook=None) -> SubPackages:
    return SubPackages([SimSubPackage(n, f, hook) for n, f in layout])


# --------------------------------------------------------------------- runner

#: how a user answers: with equal options, in a tuple, in a list that changes later, with
#: the very objects offered; "plain" callbacks end in those of ManagerUserInterface
HABITS = ["copies", "tuple", "reuse", "itself", "loose", "plain"]


class SimRunner(WizardScriptRunner):
    """A runner in the simulated environment.

    `log` holds one entry per callback: [kind, args, state, decision]. `captured` holds
    the context of every callback. `hook(runner, kind, args, index)` may be set to do
    extra work inside callbacks (nested runs, tree exploration)."""

    def __init__(self, layout=(), decisions=(), cap=150, hook=None, pkgs=None):
        self.files_hook = None
        self.layout = layout
        if pkgs is None and not layout and sum(bool(d) and d[0] != "ans" for d in decisions) % 2 == 0:
            super().__init__()
        else:
            super().__init__(pkgs if pkgs is not None else make_packages(layout, self._files))
        self.reset(decisions, cap, hook)

    def reset(self, decisions=(), cap=150, hook=None):
        self.script = decide.Script(list(decisions))
        self.log = []
        self.captured = []
        self.prev_captured = []
        self.cap = cap
        self.hook = hook
        self.in_env = 0
        self.raised = []
        self.internal = []
        self.fired = {}
        self.views = False
        self.view_errors = []
        self.error_info = []
        self.last_error = None
        self.outside = []
        self.back = None         # token of an exception that error() raises again
        self.thrown = {}
        self.style = ()          # habits of the user, see HABITS
        self.lent = None

    def _files(self, name):
        if self.files_hook is not None:
            self.in_env += 1
            try:
                self.files_hook(self, name)
            finally:
                self.in_env -= 1

    def snap(self, state):
        return snap_state(state)

    def count(self, what):
        self.fired[what] = self.fired.get(what, 0) + 1

    def cb(self, kind, args, exc=None):
        self.in_env += 1
        try:
            if self.lent is not None:
                # the list of an earlier answer is the user's
                self.lent[:] = [SelectOption("lent", "x")] * 2
                self.lent = None
            ctx = self.context()
            snap = self.snap(ctx.state)
            if self.views:
                v = check_inventory(ctx, self.layout) if self.views == "inventory" else check_views(ctx.state)
                if v is not None:
                    self.view_errors.append("event %d: %s" % (len(self.log), v))
            d = None
            entry = [kind, args, snap, d]
            self.log.append(entry)
            self.captured.append(ctx)
            if len(self.log) >= self.cap:
                raise SimStop("cap")
            d = self.script.next(kind, args)
            entry[3] = d
            if self.hook is not None:
                self.hook(self, kind, args, len(self.log) - 1)
            if d[0] == "ans":
                return d[1]
            if d[0] == "sev":
                self.count("severity change")
                set_severity(self, d[1], d[2])
                return d[3]
            if d[0] in ("ex", "bx"):
                self.count("exception in " + kind)
                # an environment may keep an exception and raise it again
                e = self.thrown.setdefault((d[1], d[2]), None) or make_exc(d[1], d[2], len(self.log))
                self.thrown[d[1], d[2]] = e
                self.raised.append(e)
                raise e
            if d[0] == "ab":
                self.count("abort in " + kind)
                self.abort()
            if d[0] == "rw":
                self.count("rewind in " + kind)
                self.rewind(self.captured[d[1] % len(self.captured)])
            if d[0] == "rwp":
                # rewind to a context of an earlier *run* is not a thing; reserved
                raise AssertionError(d)
            raise AssertionError(d)
        finally:
            self.in_env -= 1

    # -- callbacks
    def _query(self, kind, *args):
        return decide.answer_value(kind, self.cb(kind, list(args)), list(args))

    def compareGameVersion(self, version):
        return self._query("compareGameVersion", version)

    def compareSEVersion(self, version):
        return self._query("compareSEVersion", version)

    def compareGEVersion(self, version):
        return self._query("compareGEVersion", version)

    def compareWBVersion(self, version):
        return self._query("compareWBVersion", version)

    def dataFileExists(self, *filepaths):
        return self._query("dataFileExists", *filepaths)

    def getPluginLoadOrder(self, filename, fallback=-1):
        return self._query("getPluginLoadOrder", filename, fallback)

    def getPluginStatus(self, filename):
        return self._query("getPluginStatus", filename)

    def getFilename(self, path):
        return self._query("getFilename", path)

    def getFolder(self, path):
        return self._query("getFolder", path)

    def requiresVersions(self, game_version, se_version=None, ge_version=None, wrye_bash_version=None):
        self.cb("requiresVersions", [game_version, se_version, ge_version, wrye_bash_version])

    def selectOne(self, description, options, default):
        opts = list(options)
        n = self.cb("selectOne", [description, [orepr(o) for o in opts], orepr(default)])
        i = decide.pick_one(n, len(opts))
        if i == -2:
            return SelectOption("unlisted", "x")
        return self.one(default if i == -1 else opts[i])

    def one(self, o):
        """An option as this user gives it."""
        return SelectOption(o.name, o.description, o.image) if "copies" in self.style else o

    def many(self, options):
        res = [self.one(o) for o in options]
        if "tuple" in self.style:
            return tuple(res)
        if "reuse" in self.style:
            self.lent = res
        return res

    def selectMany(self, description, options, default=()):
        opts = list(options)
        n = self.cb("selectMany", [description, [orepr(o) for o in opts], [orepr(o) for o in default]])
        ids = decide.pick_many(n, len(opts))
        if "itself" in self.style:
            if ids == [-1]:
                return default
            if ids == list(range(len(opts))):
                return options
        res = list(default) if ids == [-1] else [SelectOption("unlisted", "x") if i == -2 else opts[i] for i in ids]
        return self.many(res)

    def cancel(self):
        self.in_env += 1
        try:
            msg = message(self.context())
        finally:
            self.in_env -= 1
        n = self.cb("cancel", msg)
        return super().cancel() if "plain" in self.style else self.confirm("cancel", n)

    def complete(self):
        n = self.cb("complete", [])
        return super().complete() if "plain" in self.style else self.confirm("complete", n)

    def confirm(self, kind, n):
        agreed = decide.answer_value(kind, n)
        if "loose" in self.style:
            return [1, "yes", True][n // 2 % 3] if agreed else [None, 0, ""][n // 2 % 3]
        return agreed

    def warning(self, text):
        self.cb("warning", [text])
        if "plain" in self.style:
            super().warning(text)

    def error(self, exc):
        tok = caused(exc, self.outside)
        known = isinstance(exc, werrors.WizardError)
        self.last_error = exc
        self.error_info.append([type(exc).__name__, known, getattr(exc, "sim_token", None), cause_token(exc)])
        self.cb("error", ["env", tok] if tok is not None else ["script", known])
        if "plain" in self.style:
            super().error(exc)
        if self.back and tok == self.back:
            raise exc


def message(ctx):
    """The message of a Cancel, as a list."""
    if isinstance(ctx, WizardTerminationContext):
        m = ctx.message()
        return [] if m is None else [m]
    return []


def set_severity(runner, issue, sev):
    s = Severity[sev]
    if issue == "default":
        runner.set_default_severity(s)
    else:
        runner.set_severity(Issue[issue], s)


def apply_sev(runner, sev):
    for k, v in sorted((sev or {}).items()):
        set_severity(runner, k, v)


def run_real(runner, script):
    """Run; returns the ending: ["end",status,state] | ["raised",token,type] | ["stop"]."""
    runner.outside = handled()
    try:
        status, state = runner.run(script)
    except SimStop:
        return ["stop"]
    except BaseException as e:  # noqa: BLE001
        runner.left = e
        if "plain" in runner.style and e is runner.last_error:
            return ["raised", caused(e, runner.outside), ""]
        return ["raised", getattr(e, "sim_token", None), type(e).__name__]
    runner.in_env += 1
    try:
        if runner.views is True:
            v = check_views(state)
            if v is not None:
                runner.view_errors.append("final: %s" % v)
        return ["end", status.name, snap_state(state)]
    finally:
        runner.in_env -= 1
