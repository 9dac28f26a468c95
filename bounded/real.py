"""Runs scripts with the code under test and records what a user can observe."""
import sys

sys.setrecursionlimit(20000)

from bounded import ref as R

from wizard import errors as WE
from wizard.contexts import (
    WizardInterpreterContext, WizardSelectManyContext, WizardSelectOneContext,
    WizardTerminationContext,
)
from wizard.scriptrunner import WizardScriptRunner, WizardScriptRunnerStatus
from wizard.severity import Issue, Severity
from wizard.value import Plugin, SubPackage, SubPackages, Value, Void

SEV = {"error": Severity.ERROR, "warning": Severity.WARNING, "allow": Severity.ALLOW}


class TimeOut(BaseException):
    """the case took too much processor time"""


class Pkg(SubPackage):
    def __init__(self, name, files):
        super().__init__(name)
        self._files = tuple(files)

    @property
    def files(self):
        return iter(self._files)


def show(v):
    """as R.show, of what the code under test produced"""
    if isinstance(v, Value):
        v = v.value
    if isinstance(v, SubPackage):
        return ("SubPackage", v.name)
    if isinstance(v, SubPackages):
        return ("SubPackage[]", tuple(s.name for s in v))
    if isinstance(v, Void):
        return ("void",)
    if v is None:
        return None
    if type(v) is bool:
        return ("bool", v)
    if type(v) is float:
        return ("float", repr(v))
    if type(v) is int:
        return ("integer", v)
    if type(v) is str:
        return ("string", v)
    return ("?", repr(v))


def show_state(s):
    d = {"variables": {k: show(v) for k, v in s.variables.items()}}
    for k, v in s.variables.items():
        if isinstance(v, Value) and str(v.type) != d["variables"][k][0]:
            d["variables"][k] = ("badly typed", str(v.type), d["variables"][k])
    if hasattr(s, "subpackages"):
        d["subpackages"] = [x.name for x in s.subpackages]
        d["plugins"] = [x.name for x in s.plugins]
        d["renames"] = {k.name.casefold(): show(v) for k, v in s.renames.items()}
        if len(d["renames"]) != len(s.renames):
            d["renames"]["?"] = repr(s.renames)
        d["disabled"] = [tuple(map(show, (x.filename, x.section, x.setting))) for x in s.tweaks.disabled]
        d["modified"] = [
            tuple(map(show, (x.filename, x.section, x.setting, x.value, x.comment)))
            for x in s.tweaks.modified]
        d["notes"] = list(map(show, s.notes))
    return d


KINDS = [
    (WE.WizardParseError, "parse"), (WE.WizardNameError, "name"),
    (WE.WizardIndexError, "index"), (WE.WizardTypeError, "type"),
    (WE.WizardMissingPackageError, "package"), (WE.WizardMissingPluginError, "plugin"),
]


def show_error(ex):
    for c, k in KINDS:
        if isinstance(ex, c):
            d = None
            if k == "name":
                d = ex.name
            elif k == "index":
                d = ex.index
            elif k in ("package", "plugin"):
                d = ex._name if hasattr(ex, "_name") else ex.args[0]
            d = getattr(d, "name", d)
            return (k, (ex.line, ex.column), d)
    return ("raw " + type(ex).__name__, None, None)


class Runner(WizardScriptRunner):
    def __init__(self, packages, chooser=None, hook=None):
        self.events = []
        self.chooser = chooser
        self.hook = hook
        self.failed = None
        super().__init__(packages)
        fns = self._factory.evisitor._functions
        fns["probe"] = lambda st, vs: self.called("probe", vs)
        fns["sink"] = lambda st, vs: self.called("sink", vs)

    def called(self, n, vs):
        self.events.append((n,) + tuple(show(v) for v in vs))
        if self.hook:
            self.hook(self)
        return vs[0] if n == "probe" and vs else Value(Void())

    def warning(self, text):
        self.events.append(("warning", text))

    def error(self, exc):
        self.failed = exc

    def _opt(self, o):
        return (o.name, o.description, o.image)

    def selectOne(self, description, options, default):
        self.events.append(("one", description, tuple(map(self._opt, options)), self._opt(default)))
        if self.hook:
            self.hook(self)
        i = self.chooser(self, [self._opt(o) for o in options], [self._opt(default)], False)
        return options[i[0]]

    def selectMany(self, description, options, default=()):
        self.events.append(("many", description, tuple(map(self._opt, options)),
                            tuple(map(self._opt, default))))
        if self.hook:
            self.hook(self)
        i = self.chooser(self, [self._opt(o) for o in options], [self._opt(o) for o in default], True)
        return [options[k] for k in i]

    def requiresVersions(self, *a):
        self.events.append(("requires",) + a)

    def mgr(self, m, *a):
        self.events.append((m,) + a)
        return R.manager_result(m, a)

    def compareGameVersion(self, version):
        return self.mgr("compareGameVersion", version)

    def compareSEVersion(self, version):
        return self.mgr("compareSEVersion", version)

    def compareGEVersion(self, version):
        return self.mgr("compareGEVersion", version)

    def compareWBVersion(self, version):
        return self.mgr("compareWBVersion", version)

    def dataFileExists(self, *filepaths):
        return self.mgr("dataFileExists", *filepaths)

    def getPluginLoadOrder(self, *a):
        return self.mgr("getPluginLoadOrder", *a)

    def getPluginStatus(self, filename):
        return self.mgr("getPluginStatus", filename)

    def getFilename(self, path):
        return self.mgr("getFilename", path)

    def getFolder(self, path):
        return self.mgr("getFolder", path)


def configure(r, severity):
    for k, v in severity.items():
        if k is None:
            r.set_default_severity(SEV[v])
        else:
            r.set_severity(Issue[k], SEV[v])


def packages(spec):
    return SubPackages([Pkg(n, f) for n, f in spec])


STATUS = {
    WizardScriptRunnerStatus.CANCEL: "cancel", WizardScriptRunnerStatus.RETURN: "return",
    WizardScriptRunnerStatus.COMPLETE: "complete", WizardScriptRunnerStatus.ERROR: "error",
}


def run(script, pkgs, severity, chooser, hook=None):
    """-> (status, detail, state, events)"""
    r = Runner(packages(pkgs), chooser, hook)
    configure(r, severity)
    try:
        st, state = r.run(script)
    except RecursionError:
        raise R.Limit()
    except TimeOut:
        raise
    except Exception as ex:
        return "crash", show_error(ex), {}, r.events
    if isinstance(r.failed, RecursionError):
        raise R.Limit()
    detail = None
    if st is WizardScriptRunnerStatus.ERROR:
        detail = show_error(r.failed)
    elif st is WizardScriptRunnerStatus.CANCEL and isinstance(r._ctx, WizardTerminationContext):
        detail = r._ctx.message()
    return STATUS[st], detail, show_state(state), r.events
