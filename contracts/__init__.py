"""Contract modules.  A group has its own model (record, contract and opacity tables)."""
import importlib


# functions that a property also depends on, besides those listed at their contracts
ALSO = {
    "C02": ["WizardInterpreterState.copy", "WizardInterpreterState.__init__", "WizardRunnerState.copy"],
    "C03": ["Value.__bool__", "factory.copy_parent"],
    "C04": ["Value.__bool__", "factory.copy_context", "factory.copy_parent"],
    "C05": ["factory.copy_context", "factory.copy_parent"],
    "C06": ["WizardScriptRunner.run"],
    "C07": ["WizardSelectContext.exec_", "WizardSelectOneContext.select", "WizardSelectManyContext.select",
            "factory.copy_context", "factory.copy_parent"],
    "C08": ["WizardScriptRunner.run", "WizardBodyContext.exec_"],
    "C11": ["WizardForLoopContext._for_in_header"],
    "C17": ["WizardRunnerState.copy"],
    "C18": ["WizardRunnerState.copy"],
    "C21": ["expr.visitValue", "WizardNoteContext.exec_", "WizardSelectOneContext.__init__", "visitSelectPlugin",
            "visitSelectSubPackage"],
    "C22": ["factory.copy_parent", "WizardBodyContext.exec_"],
}


class Group:
    def __init__(self, name, modules, model=None):
        self.name = name
        self.modules = modules
        self.model = model
        self.problems = []

    def load(self):
        """-> (model, targets)"""
        from .base import make_model

        m = make_model()
        mods = []
        for n in self.modules:
            try:
                x = importlib.import_module("contracts." + n)
                x.install(m)
                mods.append(x)
            except Exception as e:
                self.problems.append(f"{n}: {type(e).__name__}: {e}")
        ts = []
        for x in mods:
            if hasattr(x, "targets"):
                try:
                    ts += x.targets()
                except Exception as e:
                    self.problems.append(f"{x.__name__}: {type(e).__name__}: {e}")
        for t in ts:
            more = tuple(p for p, ns in ALSO.items() if t.name in ns and p not in t.props)
            t.props = tuple(t.props) + more
        return m, ts


def groups():
    return [
        Group("interpreter", ["tree", "value", "errors", "contexts", "expr", "keywords"]),
        Group("runner", ["runner"]),
        Group("severity", ["severity"]),
        Group("names", ["names"]),
        Group("driver", ["driver"]),
        Group("functions", ["functions"]),
        Group("mappings", ["mappings"]),
        Group("texts", ["texts"]),
        Group("glue", ["glue"]),
        Group("recover", ["recover"]),
    ]


def all_modules():
    return [importlib.import_module("contracts." + n) for g in groups() for n in g.modules]
