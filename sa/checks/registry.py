"""Property id -> the analysis that decides it."""


class Spec:
    def __init__(self, run, level, technique, explanation, note):
        self.run, self.level, self.technique, self.explanation, self.note = run, level, technique, explanation, note


CHECKS = {}


def check(prop, technique, explanation, note, level="other"):
    def deco(fn):
        CHECKS[prop] = Spec(fn, level, technique, explanation, note)
        return fn
    return deco


from . import statistics  # noqa: E402,F401
from . import lawchecks  # noqa: E402,F401
from . import testing  # noqa: E402,F401
from . import resolving  # noqa: E402,F401
from . import persist  # noqa: E402,F401
from . import loading  # noqa: E402,F401
from . import codec  # noqa: E402,F401
from . import connecting  # noqa: E402,F401
from . import units  # noqa: E402,F401
from . import options  # noqa: E402,F401
from . import effects  # noqa: E402,F401
from . import estimation  # noqa: E402,F401
from . import surface  # noqa: E402,F401
from . import definitions  # noqa: E402,F401
from . import graphs  # noqa: E402,F401
from . import likelihoods  # noqa: E402,F401
