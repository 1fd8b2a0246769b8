"""Stand-in for lsst.pex.exceptions (demonstrations only)."""
import builtins


class Exception(builtins.Exception):
    pass


class LogicError(Exception):
    pass


class DomainError(LogicError):
    pass


class RuntimeError(Exception, builtins.RuntimeError):
    pass
