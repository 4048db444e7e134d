"""Abstract values shared by the contracts."""
from .engine import PathEnd, Unsupported, SymInt, SymBool, SymName, mk, mkb
import z3

_cache = {}


def amanda_error_class(ns):
    return ns["amanda.compiler.error"].AmandaError


class Opaque:
    """An object only its identity is known of; anything else is unsupported."""

    def __init__(self, label, **attrs):
        self.__dict__["label"] = label
        self.__dict__.update(attrs)

    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__"):
            raise AttributeError(a)
        if a in ("sym_is", "sym_len", "sym_enumerate", "sym_zip", "sym_map", "sym_any",
                 "sym_all", "sym_contains", "sym_reversed", "is_sym_seq", "is_sym", "in_str"):
            raise AttributeError(a)
        raise Unsupported(f"attribute {a} of abstract {self.label}")

    def __repr__(self):
        return f"<{self.label}>"
