"""The unmodified compiler of the current tree, for the bounded stand-ins."""
import os
from pvc import loader

_plain = None


def repo(p="/repo"):
    """A path of /repo, or of the copy PVC_REPO points to."""
    return p.replace("/repo", loader.REPO, 1)


def plain():
    global _plain
    if _plain is None:
        _plain = loader.load(False)
    return _plain
