"""Process set-up shared by every check: where the code under test lives, hermetic imports,
no network, no byte-code written into the tree under test."""
import os, sys, tempfile, warnings

REPO = os.environ.get("MC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_ready = False


def setup():
    """Make `import aksharamukha` read REPO's current working tree, and nothing else."""
    global _ready
    if _ready:
        return
    _ready = True
    sys.dont_write_bytecode = True
    # never trust or refresh .pyc files that lie in the tree under test
    sys.pycache_prefix = os.environ.get("MC_PYCACHE") or os.path.join(
        tempfile.gettempdir(), "mc-nopyc-%d" % os.getpid())
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    # no network: the one remote call in the library (a Tamil IPA web service) must not
    # depend on the machine; it fails immediately instead.
    import socket

    def _no_net(*a, **k):
        raise OSError("network disabled by the checker")
    socket.create_connection = _no_net
    socket.getaddrinfo = _no_net


def load():
    setup()
    import aksharamukha.transliterate as T
    if not os.path.realpath(T.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("imported the wrong tree: " + T.__file__)
    return T
