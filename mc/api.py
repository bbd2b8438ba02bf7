"""The only door to the code under test: the documented entry points."""
from . import env

T = env.load()
process = T.process


def conv(src, tgt, text, nativize=False, pre=(), post=()):
    return process(src, tgt, text, nativize=nativize, pre_options=list(pre), post_options=list(post))


def conv_lines(src, tgt, words, nativize=False, pre=(), post=()):
    """Convert many words with few calls (one per line of a single text).  If the line structure is
    not preserved, fall back to one call per word."""
    try:
        out = conv(src, tgt, "\n".join(words), nativize, pre, post).split("\n")
        if len(out) == len(words):
            return out
    except Exception:
        pass
    return [conv1(src, tgt, w, nativize, pre, post) for w in words]


class Raised(str):
    """stands for the result of a call that raised"""


def conv1(src, tgt, w, nativize=False, pre=(), post=()):
    try:
        r = conv(src, tgt, w, nativize, pre, post)
        return r if isinstance(r, str) else Raised("<returned %s>" % type(r).__name__)
    except Exception as e:
        return Raised("<raised %s: %s>" % (type(e).__name__, str(e)[:120]))
