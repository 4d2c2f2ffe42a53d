"""Running the code under test through its public interface only."""
import contextlib
import copy
import io

from . import env
from .core import Violation, first_difference, same

TTP = env.import_ttp()
ttp = TTP.ttp


class Raised:
    """an exception that reached the caller, compared by type only"""

    def __init__(self, exc):
        self.type = type(exc).__name__
        self.text = str(exc)

    def __eq__(self, other):
        return isinstance(other, Raised) and self.type == other.type

    def __hash__(self):
        return hash(self.type)

    def __repr__(self):
        return "Raised(%s: %s)" % (self.type, self.text[:200])


def attempt(fn, *args, **kwargs):
    try:
        return fn(*args, **kwargs)
    except (Exception, SystemExit) as e:
        return Raised(e)


def run(template, data=None, vars=None, **kw):
    """results of one parser for one text (or a list of texts)"""
    result_kw = kw.pop("result_kw", {})
    p = ttp(template=template, **({"vars": vars} if vars else {}), **kw)
    if data is not None:
        for d in data if isinstance(data, list) else [data]:
            p.add_input(d)
    p.parse(one=True)
    return copy.deepcopy(p.result(**result_kw))


def run1(template, data, **kw):
    """result of the single template for the single text"""
    r = attempt(run, template, data, **kw)
    if isinstance(r, Raised):
        return r
    if not (isinstance(r, list) and len(r) == 1 and isinstance(r[0], list) and len(r[0]) == 1):
        return ("unexpected shape", r)
    return r[0][0]


def run_batch(template, texts, **kw):
    """per-item results of many different texts; one parser when that works, one
    parser for each text when it raises"""
    if len(texts) == 1:
        return [run1(template, texts[0], **kw)]
    try:
        r = run(template, texts, **kw)
        if len(r) == 1 and len(r[0]) == len(texts):
            return r[0]
    except (Exception, SystemExit):
        pass
    return [run1(template, t, **kw) for t in texts]


def expect(got, want, template=None, data=None, note="", key=None):
    if not same(got, want):
        raise Violation(
            "%s %s\n--- template ---\n%s\n--- data ---\n%s\n--- expected ---\n%r\n--- observed ---\n%r"
            % (note, first_difference(want, got), template, data, want, got),
            key=key, template=template, data=data, expected=repr(want), observed=repr(got))
    return got


@contextlib.contextmanager
def captured():
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out, err

