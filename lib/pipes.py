"""The six shipped pipelines (and single rules), built from the working tree in parallel."""
import contextlib
import importlib
import os
from unittest import mock

import vlib

CLASSES = {
    "zt": ("tn.chinese.normalizer", "Normalizer"), "zi": ("itn.chinese.inverse_normalizer", "InverseNormalizer"),
    "et": ("tn.english.normalizer", "Normalizer"), "ei": ("itn.english.inverse_normalizer", "InverseNormalizer"),
    "jt": ("tn.japanese.normalizer", "Normalizer"), "ji": ("itn.japanese.inverse_normalizer", "InverseNormalizer"),
}
# longest builds first
COST = ["et", "zi", "ei", "zt", "ji", "jt"]


class BuildFailed(Exception):
    pass


def cls(pipe):
    mod, name = CLASSES[pipe]
    return getattr(importlib.import_module(mod), name)


def shell(pipe, **options):
    """A pipeline object without graphs."""
    from tn.processor import Processor
    with mock.patch.object(Processor, "build_fst", lambda *a, **k: None):
        return cls(pipe)(**options)


def build(specs, extra=(), with_extra=None):
    """specs: {name: (pipeline, options)}.  Returns {name: object}; raises BuildFailed.

    Every pipeline is built in memory in a forked child and handed over as plain FST files,
    so that nothing here depends on the graph cache."""
    vlib.use_repo()
    import logging
    logging.disable(logging.CRITICAL)
    for pipe in CLASSES:
        if any(p == pipe for p, _ in specs.values()):
            cls(pipe)
    base = os.path.join(vlib.scratch(), "fst")
    os.makedirs(base, exist_ok=True)

    def job(name):
        pipe, options = specs[name]
        e, p = vlib.call(cls(pipe), cache_dir=False, limit=600, **options)
        if e:
            return (e, p)
        p.tagger.write(os.path.join(base, name + ".t"))
        p.verbalizer.write(os.path.join(base, name + ".v"))
        return ("", "")

    names = sorted(specs, key=lambda n: COST.index(specs[n][0]))
    res = vlib.pmap(job, names)
    from pynini import Fst
    out = {}
    for name, r in zip(names, res):
        if isinstance(r, vlib.Died):
            raise BuildFailed("building %s: %s" % (name, r))
        if r[0]:
            raise BuildFailed("building %s: %s: %s" % (name, r[0], r[1]))
        p = shell(specs[name][0], **specs[name][1])
        p.tagger = Fst.read(os.path.join(base, name + ".t"))
        p.verbalizer = Fst.read(os.path.join(base, name + ".v"))
        out[name] = p
    return out


@contextlib.contextmanager
def reported(chk):
    """Turns a pipeline that cannot be built into a violation."""
    try:
        yield
    except BuildFailed as e:
        chk.violation("a pipeline cannot be built", dict(reason=str(e)))
        chk.finish()
