"""Probe constructors, on-disk snapshots and scenarios shared by the cache checks."""
import hashlib
import os
import re
import shutil

import gate
import vlib

PREFIX = "probe"
ORDER = "tn"
CONFIG = {"flag": True, "level": 3}
PAD = 420

_state = {}


def setup():
    """Imports the code under test once (before any fork)."""
    if _state:
        return _state
    vlib.use_repo()
    import logging
    logging.disable(logging.CRITICAL)
    import pynini
    from tn.cache import CacheBundle
    from tn.processor import Processor
    from pynini.lib.pynutil import delete, insert

    digits = pynini.union(*"0123456789").closure(1)

    class Probe(Processor):
        """A tiny pipeline whose two graphs carry the generation that built them."""

        def __init__(self, cache_dir, overwrite, gen, mark=lambda text: None, config=None, prefix=PREFIX, ordertype=ORDER,
                     during=None):
            super().__init__("tok", ordertype)
            self.gen, self.mark, self.built, self.during = gen, mark, False, during
            self.build_fst(prefix, cache_dir, overwrite, CONFIG if config is None else config)

        @staticmethod
        def _source_fingerprint(prefix):
            return _state["fingerprint"]

        def build_tagger_and_verbalizer(self):
            self.mark("build-start")
            self.built = True
            pad = "".join(chr(97 + (i * i + i // 7) % 26) for i in range(PAD))
            self.tagger = pynini.union(pynini.cross("a", 'tok { value: "T%d" }' % self.gen), pynini.cross("b" + pad, pad))
            self.verbalizer = pynini.union(
                delete('tok { value: "') + "T" + digits + delete('" }') + insert(" V%d" % self.gen),
                pynini.cross("c" + pad, pad))
            if self.during:
                self.during()
            self.mark("build-end")

    _state.update(Probe=Probe, CacheBundle=CacheBundle, fingerprint="f" * 64)
    # graphs are built once per generation, outside the measured region
    return _state


def bundle(root, **kw):
    a = dict(cache_root=root, prefix=PREFIX, ordertype=ORDER, cache_config=CONFIG, source_fingerprint=_state["fingerprint"])
    a.update(kw)
    return _state["CacheBundle"](**a)


def describe(p):
    """What a finished constructor works with: generations of its tagger and verbalizer."""
    exc, out = vlib.call(p.normalize, "a")
    m = re.match(r"T(\d+) V(\d+)$", out) if not exc else None
    return (int(m.group(1)), int(m.group(2))) if m else (-1, -1)


def construct(root, overwrite, gen, mark=lambda text: None, describe_gens=True, **kw):
    """Runs one constructor; every exception is an observation."""
    P = _state["Probe"]
    holder = {}

    def make():
        p = P.__new__(P)
        holder["p"] = p
        p.__init__(root, overwrite, gen, mark, **kw)
        return p

    exc, val = vlib.call(make, limit=60)
    built = bool(getattr(holder.get("p"), "built", False))
    t, v = describe(val) if not exc and describe_gens else (-1, -1)
    return dict(exc=exc, msg=val if exc else "", t=t, v=v, built=built)


def ctor(root, overwrite, gen, **kw):
    """The same as a gated child's body."""

    def body(mark):
        r = construct(root, overwrite, gen, mark, describe_gens=False, **kw)
        mark("over")
        return r

    def body_full(mark):
        # describing the graphs happens after the last gated step
        P = _state["Probe"]
        holder = {}

        def make():
            p = P.__new__(P)
            holder["p"] = p
            p.__init__(root, overwrite, gen, mark, **kw)
            return p

        exc, val = vlib.call(make, limit=3600)
        mark("over")
        t, v = describe(val) if not exc else (-1, -1)
        return dict(exc=exc, msg=val if exc else "", t=t, v=v, built=bool(getattr(holder.get("p"), "built", False)))

    del body
    return body_full


# ------------------------------------------------------------------ snapshots
def filemap(path):
    out = {}
    for name in sorted(os.listdir(path)):
        p = os.path.join(path, name)
        if os.path.islink(p):
            out[name] = "link:" + os.readlink(p)
        elif os.path.isdir(p):
            out[name] = "dir"
        else:
            with open(p, "rb") as f:
                out[name] = hashlib.sha256(f.read()).hexdigest()
    return out


def reference(work, gens):
    """File maps of complete bundles per generation: what an undisturbed build publishes."""
    ref = {}
    for g in gens:
        root = os.path.join(work, "ref%d" % g)
        r = construct(root, False, g)
        if r["exc"] or (r["t"], r["v"]) != (g, g):
            raise UndisturbedFailure(r)
        ref[g] = filemap(os.fspath(bundle(root).path))
        shutil.rmtree(root)
    return ref


class UndisturbedFailure(Exception):
    pass


def state_of(path, ref):
    """'absent', 'C<gen>' (exactly a published bundle), 'partial' (anything else)."""
    if not os.path.lexists(path):
        return "absent"
    if os.path.islink(path) or not os.path.isdir(path):
        return "partial"
    m = filemap(path)
    for g, files in ref.items():
        if m == files:
            return "C%d" % g
    return "partial"


def snapshot(root, ref):
    b = bundle(root)
    parent, final, lock = map(os.fspath, (b.parent, b.path, b.lock_path))
    res = []
    if os.path.isdir(parent):
        for name in sorted(os.listdir(parent)):
            p = os.path.join(parent, name)
            if p in (final, lock):
                continue
            kind = re.sub(r"-[^-]*$", "", name).rsplit(".", 1)[-1]
            st = state_of(p, ref)
            if st == "partial" and os.path.isdir(p):
                st = "partial:" + ",".join(sorted(os.listdir(p)))
            res.append(kind + "=" + st)
    return dict(final=state_of(final, ref), residuals=sorted(res))


MUTATORS = {"create", "openw", "rename", "exchange", "link", "symlink", "unlink", "rmdir", "mkdir", "truncate", "chmod", "write"}


def copy_tree(src, dst):
    if os.path.exists(dst):
        shutil.rmtree(dst)
    shutil.copytree(src, dst, symlinks=True)
