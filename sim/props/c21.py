"""C21 loading master pattern files: real h5py and loader over a simulated disk."""
import io
import os
import shutil
import tempfile

import h5py
import numpy as np
import torch

from .. import seams
from ..core import Violation

RULE = (
    "one run = a seeded history of writing, replacing, truncating and loading master pattern files of seeded layouts, with read errors at seeded read calls, interrupts at seeded source lines and "
    "missing, misshapen or contradictory contents; every load is compared with a float64 sum over energies of what was written, handles are counted; non-trivial = a fault fired and a later load succeeded, or two different files were loaded"
)
MODULES = ["ebsdtorch.io.read_master_pattern"]
COMPONENTS = {"real": ["ebsdtorch.io.read_master_pattern", "ebsdtorch.ebsd.master_pattern (construction)", "h5py and libhdf5"], "stub": ["disk (file driver of h5py: read errors, truncation)"]}

DISK = {}  # path -> bytes
NEEDED = ["EMData/MCOpenCL/accum_e", "EMData/EBSDmaster/mLPNH", "EMData/EBSDmaster/mLPSH", "CrystalData/SpaceGroupNumber"]


class Device:
    reads = 0
    fail_at = None
    fired = False
    open_files = []


class SimFile(io.RawIOBase):
    def __init__(self, path):
        self.data, self.pos = DISK[path], 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = off + (0, self.pos, len(self.data))[whence]
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        k = Device.reads
        Device.reads += 1
        if Device.fail_at is not None and k == Device.fail_at:
            Device.fired = True
            raise OSError(5, "Input/output error")
        part = self.data[self.pos : self.pos + len(b)]
        b[: len(part)] = part
        if len(part) < len(b):  # past the end the disk driver of HDF5 delivers zeros
            b[len(part) :] = bytes(len(b) - len(part))
        self.pos += len(b)
        return len(b)

    def write(self, b):
        raise Violation("writes-the-file", "the loader wrote to the file")

    def truncate(self, n=None):
        raise Violation("writes-the-file", "the loader truncated the file")

    def flush(self):
        pass


_real = h5py.File


class SimH5(_real):
    def __init__(self, name, mode="r", *a, **k):
        path = os.fspath(name) if isinstance(name, (str, os.PathLike)) else None
        if path in DISK:
            if mode != "r":
                raise Violation("writes-the-file", f"opened with mode {mode!r}")
            super().__init__(SimFile(path), mode)
            Device.open_files.append(self)
        else:
            super().__init__(name, mode, *a, **k)


def setup():
    h5py.File = SimH5
    if hasattr(h5py, "_hl"):
        h5py._hl.files.File = _real
    seams.repo("ebsdtorch.io.read_master_pattern")


def generate(r, tier):
    files = []
    for _ in range(r.choice([1, 2, 2])):
        files.append(content(r))
    ops = []
    for _ in range(r.choice([3, 5, 8])):
        ops.append(
            dict(
                op=r.choice(["load", "load", "load", "eio", "eio", "interrupt", "truncate", "replace", "missing", "drop", "shape", "group", "empty", "touch"]),
                f=r.randrange(4), frac=round(r.random(), 4), new=content(r), k=r.randrange(64),
            )
        )
    return dict(cfg={}, files=files, ops=ops)


def content(r):
    n = r.choice([3, 5, 8, 9])
    return dict(
        seed=r.randrange(2**31), H=n, W=n if r.random() < 0.9 else n + 2, E=r.choice([1, 2, 3, 4, n, 12]), acc=r.choice([1, 3, 5, 21]), sg=r.choice([1, 2, 15, 16, 74, 75, 88, 89, 142, 143, 148, 149, 155, 166, 167, 168, 176, 177, 194, 195, 206, 207, 225, 230]),
        at=r.choice(["i4", "u4", "i8"]), pt=r.choice(["f4", "f4", "f8"]), store=r.choice(["contiguous", "chunked", "gzip"]), same=r.random() < 0.1, zero_bins=r.random() < 0.3, sg_t=r.choice(["i4", "i4", "i8"]),
        lead=r.choice([True, True, True, False]),
    )


def arrays(c):
    rs = np.random.RandomState(c["seed"] % 2**32)
    acc = rs.randint(0, 2000, size=(c["acc"], c["acc"], c["E"]))
    if c["zero_bins"] and c["E"] > 1:
        acc[..., rs.randint(c["E"])] = 0
    acc[0, 0, -1] += 1
    nh = rs.rand(c["E"], c["H"], c["W"]) * 1000
    sh = nh.copy() if c["same"] else rs.rand(c["E"], c["H"], c["W"]) * 1000
    return acc.astype(c["at"]), nh.astype(c["pt"]), sh.astype(c["pt"])


def image(c, mod=None):
    """the bytes of a file; mod(dict of datasets) changes what goes in"""
    acc, nh, sh = arrays(c)
    if c["lead"]:
        nh, sh = nh[None], sh[None]
    d = {NEEDED[0]: acc, NEEDED[1]: nh, NEEDED[2]: sh, NEEDED[3]: np.array([c["sg"]], dtype=c["sg_t"])}
    if mod:
        mod(d)
    b = io.BytesIO()
    with _real(b, "w") as f:
        for k, v in d.items():
            kw = {}
            if v.size > 1 and c["store"] != "contiguous":
                kw["chunks"] = tuple(max(1, (x + 1) // 2) for x in v.shape)
                if c["store"] == "gzip":
                    kw["compression"] = "gzip"
            f.create_dataset(k, data=v, **kw)
        f["EMData/EBSDmaster/numset"] = np.array([1], dtype="i4")
    return b.getvalue()


def laue(sg):
    for k, last in enumerate([2, 15, 74, 88, 142, 148, 167, 176, 194, 206, 230]):
        if sg <= last:
            return k + 1


def wanted(c):
    acc, nh, sh = arrays(c)
    w = acc.astype(np.float64).sum((0, 1))
    w /= w.sum()
    return np.concatenate([(w[:, None, None] * x.astype(np.float64)).sum(0) for x in (nh, sh)], -1), laue(c["sg"])


def execute(plan, ctx):
    m = seams.repo("ebsdtorch.io.read_master_pattern")
    DISK.clear()
    base = h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE | h5py.h5f.OBJ_DATASET | h5py.h5f.OBJ_GROUP)
    root = tempfile.mkdtemp(prefix="c21-")
    kept = []
    seen = set()
    try:
        files = []

        def store(i, b):
            p = os.path.join(root, f"mp{i}.h5")
            DISK[p] = b
            with open(p, "wb") as f:  # for a loader that does not go through h5py.File(path)
                f.write(b)
            return p

        for i, c in enumerate(plan["files"]):
            files.append([store(i, image(c)), c])
        if not files:
            return

        def load(path, **dev):
            Device.reads, Device.fail_at, Device.fired, Device.open_files = 0, dev.get("fail_at"), False, []
            try:
                return m.read_master_pattern(path)
            finally:
                Device.fail_at = None

        def released(what):
            left = h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE | h5py.h5f.OBJ_DATASET | h5py.h5f.OBJ_GROUP) - base
            ctx.check(not any(bool(f) for f in Device.open_files) and left == 0, "handle-leak", lambda: f"{left} HDF5 objects still open after {what}")

        def good(path, c, what):
            mp = load(path)
            released("a load")
            want, lg = wanted(c)
            got = mp.master_pattern
            ctx.check(tuple(got.shape) == want.shape, "shape", lambda: f"{tuple(got.shape)} expected {want.shape} ({what})")
            ctx.check(got.dtype == torch.float32, "dtype", f"{got.dtype}")
            d = np.abs(got.double().numpy() - want).max()
            ctx.check(d <= 1e-5 * np.abs(want).max(), "wrong-pattern", lambda: f"off by {d:.3e} of {np.abs(want).max():.3e} ({what})")
            ctx.check(int(mp.laue_group) == lg, "wrong-symmetry", lambda: f"Laue group {mp.laue_group} for space group {c['sg']}, expected {lg}")
            kept.append((mp, got.clone()))
            seen.add(path)
            return mp

        def rejected(path, what, only_error=True):
            try:
                mp = load(path)
            except Violation:
                raise
            except Exception as e:  # noqa: BLE001
                # (drop the traceback: its frames may hold handles)
                ctx.log("error", type(e).__name__)
                del e
                released(what)
                ctx.fault(what)
                return
            raise Violation("wrong-data-loaded", f"{what}: loaded with shape {tuple(mp.master_pattern.shape)}")

        for op in plan["ops"]:
            j = op["f"] % len(files)
            path, c = files[j]
            k = op["op"]
            ctx.state(k, c["store"], c["E"], c["acc"], laue(c["sg"]))
            if k == "load":
                good(path, c, "plain")
            elif k == "touch":
                # what is done to a loaded pattern does not reach later loads
                mp = good(path, c, "plain")
                kept.pop()
                mp.master_pattern.fill_(-1.0)
                good(path, c, "after changing the earlier one")
            elif k == "eio":
                load(path)
                n = Device.reads
                if n:
                    at = int(op["frac"] * n)
                    try:
                        mp = load(path, fail_at=at)
                    except Violation:
                        raise
                    except Exception as e:  # noqa: BLE001
                        if not Device.fired:
                            raise
                        del e
                        ctx.fault("read-error")
                        released("a read error")
                    else:
                        if Device.fired:
                            want, lg = wanted(c)
                            ok = tuple(mp.master_pattern.shape) == want.shape and np.abs(mp.master_pattern.double().numpy() - want).max() <= 1e-5 * np.abs(want).max() and int(mp.laue_group) == lg
                            ctx.check(ok, "wrong-data-loaded", f"read error at read {at} and wrong data")
                        released("a load")
                good(path, c, "after a read error")
            elif k == "interrupt":
                dry = seams.LineFault()
                with dry:
                    load(path)
                lf = seams.LineFault(dry.pick(op["frac"]))
                try:
                    with lf:
                        load(path)
                except KeyboardInterrupt as e:
                    e.__traceback__ = None
                    del e
                    ctx.fault("interrupt")
                released("an interrupt")
                good(path, c, "after an interrupt")
            elif k == "truncate":
                full = DISK[path]
                store(j, full[: int(op["frac"] * len(full))])
                rejected(path, "truncated-file")
                store(j, full)
                good(path, c, "after repair")
            elif k == "empty":
                full = DISK[path]
                store(j, image(c, lambda d: d[NEEDED[0]].fill(0)))
                rejected(path, "no-electrons")
                store(j, full)
            elif k == "replace":
                files[j][1] = op["new"]
                store(j, image(op["new"]))
                good(path, op["new"], "after replacing the file")
            elif k == "missing":
                rejected(os.path.join(root, "none.h5"), "missing-file")
            elif k == "drop":
                full = DISK[path]
                name = NEEDED[op["k"] % 4]
                store(j, image(c, lambda d: d.pop(name)))
                rejected(path, "incomplete-file")
                store(j, full)
                good(path, c, "after repair")
            elif k == "group":
                full = DISK[path]
                store(j, image(c, lambda d: d.__setitem__(NEEDED[3], np.array([[0, 231, -5][op["k"] % 3]], dtype="i4"))))
                rejected(path, "no-such-space-group")
                store(j, full)
            elif k == "shape":
                full = DISK[path]

                def mod(d):
                    q = op["k"] % 5
                    if q == 0:
                        d[NEEDED[1]] = d[NEEDED[1]][..., :-1]  # one hemisphere narrower
                    elif q == 1:
                        d[NEEDED[2]] = d[NEEDED[2]][..., :-1, :]
                    elif q == 2:
                        d[NEEDED[0]] = np.concatenate([d[NEEDED[0]]] * 2, -1) if op["k"] % 2 else d[NEEDED[0]][..., :1].repeat(c["E"] + 1, -1)  # other energies
                    elif q == 3:
                        x = d[NEEDED[2]]
                        ax = x.ndim - 3
                        d[NEEDED[2]] = np.concatenate([x, x], ax)  # hemispheres of different energies
                    else:
                        for n in NEEDED[1:3]:
                            x = d[n]
                            d[n] = np.concatenate([x, x], x.ndim - 3)  # more energies than were simulated

                b = image(c, mod)
                store(j, b)
                rejected(path, "contradictory-file")
                store(j, full)
                good(path, c, "after repair")
            ctx.log(k, j, len(DISK[path]))
        for mp, was in kept:
            ctx.check(torch.equal(mp.master_pattern, was), "earlier-result-changed", "a later load changed a loaded pattern")
        ctx.nontrivial = ctx.nontrivial or len(seen) > 1
    finally:
        DISK.clear()
        shutil.rmtree(root, ignore_errors=True)


FROZEN_LISTS = ("files",)
