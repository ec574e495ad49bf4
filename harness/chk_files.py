"""Checks of what is kept in files: C04 single ensembles, C07 named collections.

The machine is QpEnsemble.tla with its files and collections; behaviours are replayed with real files in all
of the formats.
"""
import os

import numpy as np

import reps
from chk_ens import explore, switches
from machine import Kinds, Replay, ancil_dict, behaviours

EXTS = ["hdf5", "pq", "h5", "fits", "hf5"]
NAMES = [  # names of the items of a collection
    ("first", "meta", "a name, longer"),
    (" lead", "lead", "lead "),
    ("Case", "case", "CASE"),
    ("1", "1.0", "\u00e9 \u00fc"),
    ("a.b", "a_b", "a\tb"),
    ("..", "data", "%s"),
    ("_", "-", "n" * 200),
    ("ancil", "\u00e9", "e\u0301"),
]


class FileReplay(Replay):
    """Replay with files: names of the model stand for (base, format)"""

    def __init__(self, ctx, kinds, label, folder, shift=0, pick=0, **more):
        super().__init__(ctx, kinds, label, **more)
        self.folder = folder
        os.makedirs(folder)
        self.shift = shift
        self.content = {}
        self.names = NAMES[pick % len(NAMES)]

    def name(self, num):
        """File of a number: different formats share their base name"""
        ext = EXTS[(num + self.shift) % len(EXTS)]
        return os.path.join(self.folder, "%s.%s" % ("ens" if num < 5 else "other", ext)), ext

    def erase(self, num):
        path, ext = self.name(num)
        base = path[: -len(ext) - 1]
        for item in [path] + ([base + t + ".pq" for t in ("data", "meta", "ancil")] if ext == "pq" else []):
            if os.path.exists(item):
                os.remove(item)

    def read(self, num, clause):
        """Read and compare a file"""
        path, ext = self.name(num)
        got = self.qp.read(path)
        self.compare(got, self.content[num], "%s (%s)" % (clause, ext), ("pdf",), file=os.path.basename(path))
        meta = self.qp.read_metadata(path)
        want = self.kinds.ref(self.content[num]["rows"][0], self.content[num]["meta"])["meta"]
        if not reps.same_meta(reps.plain_meta(meta), want, 1e-12):
            self.fail("metadata in the file (%s)" % ext)
        if not self.qp.is_qp_file(path):
            self.fail("a file with an ensemble is not recognised (%s)" % ext)
        if ext == "hdf5" and int(self.qp.data_length(path)) != len(self.content[num]["rows"]):
            self.fail("number of distributions in the file")
        return got

    def do_write(self, what, step):
        num = what["f"]
        path, ext = self.name(num)
        ens = self.ens[what["h"]]
        if ext == "fits" and what["again"]:
            # tables of this format may not be replaced; then the earlier contents have to stay
            try:
                ens.write_to(path)
            except Exception:  # pylint: disable=broad-except
                self.read(num, "file after a refused write")
                self.erase(num)
                ens.write_to(path)
        else:
            ens.write_to(path)
        self.content[num] = step["post"][what["h"] - 1]

    def do_read(self, what, step):
        self.ens[what["g"]] = self.read(what["f"], "read")

    def do_isqp(self, what, step):
        num = what["f"]
        path = self.name(num)[0] if num else os.path.join(self.folder, "nothing.hdf5")
        got = self.qp.is_qp_file(path)
        if bool(got) != what["there"]:
            self.fail("recognising %s gives %r" % (os.path.basename(path), got))

    def do_remove(self, what, step):
        self.erase(what["f"])
        self.content.pop(what["f"], None)

    # ---- collections
    def dict_path(self, num):
        return os.path.join(self.folder, "dict%d.hdf5" % num)

    def do_writedict(self, what, step):
        path = self.dict_path(what["d"])
        items = {self.names[it["name"] - 1]: self.ens[it["h"]] for it in what["items"]}
        if not step["ok"]:
            keys = list(items)
            pos = len(self.history) % len(keys)
            wrong = [None, dict(items[keys[pos]].build_tables()), np.ones((2, 3)), items[keys[pos]].frozen][len(self.history) % 4]
            bad = dict(items)
            bad[keys[pos]] = wrong
            old = open(path, "rb").read() if os.path.exists(path) else None
            self.refuse(lambda: self.qp.factory.instance().write_dict(path, bad), "a collection with something else is refused")
            new = open(path, "rb").read() if os.path.exists(path) else None
            if old is not None and old != new:
                self.fail("a refused collection changes the file")
            return
        keep = dict(items)
        self.qp.factory.instance().write_dict(path, items)
        if items != keep:
            self.fail("writing changes the dictionary")
        self.content[("d", what["d"])] = what["items"]

    def do_readdict(self, what, step):
        path = self.dict_path(what["d"])
        got = self.qp.factory.instance().read_dict(path)
        want = {self.names[it["name"] - 1]: it["e"] for it in what["items"]}
        if set(got) != set(want):
            self.fail("names in the file are %s, not %s" % (sorted(got), sorted(want)))
            return
        for name, ens in got.items():
            self.compare(ens, want[name], "item %r of a collection" % name, ("pdf",))
        self.ens[what["g"]] = got[self.names[what["name"] - 1]]

    def finish(self):
        """Everything that is in the files at the end"""
        with self.ctx.case("files can be read at the end (%s)" % self.label, **self.info()):
            for num in list(self.content):
                if isinstance(num, tuple):
                    got = self.qp.factory.instance().read_dict(self.dict_path(num[1]))
                    want = {self.names[it["name"] - 1]: it["e"] for it in self.content[num]}
                    if set(got) != set(want):
                        self.fail("names in the file are %s, not %s" % (sorted(got), sorted(want)))
                        continue
                    for name, ens in got.items():
                        self.compare(ens, want[name], "item %r at the end" % name, ("pdf",))
                else:
                    self.read(num, "at the end")


def run_files(ctx, ops, num, depth, salt, rounds, **size):
    """Replay behaviours with files"""
    fams = reps.families(ctx.qp)
    logs = behaviours(ctx, ops, num, depth, salt, **size)
    count = 0
    for rnd in range(rounds):
        order = ctx.rng.permutation(len(fams))
        kinds = []
        for i, j in zip(order, np.roll(order, 1)):
            kinds.append(Kinds((fams[i], 1), (fams[i], 2)) if fams[i].two and (i + rnd) % 2 else Kinds((fams[i], 1), (fams[j], 1)))
        kinds = kinds[:-2] + switches(fams)[rnd % 2 :: 2] + kinds[-2:]
        for i, kind in enumerate(kinds):
            for j in range((i + rnd) % len(kinds), len(logs), len(kinds)):
                folder = os.path.join(ctx.scratch, "files-%d" % count)
                turn = i + j // len(kinds)  # not in step with the number of kinds
                rep = FileReplay(ctx, kind, "behaviour %d" % j, folder, shift=j + i + rnd, flip=turn // 2 % 2 == 1, deep=False, style=(turn + rnd) % 2, pick=turn)
                if rep.run(logs[j]):
                    rep.finish()
                ctx.traces += 1
                count += 1
                if count == 1:
                    ctx.sample(dict(kinds=[kind.name(1), kind.name(2)], history=rep.history))
                for item in os.listdir(folder):
                    os.remove(os.path.join(folder, item))
                os.rmdir(folder)
                if len(ctx.violations) > 6:
                    return
    ctx.detail["behaviours_replayed"] = ctx.detail.get("behaviours_replayed", 0) + count


def formats(ctx):
    """Every representation in every format, over a longer one with ancillary data, and with strings and bools"""
    for fam in reps.families(ctx.qp):
        kinds = Kinds((fam, 1), (fam, 2 if fam.two else 1))
        for shift, ext in enumerate(EXTS):
            label = "%s %s" % (fam.label, ext)
            folder = os.path.join(ctx.scratch, "fmt-%s-%s" % (fam.label, ext))
            rep = FileReplay(ctx, kinds, label, folder, shift=shift)
            with ctx.case("files of " + label):
                first = fam.build([1, 2, 3], 1, alt=fam.alt)
                first.set_ancil(ancil_dict([[1, 2, 3], [4, 5, 6]]))
                before = {k: np.array(v) for k, v in first.objdata().items()}
                wr = lambda h, again=True: rep.do_write(dict(f=0, h=h, again=again), dict(post=states))  # noqa: E731
                states = [
                    dict(meta=1, rows=[1, 2, 3], anc=[[1, 2, 3], [4, 5, 6]], live=True),
                    dict(meta=2, rows=[4], anc=[], live=True),
                    dict(meta=1, rows=[5, 6, 7, 7, 1], anc=[], live=True),
                ]
                rep.ens = {1: first, 2: fam.build([4], kinds.var(2)), 3: fam.build([5, 6, 7, 7, 1], 1)}
                wr(1, False)
                rep.compare(rep.read(0, "first"), states[0], "first", ("pdf", "cdf"))
                for hand in (2, 3, 1):
                    wr(hand)
                    rep.read(0, "next")
                    rep.compare(rep.ens[hand], states[hand - 1], "written ensemble")
                ctx.check(all(np.array_equal(before[k], v) for k, v in first.objdata().items()), "writing changes nothing (%s)" % label)
                # again what was read
                again = rep.read(0, "read")
                rep.ens[1] = again
                wr(1)
                rep.read(0, "written after it was read")
                ctx.traces += 1


def through(ctx):
    """From one format to another: what was read from any file can be written to any other"""
    fams = reps.families(ctx.qp)
    for i, one in enumerate(EXTS):
        for j, two in enumerate(EXTS):
            for fam in fams if not ctx.quick else fams[(i * 5 + j) % 3 :: 3]:
                label = "%s from %s to %s" % (fam.label, one, two)
                with ctx.case("files of " + label):
                    rep = Replay(ctx, Kinds((fam, 1), (fam, 1)), label)
                    state = dict(meta=1, rows=[3, 1], anc=[[3, 9], [4, 5]])
                    ens = fam.build([3, 1], 1)
                    ens.set_ancil(ancil_dict(state["anc"]))
                    name = lambda k, ext: os.path.join(ctx.scratch, "thr%s.%s" % (k, ext))  # noqa: E731
                    for path in (name(1, one), name(2, two)):
                        if os.path.exists(path):
                            os.remove(path)
                    ens.write_to(name(1, one))
                    ctx.qp.read(name(1, one)).write_to(name(2, two))
                    rep.compare(ctx.qp.read(name(2, two)), state, "what was read and written", ("pdf",))
                    ctx.traces += 1


def columns(ctx):
    """Ancillary columns of all kinds"""
    cols = dict(
        i=np.array([3, -1, 2]), f=np.array([0.25, 1e-300, -7.5e200]), b=np.array([True, False, True]),
        s=np.array([b"ab", b"", b"xyz"]), m=np.arange(6.0).reshape(3, 2), f4=np.array([0.5, 2.5, -1], np.float32),
        i4=np.array([7, 8, 2**31 - 1], np.int32), m1=np.array([[1.5], [2], [3]]), big=np.array([2**60 + 1, 3 - 2**62, 2**53 + 1]),
        u8=np.array([1, 2, 2**63 + 5], np.uint64), u1=np.array([0, 1, 255], np.uint8), u2=np.array([0, 1, 65535], np.uint16),
        i2=np.array([1, -2, 32767], np.int16), mb=np.array([[True, False], [False, False], [True, True]]),
        mi=np.array([[2**60 + 1, 1], [2, 3], [4, -(2**60)]]), m4=np.arange(6, dtype=np.float32).reshape(3, 2) / 4,
        inf=np.array([-np.inf, 1, np.inf]), d3=np.arange(12.0).reshape(3, 2, 2) + 0.5, i3=np.arange(6).reshape(3, 1, 2), d4=np.arange(24.0).reshape(3, 2, 2, 2),
    )
    fam = reps.families(ctx.qp, ["hist"])[0]
    for ext in EXTS:
        for name, val in cols.items():
            if ext in ("h5", "pq") and name == "s":
                continue  # text in tables of these formats is up to pandas
            if ext in ("h5", "pq") and val.ndim > 2:
                continue  # nor do they have more than two dimensions
            path = os.path.join(ctx.scratch, "cols-%s.%s" % (name, ext))
            with ctx.case("ancillary column %s in %s" % (name, ext)):
                ens = fam.build([1, 2, 3], 1)
                ens.set_ancil({name: val})
                ens.write_to(path)
                got = ctx.qp.read(path).ancil
                ctx.check(set(got) == {name}, "ancillary columns in " + ext, got=list(got))
                have = np.asarray(got[name])
                if name == "s":
                    have = have.astype("S")
                ctx.check(have.shape == val.shape and np.array_equal(have, val), "ancillary %s in %s" % (name, ext), got=have, want=val)
                ctx.traces += 1


def junk(ctx):
    """Files that hold no ensemble"""
    import h5py

    path = lambda name: os.path.join(ctx.scratch, name)  # noqa: E731
    open(path("empty.hdf5"), "w").close()
    open(path("text.hdf5"), "w").write("pdf_name hist\n")
    open(path("text.fits"), "w").write("meta\n")
    open(path("text.pq"), "w").write("meta\n")
    with h5py.File(path("other.hdf5"), "w") as fil:
        fil.create_group("table").create_dataset("pdf_name", data=np.array([b"hist"]))
    with h5py.File(path("nometa.hdf5"), "w") as fil:
        fil.create_group("data").create_dataset("pdfs", data=np.ones((2, 3)))
    with h5py.File(path("metaonly.hdf5"), "w") as fil:
        fil.create_group("meta").create_dataset("bins", data=np.arange(3.0))
        fil.create_group("data").create_dataset("pdfs", data=np.ones((2, 3)))
    with h5py.File(path("none.hdf5"), "w") as fil:
        fil.create_group("meta").create_dataset("pdf_name", data=np.zeros(0, "S4"))
    os.makedirs(path("folder.hdf5"))
    two = {"x": reps.families(ctx.qp, ["hist"])[0].build([1], 1)}
    ctx.qp.factory.instance().write_dict(path("coll.hdf5"), two)
    for name in ("empty.hdf5", "text.hdf5", "text.fits", "text.pq", "other.hdf5", "nometa.hdf5", "metaonly.hdf5", "none.hdf5", "folder.hdf5", "nothere.hdf5", "coll.hdf5", "nothere.xyz"):
        with ctx.case("recognising " + name):
            ctx.check(not ctx.qp.is_qp_file(path(name)), "a file that holds no ensemble is recognised", file=name)
            ctx.traces += 1


def run_c04(ctx):
    """Files of single ensembles"""
    ctx.assumptions += [
        "the order of ancillary columns is not kept",
        "a refused overwrite (fits) leaves the earlier contents, and counts as not written",
    ]
    explore(ctx, [(["create", "file", "remove", "drop"], dict(H=1, NF=2, MaxLen=1))])
    if not ctx.quick:
        explore(ctx, [(["create", "file", "remove", "drop", "ancil"], dict(H=1, NF=2, MaxLen=2))])
    formats(ctx)
    columns(ctx)
    through(ctx)
    junk(ctx)
    run_files(ctx, ["create", "select", "append", "ancil", "file", "remove", "alt", "switch"], ctx.n(75, 450), 16, 400, ctx.n(1, 4), H=2, NF=5)
    run_files(ctx, ["create", "update", "keepmeta", "append", "ancil", "file", "query"], ctx.n(45, 300), 14, 450, ctx.n(1, 4), H=2, NF=4)


def run_c07(ctx):
    """Named collections"""
    ctx.assumptions += ["names contain no slash, which is a separator in hdf5"]
    explore(ctx, [(["create", "dict", "drop"], dict(H=2, ND=1, MaxLen=1)), (["create", "dict"], dict(H=1, ND=1))])
    run_files(ctx, ["create", "select", "ancil", "anc2", "alt", "dict", "switch"], ctx.n(105, 600), 14, 700, ctx.n(1, 4), H=3, ND=2, MaxLen=4)
