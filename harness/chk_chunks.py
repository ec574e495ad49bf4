"""Checks of chunked reading (C05) and writing (C06), from QpChunks.tla"""
import json
import os

import numpy as np
from tables_io import io

import reps
from machine import Kinds, Replay, ancil_dict

READ = "SPECIFICATION %s\n%sCONSTANTS N = %d C = %d P = %d Mode = \"%s\" Depth = %d MUT = \"%s\"\n"
CLAIMS = "VIEW View\nINVARIANTS Once Covered Inside LastWins Complete\n"


def config(mode, n, c, p, depth=0, mut=""):
    """Configuration of QpChunks"""
    if depth:
        return READ % ("Spec", "", n, c, p, mode, depth, mut)
    return READ % ("Fair", CLAIMS + ("PROPERTY Ends\n" if mode == "read" else ""), n, c, p, mode, 0, mut)


def table(rows):
    """Ancillary data that identifies the rows"""
    return [[100 + i for i in range(len(rows))], [7 * i + 1 for i in range(len(rows))]]


class Reader:
    """Reads one file by several ranks with a schedule"""

    def __init__(self, ctx, fam, rep, rows, path, anc):
        self.ctx, self.fam, self.rep, self.rows, self.path, self.anc = ctx, fam, rep, rows, path, anc

    def state(self, start, end):
        return dict(meta=1, rows=self.rows[start:end], anc=[c[start:end] for c in self.anc])

    def run(self, chunk, ranks, sched):
        """Ask the iterators in the order of the schedule; returns the trace"""
        its = [self.ctx.qp.iterator(self.path, chunk_size=chunk, rank=r, parallel_size=ranks) for r in range(ranks)]
        done = set()
        kept = []
        events = []

        def ask(rank):
            try:
                start, end, ens = next(its[rank])
            except StopIteration:
                done.add(rank)
                return
            events.append(dict(r=rank + 1, s=int(start), e=int(end), k=int(ens.npdf)))
            kept.append((start, end, ens))
            self.rep.compare(ens, self.state(start, end), "chunk", ("pdf",), chunk=chunk, ranks=ranks, range=[start, end])

        for rank in sched:
            if rank - 1 not in done:
                ask(rank - 1)
        for rank in range(ranks):
            for _ in range(2 * len(self.rows) + 3):
                if rank in done:
                    break
                ask(rank)
        for start, end, ens in kept:
            self.rep.compare(ens, self.state(start, end), "chunk after the iteration went on", ("pdf",), range=[start, end])
        return dict(n=len(self.rows), c=chunk, p=ranks, ev=events)


def run_c05(ctx):
    """Chunked reading"""
    ctx.assumptions += ["iteration is over hdf5 files, the only format it takes", "ranks are interleaved in one process, each step of an iterator being atomic"]
    ctx.tlc("QpChunks", config("read", ctx.n(5, 6), 3, 3))
    if not ctx.quick:
        for mut in ("twice", "short"):
            ctx.tlc("QpChunks", config("read", 4, 2, 2, mut=mut), refute=True)
    scheds = ctx.tlc("QpChunks", config("read", 9, 5, 4, depth=12), sim=ctx.n(60, 500), depth=40)
    big = ctx.tlc("QpChunks", config("read", 40, 12, 6, depth=50), sim=ctx.n(10, 60), depth=60, seed=ctx.seed + 5)
    traces, labels = [], []
    for i, fam in enumerate(reps.families(ctx.qp)):
        rep = Replay(ctx, Kinds((fam, 1), (fam, 2 if fam.two else 1)), fam.label)
        mine = scheds[i::5] + big[i::10]
        for j, sch in enumerate(mine):
            num = sch["n"]
            var = 1 + (j % 2 if fam.two else 0)
            rows = ctx.rng.integers(1, 12, num).tolist()
            anc = table(rows) if j % 3 else []
            path = os.path.join(ctx.scratch, "chunks.hdf5")
            with ctx.case("reading in chunks", kind=fam.label, n=num, chunk=sch["c"], ranks=sch["p"], sched=sch["sched"]):
                ens = ctx.qp.Ensemble(fam.ctor(), data=fam.data(rows, var))
                ens.set_ancil(ancil_dict(anc, style=(j // 2 + i) % 3))
                tabs = ens.build_tables()
                flat = [k for k, v in tabs["data"].items() if np.shape(v) == (num, 1)]
                if flat and j % 4 == 1:
                    # columns as other programs write them
                    io.writeDictsToHdf5(dict(tabs, data={k: np.ravel(v) if k in flat else v for k, v in tabs["data"].items()}), path)
                else:
                    ens.write_to(path)
                kinds = Kinds((fam, var), (fam, var))
                one = Reader(ctx, fam, Replay(ctx, kinds, fam.label, style=(j // 2 + i) % 3), rows, path, anc)
                trace = one.run(sch["c"], sch["p"], sch["sched"])
                traces.append(trace)
                labels.append(fam.label)
                ctx.check(int(ctx.qp.data_length(path)) == num, "length of the data", got=ctx.qp.data_length(path))
                # the chunks, put together, are the file
                if len(ctx.violations) == 0 and trace["ev"] and j % 2 == 0:
                    parts = sorted(ctx.qp.iterator(path, chunk_size=sch["c"]), key=lambda x: x[0])
                    rep.kinds, rep.style = kinds, (j // 2 + i) % 3
                    rep.compare(ctx.qp.concatenate([p[2] for p in parts]), one.state(0, num), "all of the chunks")
                # an iteration that is given up does not disturb the next one
                itr = ctx.qp.iterator(path, chunk_size=1)
                next(itr)
                del itr
                first = next(ctx.qp.iterator(path, chunk_size=num + 3))
                ctx.check((first[0], first[1]) == (0, num), "a chunk larger than the file", got=first[:2])
            if len(ctx.violations) > 6:
                break
    validate(ctx, traces, labels)


def validate(ctx, traces, labels):
    """Have TLC validate the recorded traces"""
    if not traces:
        return
    path = os.path.join(ctx.scratch, "traces.ndjson")
    with open(path, "w") as fout:
        for trace in traces:
            fout.write(json.dumps(trace) + "\n")
    out = {o["trace"]: o for o in ctx.tlc("QpChunksTrace", env=dict(TRACES=path))}
    if len(out) != len(traces):
        from common import HarnessError

        raise HarnessError("%d verdicts on %d traces" % (len(out), len(traces)))
    for i, trace in enumerate(traces):
        ctx.traces += 1
        verdict = out[i + 1]["verdict"]
        if i < 2:
            ctx.sample(dict(kind=labels[i], trace=trace))
        ctx.check(verdict == "", "chunks of the ranks: " + verdict, kind=labels[i], trace=trace, at=out[i + 1]["at"])


def run_c06(ctx):
    """Chunked writing"""
    reps.Family.whole = False  # each dataset has the type of what the first writer has
    ctx.assumptions += ["writers take turns: parallel HDF5 is not installed, so no two writes overlap in time"]
    ctx.tlc("QpChunks", config("write", ctx.n(5, 6), 3, 2))
    if not ctx.quick:
        ctx.tlc("QpChunks", config("write", 4, 2, 2, mut="first"), refute=True)
    logs = ctx.tlc("QpChunks", config("write", 7, 4, 3, depth=10), sim=ctx.n(90, 700), depth=60)
    logs += ctx.tlc("QpChunks", config("write", 16, 9, 4, depth=10), sim=ctx.n(20, 150), depth=80, seed=ctx.seed + 5)
    fams = reps.families(ctx.qp)
    for i, fam in enumerate(fams):
        allocation(ctx, fam)
        for j, log in enumerate(logs[i :: len(fams)]):
            num, writes = log["n"], log["writes"]
            var = 1 + (j % 2 if fam.two else 0)
            rep = Replay(ctx, Kinds((fam, var), (fam, var)), fam.label, style=(j // 2 + i) % 3)
            path = os.path.join(ctx.scratch, "written.hdf5")
            with_anc = j % 3
            with ctx.case("writing in chunks", kind=fam.label, n=num, writes=writes):
                made = []
                for k, wrt in enumerate(writes):
                    ens = ctx.qp.Ensemble(fam.ctor(), data=fam.data(wrt["rows"], var))
                    cols = [[wrt["start"] + r + 100 * k for r in range(len(wrt["rows"]))]] * 2 if with_anc else []
                    ens.set_ancil(ancil_dict(cols, style=(j // 2 + i) % 3))
                    made.append((wrt, ens, cols))
                if j % 2:
                    reuse(ctx, fam, var, made, num, log, (j // 2 + i) % 3, j)
                    continue
                # any of the writers may allocate the file
                first = made[j % len(made)][1]
                if j % 3 == 2:
                    # or an ensemble with more distributions than the file is to have
                    first = ctx.qp.Ensemble(fam.ctor(), data=fam.data(list(range(1, num + 4)), var))
                    first.set_ancil(ancil_dict([list(range(num + 3))] * 2 if with_anc else [], style=(j // 2 + i) % 3))
                group, fout = first.initializeHdf5Write(path, num)
                anc = [[0] * num, [0] * num]
                for wrt, ens, cols in made:
                    ens.writeHdf5Chunk(group, wrt["start"], wrt["end"])
                    for c, col in enumerate(cols):
                        anc[c][wrt["start"] : wrt["end"]] = col
                made[-1][1].finalizeHdf5Write(fout)
                state = dict(meta=1, rows=log["file"], anc=anc if with_anc else [])
                rep.compare(ctx.qp.read(path), state, "file written in chunks", ("pdf", "cdf"), writes=writes)
                ctx.check(ctx.qp.is_qp_file(path), "a file written in chunks is recognised", kind=fam.label)
                # the same as writing in one go
                whole = ctx.qp.Ensemble(fam.ctor(), data=fam.data(log["file"], var))
                whole.set_ancil(ancil_dict(state["anc"], style=(j // 2 + i) % 3))
                other = os.path.join(ctx.scratch, "whole.hdf5")
                whole.write_to(other)
                same_files(ctx, path, other, fam.label)
                for wrt, ens, cols in made:
                    rep.compare(ens, dict(meta=1, rows=wrt["rows"], anc=cols), "ensemble after it was written")
                ctx.traces += 1
                if i == 0 and j == 0:
                    ctx.sample(dict(kind=fam.label, writes=writes, file=log["file"]))
            if len(ctx.violations) > 6:
                return


def reuse(ctx, fam, var, made, num, log, style, turn):
    """A single ensemble that is given each of the chunks in turn writes all of them"""
    path = os.path.join(ctx.scratch, "reused.hdf5")
    one = ctx.qp.Ensemble(fam.ctor(), data=fam.data([3, 2], var))
    wrt, ens, cols = made[0]
    if cols:
        one.set_ancil(ancil_dict([[0, 0]] * 2, style=style))
    group = fout = None
    anc = [[0] * num, [0] * num]
    for k, (wrt, ens, cols) in enumerate(made):
        new = ancil_dict(cols, style=style)
        if (k + turn) % 3 == 0:
            one.update_objdata(fam.objdata(wrt["rows"], var), new)
        else:
            one.update(fam.data(wrt["rows"], var), None if (k + turn) % 3 == 1 else new)
            if (k + turn) % 3 == 1 and new is not None:
                one.set_ancil(new)
        if group is None:
            group, fout = one.initializeHdf5Write(path, num)
        one.writeHdf5Chunk(group, wrt["start"], wrt["end"])
        for c, col in enumerate(cols):
            anc[c][wrt["start"] : wrt["end"]] = col
    one.finalizeHdf5Write(fout)
    rep = Replay(ctx, Kinds((fam, var), (fam, var)), fam.label, style=style)
    state = dict(meta=1, rows=log["file"], anc=anc if made[0][2] else [])
    rep.compare(ctx.qp.read(path), state, "file written in chunks by one ensemble", ("pdf", "cdf"), writes=log["writes"])
    ctx.traces += 1


def same_files(ctx, one, two, label):
    """Two files give the same tables"""
    tab1, tab2 = io.readHdf5ToDicts(one), io.readHdf5ToDicts(two)
    ctx.check(set(tab1) == set(tab2), "tables of a file written in chunks", kind=label, got=list(tab1), want=list(tab2))
    for name in set(tab1) & set(tab2):
        ctx.check(set(tab1[name]) == set(tab2[name]), "columns of a file written in chunks", kind=label, table=name)
        for key in set(tab1[name]) & set(tab2[name]):
            got, want = np.asarray(tab1[name][key]), np.asarray(tab2[name][key])
            ok = got.shape == want.shape and (np.array_equal(got, want) if got.dtype.kind in "SUOb" else np.allclose(got, want, rtol=1e-12, atol=1e-300, equal_nan=True))
            ctx.check(ok, "column of a file written in chunks", kind=label, table=name, column=key, got=got, want=want)


def allocation(ctx, fam):
    """What a class asks to be allocated fits all of the distributions"""
    for num in (1, 3, 7):
        with ctx.case("allocation", kind=fam.label, n=num):
            part = fam.build([1, 2], 1)
            data = dict(fam.data([1, 2], 1))
            kwds = part.gen_class.get_allocation_kwds(num, **data)
            want = {k: (num,) + np.shape(v)[1:] for k, v in part.objdata().items()}
            got = {k: tuple(int(x) for x in v[0]) for k, v in kwds.items()}
            ctx.check(got == want, "what is to be allocated", kind=fam.label, n=num, got=got, want=want)
            if got != want:
                continue
            path = os.path.join(ctx.scratch, "alloc.hdf5")
            rows = [1 + r % 5 for r in range(num)]
            group, fout = io.initializeHdf5Write(path, data=kwds)
            for k in range(num):
                one = fam.build([rows[k]], 1)
                one.writeHdf5Chunk(group, k, k + 1)
            part.finalizeHdf5Write(fout)
            rep = Replay(ctx, Kinds((fam, 1), (fam, 1)), fam.label)
            rep.compare(ctx.qp.read(path), dict(meta=1, rows=rows, anc=[]), "file allocated for the class", ("pdf",), tol=2e-5)
            ctx.traces += 1
