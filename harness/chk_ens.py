"""Checks of ensembles as containers: C02 selecting, C03 joining, C08 updates and isolation.

The state machine QpEnsemble.tla is explored exhaustively for small constants (its invariants and action
properties are what the properties claim), and its behaviours are replayed into the code with every
representation of qp.
"""
import numpy as np

import machine
import reps
from machine import Kinds, Replay, ancil_dict, behaviours, config, make_key, reordered

BASE = ["create", "select", "anykey", "concat", "append", "ancil", "alt"]


def pairs(ctx):
    """The pairs of kinds that the two metadata of the model stand for: variants, and other families"""
    fams = reps.families(ctx.qp)
    variants = [Kinds((f, 1), (f, 2)) for f in fams if f.two] + switches(fams)
    order = ctx.rng.permutation(len(fams))
    others = [Kinds((fams[i], 1), (fams[j], 1)) for i, j in zip(order, np.roll(order, 1))]
    return variants, others


def switches(fams):
    """Pairs of kinds where one can be turned into the other in place"""
    most = [(f, g) for f in fams for g in fams if f.switchable(g)]
    return [Kinds((f, 1), (g, 1)) for f, g in most[:: max(1, len(most) // 3)]]


def explore(ctx, configs):
    """Exhaustive runs of the machine"""
    for ops, size in configs:
        ctx.tlc("QpEnsemble", config(ops, **size))


def replay(ctx, ops, num, depth, salt, rounds, finale=False, **size):
    """Behaviours with metadata that updates may change (variants), or not (other families)"""
    variants, others = pairs(ctx)
    logs = behaviours(ctx, ops, num, depth, salt, **size)
    kept = behaviours(ctx, ops + ["keepmeta"], num, depth, salt + 1, **size) if "update" in ops else logs
    count = 0
    for rnd in range(rounds):
        for kinds, which in ((variants, logs), (others, kept)):
            for i, kind in enumerate(kinds):
                for j in range(i + rnd, len(which), len(kinds) * rounds):
                    label = "behaviour %d" % j
                    turn = i + j // (len(kinds) * rounds)  # not in step with the number of kinds
                    rep = Replay(ctx, kind, label, flip=turn % 2 == 1, deep=(turn + rnd) % 3 == 0, style=(turn // 2 + rnd) % 4)
                    if rep.run(which[j]) and finale:
                        rep.finale(which[j])
                    ctx.traces += 1
                    count += 1
                    if j == 0:
                        ctx.sample(dict(kinds=[kind.name(1), kind.name(2)], history=rep.history))
                    if len(ctx.violations) > 6:
                        return
    ctx.detail["behaviours_replayed"] = ctx.detail.get("behaviours_replayed", 0) + count


def keys(ctx):
    """Every key for up to four distributions (MCSelect.tla), on every representation"""
    cases = ctx.tlc("MCSelect")
    fams = reps.families(ctx.qp)
    for i, fam in enumerate(fams):
        mine = cases[i :: len(fams)] if ctx.quick else cases[i % 3 :: 3]
        kinds = Kinds((fam, 1), (fam, 1))
        rep = Replay(ctx, kinds, "keys")
        rep.deep = False
        for num in sorted({c["n"] for c in mine}):
            rows = [(3 * r + i) % 7 + 1 for r in range(num)]
            anc = [[10 + r for r in range(num)], [20 + r for r in range(num)]]
            ens = fam.build(rows, 1)
            ens.set_ancil(ancil_dict(anc))
            whole = dict(meta=1, rows=rows, anc=anc)
            for cas in [c for c in mine if c["n"] == num]:
                ctx.traces += 1
                idx = [j - 1 for j in cas["idx"]]
                state = dict(meta=1, rows=[rows[j] for j in idx], anc=[[c[j] for j in idx] for c in anc])
                text = machine.key_text(cas["key"])
                with ctx.case("a key selects", key=text, kind=fam.label, of=num):
                    got = ens[make_key(cas["key"], flip=ctx.traces % 2 == 0)]
                    rep.compare(got, state, "selection", ("pdf",) if ctx.traces % 4 else ("pdf", "cdf"), key=text)
                    if ctx.traces % 5 == 0:
                        again = got[::-1]
                        back = dict(meta=1, rows=state["rows"][::-1], anc=[c[::-1] for c in state["anc"]])
                        rep.compare(again, back, "selection of a selection", key=text)
                if len(ctx.violations) > 6:
                    return
            with ctx.case("selecting changes nothing", kind=fam.label):
                rep.compare(ens, whole, "ensemble that was selected from", ("pdf", "cdf"))
                # out of range is refused
                ctx.refused(lambda: ens[num], "an index out of range is refused", kind=fam.label, n=num)
                ctx.refused(lambda: ens[-num - 1], "an index out of range is refused", kind=fam.label, n=num)
                for how, want in ((list(ens), rows), ([ens[k] for k in range(num)], rows)):
                    ctx.check(len(how) == num, "an iteration gives every distribution", kind=fam.label, got=len(how))
                    for k, item in enumerate(how[:num]):
                        rep.compare(item, dict(meta=1, rows=[want[k]], anc=[[c[k]] for c in anc]), "item of an iteration")


def big(ctx):
    """Large ensembles: nothing depends on the size"""
    for fam in reps.families(ctx.qp):
        if fam.label in ("spline", "sparse", "quant_dual") and ctx.quick:
            continue
        kinds = Kinds((fam, 1), (fam, 1))
        num = int(ctx.rng.integers(90, 260))
        rows = ctx.rng.integers(1, 12, num).tolist()
        anc = [list(range(num)), list(range(5, num + 5))]
        rep = Replay(ctx, kinds, "large")
        with ctx.case("large ensembles", kind=fam.label, n=num):
            ens = fam.build(rows, 1)
            ens.set_ancil(ancil_dict(anc))
            for _ in range(3):
                idx = ctx.rng.integers(-num, num, int(ctx.rng.integers(1, 2 * num)))
                state = dict(meta=1, rows=[rows[j] for j in idx], anc=[[c[j] for j in idx] for c in anc])
                rep.compare(ens[idx], state, "selection of many")
                ctx.traces += 1
            mask = ctx.rng.uniform(size=num) < 0.5
            mask[0] = True
            where = np.flatnonzero(mask)
            state = dict(meta=1, rows=[rows[j] for j in where], anc=[[c[j] for j in where] for c in anc])
            rep.compare(ens[mask], state, "mask of many")
            rep.compare(ctx.qp.concatenate([ens[mask], ens]), dict(meta=1, rows=state["rows"] + rows, anc=[a + b for a, b in zip(state["anc"], anc)]), "joined many")


def run_c02(ctx):
    """Selecting"""
    ctx.assumptions += ["keys are Python or numpy integers, slices, boolean arrays and integer arrays; selections are not empty"]
    explore(ctx, [(["create", "select", "ancil", "query"], dict(H=2, MaxLen=3 if not ctx.quick else 2))])
    keys(ctx)
    big(ctx)
    replay(ctx, ["create", "select", "anykey", "concat", "query", "ancil", "alt", "switch"], ctx.n(45, 900), 12, 200, ctx.n(1, 3), MaxLen=5)


def run_c03(ctx):
    """Joining"""
    ctx.assumptions += ["metadata that differ by less than a relative 1e-5 count as the same"]
    explore(ctx, [(["create", "select", "concat", "append", "ancil"], dict(H=2)), (["create", "concat", "append", "anc2"], dict(H=2, MaxLen=1))])
    if not ctx.quick:
        explore(ctx, [(["create", "concat", "append", "anc2", "alt"], dict(H=3, MaxLen=1, NRow=2))])
    joins(ctx)
    scales(ctx)
    replay(ctx, BASE + ["drop", "switch"], ctx.n(75, 1200), 12, 300, ctx.n(1, 3))


def joins(ctx):
    """Joining what was made in different ways, in every representation; and every way of not matching"""
    for fam in reps.families(ctx.qp):
        kinds = Kinds((fam, 1), (fam, 2 if fam.two else 1))
        rep = Replay(ctx, kinds, "joins")
        rows = [[1, 2], [3], [2, 2, 4]]
        one = [[1, 2], [3], [4, 5, 6]]
        with ctx.case("joining", kind=fam.label):
            for k, alts in enumerate(((False, True, False), (True, False, True), (True, True, True))):
                rep.style = 3 * (k % 2)
                for with_anc in (0, 1, 2):
                    parts = []
                    for i in range(3):
                        ens = ctx.qp.Ensemble(fam.ctor(alts[i]), data=reordered(fam.data(rows[i], 1, alts[i]), i == 1))
                        if with_anc == 2 or (with_anc == 1 and i != 1):
                            ens.set_ancil(ancil_dict([one[i], one[i]], turn=i == (1 if with_anc == 2 else 2), style=rep.style))
                        parts.append(ens)
                    full = [one[0] + one[1] + one[2]] * 2 if with_anc == 2 else []
                    state = dict(meta=1, rows=rows[0] + rows[1] + rows[2], anc=full)
                    rep.compare(ctx.qp.concatenate(parts), state, "concatenation", ("pdf", "cdf"), alts=alts)
                    rep.compare(ctx.qp.concatenate(parts[:1]), dict(meta=1, rows=rows[0], anc=full and [one[0]] * 2 or (with_anc and [one[0]] * 2 or [])), "concatenation of one")
                    for i in range(3):
                        keep = [one[i]] * 2 if with_anc == 2 or (with_anc == 1 and i != 1) else []
                        rep.compare(parts[i], dict(meta=1, rows=rows[i], anc=keep), "operand of a concatenation")
                    parts[0].append(parts[1])
                    parts[0].append(parts[2])
                    rep.compare(parts[0], state, "two appended", ("pdf", "cdf"), alts=alts)
                    rep.compare(parts[2], dict(meta=1, rows=rows[2], anc=[one[2]] * 2 if with_anc else []), "what was appended")
                    ctx.traces += 1
            # ancillary columns that do not match
            good = fam.build([1, 2], 1)
            good.set_ancil(dict(a=np.array([1, 2]), b=np.array([3, 4])))
            for other in (dict(a=np.array([1])), dict(a=np.array([1]), c=np.array([1])), dict(a=np.array([1]), b=np.array([2]), c=np.array([3]))):
                bad = fam.build([3], 1)
                bad.set_ancil(other)
                ctx.refused(lambda: ctx.qp.concatenate([good, bad]), "other ancillary columns are refused", kind=fam.label)
                ctx.refused(lambda: ctx.qp.concatenate([bad, good]), "other ancillary columns are refused", kind=fam.label)
                ctx.refused(lambda: good.append(bad), "other ancillary columns are refused", kind=fam.label)
                ctx.refused(lambda: bad.append(good), "other ancillary columns are refused", kind=fam.label)
                rep.compare(good, dict(meta=1, rows=[1, 2], anc=[]), "refused", ("pdf",), anc=False)
                ctx.check(sorted(good.ancil) == ["a", "b"] and good.ancil["b"].tolist() == [3, 4], "refused append changes nothing", kind=fam.label)
                rep.compare(bad, dict(meta=1, rows=[3], anc=[]), "refused", ("pdf",), anc=False)
            # other metadata in any position
            if fam.two:
                oth = fam.build([1], 2)
                more = fam.build([2], 1)
                plain = fam.build([1, 2], 1)
                for lst in ([plain, oth], [oth, plain], [plain, more, oth], [plain, oth, more]):
                    ctx.refused(lambda: ctx.qp.concatenate(lst), "other metadata is refused", kind=fam.label)
                ctx.refused(lambda: plain.append(oth), "other metadata is refused", kind=fam.label)
                rep.compare(plain, dict(meta=1, rows=[1, 2], anc=[]), "refused")


def scales(ctx):
    """Metadata that do not match, whatever their scale; and the same metadata made in two ways"""
    base = np.array([0.0, 1.0, 2.0, 3.5])
    for scale in (1e-12, 1e-6, 1.0, 1e7):
        for shift in (0.0, 1.0):
            edges = (base + shift) * scale
            hist = lambda x: ctx.qp.Ensemble(ctx.qp.hist, data=dict(bins=x, pdfs=np.array([[1.0, 2, 3], [3, 1, 1]])))  # noqa: E731
            interp = lambda x: ctx.qp.Ensemble(ctx.qp.interp, data=dict(xvals=x, yvals=np.array([[0.0, 2, 3, 1], [0, 1, 1, 2]])))  # noqa: E731
            for make in (hist, interp):
                with ctx.case("metadata of scale %g" % scale):
                    one = make(edges)
                    for pos in range(4):
                        other = edges.copy()
                        other[pos] += 0.01 * scale
                        two = make(other)
                        ctx.refused(lambda: one.append(two), "appending other metadata is refused", scale=scale, shift=shift, pos=pos)
                        ctx.refused(lambda: ctx.qp.concatenate([one, two]), "concatenating other metadata is refused", scale=scale, shift=shift, pos=pos)
                        ctx.check(int(one.npdf) == 2, "refused append changes nothing", n=one.npdf)
                    both = ctx.qp.concatenate([one, make(np.array(list(edges)))])
                    ctx.check(int(both.npdf) == 4, "the same metadata are joined", scale=scale)
                    ctx.traces += 1


def run_c08(ctx):
    """Updates and isolation"""
    ctx.assumptions += ["one thread at a time changes an ensemble"]
    explore(
        ctx,
        [
            (["create", "append", "update", "switch", "grid", "query", "alt"], dict(H=2, MaxLen=1, NGrid=2)),
            (["create", "select", "concat", "append", "ancil"], dict(H=2)),
        ],
    )
    if not ctx.quick:
        explore(ctx, [(["create", "append", "update", "grid", "query"], dict(H=2, MaxLen=2, NGrid=2))])
    ops = ["create", "select", "append", "update", "ancil", "grid", "query", "alt", "switch"]
    shared(ctx)
    lengths(ctx)
    types(ctx)
    replay(ctx, ops, ctx.n(75, 1200), 16, 800, ctx.n(1, 3))
    replay(ctx, ["create", "append", "update", "grid"], ctx.n(45, 900), 12, 850, ctx.n(1, 3), H=2)
    # a selection of everything, and a list of one, are ensembles of their own
    replay(ctx, ["create", "select", "fullkey", "concat", "append", "update", "ancil", "switch", "grid"], ctx.n(45, 600), 14, 880, ctx.n(1, 2), H=2, MaxLen=3)
    logs = behaviours(ctx, ["create", "switch", "grid"], ctx.n(18, 180), 10, 870, H=1, MaxLen=2, NGrid=1)
    for i, kind in enumerate(switches(reps.families(ctx.qp))):
        for log in logs[i::3]:
            Replay(ctx, kind, "in place").run(log)
            ctx.traces += 1


def run_c25(ctx):
    """Made again from what they say about themselves"""
    ctx.assumptions += ["the arrays that an ensemble hands out are not written to"]
    explore(ctx, [(["create", "rebuild", "append", "ancil", "update"], dict(H=2, MaxLen=1))])
    for mut in ("bare", "reordered"):
        ctx.tlc("QpEnsemble", config(["create", "rebuild", "ancil"], mut=mut), refute=True)
    if not ctx.quick:
        explore(ctx, [(["create", "rebuild", "append", "ancil"], dict(H=2, MaxLen=2))])
    types(ctx)
    ops = ["create", "select", "append", "update", "ancil", "grid", "rebuild", "rebuild", "alt", "switch", "concat"]
    replay(ctx, ops, ctx.n(75, 1200), 14, 2500, ctx.n(1, 3), finale=True)


def types(ctx):
    """What is made of whole numbers is not kept to them"""
    for fam in reps.families(ctx.qp):
        rep = Replay(ctx, Kinds((fam, 1), (fam, 1)), "types")
        for num in (1, 2, 3):
            whole, other = [1 + 4 * i for i in range(num)], [2 + i for i in range(num)]
            with ctx.case("types of values", kind=fam.label, n=num):
                ens = fam.build(whole, 1)
                rep.compare(ens, dict(meta=1, rows=whole, anc=[]), "whole numbers", ("pdf", "cdf"))
                ens.update_objdata(fam.objdata(other, 1))
                rep.compare(ens, dict(meta=1, rows=other, anc=[]), "updated", ("pdf", "cdf"))
                ens = fam.build(whole, 1)
                ens.update(fam.data(other, 1))
                rep.compare(ens, dict(meta=1, rows=other, anc=[]), "updated anew", ("pdf", "cdf"))
                ens = fam.build(whole, 1)
                ens.append(fam.build(other, 1))
                rep.compare(ens, dict(meta=1, rows=whole + other, anc=[]), "appended", ("pdf", "cdf"))
                ens = ctx.qp.concatenate([fam.build(whole, 1), fam.build(other, 1)])
                rep.compare(ens, dict(meta=1, rows=whole + other, anc=[]), "concatenated", ("pdf", "cdf"))
                ens.update_objdata(fam.objdata(whole, 1))
                rep.compare(ens, dict(meta=1, rows=whole, anc=[]), "updated with whole numbers", ("pdf", "cdf"))
                ctx.traces += 1


def lengths(ctx):
    """Ancillary data of any other number of rows is refused, wherever it is given, and leaves the ensemble as it was"""
    for fam in reps.families(ctx.qp):
        rep = Replay(ctx, Kinds((fam, 1), (fam, 1)), "lengths")
        for num in (1, 2, 3):
            rows = list(range(1, num + 1))
            with ctx.case("ancillary data of another length", kind=fam.label, n=num):
                ens = fam.build(rows, 1)
                ens.set_ancil(ancil_dict([rows]))
                for wrong in range(2 * num + 2):
                    if wrong == num:
                        continue
                    for col in (np.arange(wrong), np.full((wrong, num), 0.5), [float(x) for x in range(wrong)], np.zeros((wrong, 1))):
                        for bad in (dict(new=col), dict(good=np.arange(num), new=col), dict(new=col, good=np.arange(num))):
                            info = dict(kind=fam.label, n=num, wrong=wrong)
                            ctx.refused(lambda: ens.set_ancil(bad), "ancillary data of another length is refused", **info)
                            ctx.refused(lambda: ens.add_to_ancil(bad), "ancillary data of another length is refused", **info)
                            ctx.traces += 1
                    ctx.refused(lambda: ens.update(fam.data(rows, 1), bad), "an update with ancillary data of another length is refused", **info)
                    ctx.refused(lambda: ens.update_objdata(fam.objdata(rows, 1), bad), "an update with ancillary data of another length is refused", **info)
                    ctx.refused(lambda: ctx.qp.Ensemble(fam.ctor(), data=fam.data(rows, 1), ancil=bad), "ancillary data of another length is refused", **info)
                if num > 1:
                    for func in (ens.set_ancil, ens.add_to_ancil):
                        ctx.refused(lambda: func(dict(new=3.5)), "a single ancillary value is refused", kind=fam.label, n=num)
                    # distributions in another number than the ancillary data that comes with them
                    ctx.refused(lambda: ens.update(fam.data(rows[1:], 1), ancil_dict([rows])), "an update with ancillary data of another length is refused", kind=fam.label, n=num)
                rep.compare(ens, dict(meta=1, rows=rows, anc=[rows]), "refused")


def shared(ctx):
    """Ensembles that were given the same arrays and dictionaries are independent of each other"""
    for fam in reps.families(ctx.qp):
        rep = Replay(ctx, Kinds((fam, 1), (fam, 1)), "shared")
        with ctx.case("sharing", kind=fam.label):
            data = rep.hold(fam.data([1, 2], 1))
            ancil = rep.hold(ancil_dict([[1, 2]]))
            one = ctx.qp.Ensemble(fam.ctor(), data=data, ancil=ancil)
            two = ctx.qp.Ensemble(fam.ctor(), data=data, ancil=ancil)
            part = one[:1]
            grid = machine.grid_of(1)[2]
            first = np.array(one.gridded(grid)[1])
            for num in (1, 3, 2, 1, 4, 1):
                for how in ("gridded", "mode", "gridded"):
                    step = dict(grid=num, h=1, how=how, given=dict(grid=num, meta=1, rows=[1, 2]))
                    rep.ens = {1: one}
                    rep.do_grid(step, None)
            one.add_to_ancil(dict(c2=np.array([[5.0, 10.5], [6.0, 12.5]])))
            rep.compare(one, dict(meta=1, rows=[1, 2], anc=[[1, 2], [5, 6]]), "given a column")
            rep.compare(two, dict(meta=1, rows=[1, 2], anc=[[1, 2]]), "shares the dictionary")
            one.update_objdata(fam.objdata([3, 4, 5], 1), ancil_dict([[3, 4, 5]]))
            rep.compare(one, dict(meta=1, rows=[3, 4, 5], anc=[[3, 4, 5]]), "updated", ("pdf", "cdf"))
            rep.compare(two, dict(meta=1, rows=[1, 2], anc=[[1, 2]]), "shares the data", ("pdf", "cdf"))
            rep.compare(part, dict(meta=1, rows=[1], anc=[[1]]), "selected before", ("pdf", "cdf"))
            ctx.close(two.gridded(grid)[1], first, "the values of another ensemble", 1e-7, 1e-9, kind=fam.label)
            part.update(fam.data([6], 1))
            rep.compare(part, dict(meta=1, rows=[6], anc=[]), "selection updated", ("pdf", "cdf"))
            rep.compare(two, dict(meta=1, rows=[1, 2], anc=[[1, 2]]), "other ensemble", ("pdf", "cdf"))
            two.append(one)
            rep.compare(one, dict(meta=1, rows=[3, 4, 5], anc=[[3, 4, 5]]), "was appended to another")
            rep.look(dict(post=[], tgt=0, what=dict(op="sharing")))
            ctx.traces += 1
