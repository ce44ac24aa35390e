"""Groups of measurements."""
import itertools
from engine.run import Scenario
from engine import gens

PRELOAD = ['attitude.orientation.pca', 'attitude.orientation.grouped', 'attitude.orientation.reconstructed']
EXPLANATION = ('pooled fit: proved for members of any size; bookkeeping of links: the numeric content is symbolic '
               '(any data), the number of measurements and requested groups is bounded and enumerated exhaustively')


def stack(ctx, arrays):
    return ctx.np.vstack(arrays)


def pooled(ctx):
    """the fit of a group is the fit of its members' centered coordinates"""
    N = ctx.np
    k = ctx.choose('members', [1, 2, 3])
    same = ctx.choose('same plane', [False, True])
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    raw = [ctx.data('m%d' % i, gens.planar('m%d' % i, degenerate=False), min_len=3) for i in range(k)]
    keep = [ctx.snapshot(a) for a in raw]
    with ctx.one_side():
        ms = [P(a) for a in raw]
    G = ctx.mod('attitude.orientation.grouped').GroupedOrientation
    g = G(*ms, same_plane=True) if same else G(*ms)
    every = stack(ctx, raw)
    want = every if same else stack(ctx, [a - a.mean(axis=0) for a in raw])
    ctx.eq('pooled coordinates', g.array, want)
    c = want - want.mean(axis=0)
    ctx.eq('pooled centered coordinates', g.centered_array, c)
    ctx.eq('number of coordinates', g.n, sum(a.shape[0] for a in raw))
    ctx.eq('center is that of all coordinates', g.center, every.mean(axis=0))
    ref = P(want)
    ctx.eq('singular values', g.singular_values, ref.singular_values)
    ctx.eq('normal', g.normal, ref.normal)
    ctx.eq('axes', g.axes, ref.axes)
    ctx.eq('error axes', g.hyperbolic_axes, ref.hyperbolic_axes)
    ctx.true('members', len(g.members) == k and all(a is b for a, b in zip(g.members, ms)))
    ctx.true('members link to the group', all(m.member_of is g for m in ms))
    ctx.true('a group is no member', g.member_of is None)
    again = G(*ms[:1])
    ctx.true('linked to the group made last', ms[0].member_of is again and all(m.member_of is g for m in ms[1:]))
    for m, a, b in zip(ms, raw, keep):
        ctx.unchanged('coordinates of members', a, b)
        p = P(b)
        ctx.eq('members keep their fit', m.axes, p.axes)
        ctx.eq('members keep their center', m.center, p.center)


def misfit(ctx):
    """a group of planes has its own center for each member: translating one changes nothing"""
    N = ctx.np
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    G = ctx.mod('attitude.orientation.grouped').GroupedOrientation
    a = ctx.data('a', gens.planar('a', degenerate=False), min_len=3)
    b = ctx.data('b', gens.planar('b', degenerate=False), min_len=3)
    t = ctx.vec('t', 3, gens.normal(3, 30.0))
    with ctx.one_side():
        m = P(a), P(b), P(a + t), P(b)
    g, h = G(m[0], m[1]), G(m[2], m[3])
    ctx.eq('singular values', g.singular_values, h.singular_values, tol=1e-6)
    ctx.eq('third axis', N.cross(g.axes[2], h.axes[2]), N.zeros(3), tol=1e-6)
    ctx.eq('center', (h.center - g.center) * (a.shape[0] + b.shape[0]), t * a.shape[0], tol=1e-6)


def nested(ctx):
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    M = ctx.mod('attitude.orientation.grouped')
    with ctx.one_side():
        nested_(ctx, P, M)


def nested_(ctx, P, M):
    a, b, c = [P(ctx.data(i, gens.planar(i, degenerate=False), min_len=3)) for i in 'abc']
    g = M.GroupedOrientation(a, b)
    ctx.raises('no groups of groups', M.GroupedPlaneError, lambda: M.GroupedOrientation(c, g))
    ctx.true('rejected members stay unlinked', c.member_of is None and g.member_of is None)
    held = [a, b, c, g]
    for more in ([c.hash, g.hash],), ([c.hash], [g.hash]):
        ctx.raises('no groups of groups on request', M.GroupedPlaneError,
                   lambda: M.create_groups(held, *more, copy=False))
        ctx.true('nothing is linked', c.member_of is None and g.member_of is None and len(held) == 4)
    ctx.true('first group is intact', a.member_of is g and b.member_of is g and g.members[0] is a and g.members[1] is b)


# requests: up to two groups of up to two of the measurements 0, 1, 2, or an unknown uid (3)
LISTS = [list(p) for r in (1, 2) for p in itertools.permutations(range(4), r)] + [[0, 0]]
REQUESTS = [()] + [(a,) for a in LISTS] + [(a, b) for a in LISTS for b in LISTS if 3 not in b or 3 not in a]


def expected(request, taken=()):
    """-> error name or None: what happens to a request, for measurements 0..2"""
    taken = set(taken)
    for g in request:
        for i in g:
            if i == 3:
                return 'unknown'
            if i in taken:
                return 'grouped'
            taken.add(i)
    return None


def check_links(ctx, label, out, base, groups):
    """out: returned list; base: number of single measurements; groups: expected membership by index"""
    ctx.true(label + ': one entry for each measurement and group', len(out) == base + len(groups))
    if len(out) != base + len(groups):
        return
    owner = {}
    for j, g in enumerate(groups):
        o = out[base + j]
        ctx.true(label + ': group has its members', len(o.members) == len(g) and
                 all(m is out[i] for m, i in zip(o.members, g)))
        for i in g:
            owner[i] = o
        ctx.true(label + ': groups are no members', o.member_of is None)
    for i in range(base):
        ctx.true(label + ': measurement links to its group or to none', getattr(out[i], 'member_of', None) is owner.get(i))


def requests(ctx, part=0, parts=1):
    with ctx.one_side():
        requests_(ctx, part, parts)


def requests_(ctx, part, parts):
    """any request of groups: valid ones give consistent links, others an error; the originals never change"""
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    M = ctx.mod('attitude.orientation.grouped')
    raw = [ctx.data('m%d' % i, gens.planar('m%d' % i, degenerate=False), min_len=3) for i in range(3)]
    ms = [P(a) for a in raw]
    ms[1].disabled = True
    uid = [m.hash for m in ms] + ['unknown']
    axes = [ctx.snapshot(m.axes) for m in ms]
    if not ctx.symbolic:
        ctx.assume(len(set(uid)) == 4)
    rs = REQUESTS[part::parts]
    req = ctx.choose('request', rs)
    given = list(ms)
    run = lambda o, r, **k: M.create_groups(o, *[[uid[i] for i in g] for g in r], **k)
    err = expected(req)
    if err == 'unknown':
        ctx.raises('unknown measurement', KeyError, lambda: run(given, req))
    elif err == 'grouped':
        ctx.raises('measurement in two groups', M.GroupedPlaneError, lambda: run(given, req))
    else:
        out = run(given, req)
        check_links(ctx, 'first', out, 3, req)
        ctx.true('copies', all(a is not b for a, b in zip(out, ms)))
        for a, b in zip(out, ms):
            ctx.true('same measurements in the same order', a.hash == b.hash and a.array is b.array)
            ctx.true('disabled as before', a.disabled is b.disabled is (b is ms[1]))
        # further groups, on top of these
        free = [i for i in range(3) if not any(i in g for g in req)]
        if free:
            out2 = run(out, (free,))
            check_links(ctx, 'second', out2, 3, tuple(req) + (free,)) if not req else check_second(ctx, out2, out, req, free)
            check_links(ctx, 'first after second', out, 3, req)
        used = [i for i in range(3) if i not in free]
        for i in used:
            ctx.raises('grouped before', M.GroupedPlaneError, lambda: run(out, ([i],)))
        check_links(ctx, 'first after rejection', out, 3, req)
        again = run(out, ())
        check_links(ctx, 'copied again', again, 3, req)
        # without copies the measurements themselves are linked
        ms2 = [P(a) for a in raw]
        res = run(ms2, req, copy=False)
        check_links(ctx, 'in place', res, 3, req)
        ctx.true('no copies', all(a is b for a, b in zip(res, ms2)))
    if err:
        # also in place, a rejected request has no effect
        ms2 = [P(a) for a in raw]
        held = list(ms2)
        ctx.raises('rejected in place', KeyError if err == 'unknown' else M.GroupedPlaneError,
                   lambda: run(held, req, copy=False))
        ctx.true('a rejected request leaves no groups', len(held) == 3 and all(a is b for a, b in zip(held, ms2)))
        ctx.true('a rejected request leaves no links', all(m.member_of is None for m in ms2))
    ctx.true('list of the caller', len(given) == 3 and all(a is b for a, b in zip(given, ms)))
    ctx.true('originals stay ungrouped', all(m.member_of is None for m in ms))
    ctx.true('originals stay as disabled as they were', [m.disabled for m in ms] == [False, True, False])
    for m, a in zip(ms, axes):
        ctx.unchanged('originals keep their fit', m.axes, a)


def check_second(ctx, out2, out, req, free):
    """groups of the second call come after those of the first"""
    ctx.true('second: entries', len(out2) == len(out) + 1)
    owner = {}
    for j, g in enumerate(tuple(req) + (free,)):
        o = out2[3 + j]
        ctx.true('second: members', [next((k for k in range(3) if out2[k] is m), None) for m in o.members] == list(g))
        for i in g:
            owner[i] = o
    for i in range(3):
        ctx.true('second: links', out2[i].member_of is owner.get(i))


def alone(ctx):
    with ctx.one_side():
        alone_(ctx)


def alone_(ctx):
    """a group passed on without its members: the members it has are left alone"""
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    M = ctx.mod('attitude.orientation.grouped')
    a, b, c = ms = [P(ctx.data(i, gens.planar(i, degenerate=False), min_len=3)) for i in 'abc']
    if not ctx.symbolic:
        ctx.assume(len({m.hash for m in ms}) == 3)
    g = M.GroupedOrientation(a, b)
    given = ctx.choose('given', [[g], [g, c], [a, g], [c, g, b]])
    more = ctx.choose('request', [False, True]) and c in given
    out = M.create_groups(given, *([[c.hash]] if more else []))
    ctx.true('members given before keep their links', a.member_of is g and b.member_of is g and c.member_of is None)
    ctx.true('group keeps its members', len(g.members) == 2 and g.members[0] is a and g.members[1] is b)
    ctx.true('entries', len(out) == len(given) + bool(more))
    h = out[[k for k, o in enumerate(given) if o is g][0]]
    ctx.true('a copy of the group', h is not g and len(h.members) == 2 and all(m.member_of is h for m in h.members))
    ctx.true('with the same members', [m.hash for m in h.members] == [a.hash, b.hash])
    for k, o in enumerate(given):
        if o is a or o is b:
            ctx.true('its members are those returned', any(m is out[k] for m in h.members))


def options(ctx):
    with ctx.one_side():
        options_(ctx)


def options_(ctx):
    """same_plane is passed on to every group"""
    N = ctx.np
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    M = ctx.mod('attitude.orientation.grouped')
    raw = [ctx.data('m%d' % i, gens.planar('m%d' % i, degenerate=False), min_len=3) for i in range(3)]
    ms = [P(a) for a in raw]
    if not ctx.symbolic:
        ctx.assume(len({m.hash for m in ms}) == 3)
    sp = ctx.choose('same plane', [None, True, False])
    kw = {} if sp is None else dict(same_plane=sp)
    req = ctx.choose('groups', [([0, 1],), ([2], [1, 0])])
    out = M.create_groups(ms, *[[ms[i].hash for i in g] for g in req], **kw)
    ctx.true('entries', len(out) == 3 + len(req))
    for g, js in zip(out[3:], req):
        raws = [raw[j] for j in js]
        want = N.vstack(raws) if sp else N.vstack([a - a.mean(axis=0) for a in raws])
        ctx.eq('pooled coordinates', g.array, want)
        ctx.eq('singular values', g.singular_values, P(want).singular_values)


def disabling(ctx):
    with ctx.one_side():
        disabling_(ctx)


def disabling_(ctx):
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    M = ctx.mod('attitude.orientation.grouped')
    ms = [P(ctx.data('m%d' % i, gens.planar('m%d' % i, degenerate=False), min_len=3)) for i in range(3)]
    uid = [m.hash for m in ms] + ['unknown']
    if not ctx.symbolic:
        ctx.assume(len(set(uid)) == 4)
    axes = [ctx.snapshot(m.axes) for m in ms]
    which = ctx.choose('which', [list(p) for r in range(4) for p in itertools.combinations(range(4), r)])
    if 3 in which:
        ctx.raises('unknown measurement', KeyError, lambda: M.disable_orientations(ms, *[uid[i] for i in which]))
        return
    out = M.disable_orientations(ms, *[uid[i] for i in which])
    ctx.true('same measurements', len(out) == 3 and all(a is b for a, b in zip(out, ms)))
    for i in range(3):
        ctx.true('exactly those are disabled', bool(out[i].disabled) == (i in which))
        ctx.unchanged('fits are kept', out[i].axes, axes[i])
        ctx.true('links are kept', out[i].member_of is None)
    ctx.true('other fits are enabled', P(ms[0].array).disabled is False)
    # again: nothing is enabled by disabling
    more = ctx.choose('then', [[], [0], [1, 1], [0, 1, 2]])
    M.disable_orientations(ms, *[uid[i] for i in more])
    for i in range(3):
        ctx.true('disabled measurements stay disabled', bool(ms[i].disabled) == (i in which or i in more))


def names(ctx):
    """identifiers that resemble one of the measurements name none of them"""
    N = ctx.np
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    M = ctx.mod('attitude.orientation.grouped')
    r = N.random.default_rng(int(ctx.real('seed', lambda s, r: float(r.integers(1 << 30)))))
    raw = [r.normal(size=(int(r.integers(4, 20)), 3)) * (9, 4, .5) for _ in range(3)]
    ms = [P(a) for a in raw]
    ids = [m.hash for m in ms]
    u = ids[int(r.integers(3))]
    for name in (u[:-1], u[:3], u[1:], u[0], '', u + '0', u + u, u.upper(), ' ' + u, u + '\n', u[::-1], None, 0, u.encode(), (u,)):
        if name in ids:
            continue
        ctx.raises('no such measurement to disable', KeyError, lambda: M.disable_orientations(ms, name))
        ctx.raises('no such measurement to group', KeyError, lambda: M.create_groups(ms, [name]))
        ctx.raises('nor with others', KeyError, lambda: M.create_groups(ms, [ids[0], name], copy=False))
        ctx.true('nothing is disabled or linked', not any(m.disabled or m.member_of is not None for m in ms))


def larger(ctx):
    """many measurements, histories of requests, some of them invalid"""
    N = ctx.np
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    R = ctx.mod('attitude.orientation.reconstructed').ReconstructedPlane
    M = ctx.mod('attitude.orientation.grouped')
    r = N.random.default_rng(int(ctx.real('seed', lambda s, r: float(r.integers(1 << 30)))))
    k = int(r.integers(4, 12))
    ms = [P(r.normal(size=(int(r.integers(4, 20)), 3)) * (9, 4, .5)) for _ in range(k)]
    if r.integers(3) == 0:
        ms.append(R(30, 20, 10, 2, 5))          # not groupable, just kept
    base = len(ms)
    uid = [m.hash for m in ms]
    ctx.assume(len(set(uid)) == base)
    out, groups, taken = list(ms), [], set()
    for step in range(int(r.integers(1, 5))):
        req, bad, t = [], None, set(taken)
        for _ in range(int(r.integers(0, 3))):
            g = [int(i) for i in r.permutation(k)[:int(r.integers(1, 4))]]
            if r.integers(3):
                g = [i for i in g if i not in t]
                if not g:
                    continue
            if any(i in t for i in g):
                bad = bad or M.GroupedPlaneError
            t |= set(g)
            req.append(g)
        before = list(out)
        state = [(getattr(o, 'member_of', None), getattr(o, 'members', None)) for o in out]
        try:
            new = M.create_groups(out, *[[uid[i] for i in g] for g in req])
            ctx.true('accepted', bad is None)
            groups += req
            taken = t
        except M.GroupedPlaneError:
            ctx.true('rejected', bad is M.GroupedPlaneError)
            new = out
        ctx.true('the list given is untouched', len(before) == len(out) and all(a is b for a, b in zip(before, out)))
        ctx.true('its entries are untouched', all(getattr(o, 'member_of', None) is a and getattr(o, 'members', None) is b
                                                 for o, (a, b) in zip(before, state)))
        out = new
        check_links(ctx, 'step', out, base, groups)
    ctx.true('originals', all(getattr(m, 'member_of', None) is None for m in ms))
    for i, g in enumerate(groups):
        o = out[base + i]
        want = P(N.vstack([ms[j].centered_array for j in g]))
        ctx.eq('pooled fit', o.axes, want.axes)
        ctx.eq('center', o.center, N.vstack([ms[j].array for j in g]).mean(axis=0))


SCENARIOS = [
    Scenario('pooled fit', pooled),
    Scenario('translated member', misfit),
    Scenario('nested', nested, concrete=20),
    Scenario('options', options, concrete=20),
    Scenario('group without its members', alone, concrete=20),
    Scenario('disabling', disabling, concrete=40),
    Scenario('histories', larger, deductive=False, concrete=60),
    Scenario('names', names, deductive=False, concrete=20),
]
SCENARIOS += [Scenario('requests (%d)' % i, (lambda ctx, i=i: requests(ctx, i, 4)), concrete=60, max_paths=200)
              for i in range(4)]
