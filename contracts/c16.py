"""The JSON form of a measurement is faithful."""
import json
from engine.run import Scenario
from engine import gens

PRELOAD = ['attitude.orientation.pca', 'attitude.orientation.grouped', 'attitude.orientation.reconstructed', 'attitude.error']

COMMON = {'uid', 'axes', 'hyperbolic_axes', 'max_angular_error', 'min_angular_error', 'strike', 'dip', 'rake', 'disabled'}


def common(ctx, f, m):
    N = ctx.np
    s, d, r = f.strike_dip_rake()
    ctx.eq('strike', m['strike'], s)
    ctx.eq('dip', m['dip'], d)
    ctx.eq('rake', m['rake'], r)
    lo, hi = f.angular_errors()
    ctx.eq('minimum angular error', m['min_angular_error'], lo)
    ctx.eq('maximum angular error', m['max_angular_error'], hi)
    ctx.eq('axes', N.array(m['axes']), f.axes)
    ctx.eq('error axes', N.array(m['hyperbolic_axes']), f.hyperbolic_axes)
    if not ctx.symbolic:
        # to the last digit
        ctx.true('axes, exactly', m['axes'] == f.axes.tolist())
        ctx.true('error axes, exactly', m['hyperbolic_axes'] == f.hyperbolic_axes.tolist())
        for k, v in zip(('strike', 'dip', 'rake', 'min_angular_error', 'max_angular_error'), (s, d, r, lo, hi)):
            ctx.true('angles, exactly', abs(m[k] - v) <= 1e-13 * (1 + abs(v)))
    ctx.true('uid', m['uid'] == f.hash)
    ctx.true('plain lists', all(isinstance(m[k], list) and all(isinstance(i, list) for i in (m[k] if k == 'axes' else []))
                                for k in ('axes', 'hyperbolic_axes')))


def roundtrip(ctx, m):
    """strict JSON, every number exact"""
    if ctx.symbolic:
        return
    text = json.dumps(m, allow_nan=False)
    back = json.loads(text)
    ctx.true('survives JSON exactly', back == json.loads(json.dumps(plain(m))) and same(back, m))


def plain(v):
    if isinstance(v, dict):
        return {str(k): plain(i) for k, i in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(i) for i in v]
    if isinstance(v, bool) or v is None or isinstance(v, (str, int)):
        return v
    return float(v)


def same(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in b)
    if isinstance(b, (list, tuple)):
        return isinstance(a, list) and len(a) == len(b) and all(same(i, j) for i, j in zip(a, b))
    return a == b and isinstance(a, bool) == isinstance(b, bool)


def fit(ctx):
    N = ctx.np
    arr = ctx.data('data', gens.planar(degenerate=False), min_len=3)
    f = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    if ctx.choose('disabled', [False, True]):
        f.disabled = True
    m = f.to_mapping()
    common(ctx, f, m)
    ctx.true('keys', set(m) == COMMON | {'center', 'centered_array'})
    ctx.eq('center', N.array(m['center']), arr.mean(axis=0))
    ctx.eq('centered coordinates', N.array(m['centered_array']), arr - arr.mean(axis=0))
    ctx.true('disabled', m['disabled'] is f.disabled)
    roundtrip(ctx, m)
    if not ctx.symbolic:
        ctx.eq('coordinates can be rebuilt', N.array(m['centered_array']) + N.array(m['center']), arr)


def overrides(ctx):
    with ctx.one_side():
        overrides_(ctx)


def overrides_(ctx):
    """values given by the caller are added, and win; the links are those of the object"""
    arr = ctx.data('data', gens.planar(degenerate=False), min_len=3)
    kind = ctx.choose('kind', ['fit', 'member', 'group', 'reconstructed'])
    f = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    links = set()
    if kind in ('member', 'group'):
        g = ctx.mod('attitude.orientation.grouped').GroupedOrientation(f)
        links = {'member_of'} if kind == 'member' else {'members'}
        f = f if kind == 'member' else g
    elif kind == 'reconstructed':
        f = ctx.mod('attitude').ReconstructedPlane(30, 40, 20, 3, 7)
    key = ctx.choose('key', sorted(COMMON - {'uid'}) + ['uid', 'center', 'centered_array', 'name', 'color', 'note', 'member_of', 'members'])
    vals = [None, 'text "quoted" </script>', 0, False, [1, 2], {'a': 1}]
    val = ctx.choose('value', vals if kind == 'fit' else [vals[len(key) % 6]])
    ref = f.to_mapping()
    given = {key: val, 'extra': 'x'}
    m = f.to_mapping(**given)
    if key not in links:
        ctx.true('given value wins', m[key] is val)
    for k in links:
        ctx.true('links', m[k] == ref[k])
    ctx.true('other given values', m['extra'] == 'x')
    ctx.true('keys', set(m) == set(ref) | {key, 'extra'})
    for k in ('strike', 'dip', 'rake', 'min_angular_error', 'max_angular_error'):
        if k != key:
            ctx.eq('others are kept', m[k], ref[k])
    ctx.true('arguments are not modified', given == {key: val, 'extra': 'x'})
    again = f.to_mapping()
    ctx.true('nothing sticks to the fit', set(again) == set(ref))
    for k in ref:
        ctx.true('nothing sticks to the fit', key != k or again[k] is not val or val is ref[k])
    roundtrip(ctx, m)


def groups(ctx):
    """links between members and their group, by uid"""
    N = ctx.np
    k = ctx.choose('members', [1, 2])
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    M = ctx.mod('attitude.orientation.grouped')
    raw = [ctx.data('m%d' % i, gens.planar('m%d' % i, degenerate=False), min_len=3) for i in range(k)]
    with ctx.one_side():
        ms = [P(a) for a in raw]
        single = P(ctx.data('s', gens.planar('s', degenerate=False), min_len=3))
        if not ctx.symbolic:
            ctx.assume(len({m.hash for m in ms + [single]}) == k + 1)
        out = M.create_groups(ms + [single], [m.hash for m in ms])
        ctx.true('entries', len(out) == k + 2)
        off = ctx.choose('disabled', [None, 0, -1])
        if off is not None:
            out[off].disabled = True
        maps = [o.to_mapping() for o in out]
        g = maps[-1]
        ctx.true('members', g['members'] == [m['uid'] for m in maps[:k]])
        ctx.true('members link to their group', all(m['member_of'] == g['uid'] for m in maps[:k]))
        ctx.true('others have no group', 'member_of' not in maps[k] and 'member_of' not in g)
        ctx.true('coordinates of a group are not repeated', g['centered_array'] is None)
        ctx.eq('center of a group', N.array(g['center']), N.vstack(raw).mean(axis=0))
        for o, m in zip(out, maps):
            common(ctx, o, m)
            ctx.true('disabled', m['disabled'] is (off is not None and o is out[off]))
        ctx.true('requested coordinates', out[-1].to_mapping(centered_array=[1])['centered_array'] == [1])
    for m in maps:
        roundtrip(ctx, m)


def reconstructed(ctx):
    N = ctx.np
    s = ctx.real('strike', gens.uniform(-360, 720, special=(0.0, 90.0, 180.0)))
    d = ctx.real('dip', gens.uniform(0, 90, special=(0.0, 90.0)))
    r = ctx.real('rake', gens.uniform(-180, 180, special=(0.0, 90.0)))
    e = (ctx.real('e0', gens.uniform(0.05, 20)), ctx.real('e1', gens.uniform(0.1, 120)))
    for i in e:
        ctx.assume(i > 0)
        ctx.assume(i < 180)
    ctx.assume(d >= 0)
    ctx.assume(d <= 90)
    p = ctx.mod('attitude').ReconstructedPlane(s, d, r, *e)
    m = p.to_mapping(name='x')
    common(ctx, p, m)
    ctx.eq('given angles', N.array([m['strike'], m['dip'], m['rake']]), N.array([s, d, r]))
    ctx.eq('given errors', N.array([m['min_angular_error'], m['max_angular_error']]), N.array(list(e)))
    ctx.true('keys', set(m) == COMMON | {'name'} and m['name'] == 'x' and m['disabled'] is False)
    roundtrip(ctx, m)


def summary(ctx):
    """axes and covariance for other software"""
    N = ctx.np
    arr = ctx.data('data', gens.planar(degenerate=False), min_len=3)
    f = ctx.mod('attitude.orientation.pca').PCAOrientation(arr)
    A = ctx.mod('attitude.error.axes')
    fn = ctx.choose('method', [None, 'noise_axes', 'sampling_axes'])
    m = ctx.mod('attitude.error').pca_to_mapping(f, **({} if fn is None else dict(method=getattr(A, fn))), name='x')
    ctx.true('keys', set(m) == {'axes', 'covariance', 'name'} and m['name'] == 'x')
    ctx.eq('axes', N.array(m['axes']), f.axes)
    ctx.eq('covariance', N.array(m['covariance']), getattr(A, fn or 'sampling_axes')(f))
    roundtrip(ctx, m)


def identity(ctx):
    """uid: a function of the fit, different for different fits"""
    N = ctx.np
    arr = ctx.data('data', gens.planar(degenerate=False), min_len=4)
    ctx.assume(len(arr) >= 4)
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    f, g = P(arr), P(arr.copy())
    ctx.true('same data, same uid', f.hash == g.hash == P(arr.tolist() if False else N.array(arr.tolist())).hash
             or arr.dtype != float)
    j = int(ctx.real('j', lambda s, r: float(r.integers(1 << 20))))
    b = arr.astype(float)
    b[j % len(b), j % 3] += 1
    ctx.true('other data, other uid', P(b).hash != f.hash or abs(P(b).singular_values - f.singular_values).max() == 0)
    # also if they are nearly the same, or in any unit
    for k in (1e-9, 1, 1e9):
        u = P(b * k).hash
        for e in (1e-4, 1e-8, 1e-11):
            ctx.true('other size, other uid', P(b * (k * (1 + e))).hash != u)
    R = ctx.mod('attitude').ReconstructedPlane
    args = [30 + b[0, 0] % 300, 20 + b[0, 1] % 60, 1 + b[0, 2] % 178, 2 + b[1, 0] % 5, 8 + b[1, 1] % 20]
    u = R(*args).hash
    ctx.true('same plane, same uid', R(*args).hash == u)
    for i in range(5):
        ctx.true('other plane, other uid', R(*[v * (1 + 1e-9) if i == j else v for j, v in enumerate(args)]).hash != u)
    ctx.true('text', isinstance(f.hash, str) and len(f.hash) >= 8)
    f.to_mapping(), f.strike_dip(), f.residuals()
    ctx.true('stable', f.hash == g.hash)


SCENARIOS = [
    Scenario('fit', fit),
    Scenario('overrides', overrides, max_paths=200),
    Scenario('groups', groups, concrete=40),
    Scenario('reconstructed', reconstructed),
    Scenario('axes and covariance', summary),
    Scenario('uid', identity, deductive=False, concrete=40),
]
