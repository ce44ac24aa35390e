"""What the interactive plot hands to the browser is exactly what was given.

Proved for all texts: the encoded data are symbolic text (engine/text.py) that the real function transforms and
places in the page; the frame around it does not depend on the data. Run-time contracts besides: the generated page is read the way
a browser does (end of the script element found by the HTML rules, script run by a JavaScript engine), for every Unicode
code point as text and for generated measurements. The JSON encoder of Python and JSON.parse of node are trusted."""
import json
import os
import re
import subprocess
from engine.run import Scenario
from engine import gens

PRELOAD = ['attitude.orientation.pca', 'attitude.display', 'attitude.display.nbextension',
           'attitude.orientation.grouped', 'attitude.orientation.reconstructed']
EXPLANATION = ('any JSON values in up to three measurements or mappings: the text of the data is a hole in the page, followed character by '
               'character through the real function; longer sequences, every code point and real measurements by run-time contracts')
ASSUMPTIONS = [
    'contract of json.dumps (default settings): printable ASCII text that json.loads reads back as the value given; a function of the value',
    'texts are mapped character by character: replacing single characters is a homomorphism of strings, so the images of the 95 characters decide for all texts',
    'the page around the data is read by the HTML rules for script elements and run by node; sequences of more than three measurements by run-time contract only',
]

NODE = r"""
const pages = JSON.parse(require('fs').readFileSync(0, 'utf8'));
const out = pages.map(([script, id]) => {
  let got = [];
  const document = {querySelector: (s) => s === '#' + id ? {id: id} : null};
  const attitudeUI = (el, data) => { got.push([el === null ? null : el.id, data]); };
  try {
    const r = new Function('document', 'attitudeUI', script);
    r(document, attitudeUI);
    return {got: got};
  } catch (e) { return {error: String(e)}; }
});
process.stdout.write(JSON.stringify(out).replace(/[\u007f-\uffff]/g, c => '\\u' + ('0000' + c.charCodeAt(0).toString(16)).slice(-4)));
"""


def shown(mod, what):
    """HTML handed to the notebook"""
    import IPython.display as D
    seen = []
    M = mod('attitude.display.nbextension')
    swap = [(M, k) for k, v in vars(M).items() if v is D.display]
    swap.append((D, 'display'))
    old = [getattr(o, k) for o, k in swap]
    try:
        for o, k in swap:
            setattr(o, k, lambda *a, **kw: seen.extend(a))
        mod('attitude.display').plot_interactive(what)
    finally:
        for (o, k), v in zip(swap, old):
            setattr(o, k, v)
    return seen


def script_of(html):
    """(script text, id of the element) as the HTML tokenizer sees them"""
    m = re.search(r'<script\b[^>]*>', html, re.I)
    if not m:
        return None, None, 'no script element'
    rest = html[m.end():]
    # a comment opened inside a script changes where it ends
    if '<!--' in rest:
        return None, None, 'the script contains <!--'
    e = re.search(r'</script[\s/>]', rest, re.I)
    if not e:
        return None, None, 'unclosed script element'
    tail = rest[e.end():]
    if tail.lstrip('>').strip():
        return None, None, 'text after the script: %r' % tail[:60]
    head = re.search(r"<(\w+)[^>]*\bid=['\"]?([^'\" >]+)", html[:m.start()])
    return rest[:e.start()], head and head.group(2), None


def browse(pages):
    p = subprocess.run(['node', '-e', NODE], input=json.dumps(pages), capture_output=True, text=True, timeout=120)
    if p.returncode:
        raise RuntimeError('node: ' + p.stderr[:300])
    return json.loads(p.stdout)


def check(ctx, whats, wants):
    pages, labels = [], []
    for w in whats:
        seen = shown(ctx.mod, w)
        ctx.true('one page', len(seen) == 1)
        html = getattr(seen[0], 'data', None)
        script, el, err = script_of(html)
        ctx.true('well-formed page%s' % ('' if not err else ': ' + err), err is None)
        pages.append([script or '', el])
    ids = [p[1] for p in pages]
    ctx.true('every plot has its own element', len(set(ids)) == len(ids))
    for r, want in zip(browse(pages), wants):
        ctx.true('script runs%s' % ('' if 'error' not in r else ': ' + r['error']), 'error' not in r)
        got = r.get('got', [])
        ctx.true('plots once, into the element of the page', len(got) == 1 and got[0][0] is not None)
        if len(got) == 1:
            ctx.true('the browser gets exactly what was given', got[0][1] == want)


def code_points(ctx):
    """every code point, lone surrogates included, as key and value"""
    k = ctx.choose('plane', list(range(17)))
    size = 1 << 12
    whats = []
    for j in range(16):
        base = (k << 16) + j * size
        s = ' '.join(map(chr, range(base, base + size)))     # apart: a pair of surrogates is one character
        whats.append([{'name': s}])
    check(ctx, whats, whats)


NASTY = ['</script>', '</SCRIPT >', '<!--', '<script>', ']]>', "'", '"', '\\', "\\'", '\\\\"', '\n', '\r\n', '\u2028', '\u2029',
         '<<<data>>>', '<<<hash>>>', '\\u003c', '\\n', '${x}', '`', '&lt;', '&quot;', '%s', '{0}', '\\1', '\\g<0>', '\x00',
         '\ud800', '\U0001f600', 'é', '//', '/*', '*/', ';', '"];alert(1);//', '-->', '\\<', '<\\/script>']


def nasty(ctx):
    N = ctx.np
    r = N.random.default_rng(int(ctx.real('seed', lambda s, r: float(r.integers(1 << 30)))))
    whats = []
    for _ in range(12):
        def text():
            return ''.join(NASTY[int(r.integers(len(NASTY)))] for _ in range(int(r.integers(1, 5))))
        m = {text(): text(), 'name': text(), 'list': [text(), {text(): [None, True, 1.5, -3, 1e300]}], 'x': float(r.normal())}
        whats.append([m, {'uid': text()}][:int(r.integers(1, 3))])
    check(ctx, whats, whats)


def measurements(ctx):
    """fits, groups and reconstructed planes are shown as their saved form"""
    N = ctx.np
    r = N.random.default_rng(int(ctx.real('seed', lambda s, r: float(r.integers(1 << 30)))))
    P = ctx.mod('attitude.orientation.pca').PCAOrientation
    ms = [P(r.normal(size=(int(r.integers(4, 9)), 3)) * (9, 4, .5) + 100) for _ in range(3)]
    out = ctx.mod('attitude.orientation.grouped').create_groups(ms, [ms[0].hash, ms[1].hash])
    rec = ctx.mod('attitude.orientation.reconstructed').ReconstructedPlane(30, 20, 10, 2, 5)
    plain = {'strike': 1, 'name': "d'Arc </script>"}
    off = ctx.mod('attitude.orientation.grouped').disable_orientations([P(m.array) for m in ms], ms[0].hash, ms[2].hash)
    many = [{'uid': str(i % 7), 'strike': i} for i in range(300)]
    whats = [off, off[0], many, [ms[0], ms[0]], [rec, rec, plain, plain, None], [dict(plain, disabled=True), dict(plain, hidden=1)],
             ms[0], rec, plain, out, tuple(out), [rec, ms[1], plain], [], [m.to_mapping(name='"%s\\' % i) for i, m in enumerate(ms)]]

    def form(o):
        return o.to_mapping() if hasattr(o, 'to_mapping') else o
    wants = [[form(i) for i in (w if isinstance(w, (list, tuple)) else [w])] for w in whats]
    keep = json.dumps(plain)
    check(ctx, whats, json.loads(json.dumps(wants)))
    ctx.true('given mappings are not modified', json.dumps(plain) == keep)
    ctx.true('measurements are not modified', json.dumps([[form(i) for i in (w if isinstance(w, (list, tuple)) else [w])]
                                                          for w in whats]) == json.dumps(wants))


# -- all texts ---------------------------------------------------------------------------------
class Measurement(object):
    """any object with a saved form"""
    def __init__(self, form):
        self.form = form

    def to_mapping(self):
        return self.form


def given(kind, value):
    """(what is given, what the browser should get); value(i): any JSON value"""
    m = [{'uid': value(0), 'name': value(1)}, {'x': [value(2), {'y': value(3)}]}, {}]
    M = [Measurement(i) for i in m]
    return {'measurement': (M[0], [m[0]]), 'mapping': (m[0], [m[0]]), 'one': ([M[0]], [m[0]]), 'two': ([M[0], m[1]], m[:2]),
            'tuple': ((m[1], M[0], M[0]), [m[1], m[0], m[0]]), 'three': ([M[2], M[1], M[0]], m[::-1])}[kind]


def every_text(ctx):
    """the data are a string literal whatever they are, and the page around them does not depend on them"""
    kind = ctx.choose('given', ['measurement', 'mapping', 'one', 'two', 'tuple', 'three'])
    seed = ctx.real('seed', lambda s, r: float(r.integers(1 << 30)))
    if not ctx.symbolic:
        r = ctx.np.random.default_rng(int(seed))
        vals = [''.join(NASTY[int(r.integers(len(NASTY)))] for _ in range(4)) for _ in range(4)]
        w, want = given(kind, lambda i: vals[i])
        return check(ctx, [w], [want])
    from engine import load, text
    vals = [text.Value(i) for i in range(4)]
    w, want = given(kind, lambda i: vals[i])
    seen = shown(load.SymWorld({'json': text.JSON}).load, w)
    ctx.true('one page', len(seen) == 1)
    page = ''.join(c for c in seen[0].data)
    hs = text.holes(page)
    if len(hs) != 1 or hs[0].mark + '"' not in page or '"' + hs[0].mark not in page:
        return text.unsupported('the data are not in one string literal of the page')
    h = hs[0]
    ctx.true('what was given is encoded, in order', h.value == want)
    for c, t in h.image.items():
        ctx.true('%r cannot end the script element' % c, '<' not in t)
        ctx.true('%r is read back' % c, _reads(t, c))

    # the frame around the string literal, read and run with any one text in place of the data
    def real(texts):
        o, expected = given(kind, lambda i: texts[i % len(texts)])
        html = shown(_real, o)[0].data
        return html, expected
    pages, wants = [], []
    for texts in (['x'], NASTY, [''.join(text.PRINTABLE)], [None, 1.5, [True, {}]]):
        html, expected = real(texts)
        mine = text.fill(page, lambda _: json.dumps(expected))
        if _anon(mine) != _anon(html):
            return text.unsupported('the page of the verified code differs from that of the real code')
        script, el, err = script_of(mine)
        ctx.true('well-formed page', err is None)
        pages.append([script or '', el])
        wants.append(expected)
    for r, expected in zip(browse(pages), wants):
        ctx.true('plots once, into the element of the page', len(r.get('got', [])) == 1 and r['got'][0] == [r['got'][0][0], expected]
                 and r['got'][0][0] is not None)


def _reads(t, c):
    try:
        return json.loads('"' + t + '"') == c
    except ValueError:
        return False


def _real(name):
    import importlib
    return importlib.import_module(name)


def _anon(html):
    return re.sub(r'[0-9a-f]{8}-?[0-9a-f]{4}-?[0-9a-f]{4}-?[0-9a-f]{4}-?[0-9a-f]{12}', 'UUID', html)


def notebook(ctx):
    """thousands of plots: an element for each"""
    ids = set()
    for i in range(3000):
        ids.add(script_of(shown(ctx.mod, [])[0].data)[1])
    ctx.true('every plot has its own element', len(ids) == 3000 and None not in ids)


SCENARIOS = [
    Scenario('many plots', notebook, deductive=False, concrete=1, concrete_seconds=60),
    Scenario('every text', every_text, concrete=6),
    Scenario('measurements', measurements, deductive=False, concrete=5),
    Scenario('hostile text', nasty, deductive=False, concrete=10),
]


def _plane(k):
    def fn(ctx):
        ctx.choices['plane'] = k
        code_points(ctx)
    return fn


SCENARIOS += [Scenario('code points %X0000' % k, _plane(k), deductive=False, concrete=1) for k in range(17)]
