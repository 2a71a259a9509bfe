import inspect
import numpy as np
import sdepy
from sdepy import analytical, integration as I, infrastructure as S
from symx.runner import scenario
from .exact import Noise
from .doubles import Jumps

BOUNDS = ('all source, process and exact formula shortcuts; formulas at all '
          'admissible scalar parameters, with any subset of them given at '
          'first and the others later, variables positional or by keyword; '
          'processes over timelines of 3 points, all parameters, one path; '
          'sources of 1-2 paths and up to 2 components, at most one jump '
          'per step')
ASSUMPTIONS = ['the generator delivers the same sequence of draws to the '
               'objects compared', 'quadrature (densities by inversion) is '
               'replaced by reading the integrand at a symbolic point']

SOURCES = dict(dw='wiener_source', dn='poisson_source', dj='cpoisson_source',
               odd_dw='odd_wiener_source', even_dn='even_poisson_source',
               even_dj='even_cpoisson_source', true_dw='true_wiener_source',
               true_dn='true_poisson_source', true_dj='true_cpoisson_source')
PROCESSES = dict(
    wiener='wiener_process', lognorm='lognorm_process',
    oruh='ornstein_uhlenbeck_process', hwff='hull_white_process',
    hw1f='hull_white_1factor_process', cir='cox_ingersoll_ross_process',
    heston_xy='full_heston_process', heston='heston_process',
    jumpdiff='jumpdiff_process', mjd='merton_jumpdiff_process',
    kou='kou_jumpdiff_process')
LAWS = ('mean', 'var', 'std', 'pdf', 'cdf')
FORMULAS = ['%s_%s' % (p, m) for p in ('wiener', 'lognorm', 'oruh', 'hw1f',
                                       'hw2f', 'cir') for m in LAWS
            if (p, m) != ('cir', 'cdf')] + [
    'wiener_chf', 'lognorm_log_chf', 'heston_log_mean', 'heston_log_var',
    'heston_log_std', 'heston_log_chf', 'heston_log_pdf', 'mjd_mean',
    'mjd_log_chf', 'mjd_log_pdf', 'kou_mean', 'kou_log_chf', 'kou_log_pdf',
    'bsd1d2', 'bscall', 'bscall_delta', 'bsput', 'bsput_delta']

# ----------------------------------------------------------------- formulas

ANY, POS, UNIT = {}, dict(pos=True), dict(lo=0, hi=1)


def domain(name, k):
    if k == 'rho':
        return dict(lo=-1, hi=1)
    if k == 'pa':
        return UNIT
    if k in ('mu', 'r', 'q', 'logx', 'u') or k == 'a' and name[:3] == 'mjd':
        return ANY
    return POS


def formula(env, name):
    """variables and parameters, with arbitrary values"""
    f = getattr(analytical, name)
    V, P = {}, {}
    for k, z in inspect.signature(f).parameters.items():
        d = P if z.kind == z.KEYWORD_ONLY else V
        d[k] = env.real(k, **domain(name, k))
    if name == 'cir_pdf':
        env.assume(2 * P['k'] * P['theta'] >= P['xi'] * P['xi'])
    if name.startswith('heston') and name.endswith(('chf', 'pdf')):
        s = env.real('s', lo=0, hi=1)
        env.assume(s > 0)
        env.assume(s < 1)
        env.assume(P['k'] > P['rho'] * P['sigma'] * P['xi'] * s)
        if 'u' in V:
            V['u'] = -1j * s
        env.s = s
    if name.endswith('std'):
        env.assume(np.asarray(getattr(analytical, name[:-3] + 'var')(
            *V.values(), **P)).reshape(-1)[0] > 0)
    if name.startswith('hw2f') and name.endswith(('pdf', 'cdf')):
        env.assume(np.asarray(analytical.hw2f_var(
            V['t'], **P)).reshape(-1)[0] > 0)
    return f, V, P


def quad(env, name):
    at = -1j * env.s if name[:2] == 'he' else 1

    def q(f, a, b, args=(), **k):
        return np.asarray(f(at, *args))[()], 0.
    return q


def close(env, got, want, label):
    got, want = np.asarray(got), np.asarray(want)
    env.shape(got, want.shape, 'shape')
    for g, w in zip(got.reshape(-1), want.reshape(-1)):
        env.eq(g.real, w.real, label)
        env.eq(g.imag, w.imag, label)


@scenario({'name': FORMULAS, 'how': ['direct', 'steps', 'keywords',
                                     'override', 'defaults']})
def formulas(env, name, how):
    g = getattr(sdepy, name)
    f, V, P = formula(env, name)
    env.true(sdepy.iskfunc(g), 'with managed keywords')
    v = list(V.values())
    with env.quadrature(quad(env, name) if name.endswith('log_pdf')
                        else lambda *a: None):
        if how == 'defaults':
            # one parameter at a time, the others by default
            keys = [k for k in P if not name.startswith(
                'heston') or k in ('mu', 'x0', 'y0')][:1 if name in (
                    'heston_log_std',) else None]
            n = env.choice('n', keys) if len(keys) > 1 else keys[0]
            P = {n: P[n]}
            if name == 'cir_pdf':
                env.assume(P[n] >= 1 if n in ('theta', 'k') else P[n] <= 1)
            if name.startswith('kou'):
                for k in ('a', 'b'):
                    if k in P:
                        env.assume(P[k] < 1)
            close(env, g(*v, **P), f(*v, **P), 'value')
            close(env, g(**P)(*v), f(*v, **P), 'value')
            return
        want = f(*v, **P)
        if how == 'direct':
            r = g(*v, **P)
        elif how == 'steps':
            a = {k: z for i, (k, z) in enumerate(P.items())
                 if env.bool('given%d' % i)} if len(P) < 6 else dict(
                     list(P.items())[::2])
            b = {k: z for k, z in P.items() if k not in a}
            if not a:
                return
            h = g(**a)
            r = h(*v, **b)
            if b:
                h = h(**b)
            close(env, h(*v), want, 'value')
        elif how == 'keywords':
            r = g(**V, **P)
            close(env, g(**P)(**V), want, 'value')
        else:
            h = g(**dict.fromkeys(P, 2.))
            r = h(*v, **P)
            close(env, h(**P)(*v), want, 'value')
        close(env, r, want, 'value')


# ---------------------------------------------------------------- processes

def law(env, name):
    """parameters of jumps"""
    if name == 'jumpdiff':
        return dict(lam=env.real('lam', nonneg=True),
                    y=Jumps(env.real('j')))
    if name == 'mjd':
        return dict(lam=env.real('lam', nonneg=True), a=env.real('a'),
                    b=env.real('b', pos=True))
    if name == 'kou':
        return dict(lam=env.real('lam', nonneg=True),
                    a=env.real('a', pos=True), b=env.real('b', pos=True),
                    pa=.25)
    return {}


def drift(env, name):
    par = {'mu': ANY, 'sigma': ANY}
    if name in ('oruh', 'hw1f', 'hwff'):
        par = {'theta': ANY, 'k': ANY, 'sigma': ANY}
    if name == 'cir':
        par = {'theta': POS, 'k': POS, 'xi': ANY}
    if name[:6] == 'heston':
        par = dict(par, theta=POS, k=POS, xi=ANY, y0=POS)
    par['x0'] = POS
    return {k: env.real(k, **kw) for k, kw in par.items()}


def outputs(r):
    return r if isinstance(r, tuple) else (r,)


@scenario({'name': list(PROCESSES), 'how': ['direct', 'steps', 'keyword',
                                            'override'],
           'src': ['given', 'built']})
def processes(env, name, how, src):
    env.pois_max = 1
    sc, cls = getattr(sdepy, name), getattr(I, PROCESSES[name])
    env.true(issubclass(sc, cls), 'a kind of the process abbreviated')
    P = drift(env, name)
    com = dict(paths=1, dtype=env.dtype)
    if name == 'hwff':
        com['factors'] = 2
    few = name in ('cir', 'heston', 'heston_xy')
    t = env.obj(2 if few else 3)
    for i, x in enumerate(env.times('t', t.size)):
        t[i] = x
    if src == 'given':
        two = name in ('hwff', 'heston', 'heston_xy')
        com['dw'] = Noise([env.real('z0'), env.real('z1')], (2,)) if two \
            else Noise([env.real('z0')])
        if name in ('jumpdiff', 'mjd', 'kou'):
            com['dj'] = Noise([env.real('z2')])
    else:
        P.update(law(env, name))
        if len(P) > 3:
            t = t[:2]

    def rng():
        return dict(rng=env.rng('z')) if src == 'built' else {}
    want = cls(**P, **com, **rng())(t)
    keys = list(P)
    a = {k: P[k] for k in keys[::2]}
    b = {k: P[k] for k in keys[1::2]}
    if how == 'direct':
        r = sc(t, **P, **com, **rng())
    elif how == 'steps':
        r = sc(**com, **a)(**b, **rng())(t)
    elif how == 'keyword':
        r = sc(timeline=t, **P, **com, **rng())
    else:
        r = sc(**com, **a)(t, **b, **rng())
    env.true(len(outputs(r)) == len(outputs(want)), 'number of processes')
    for x, y in zip(outputs(r), outputs(want)):
        env.shape(x.x, y.x.shape, 'shape')
        env.eq(x.t, t, 'timeline')
        env.eq(x.x, y.x, 'values')
    p = sc(**com, **P)
    for k, v in P.items():
        if isinstance(v, Jumps):
            env.true(p.params[k] is v, 'reports the law of jumps')
        else:
            env.eq(np.asarray(p.params[k]), np.asarray(v), 'reports ' + k)
    q = sc(**com).params
    env.true(set(P) <= set(q) and 'x0' in q and 'steps' in q,
             'reports all parameters')


# ------------------------------------------------------------------ sources

@scenario({'name': list(SOURCES), 'how': ['direct', 'steps', 'keywords'],
           'shape': [((), 2), ((2,), 2)]})
def sources(env, name, how, shape):
    env.pois_max = 1
    vs, paths = shape
    sc, cls = getattr(sdepy, name), getattr(S, SOURCES[name])
    env.true(issubclass(sc, cls), 'a kind of the source abbreviated')
    P = dict(paths=paths, vshape=vs)
    if name.endswith('w'):
        P['dtype'] = env.dtype
        if vs:
            P['rho'] = env.real('rho', lo=-1, hi=1)
    else:
        P['lam'] = env.real('lam', nonneg=True)
    if name.endswith('j'):
        P['dtype'] = env.dtype
        P['y'] = Jumps(env.real('j'))
    t, s = env.times('t', 2)
    dt = s - t
    want = cls(rng=env.rng('z'), **P)(t, dt)
    if how == 'direct':
        r = sc(t, dt, rng=env.rng('z'), **P)
    elif how == 'keywords':
        r = sc(rng=env.rng('z'), **P)(t=t, dt=dt)
    else:
        r = sc(**P)(rng=env.rng('z'))(t, dt)
    env.shape(r, want.shape, 'shape')
    env.eq(r, want, 'values')
    p = sc(**P)
    for k, v in P.items():
        got = p.params[k]
        if k in ('lam', 'rho'):
            env.eq(got, v, 'reports ' + k)
        else:
            env.true(got is v or got == v, 'reports ' + k)
