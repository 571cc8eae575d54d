import sys
from drivers.vdrv import *
from MTfit.probability import amplitude_ratio_ln_pdf
from MTfit.probability.probability import ratio_pdf

scen, outp = sys.argv[1:3]
rng = seed('c03')
out = Out(outp)


def one(r, x, y, fx, fy):
    a = np.zeros((1, 1, 6))
    b = np.zeros((1, 1, 6))
    a[0, 0, 0], b[0, 0, 0] = x, y
    mt = np.zeros((6, 1))
    mt[0, 0] = 1.0
    res = amplitude_ratio_ln_pdf(np.array([r]), mt, a, b, np.array([fx]), np.array([fy]))
    return float(np.asarray(res).flatten()[0])


for s in scenarios(scen):
    for rep in range(1 if TIER == 'quick' else 3):
        if s['op'] == 'point':
            mx, my = float(s['mx']) * rng.uniform(0.5, 2), float(s['my']) * rng.uniform(0.5, 2)
            fx, fy = max(float(s['fx']) * rng.uniform(0.7, 1.4), 1e-5), max(float(s['fy']) * rng.uniform(0.7, 1.4), 1e-5)
            rho, w = mx / my, np.hypot(fx, fy)
            k = {'peak': 0, 'near': rng.uniform(-2, 2), 'wing': rng.choice([-1, 1]) * rng.uniform(2, 6), 'tail': rng.choice([-1, 1]) * rng.uniform(6, 30),
                 'far': rng.uniform(30, 300), 'low': -rng.uniform(5, 15) / w, 'high': rng.uniform(5, 14) / w}[s['pos']]
            r = rho * (1 + k * w) if 1 + k * w > 1e-3 else rho * 10 ** rng.uniform(-9, -3)
            if s['pos'] == 'low':
                r = rho * 10 ** rng.uniform(-6, -1)
            elif s['pos'] == 'high':
                r = rho * 10 ** rng.uniform(1, 6)

            def call():
                l = [one(r, sx * mx, sy * my, fx, fy) for sx in (1, -1) for sy in (1, -1)]
                p = sum(float(np.asarray(ratio_pdf(np.array([[[q]]]), np.array([[[mx]]]), np.array([[[my]]]), np.array([[[fx * mx]]]), np.array([[[fy * my]]]))).flatten()[0])
                        for q in (r, -r))
                return l, p
            res, err = attempt(call)
            out.emit(op='point', r=r, x=mx, y=my, fx=fx, fy=fy, err=err, lnp=res[0] if res else [], pdf=res[1] if res else 0.0)
        elif s['op'] == 'norm':
            if rep:
                continue
            f = [float(np.exp(one(r, float(s['mx']), float(s['my']), float(s['fx']), float(s['fy'])))) for r in s['r']]
            out.emit(op='norm', mx=s['mx'], my=s['my'], fx=s['fx'], fy=s['fy'], r=s['r'], f=f)
        elif s['op'] == 'shape':
            S, K, M = s['S'], s['K'], s['M']
            ax, ay = rng.normal(size=(S, K, 6)), rng.normal(size=(S, K, 6))
            mt = unit(rng.normal(size=(6, M)))
            base = np.abs(np.tensordot(ax, mt, 1)[:, 0, 0] / np.tensordot(ay, mt, 1)[:, 0, 0])
            px = rng.uniform(0.02, 0.3, S) if s['f'] == 'small' else 10 ** rng.uniform(-3, 0.6, S)
            py = rng.uniform(0.02, 0.3, S) if s['f'] == 'small' else 10 ** rng.uniform(-3, 0.6, S)
            r = base * (1 + 0.3 * rng.normal(size=S) * np.hypot(px, py))
            r = np.abs(r) + 1e-6
            if s['sgn'] == 'pos':
                mt = np.abs(mt)
            res, err = attempt(amplitude_ratio_ln_pdf, r.copy(), mt.copy(), ax.copy(), ay.copy(), px.copy(), py.copy())
            out.emit(op='shape', ax=ax, ay=ay, mt=mt, r=r, px=px, py=py, err=err, lnp=np.atleast_2d(np.asarray(res)) if res is not None else [])
            big = np.asfortranarray(unit(rng.normal(size=(6, 2 * M))))
            res, err = attempt(amplitude_ratio_ln_pdf, r.copy(), big[:, ::2], ax.copy(), ay.copy(), px.copy(), py.copy())
            out.emit(op='shape', ax=ax, ay=ay, mt=big[:, ::2], r=r, px=px, py=py, err=err, lnp=np.atleast_2d(np.asarray(res)) if res is not None else [])
        else:
            f = float(s['f'])
            x, y = (0.0 if s['which'] in ('zero-x', 'zero-both') else 1.0), (0.0 if s['which'] in ('zero-y', 'zero-both') else 1.0)
            fx = f
            for r in (1e-3, 1.0, 1e3):
                res, err = attempt(one, r, x, y, fx, f)
                out.emit(op='edge', which=s['which'], r=r, err=err, lnp=[res if res is not None else float('nan')])
out.close()
