"""C11: record tables behave like lists of rows under any sequence of operations, and export exactly what they hold."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.vlib import Suite, main, num

S = Suite('C11', 'distinct = (table type, operation, number of rows); non-trivial = an operation after which the whole table was compared with a '
                 'plain list replica',
          assumptions=['truncating an empty table may be refused or ignored'])


def rec_table(r):
    names = ['t', 'x', 'Tg', 'rho', 'n e->p nue', 'S', 'a']
    n = r.randint(1, 7)
    return [[names[i], r.choice(['', None, 'MeV', 's', '1/s']), r.choice([1, 1., 2.5, 1e-3, 1e22])] for i in range(n)]


def parse(text):
    lines = text.split('\n')
    head = [l for l in lines if l.startswith('#')]
    rows = [[num(v) for v in l.split('\t')] for l in lines if l and not l.startswith('#')]
    return head, rows


def compare_rec(ctx, t, model, cols, op):
    import numpy as np
    n = len(model)
    ctx.check(len(t) == n and len(t.data) == n, 'rec:length', got=len(t), want=n, op=op)
    for j, c in enumerate(cols):
        col = t[c[0]]
        ctx.check(len(col) == n and np.array_equal(np.array(col), np.array([m[j] for m in model], dtype=float)), 'rec:column', n=n, op=op, column=c[0])
    ctx.seen('rec', op, n)


@S.job()
def records(ctx):
    import io
    import numpy as np
    from common.utils import DynamicRecArray
    r = ctx.rng
    for i in range(600 if ctx.thorough else 120):
        cols = rec_table(r)
        t = ctx.code('rec', DynamicRecArray, cols)
        model = []
        compare_rec(ctx, t, model, cols, 'new')
        row = lambda: [r.choice([r.uniform(-1, 1), r.randint(-9, 9), 0., 1e-250, 1e200]) for _ in cols]
        for s in range(r.choice([3, 15, 40, 90])):
            if i % 40 == 7 and s == 2:          # long evolutions: thousands of rows
                for _ in range(r.choice([5000, 9000])):
                    v = row()
                    ctx.code('rec', t.append, {c[0]: x for c, x in zip(cols, v)})
                    model.append(v)
            op = r.choice(['append dict', 'append dict', 'append tuple', 'extend', 'truncate', 'read', 'read', 'save'])
            if op == 'append dict':
                v = row()
                d = {c[0]: x for c, x in zip(cols, v)}
                if r.random() < .3:
                    d['something else'] = 1.
                d = dict(sorted(d.items(), reverse=r.random() < .5))
                ctx.code('rec', t.append, d)
                model.append(v)
            elif op == 'append tuple':
                v = row()
                ctx.code('rec', t.append, tuple(v))
                model.append(v)
            elif op == 'extend':
                vs = [row() for _ in range(r.choice([0, 1, 4, 30]))]
                ctx.code('rec', t.extend, [tuple(v) for v in vs])
                model += vs
            elif op == 'truncate':
                if not model:       # nothing to remove: refused or ignored, but the table goes on
                    try:
                        t.truncate()
                    except IndexError:
                        pass
                    ctx.check(len(t) == 0, 'rec:truncating an empty table', n=len(t))
                    continue
                ctx.code('rec', t.truncate)
                model.pop()
            elif op == 'read' and model:
                k = r.choice([0, -1, len(model) - 1, -len(model), r.randrange(len(model))])
                got = ctx.code('rec', t.__getitem__, k)
                ctx.check(list(got) == [float(x) for x in model[k]], 'rec:row', k=k, n=len(model), got=repr(got), want=repr(model[k]))
                text = ctx.code('rec', t.row_repr, k)
                ctx.check(text == '\t'.join('{:e}'.format(x / c[2]) for c, x in zip(cols, model[k])), 'rec:row text', k=k, n=len(model))
                text = ctx.code('rec', t.row_repr, k, names=True)
                want = '\t'.join('{} = {:.2e}'.format(c[0], x / c[2]) + (' ' + c[1] if c[1] else '') for c, x in zip(cols, model[k]))
                ctx.check(text == want, 'rec:row text with names', k=k, got=text, want=want)
                for bad in (len(model), -len(model) - 1, len(model) + 7):
                    try:
                        t[bad]
                        ctx.check(False, 'rec:row beyond the end', index=bad, n=len(model))
                    except IndexError:
                        ctx.check(True, 'rec:row beyond the end')
            elif op == 'save' and model:
                f = io.BytesIO()
                ctx.code('rec', t.savetxt, f)
                head, rows = parse(f.getvalue().decode())
                want = '# ' + '\t'.join(c[0] + (', ' + c[1] if c[1] else '') for c in cols)
                ctx.check(head == [want], 'rec:header', got=repr(head), want=want)
                exp = np.array([[x / c[2] for c, x in zip(cols, m)] for m in model])
                ctx.check(np.array(rows).shape == exp.shape and np.allclose(np.array(rows), exp, rtol=1e-15, atol=0), 'rec:export', n=len(model))
            compare_rec(ctx, t, model, cols, op)
    ctx.require('states', len(ctx.states), 60)


@S.job()
def arrays(ctx):
    import io
    import numpy as np
    from common.utils import Dynamic2DArray
    r = ctx.rng
    nr = np.random.RandomState(ctx.np_seed)
    for i in range(600 if ctx.thorough else 120):
        w = r.choice([1, 2, 5, 21])
        header = np.cumsum(nr.uniform(.1, 1, size=w))
        t = ctx.code('2d', Dynamic2DArray, header)
        model = []
        for s in range(r.choice([3, 15, 40, 90])):
            if i % 40 == 7 and s == 2:
                for _ in range(r.choice([5000, 9000])):
                    v = nr.normal(size=w)
                    ctx.code('2d', t.append, v)
                    model.append(v.copy())
            op = r.choice(['append', 'append', 'append', 'extend', 'truncate', 'save', 'alias'])
            if op == 'append':
                v = nr.normal(size=w)
                ctx.code('2d', t.append, v)
                model.append(v.copy())
            elif op == 'alias':          # the table holds copies
                v = nr.normal(size=w)
                ctx.code('2d', t.append, v)
                model.append(v.copy())
                v[:] = 1e9
            elif op == 'extend':
                vs = [nr.normal(size=w) for _ in range(r.choice([0, 1, 4, 30]))]
                ctx.code('2d', t.extend, vs)
                model += [v.copy() for v in vs]
            elif op == 'truncate':
                if not model:       # nothing to remove: refused or ignored, but the table goes on
                    try:
                        t.truncate()
                    except IndexError:
                        pass
                    ctx.check(len(t) == 0, '2d:truncating an empty table', n=len(t))
                    continue
                ctx.code('2d', t.truncate)
                model.pop()
            elif op == 'save' and model:
                f = io.BytesIO()
                ctx.code('2d', t.savetxt, f)
                head, rows = parse(f.getvalue().decode())
                ctx.check(head == ['# ' + '\t'.join('{:e}'.format(h) for h in header)], '2d:header')
                ctx.check(np.array(rows).shape == (len(model), w) and np.allclose(rows, model, rtol=1e-15, atol=0), '2d:export', n=len(model))
            n = len(model)
            M = np.array(model).reshape(n, w)
            ctx.check(len(t) == n and np.array_equal(t.data, M), '2d:content', n=n, op=op)
            if n:
                k = r.choice([0, -1, n - 1, -n, r.randrange(n)])
                ctx.check(np.array_equal(t[k], M[k]), '2d:row', k=k, n=n)
                q = r.randint(1, 8)
                ctx.check(np.array_equal(t[-q:], M[-q:]), '2d:last rows', q=q, n=n)
                a, b = sorted((r.randint(0, n), r.randint(0, n)))
                ctx.check(np.array_equal(t[a:b], M[a:b]), '2d:slice', a=a, b=b, n=n)
                try:
                    t[n]
                    ctx.check(False, '2d:row beyond the end', n=n)
                except IndexError:
                    ctx.check(True, '2d:row beyond the end')
            else:
                ctx.check(len(t[-5:]) == 0, '2d:empty')
            ctx.seen('2d', op, n, w)


@S.job()
def growth(ctx):
    """ every length up to a few thousand rows: nothing is lost or changed when the storage grows """
    import numpy as np
    from common.utils import DynamicRecArray, Dynamic2DArray
    top = 6000 if ctx.thorough else 1500
    t = DynamicRecArray([['a', '', 1.], ['b', 's', 2.]])
    u = Dynamic2DArray(np.arange(3.))
    for n in range(top):
        t.append((n, n * n))
        u.append(np.array([n, -n, 2 * n]))
        if n % 97 == 0 or n < 70:
            k = np.arange(n + 1)
            ctx.check(len(t) == n + 1 and np.array_equal(t['a'], k) and np.array_equal(t['b'], k * k), 'growth:records', n=n)
            ctx.check(len(u) == n + 1 and np.array_equal(u.data[:, 1], -k) and np.array_equal(u.data[:, 2], 2 * k), 'growth:arrays', n=n)
            ctx.seen('growth', n)


@S.job()
def recent(ctx):
    """ circular log used by monitors, and misc. helpers that files rely on """
    import os
    from common import utils
    r = ctx.rng
    base = os.environ['VP_SCRATCH']
    for i in range(40):
        parts = [base] + ['d%d' % r.randint(0, 5) for _ in range(r.randint(1, 3))]
        p = ctx.code('ensure_path', utils.ensure_path, *(parts + ['f.txt']))
        ctx.check(p == os.path.join(*(parts + ['f.txt'])) and os.path.isdir(os.path.dirname(p)) and not os.path.exists(p), 'ensure_path', p=p)
        d = ctx.code('ensure_dir', utils.ensure_dir, *(parts + ['sub']))
        ctx.check(d == os.path.join(*(parts + ['sub'])) and os.path.isdir(d), 'ensure_dir', d=d)
        with open(os.path.join(d, 'keep'), 'w') as f:
            f.write('x')
        utils.ensure_dir(*(parts + ['sub']))
        ctx.check(os.path.exists(os.path.join(d, 'keep')), 'ensure_dir destroys')
        ctx.seen('paths', len(parts))


if __name__ == '__main__':
    main(S)
