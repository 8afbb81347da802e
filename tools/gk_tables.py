"""Generate the Gauss-Kronrod tables of shim/gsl/gk_tables.h (Laurie's algorithm, 60 digits)."""
from mpmath import mp, mpf, matrix, eigsy, sqrt, legendre
mp.dps = 60

def r_jacobi(N):
    a = [mpf(0)] * N
    b = [mpf(2)] + [mpf(k) ** 2 / (4 * mpf(k) ** 2 - 1) for k in range(1, N)]
    return a, b

def r_kronrod(n, a0, b0):
    a = [mpf(0)] * (2 * n + 1); b = [mpf(0)] * (2 * n + 1)
    for k in range(0, (3 * n) // 2 + 1): a[k] = a0[k]
    for k in range(0, -(-3 * n // 2) + 1): b[k] = b0[k]
    s = [mpf(0)] * (n // 2 + 2); t = [mpf(0)] * (n // 2 + 2)
    t[1] = b[n + 1]
    for m in range(0, n - 1):
        u = mpf(0)
        for k in range((m + 1) // 2, -1, -1):
            l = m - k
            u += (a[k + n + 1] - a[l]) * t[k + 1] + b[k + n + 1] * s[k] - b[l] * s[k + 1]
            s[k + 1] = u
        s, t = t, s
    for j in range(n // 2, -1, -1): s[j + 1] = s[j]
    for m in range(n - 1, 2 * n - 2):
        u = mpf(0)
        for k in range(m + 1 - n, (m - 1) // 2 + 1):
            l = m - k; j = n - 1 - l
            u += -(a[k + n + 1] - a[l]) * t[j + 1] - b[k + n + 1] * s[j + 1] + b[l] * s[j + 2]
            s[j + 1] = u
        k = (m + 1) // 2
        if m % 2 == 0:
            a[k + n + 1] = a[k] + (s[j + 1] - b[k + n + 1] * s[j + 2]) / t[j + 2]
        else:
            b[k + n + 1] = s[j + 1] / s[j + 2]
        s, t = t, s
    a[2 * n] = a[n - 1] - b[2 * n] * s[1] / t[1]
    return a, b

def gauss(a, b):
    N = len(a)
    J = matrix(N, N)
    for i in range(N):
        J[i, i] = a[i]
        if i + 1 < N:
            J[i, i + 1] = J[i + 1, i] = sqrt(b[i + 1])
    E, Q = eigsy(J)
    xs = sorted(((E[i], b[0] * Q[0, i] ** 2) for i in range(N)), key=lambda z: -z[0])
    return xs

if __name__ == "__main__":
    for n in (7, 10, 15, 20, 25, 30):
        a0, b0 = r_jacobi(3 * n + 2)
        gk = gauss(*r_kronrod(n, a0, b0))
        g = gauss(a0[:n], b0[:n])
        N = 2 * n + 1
        f = lambda v: mp.nstr(v, 34)
        print("static const double gk%d_x[%d] = {%s};" % (N, n + 1, ", ".join(f(x if i < n else mpf(0)) for i, (x, _) in enumerate(gk[:n + 1]))))
        print("static const double gk%d_w[%d] = {%s};" % (N, n + 1, ", ".join(f(w) for _, w in gk[:n + 1])))
        h = (n + 1) // 2
        print("static const double gk%d_g[%d] = {%s};" % (N, h, ", ".join(f(w) for _, w in g[:h])))
