"""Reference computations, independent of the code under test (long double)."""
import numpy as N
L = N.longdouble


def center(arr):
    a = N.asarray(arr).astype(L)
    m = a.sum(axis=0) / L(len(a))
    c = a - m
    m2 = c.sum(axis=0) / L(len(a))
    return m + m2, c - m2


def jacobi(S):
    """Eigen-decomposition of a symmetric matrix in long double; descending."""
    A = N.array(S, dtype=L)
    n = len(A)
    V = N.eye(n, dtype=L)
    for _ in range(60):
        off = N.sqrt(sum(A[i, j] ** 2 for i in range(n) for j in range(n) if i != j))
        if off <= 1e-30 * N.sqrt((N.diag(A) ** 2).sum()) or off == 0:
            break
        for p in range(n - 1):
            for q in range(p + 1, n):
                if A[p, q] == 0:
                    continue
                th = (A[q, q] - A[p, p]) / (2 * A[p, q])
                t = (1 if th >= 0 else -1) / (abs(th) + N.sqrt(th * th + 1))
                c = 1 / N.sqrt(t * t + 1)
                s = t * c
                J = N.eye(n, dtype=L)
                J[p, p] = J[q, q] = c
                J[p, q], J[q, p] = s, -s
                A = J.T @ A @ J
                V = V @ J
    w = N.diag(A).copy()
    o = N.argsort(-w)
    return w[o], V[:, o].T


def pca(arr):
    """(mean, centred, singular values, axes as rows), long double.

    Two refinement steps: the second decomposition is done in the frame of the
    first, so the small singular value is not lost to the square."""
    m, c = center(arr)
    w, V = jacobi(c.T @ c)
    P = c @ V.T
    sc = N.sqrt(N.maximum((P ** 2).sum(axis=0), 0))
    d = N.where(sc > 0, sc, 1)
    G = (P.T @ P)
    w2, V2 = jacobi(G)
    V = V2 @ V
    P = c @ V.T
    s = N.sqrt((P ** 2).sum(axis=0))
    return m, c, s, V


def angle(a, b):
    """Angle between vectors, accurate everywhere."""
    a = N.asarray(a, dtype=L); b = N.asarray(b, dtype=L)
    return N.arctan2(N.sqrt((N.cross(a, b) ** 2).sum(axis=-1)), (a * b).sum(axis=-1))


def line_angle(a, b):
    """Angle between undirected lines, 0..pi/2."""
    a = N.asarray(a, dtype=L); b = N.asarray(b, dtype=L)
    return N.arctan2(N.sqrt((N.cross(a, b) ** 2).sum(axis=-1)), N.abs((a * b).sum(axis=-1)))


def fisher2(n, p):
    """Quantile of F(2, n-2): closed form."""
    d2 = L(n - 2)
    return d2 / 2 * ((1 - L(p)) ** (-2 / d2) - 1)


def eig(s, n):
    return N.asarray(s, dtype=L) ** 2 / (n - 1)


def noise_axes(ev, n, p=.95, all_axes=True):
    ev = N.asarray(ev, dtype=L)
    err = fisher2(n, p) * N.sqrt(4 * ev * ev[-1] / (n - 2))
    return _scale(ev, err, n, all_axes)


def sampling_axes(ev, n, p=.95, all_axes=True):
    ev = N.asarray(ev, dtype=L)
    err = fisher2(n, p) * N.sqrt(L(2) / (n - 1)) * ev
    return _scale(ev, err, n, all_axes)


def _scale(ev, err, n, all_axes):
    out = N.abs(ev - err)
    last = ev[-1] if all_axes else ev[-1] / (n - 1)
    out[-1] = last + err[-1]
    return out


def strike_dip(normal):
    n = N.asarray(normal, dtype=L)
    n = n / N.sqrt((n ** 2).sum())
    if n[2] < 0:
        n = -n
    h = N.hypot(n[0], n[1])
    dip = N.degrees(N.arctan2(h, n[2]))
    strike = (N.degrees(N.arctan2(n[0], n[1])) - 90) % 360
    return strike, dip


def mod_diff(a, b, period=360):
    d = (N.asarray(a, dtype=L) - N.asarray(b, dtype=L)) % period
    return N.minimum(d, period - d)
