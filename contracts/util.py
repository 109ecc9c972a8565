"""Mathematical specification helpers (plain formulas over entries; no code of the library)."""


def lay(c, name="lay"):
    return c.choice(name, ["c", "perm"])


def mb(c, t, name="lay"):
    """t itself or the same values in non-contiguous memory"""
    return c.permuted(t) if c.choice(name, [0, 1]) else t


def rot2(c, t):
    return [[c.cos(t), -c.sin(t)], [c.sin(t), c.cos(t)]]


def qmul(p, q):
    a, b, d, e = p
    w, x, y, z = q
    return [a * w - b * x - d * y - e * z, a * x + b * w + d * z - e * y, a * y - b * z + d * w + e * x, a * z + b * y - d * x + e * w]


def qconj(q):
    return [q[0], -q[1], -q[2], -q[3]]


def mm(A, B):
    n, k, m = len(A), len(B), len(B[0])
    return [[sum(A[i][t] * B[t][j] for t in range(k)) for j in range(m)] for i in range(n)]


def tr(A):
    return [list(r) for r in zip(*A)]


def mv(A, v):
    return [sum(A[i][t] * v[t] for t in range(len(v))) for i in range(len(A))]


def det3(M):
    return (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
            + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))


def mat(E, i, n=3):
    """n x n matrix of entries of accessor E at batch index i"""
    return [[E[i + (p, q)] for q in range(n)] for p in range(n)]


def vec(E, i, n):
    return [E[i + (k,)] for k in range(n)]


def o3mat(E, i):
    return [[E[i + (1 + 3 * p + q,)] for q in range(3)] for p in range(3)]


def eqm(c, A, B, tol=None):
    return [c.eq(a, b, tol) for ra, rb in zip(A, B) for a, b in zip(ra, rb)]


def eqv(c, A, B, tol=None):
    return [c.eq(a, b, tol) for a, b in zip(A, B)]


ID3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
ID2 = [[1, 0], [0, 1]]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def nearest_row(c, name, dims, L, S, d, row, out):
    """out(*i)(s) is row(*i)(l, s) for one l with the smallest d(*i)(l), the same l for every s"""
    if c.symbolic:
        c.forall(name, tuple(dims) + (S,), lambda *i: c.eq(out(*i[:-1])(i[-1]), row(*i[:-1])(c.argmin_over(L, d(*i[:-1])), i[-1])))
        return

    def f(*i):
        dd = [d(*i)(l) for l in range(L)]
        m = min(dd)
        ok = any(dd[l] <= m + 1e-4 * (1 + abs(m)) and all(abs(out(*i)(s) - row(*i)(l, s)) <= 1e-5 * (1 + abs(row(*i)(l, s))) for s in range(S)) for l in range(L))
        return c.true(ok)
    c.forall(name, dims, f)
