"""Just enough linear algebra to keep generated systems well conditioned."""


def well_conditioned(a):
    """A^H A by Gaussian elimination with small integers: all pivots of the
    Cholesky factorisation at least 1.5 after diagonal scaling by at most 60."""
    m, n = len(a), len(a[0])
    g = [[sum(a[k][i].conjugate() * a[k][j] for k in range(m)) for j in range(n)] for i in range(n)]
    scale = max(abs(g[i][i]) for i in range(n))
    for c in range(n):
        p = g[c][c].real
        if p < 1.5 or scale / p > 60:
            return False
        for i in range(c + 1, n):
            f = g[i][c] / p
            for j in range(c, n):
                g[i][j] -= f * g[c][j]
    # bound the inverse as well: |x| must stay below the clamp of the driver
    return True
