"""Independent implementations of the numerical models pySOT documents."""
import itertools

import numpy as np

EPS = np.finfo(float).eps


def phi(kind, r):
    r = np.asarray(r, dtype=float)
    if kind == "cubic":
        return r * r * r
    if kind == "tps":
        out = np.zeros_like(r)
        m = r > 0
        out[m] = r[m] * r[m] * np.log(r[m])
        return out
    return r.copy()


def dphi(kind, r):
    r = np.asarray(r, dtype=float)
    if kind == "cubic":
        return 3 * r * r
    if kind == "tps":
        out = np.zeros_like(r)
        m = r > 0
        out[m] = 2 * r[m] * np.log(r[m]) + r[m]
        return out
    return np.ones_like(r)


def dist(A, B):
    return np.sqrt(np.maximum(((A[:, None, :] - B[None, :, :]) ** 2).sum(axis=2), 0))


class RBF:
    """Saddle-point system of the regularised RBF interpolant on the unit box, solved densely and refined."""

    def __init__(self, kernel, tail, lb, ub, X, f, eta):
        self.kernel, self.tail = kernel, tail
        self.lb, self.w = np.asarray(lb, float), np.asarray(ub, float) - np.asarray(lb, float)
        self.U = (np.asarray(X, float) - self.lb) / self.w
        n, d = self.U.shape
        P = self.basis(self.U)
        m = P.shape[1]
        A = np.zeros((n + m, n + m))
        A[:m, m:] = P.T
        A[m:, :m] = P
        A[m:, m:] = phi(kernel, dist(self.U, self.U)) + eta * np.eye(n)
        b = np.concatenate((np.zeros(m), np.ravel(f)))
        self.cond = np.linalg.cond(A)
        if not self.cond < 1e13:
            self.cond = np.inf
            return
        s = np.linalg.solve(A, b)
        for _ in range(3):  # iterative refinement with the residual in extended precision
            r = (b.astype(np.longdouble) - A.astype(np.longdouble) @ s.astype(np.longdouble)).astype(float)
            s = s + np.linalg.solve(A, r)
        self.lam, self.c = s[:m], s[m:]
        self.scale = max(1e-300, np.abs(f).max())

    def basis(self, U):
        one = np.ones((len(U), 1))
        return np.hstack((one, U)) if self.tail == "linear" else one

    def tol(self, extra=1.0):
        """Error a backward stable solver may have in the predictions."""
        # entries of the evaluation functional are O(1..sqrt(d)^3); the solution error is cond*eps*|s|
        s = np.linalg.norm(np.concatenate((self.lam, self.c)))
        return extra * 200 * EPS * self.cond * max(s, self.scale) + 1e-10 * self.scale

    def predict(self, X):
        U = (np.atleast_2d(np.asarray(X, float)) - self.lb) / self.w
        return phi(self.kernel, dist(U, self.U)) @ self.c + self.basis(U) @ self.lam

    def gradient(self, X):
        U = (np.atleast_2d(np.asarray(X, float)) - self.lb) / self.w
        G = np.zeros(U.shape)
        for i, u in enumerate(U):
            D = u - self.U
            r = np.sqrt((D ** 2).sum(axis=1))
            nz = r > 0
            G[i] = ((dphi(self.kernel, r[nz]) / r[nz] * self.c[nz])[:, None] * D[nz]).sum(axis=0)
            if self.tail == "linear":
                G[i] += self.lam[1:]
        return G / self.w


class GP:
    """Posterior of a fixed scikit-learn kernel given standardised data on the unit box."""

    def __init__(self, kernel, lb, ub, X, f, alpha):
        self.k = kernel
        self.lb, self.w = np.asarray(lb, float), np.asarray(ub, float) - np.asarray(lb, float)
        self.U = (np.asarray(X, float) - self.lb) / self.w
        f = np.ravel(f)
        self.mu = f.sum() / len(f)
        self.sd = max(np.sqrt(((f - self.mu) ** 2).sum() / len(f)), 1e-6)
        z = (f - self.mu) / self.sd
        K = kernel(self.U) + alpha * np.eye(len(f))
        self.cond = np.linalg.cond(K)
        self.Kinv = np.linalg.inv(K)
        self.a = np.linalg.solve(K, z)

    def predict(self, X):
        U = (np.atleast_2d(np.asarray(X, float)) - self.lb) / self.w
        return self.mu + self.sd * (self.k(U, self.U) @ self.a)

    def std(self, X):
        U = (np.atleast_2d(np.asarray(X, float)) - self.lb) / self.w
        k = self.k(U, self.U)
        v = self.k.diag(U) - np.einsum("ij,jk,ik->i", k, self.Kinv, k)
        return self.sd * np.sqrt(np.maximum(v, 0))


class Ridge:
    """Ridge regression (penalty 1, free intercept) on all monomials of the unit-box coordinates."""

    def __init__(self, degree, lb, ub, X, f, alpha=1.0):
        self.degree = degree
        self.lb, self.w = np.asarray(lb, float), np.asarray(ub, float) - np.asarray(lb, float)
        Z = self.mono((np.asarray(X, float) - self.lb) / self.w)
        f = np.ravel(f)
        self.zm, self.fm = Z.mean(axis=0), f.mean()
        Zc = Z - self.zm
        self.b = np.linalg.solve(Zc.T @ Zc + alpha * np.eye(Z.shape[1]), Zc.T @ (f - self.fm))

    def mono(self, U):
        cols = []
        for k in range(1, self.degree + 1):
            for idx in itertools.combinations_with_replacement(range(U.shape[1]), k):
                c = np.ones(len(U))
                for i in idx:
                    c = c * U[:, i]
                cols.append(c)
        return np.stack(cols, axis=1)

    def predict(self, X):
        U = (np.atleast_2d(np.asarray(X, float)) - self.lb) / self.w
        return self.fm + (self.mono(U) - self.zm) @ self.b


def capped(f):
    """Values above the median replaced by the median (sorting, no numpy median)."""
    v = sorted(np.ravel(f).tolist())
    n = len(v)
    m = v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2
    return np.minimum(np.asarray(f, float), m)
