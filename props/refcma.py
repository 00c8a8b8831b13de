"""The published updates of CMA-ES (Hansen) and VD-CMA (Akimoto, Auger and Hansen 2014), on plain floats."""
import math

import numpy as np


def weights(n, frac):
    mu = max(1, int(frac * n))
    w = np.array([math.log(mu + 0.5) - math.log(i) for i in range(1, mu + 1)])
    return mu, w / w.sum()


class Cma:
    def __init__(self, mean, n, sigma, frac):
        self.n, self.N = n, len(mean)
        self.mu, self.w = weights(n, frac)
        self.m, self.sigma = np.array(mean, dtype=float), sigma
        N, me = self.N, 1.0 / (self.w**2).sum()
        self.mueff = me
        self.cc = (4 + me / N) / (N + 4 + 2 * me / N)
        self.cs = (me + 2) / (N + me + 5)
        self.c1 = 2 / ((N + 1.3) ** 2 + me)
        self.cmu = min(1 - self.c1, 2 * (me - 2 + 1 / me) / ((N + 2) ** 2 + me))
        self.damps = 1 + 2 * max(0.0, math.sqrt((me - 1) / (N + 1)) - 1) + self.cs
        self.chi = math.sqrt(N) * (1 - 1 / (4 * N) + 1 / (21 * N * N))
        self.C, self.pc, self.ps = np.eye(N), np.zeros(N), np.zeros(N)
        self.g, self.last, self.S = 0, 0, np.eye(N)  # S: the covariance in use, decomposed last at generation `last`

    def step(self, X):
        """X: the individuals of the generation from best to worst."""
        self.g += 1
        N, old = self.N, self.m
        X = np.array(X, dtype=float)[: self.mu]
        self.old, self.m = old, self.w @ X
        y = (self.m - old) / self.sigma
        d, B = np.linalg.eigh(self.S)
        self.ps = (1 - self.cs) * self.ps + math.sqrt(self.cs * (2 - self.cs) * self.mueff) * (B @ ((B.T @ y) / np.sqrt(d)))
        ps = np.linalg.norm(self.ps)
        r = ps / math.sqrt(1 - (1 - self.cs) ** (2 * self.g)) / self.chi
        self.edge = abs(r - (1.4 + 2 / (N + 1)))  # distance to the stall of the rank-one path
        h = r < 1.4 + 2 / (N + 1)
        self.pc = (1 - self.cc) * self.pc + (math.sqrt(self.cc * (2 - self.cc) * self.mueff) * y if h else 0.0)
        Y = (X - old) / self.sigma
        lost = 0.0 if h else self.c1 * self.cc * (2 - self.cc)
        self.C = (1 - self.c1 - self.cmu + lost) * self.C + self.c1 * np.outer(self.pc, self.pc) \
            + self.cmu * sum(w * np.outer(v, v) for w, v in zip(self.w, Y))
        self.sigma *= math.exp((self.cs / self.damps) * (ps / self.chi - 1))
        if self.n * (self.g - self.last) > self.n / (self.c1 + self.cmu) / N / 10:
            self.last, self.S = self.g, self.C
        self.d, self.B = np.linalg.eigh(self.S)


class Vd:
    def __init__(self, mean, n, sigma, frac, v):
        self.n, self.N = n, len(mean)
        self.mu, self.w = weights(n, frac)
        self.m, self.sigma = np.array(mean, dtype=float), sigma
        N, me = self.N, 1.0 / (self.w**2).sum()
        self.mueff = me
        self.cc = (4 + me / N) / (N + 4 + 2 * me / N)
        k = (N - 5) / 6
        self.c1 = k * 2 / ((N + 1.3) ** 2 + me)
        self.cmu = min(1 - self.c1, k * 2 * (me - 2 + 1 / me) / ((N + 2) ** 2 + me))
        self.d, self.v = np.ones(N), np.array(v, dtype=float) / math.sqrt(N)
        self.pc, self.p, self.g = np.zeros(N), 0.0, 0
        self.S = self.cov(self.v, self.d)
        self.edge = 1.0

    @staticmethod
    def cov(v, d):
        return np.diag(d) @ (np.eye(len(d)) + np.outer(v, v)) @ np.diag(d)

    def slopes(self):
        """Derivatives of the covariance along each component of v, then of d."""
        N, v, d = self.N, self.v, self.d
        out = []
        for i in range(N):
            e = np.eye(N)[i]
            out.append(np.diag(d) @ (np.outer(e, v) + np.outer(v, e)) @ np.diag(d))
        M = np.eye(N) + np.outer(v, v)
        for i in range(N):
            E = np.diag(np.eye(N)[i])
            out.append(E @ M @ np.diag(d) + np.diag(d) @ M @ E)
        return out

    def gradient(self, y):
        """Gradient of the log-likelihood of a step."""
        P = np.linalg.inv(self.S)
        G, q = np.array(self.slopes()), P @ y
        return 0.5 * (np.einsum("i,aij,j->a", q, G, q) - np.einsum("ij,aji->a", P, G))

    def fisher(self, alpha):
        """The Fisher information; its blocks mixing v and d are multiplied by alpha."""
        N, P = self.N, np.linalg.inv(self.S)
        A = np.array([P @ G for G in self.slopes()])
        F = 0.5 * np.einsum("aij,bji->ab", A, A)
        F[:N, N:] *= alpha
        F[N:, :N] *= alpha
        return F

    def step(self, X, order):
        """X: the individuals in order of creation; order: from best to worst."""
        self.g += 1
        N, old, S = self.N, self.m, self.sigma
        X = np.array(X, dtype=float)
        Y = ((X - old) / S)[order[: self.mu]]
        self.old, self.dx = old, self.w @ (X[order[: self.mu]] - old)
        self.m = old + self.dx
        h = True
        if self.g > 1:
            a = (list(order).index(1) - list(order).index(0)) / (self.n - 1.0)
            self.p += 0.3 * (a - self.p)
            self.sigma *= math.exp(self.p / math.sqrt(N))
            h = self.p < 0.5
            self.edge = abs(self.p - 0.5)
        self.pc = (1 - self.cc) * self.pc + (math.sqrt(self.cc * (2 - self.cc) * self.mueff) * (self.w @ Y) if h else 0.0)
        self.used = self.S
        if self.c1 + self.cmu > 0:
            n2 = self.v @ self.v
            vv = self.v**2 / n2
            alpha = min(1.0, math.sqrt(n2**2 + (1 + n2) / vv.max() * (2 - 1 / math.sqrt(1 + n2))) / (2 + n2))
            g = self.cmu * sum(w * self.gradient(y) for w, y in zip(self.w, Y))
            if h:
                g = g + self.c1 * self.gradient(self.pc)
            q = np.linalg.solve(self.fisher(alpha), g)
            nv, nd = q[:N], q[N:]
            up = min(1.0, 0.7 * math.sqrt(n2) / np.linalg.norm(nv), 0.7 * (self.d / np.abs(nd)).min())
            self.v, self.d = self.v + up * nv, self.d + up * nd
            self.S = self.cov(self.v, self.d)
