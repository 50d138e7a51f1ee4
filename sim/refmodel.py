"""A small reference implementation of the models bayeso states (loops and definitions, no reuse)."""
import math

import numpy as np


def base(cov, r, sig):
    if cov in ('eq', 'se'):
        return sig * sig * math.exp(-0.5 * r * r)
    if cov == 'matern32':
        a = math.sqrt(3.0) * r
        return sig * sig * (1.0 + a) * math.exp(-a)
    if cov == 'matern52':
        a = math.sqrt(5.0) * r
        return sig * sig * (1.0 + a + a * a / 3.0) * math.exp(-a)
    raise AssertionError(cov)


def k(cov, x, z, hyps):
    """Covariance of two inputs (points, or sets of points for set kernels)."""
    if cov.startswith('set_'):
        c = cov[4:]
        tot = 0.0
        for a in x:
            for b in z:
                tot += k(c, a, b, hyps)
        return tot / (len(x) * len(z))
    ls = np.broadcast_to(np.asarray(hyps['lengthscales'], dtype=float), np.shape(x))
    return base(cov, math.sqrt(float(np.sum(((x - z) / ls) ** 2))), float(hyps['signal']))


def gram(cov, A, B, hyps):
    return np.array([[k(cov, a, b, hyps) for b in B] for a in A]).reshape(len(A), len(B))


def posterior(cov, X, y, Xs, hyps, prior, c, dof=None):
    """Posterior mean and variance at Xs; c = extra diagonal of the training covariance."""
    n = len(X)
    K = gram(cov, X, X, hyps) + (float(hyps['noise']) ** 2 + c) * np.eye(n)
    ks = gram(cov, X, Xs, hyps)
    m = np.ravel(prior(X)) if prior is not None else np.zeros(n)
    ms = np.ravel(prior(Xs)) if prior is not None else np.zeros(len(Xs))
    e = np.ravel(y) - m
    sol = np.linalg.solve(K, np.column_stack((e, ks)))
    mean = ms + ks.T @ sol[:, 0]
    prior_cov = gram(cov, Xs, Xs, hyps)
    S = prior_cov - ks.T @ sol[:, 1:]
    scale = 1.0
    if dof is not None:
        beta = float(e @ sol[:, 0])
        scale = (dof + beta - 2.0) / (dof + n - 2.0)
        S = scale * S
    return mean, S, scale


def nlml_gp(cov, X, y, hyps, prior, c):
    n = len(X)
    K = gram(cov, X, X, hyps) + (float(hyps['noise']) ** 2 + c) * np.eye(n)
    e = np.ravel(y) - (np.ravel(prior(X)) if prior is not None else 0.0)
    s, ld = np.linalg.slogdet(K)
    return (0.5 * float(e @ np.linalg.solve(K, e)) + 0.5 * ld + 0.5 * n * math.log(2 * math.pi)) / n


def nlml_tp(cov, X, y, hyps, prior, c):
    from scipy.special import gammaln
    n = len(X)
    nu = float(hyps['dof'])
    K = gram(cov, X, X, hyps) + (float(hyps['noise']) ** 2 + c) * np.eye(n)
    e = np.ravel(y) - (np.ravel(prior(X)) if prior is not None else 0.0)
    s, ld = np.linalg.slogdet(K)
    beta = float(e @ np.linalg.solve(K, e))
    v = -0.5 * n * math.log((nu - 2.0) * math.pi) - 0.5 * ld + gammaln((nu + n) / 2.0) \
        - gammaln(nu / 2.0) - 0.5 * (nu + n) * math.log1p(beta / (nu - 2.0))
    return -float(v) / n


def loo_gp(cov, X, y, hyps, prior, c, stab=0.0):
    """Leave-one-out predictive log density, one left-out model at a time."""
    n = len(X)
    y = np.ravel(y)
    m = np.ravel(prior(X)) if prior is not None else np.zeros(n)
    tot = 0.0
    G = gram(cov, X, X, hyps)
    d = float(hyps['noise']) ** 2 + c
    for i in range(n):
        o = [j for j in range(n) if j != i]
        mu, var = m[i], G[i, i] + d
        if o:
            K = G[np.ix_(o, o)] + d * np.eye(len(o))
            s = np.linalg.solve(K, np.column_stack((y[o] - m[o], G[o, i])))
            mu = m[i] + float(G[o, i] @ s[:, 0])
            var = var - float(G[o, i] @ s[:, 1])
        var = 1.0 / (1.0 / var + stab)
        tot += -0.5 * math.log(var) - 0.5 * (y[i] - mu) ** 2 / var - 0.5 * math.log(2 * math.pi)
    return -tot / n


def acquisition(name, mean, std, y, noise, jitter=1e-5):
    from scipy.special import ndtr
    best = float(np.min(y))
    n = np.ravel(y).size
    z = (best - mean) / (std + jitter)
    pdf = np.exp(-0.5 * z * z) / math.sqrt(2 * math.pi)
    ei = (best - mean) * ndtr(z) + std * pdf
    if name == 'pi':
        return ndtr(z)
    if name == 'ei':
        return ei
    if name == 'ucb':
        return -mean + 2.0 * math.log(n + 1.0) * std
    if name == 'aei':
        return ei * (1.0 - noise / np.sqrt(std ** 2 + noise ** 2))
    if name == 'pure_exploit':
        return -mean
    if name == 'pure_explore':
        return std
    raise AssertionError(name)
