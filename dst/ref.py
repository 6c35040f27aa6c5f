"""Executable reference model of the variational method, written from its definition
(tensor products of one-dimensional polynomials, Gauss rules, cell mappings, Adam).
It shares no code with fastvpinns: numpy for the discretisation, and TensorFlow in
double precision only for differentiating the network."""

import numpy as np
from numpy.polynomial import chebyshev as C
from numpy.polynomial import legendre as L


def lobatto(n):
    """Gauss-Lobatto-Legendre rule with n points."""
    P = L.Legendre.basis(n - 1)
    x = np.concatenate([[-1.0], np.sort(P.deriv().roots().real), [1.0]])
    return x, 2.0 / (n * (n - 1) * P(x) ** 2)


def rule(n, kind):
    x, w = lobatto(n) if kind == "gauss-jacobi" else L.leggauss(n)
    # xi runs fastest
    return np.tile(x, n), np.repeat(x, n), np.repeat(w, n) * np.tile(w, n)


def family(kind, n, x):
    """Values and derivatives of the n one-dimensional test functions."""
    v, d = [], []
    for k in range(1, n + 1):
        if kind == "jacobi_plain":
            p = L.Legendre.basis(k - 1)
        elif kind == "chebyshev_2":
            p = C.Chebyshev.basis(k + 1) - C.Chebyshev.basis(k - 1)
        else:
            p = L.Legendre.basis(k + 1) - L.Legendre.basis(k - 1)
        v.append(p(x))
        d.append(p.deriv()(x))
    return np.array(v), np.array(d)


class RefSpace:
    """Test functions times quadrature weights on every cell (val, gx, gy), the
    quadrature points and the integrated forcing."""

    def __init__(self, cells, order, kind, qorder, qkind, trans, forcing):
        xi, eta, w = rule(qorder, qkind)
        vx, dx = family(kind, order, xi)
        vy, dy = family(kind, order, eta)
        V = (vx[:, None] * vy[None]).reshape(order * order, -1)
        DX = (dx[:, None] * vy[None]).reshape(order * order, -1)
        DY = (vx[:, None] * dy[None]).reshape(order * order, -1)
        self.val, self.gx, self.gy, self.x, self.f = [], [], [], [], []
        for c in np.asarray(cells, float):
            if trans == "affine":
                a, b, d = c[0], c[1], c[3]
                X = (b + d)[:, None] / 2 + (b - a)[:, None] / 2 * xi + (d - a)[:, None] / 2 * eta
                Jxi = np.repeat(((b - a) / 2)[:, None], xi.size, 1)
                Jet = np.repeat(((d - a) / 2)[:, None], xi.size, 1)
            else:
                N = np.array([(1 - xi) * (1 - eta), (1 + xi) * (1 - eta), (1 + xi) * (1 + eta), (1 - xi) * (1 + eta)]) / 4
                Nx = np.array([-(1 - eta), (1 - eta), (1 + eta), -(1 + eta)]) / 4
                Ne = np.array([-(1 - xi), -(1 + xi), (1 + xi), (1 - xi)]) / 4
                X, Jxi, Jet = c.T @ N, c.T @ Nx, c.T @ Ne
            det = Jxi[0] * Jet[1] - Jet[0] * Jxi[1]
            m = w * np.abs(det)
            self.val.append(V * m)
            self.gx.append((Jet[1] * DX - Jxi[1] * DY) / det * m)
            self.gy.append((-Jet[0] * DX + Jxi[0] * DY) / det * m)
            self.x.append(X.T)
            self.f.append((V * m) @ np.array([forcing(p, q) for p, q in X.T]))
        self.val, self.gx, self.gy = map(np.array, (self.val, self.gx, self.gy))
        self.n_cells, self.n_q = self.val.shape[0], xi.size
        self.x = np.concatenate(self.x)
        self.f = np.array(self.f).T  # test functions x cells


ACT = {"tanh": "tanh", "sigmoid": "sigmoid", "swish": None, "elu": None}


def network(W, x, act, attention=False, hard=None):
    """W: list of (kernel, bias).  Works on TensorFlow tensors of any precision."""
    import tensorflow as tf

    h = x
    if attention:
        h = tf.linalg.matmul(tf.nn.softmax(tf.linalg.matmul(x, x, transpose_b=True), axis=-1), x)
    for k, (A, b) in enumerate(W):
        h = tf.linalg.matmul(h, A) + b
        if k < len(W) - 1:
            h = {"tanh": tf.tanh, "sigmoid": tf.sigmoid, "swish": lambda z: z * tf.sigmoid(z), "elu": tf.nn.elu}[act](h)
    return hard(x, h) if hard is not None else h


def losses_and_gradients(sp, kind, eq, W, inv, pars, beta, bd, sensors, act, attention, hard):
    """One evaluation in double precision.  Returns (dict of losses, gradients in the
    order of the flattened W followed by the inverse values, scale of the residual)."""
    import tensorflow as tf

    f8 = tf.float64
    Wv = [(tf.constant(A, f8), tf.constant(b, f8)) for A, b in W]
    iv = {k: tf.constant(v, f8) for k, v in inv.items()}
    flat = [t for p in Wv for t in p] + list(iv.values())
    X = tf.constant(sp.x, f8)
    with tf.GradientTape() as tape:
        tape.watch(flat)
        with tf.GradientTape() as t1:
            t1.watch(X)
            out = network(Wv, X, act, attention, hard)
            u = out[:, 0]
        g = t1.gradient(u, X)
        sh = (sp.n_cells, sp.n_q)
        u, ux, uy = (tf.reshape(z, sh) for z in (u, g[:, 0], g[:, 1]))

        def vec(A, z):
            return tf.einsum("ctq,cq->tc", tf.constant(A, f8), z)

        if kind == "domain":
            D = tf.reshape(out[:, 1], sh)
            diff = vec(sp.gx, ux * D) + vec(sp.gy, uy * D)
        else:
            eps = iv["eps"] if kind == "inverse" else pars["eps"]
            diff = eps * (vec(sp.gx, ux) + vec(sp.gy, uy))
        if eq == "helmholtz":
            lhs = -diff + pars["k"] ** 2 * vec(sp.val, u)
        elif eq == "cd":
            lhs = diff + pars["b_x"] * vec(sp.val, ux) + pars["b_y"] * vec(sp.val, uy) + pars["c"] * vec(sp.val, u)
        else:
            lhs = diff
        R = lhs - sp.f
        pde = tf.reduce_sum(tf.reduce_mean(R * R, axis=0))
        L_ = {"loss_pde": pde, "loss_dirichlet": tf.constant(0.0, f8)}
        total = pde
        if kind != "hard":
            e = network(Wv, tf.constant(bd[0], f8), act, attention, hard)[:, 0] - bd[1]
            L_["loss_dirichlet"] = tf.reduce_mean(e * e)
            total = total + beta * L_["loss_dirichlet"]
        if kind in ("inverse", "domain"):
            e = network(Wv, tf.constant(sensors[0], f8), act, attention, hard)[:, 0] - sensors[1]
            L_["sensor_loss"] = tf.reduce_mean(e * e)
            total = total + 10.0 * L_["sensor_loss"]
        L_["loss"] = total
    G = tape.gradient(total, flat)
    G = [np.zeros(t.shape) if g is None else g.numpy() for g, t in zip(G, flat)]
    scale = float(np.abs(lhs.numpy()).max() + np.abs(sp.f).max())
    return {k: float(v) for k, v in L_.items()}, G, scale


def rate(lr, t):
    """Learning rate used by the step that follows t completed ones."""
    if not lr["use_lr_scheduler"]:
        return lr["initial_learning_rate"]
    p = t / lr["decay_steps"]
    if lr["staircase"]:
        p = np.floor(p)
    return lr["initial_learning_rate"] * lr["decay_rate"] ** p


class Adam:
    B1, B2, EPS = 0.9, 0.999, 1e-7

    def __init__(self, shapes):
        self.m = [np.zeros(s) for s in shapes]
        self.v = [np.zeros(s) for s in shapes]
        self.t = 0

    def update(self, G, lr):
        """The decrements of one step."""
        self.t += 1
        a = lr * np.sqrt(1 - self.B2**self.t) / (1 - self.B1**self.t)
        out = []
        for k, g in enumerate(G):
            self.m[k] = self.B1 * self.m[k] + (1 - self.B1) * g
            self.v[k] = self.B2 * self.v[k] + (1 - self.B2) * g * g
            out.append((a * self.m[k] / (np.sqrt(self.v[k]) + self.EPS), a))
        return out
