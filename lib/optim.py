"""Published update rules of the optimizers (as PyTorch documents them), in extended precision."""
import numpy as np
LD = np.longdouble


class Ref:
    """State of one optimizer over a list of parameters."""
    def __init__(self, kind, hp, params):
        self.kind, self.hp, self.t = kind, dict(hp), 0
        self.p = [np.asarray(a).astype(LD) for a in params]
        z = lambda: [np.zeros(np.shape(a), LD) for a in params]
        self.m, self.v, self.vmax = z(), z(), z()

    def lr(self):
        h = self.hp
        if self.kind in ("fadam", "adamw") and h.get("start_lr") is not None and h.get("full_lr_iter") is not None:
            n = h["full_lr_iter"]
            if n > 1 and self.t < n:
                return LD(h["start_lr"]) + (LD(h["lr"]) - LD(h["start_lr"])) * (self.t - 1) / (n - 1)
        return LD(h["lr"])

    def step(self, grads):
        self.t += 1
        h, lr = self.hp, self.lr()
        for i, g in enumerate(grads):
            g = np.asarray(g).astype(LD)
            p = self.p[i]
            wd = LD(h.get("weight_decay", 0))
            if self.kind == "empty":
                continue
            if self.kind == "sgd":
                g = g + wd * p
                mu = LD(h.get("momentum", 0))
                if mu > 0:
                    b = g.copy() if self.t == 1 else mu * self.m[i] + (1 - LD(h.get("damping", 0))) * g
                    self.m[i] = b
                    g = g + mu * b if h.get("nesterov") else b
                self.p[i] = p - lr * g
                continue
            b1, b2, eps = LD(h["beta1"]), LD(h["beta2"]), LD(h["eps"])
            if self.kind == "adamw":
                p = p - lr * wd * p
            else:
                g = g + wd * p
            self.m[i] = b1 * self.m[i] + (1 - b1) * g
            self.v[i] = b2 * self.v[i] + (1 - b2) * g * g
            v = self.v[i]
            if h.get("amsgrad"):
                self.vmax[i] = np.maximum(self.vmax[i], v)
                v = self.vmax[i]
            den = np.sqrt(v) / np.sqrt(1 - b2 ** self.t) + eps
            self.p[i] = p - lr / (1 - b1 ** self.t) * self.m[i] / den


def make(nntile, kind, hp, params, dtype):
    O = nntile.optimizer
    h = dict(hp)
    lr = h.pop("lr")
    if kind == "sgd":
        return O.SGD(params, lr, 0, dtype=dtype, **h)
    if kind == "adam":
        return O.Adam(params, lr, 0, dtype=dtype, **h)
    if kind == "fadam":
        return O.FusedAdam(params, lr, 0, dtype=dtype, **h)
    if kind == "adamw":
        return O.FusedAdamW(params, lr, 0, dtype=dtype, **h)
    return O.Empty(params, 0)


def hyper(rng, kind, dtype, mild=False):
    """Random hyper-parameters, exactly representable in the working precision."""
    f = lambda x: float(np.asarray(x, dtype=dtype))
    h = dict(lr=f(rng.choice([0.5, 0.1, 0.01, 1e-3])))
    if kind == "empty":
        return h
    if rng.random() < 0.5:
        h["weight_decay"] = f(rng.choice([0.01, 0.1, 0.5]))
    if kind == "sgd":
        if rng.random() < 0.7:
            h["momentum"] = f(rng.choice([0.5, 0.9, 0.99]))
            if rng.random() < 0.5:
                h["nesterov"] = True
            if rng.random() < 0.5:
                h["damping"] = f(rng.choice([0.1, 0.5, 0.9]))
        return h
    h["beta1"] = f(rng.choice([0.9, 0.5, 0.99, 0.0]))
    h["beta2"] = f(rng.choice([0.999, 0.9, 0.5, 0.99]))
    h["eps"] = f(rng.choice([1e-8, 1e-4, 1e-2])) if not mild else 0.0625
    if kind == "adam":
        if rng.random() < 0.4:
            h["amsgrad"] = True
    elif rng.random() < 0.4:
        h["start_lr"] = f(rng.choice([0.0, 1e-3, 0.05]))
        h["full_lr_iter"] = int(rng.integers(1, 8))
    return h


KINDS = ["sgd", "adam", "fadam", "adamw"]
