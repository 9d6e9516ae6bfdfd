"""Random models: directed acyclic graphs of layers with a reference in PyTorch, trained on NNTile.

A model is described by a spec (plain data) from which it can be rebuilt exactly."""
import numpy as np
import torch
import layers as ly
from core import Violation


def random_spec(rng, kind, chain=False, whole=False, redux=False, depth=None):
    return dict(seed=int(rng.integers(1 << 30)), kind=kind, chain=chain, whole=whole, redux=redux,
                depth=int(depth or rng.integers(1, 7)), start=str(rng.choice(["x", "x", "x", "ids"])), loss=str(rng.choice(["xent", "frob", "none"])))


class Model:
    def __init__(self, core, spec):
        n = core.nntile
        self.core, self.spec, self.n = core, spec, n
        kind = self.kind = spec["kind"]
        rng = np.random.default_rng(spec["seed"])
        real = ly.pick_tile
        if spec["whole"]:
            ly.pick_tile = lambda r, k: k
        try:
            self.construct(core, rng, kind, spec)
        finally:
            ly.pick_tile = real
        self.desc = "model(seed %d %s%s%s %s): %s" % (spec["seed"], kind, " whole" if spec["whole"] else "", " redux" if spec["redux"] else "",
                                                    spec["loss"], " -> ".join(x.name for x in self.nodes))
        from nntile.model.base_model import BaseModel

        class Net(BaseModel):
            # gradients of a mixer's internal tensors, as MlpMixer does
            def clear_activations_grads(s):
                super().clear_activations_grads()
                for x in self.nodes:
                    ly.clear_temporaries(core, x)
        # some models grow by append
        k = len(self.nodes) if spec["seed"] % 3 else int(spec["seed"] // 3 % len(self.nodes))
        self.model = Net(self.inputs + [x.out for x in self.nodes[:k]], [x.layer for x in self.nodes[:k]])
        for x in self.nodes[k:]:
            self.model.append(x.layer)
        if hasattr(self, "index"):
            # a bare index tensor comes first, as in the models of the package
            self.model.activations.insert(0, n.tensor.TensorMoments(self.index, None, False))
        self.params = self.model.parameters
        P = np.random.default_rng(spec["seed"] + 1)
        for x in self.nodes:
            for k, p in enumerate(x.params):
                a = P.standard_normal(p.value.shape)
                if x.name == "layer_norm" or (x.name == "mixer" and len(p.value.shape) == 1):
                    a = 1 + 0.3 * a if k % 2 == 0 else 0.3 * a
                elif x.name in ("linear", "mixer", "mixer_mlp", "attention", "flash_attention"):
                    a = a / max(1.0, np.sqrt(a.size / max(a.shape)))
                ly.put(p.value, a.astype(ly.NP[kind]))

    def construct(self, core, rng, kind, spec):
        n = self.n
        self.nodes, self.inputs, self.side = [], [], []
        acts = []
        if spec["start"] == "ids":
            nd = ly.make(core, rng, "embedding", kind)
            self.nodes.append(nd)
            self.index = nd.index[0]
            self.vocab = int(nd.params[0].value.shape[1])
            acts.append(nd.out)
        else:
            sh = ly.dims(rng, 3 if rng.random() < 0.7 else 2, 1, 7)
            x = ly.make_input(core, rng, kind, sh, ly.tiles(rng, sh), ly.gmode(rng))
            self.inputs.append(x)
            acts.append(x)
        depth, tries = spec["depth"], 0
        while len(self.nodes) < depth + (spec["start"] == "ids") and tries < 60:
            tries += 1
            m = acts[-1] if spec["chain"] or rng.random() < 0.7 else acts[int(rng.integers(len(acts)))]
            sh, ti = list(m.value.shape), list(m.value.basetile_shape)
            same = [a for a in acts if list(a.value.shape) == sh and list(a.value.basetile_shape) == ti]
            names = ["relu", "gelu", "gelutanh"]
            if len(sh) >= 2:
                names += ["linear", "linear", "linear", "add_slice", "layer_norm", "layer_norm"]
            if not spec["chain"]:
                names += ["add", "add"]
            if len(sh) == 3:
                names += ["attention", "gap"]
                if sh[1] % ti[1] == 0:
                    names += ["flash_attention"]
                if sh[0] == ti[0] and sh[2] == ti[2]:
                    names += ["mixer"] * (2 if not spec["chain"] else 0)
            if len(sh) >= 2 and sh[0] == ti[0] and sh[-1] == ti[-1]:
                names += ["mixer_mlp"]
            name = str(rng.choice(names))
            given = [m]
            if name == "add":
                given = [m, same[int(rng.integers(len(same)))]]
            elif name.endswith("attention"):
                if spec["chain"]:
                    continue
                kv = [a for a in acts if len(a.value.shape) == 3 and list(a.value.shape[1:]) == sh[1:] and list(a.value.basetile_shape[1:]) == ti[1:]]
                given = [m, m, m] if rng.random() < 0.5 else [m, kv[int(rng.integers(len(kv)))], kv[int(rng.integers(len(kv)))]]
            nd = ly.make(core, rng, name, kind, spec["redux"] and rng.random() < 0.5, given=given)
            if np.prod(nd.out.value.shape) > 1500 or len(nd.out.value.shape) > 5:
                nd.layer.unregister()
                nd.out.unregister()
                for i in nd.ins:
                    if not any(i is a for a in acts):
                        i.unregister()
                if getattr(nd, "mask", None) is not None:
                    nd.mask.unregister()
                continue
            for i in nd.ins:
                if not any(i is a for a in acts):
                    self.inputs.append(i)     # the second operand of add_slice
            self.nodes.append(nd)
            acts.append(nd.out)
        self.out = acts[-1]
        for x in self.nodes:
            ly.stale_temporaries(x)
        self.loss = None
        if spec["loss"] == "xent" and self.out.value.shape[0] != self.out.value.basetile_shape[0]:
            spec["loss"] = "frob"         # all classes have to be in one tile
        if spec["loss"] == "xent":
            self.loss, _ = n.loss.CrossEntropy.generate_simple(self.out, 0, redux=spec["redux"], scale=0.25)
        elif spec["loss"] == "frob":
            self.loss, _ = n.loss.Frob.generate_simple(self.out, 0)

    # -- data
    def batch(self, rng):
        """One minibatch as host arrays: list of (tensor, array)."""
        b = []
        if hasattr(self, "index"):
            b.append((self.index, rng.integers(0, self.vocab, self.index.shape).astype(np.int64), "int64"))
        for m in self.inputs:
            b.append((m.value, ly.values(rng, m.value.shape, self.kind), self.kind))
        sh = list(self.out.value.shape)
        if self.spec["loss"] == "xent":
            b.append((self.loss.y, rng.integers(0, sh[0], sh[1:]).astype(np.int64), "int64"))
        elif self.spec["loss"] == "frob":
            b.append((self.loss.y, ly.values(rng, sh, self.kind), self.kind))
        else:
            b.append((self.out.grad, ly.values(rng, sh, self.kind), self.kind))
        return b

    def rebind(self, b):
        """The same data for this model (a minibatch made by another instance)."""
        order = ([self.index] if hasattr(self, "index") else []) + [m.value for m in self.inputs] + [self.loss.y if self.loss else self.out.grad]
        return [(t, a, k) for t, (_, a, k) in zip(order, b)]

    def like(self, t, kind):
        c = getattr(self.n.tensor, "Tensor_" + kind)
        tr = self.n.tensor.TensorTraits(list(t.shape), list(t.basetile_shape))
        return c(tr, [0] * tr.grid.nelems, 0)

    # -- one minibatch; load(tensor, array) puts the data
    def load(self, b):
        for t, a, k in b:
            ly.put(t, a)

    def clear_activations(self):
        self.model.clear_activations_grads()

    def minibatch(self, b, load=None):
        self.clear_activations()
        (load or self.load)(b if self.loss else b[:-1])
        self.model.forward_async()
        if self.loss:
            self.loss.calc_async()
        else:
            (load or self.load)(b[-1:])
        self.model.backward_async()

    def train_step(self, opt, b):
        self.model.clear_parameters_grads()
        if self.loss:
            self.n.tensor.clear_async(self.loss.val)
        self.minibatch(b)
        opt.step()

    # -- reference
    def function(self, b):
        """f(inputs, params) in torch: the loss (or the output) for this minibatch."""
        npar = [len(x.params) for x in self.nodes]
        if hasattr(self, "index"):
            ids = torch.from_numpy(np.ascontiguousarray(b[0][1]))
            e = self.nodes[0]
            ax = [d for d in range(len(e.out.value.shape))]
            axis = self.embedding_axis()

        def f(ins, par):
            V = {id(m): t for m, t in zip(self.inputs, ins)}
            o = 0
            for x, k in zip(self.nodes, npar):
                p = par[o:o + k]
                o += k
                if x.name == "embedding":
                    v = torch.movedim(p[0].T[ids], -1, axis)
                else:
                    v = x.f([V[id(m)] for m in x.ins], p)
                V[id(x.out)] = ly.nz(v)
            y = V[id(self.out)]
            if self.spec["loss"] == "xent":
                lab = torch.from_numpy(np.ascontiguousarray(b[-1][1]))
                return 0.25 * (ly.nz(torch.logsumexp(y, 0)) - ly.nz(torch.gather(y, 0, lab[None])[0])).sum()
            if self.spec["loss"] == "frob":
                return 0.5 * ((y - torch.tensor(np.ascontiguousarray(b[-1][1]), dtype=ly.T64)) ** 2).sum()
            return y
        return f

    def embedding_axis(self):
        return self.nodes[0].layer.axis

    def arrays(self, b):
        o = 1 if hasattr(self, "index") else 0
        return [b[o + j][1] for j in range(len(self.inputs))]

    def gy(self, b):
        return np.float64(1.0) if self.loss else b[-1][1]

    def free(self):
        if self.loss:
            self.loss.unregister()
        for x in self.nodes:
            if getattr(x, "mask", None) is not None:
                x.mask.unregister()
        self.model.unregister()


def build(core, rng, spec):
    return Model(core, spec)

