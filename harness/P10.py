"""P10: the parameter vector of a function approximator gives and takes exactly the selected parameters."""
import itertools
from harness.fa import KINDS, NAMES, fresh, trained, predict_ref

BOUNDS = ("every approximator kind and every ordered selection of up to 2 (thorough 4) of its parameters, input dimension 1-2, "
          "1-2 basis functions, arbitrary parameter values")


def sels(names, tier):
    out = []
    for r in range(1, min(len(names), 2 if tier == "quick" else 4) + 1):
        out += list(itertools.permutations(names, r))
    if len(names) > 2 and tier == "quick":
        out.append(tuple(names))
    return out


def cases(tier):
    out = []
    for k in KINDS:
        for d in (1, 2):
            for nb in (1, 2):
                if k.startswith("WLS") and nb > 1:
                    continue
                for i, s in enumerate(sels(NAMES[k], tier)):
                    if k == "GPR" and s[:1] != ("gram_inv_targets",) and tier == "quick":
                        continue
                    out.append(dict(name=f"roundtrip_{k}_d{d}_b{nb}_{'-'.join(s)}", fn="roundtrip",
                                    params=dict(k=k, d=d, nb=nb, sel=list(s))))
        out.append(dict(name=f"guards_{k}", fn="guards", params=dict(k=k)))
    return out


def sizes(W, m, names):
    return [int(W.np.atleast_1d(m[n]).size) for n in names]


def roundtrip(W):
    k, d, nb, sel = (W.params[x] for x in ("k", "d", "nb", "sel"))
    fa, m = trained(W, k, d, nb)
    x = W.mat("x", 2, d, -3, 3)
    fa.set_selected_param_names(sel if len(sel) > 1 else sel[0])
    sz = sizes(W, m, sel)
    n = sum(sz)
    W.true(fa.get_param_vector_size() == n, "the size counts every selected value")
    v = fa.get_param_vector()
    W.true(v.shape == (n,), "the vector has that size")
    ref = W.np.concatenate([W.np.atleast_1d(m[s]).reshape(-1) for s in sel])
    W.eq(v, ref, "the vector lists the selected parameters in the order of selection")
    # write the values back: nothing changes
    y0 = fa.predict(x)
    fa.set_param_vector(v)
    W.eq(fa.get_param_vector(), v, "get(set(v)) = v")
    W.eq(fa.predict(x), y0, "writing back what was read changes nothing")
    # new values
    w = W.vec("new", n, W.q(1, 2), 3)
    keep = W.np.array(w)
    fa.set_param_vector(w)
    W.eq(fa.get_param_vector(), w, "get(set(w)) = w")
    m2, off = dict(m), 0
    for s, c in zip(sel, sz):
        part = keep[off:off + c]
        off += c
        m2[s] = part[0] if s == "offset" else part.reshape(m[s].shape)
    for i in range(2):
        W.eq(fa.predict(x)[i], predict_ref(W, k, m2, x[i]), "predictions use the new values and keep the others")
    W.eq(w, keep, "the vector passed in is not modified")
    # no aliasing in either direction
    w *= 2
    W.eq(fa.get_param_vector(), keep, "changing the vector afterwards does not change the model")
    g = fa.get_param_vector()
    g += 1
    W.eq(fa.get_param_vector(), keep, "changing a vector that was read does not change the model")
    y1 = fa.predict(x)
    # a list is as good as an array
    fa.set_param_vector([keep[i] for i in range(n)])
    W.eq(fa.get_param_vector(), keep, "lists are accepted")
    W.eq(fa.predict(x), y1, "lists are accepted")
    for bad in (n - 1, n + 1):
        W.raises(lambda: fa.set_param_vector(W.np.zeros(bad)), f"a vector of the wrong size ({bad}) is refused", ValueError)
    W.eq(fa.get_param_vector(), keep, "a refused vector changes nothing")
    # the selection is not part of the model
    fa.set_selected_param_names(list(NAMES[k]))
    W.eq(fa.get_param_vector(), W.np.concatenate([W.np.atleast_1d(m2[s]).reshape(-1) for s in NAMES[k]]),
         "only the selected parameters changed")


def guards(W):
    k = W.params["k"]
    fa = fresh(W, k)
    fa.set_selected_param_names(list(NAMES[k]))
    W.raises(lambda: fa.get_param_vector(), "an untrained approximator has no parameters", ValueError)
    W.raises(lambda: fa.set_param_vector(W.np.zeros(2)), "an untrained approximator takes no parameters", ValueError)
    fa, m = trained(W, k, 1, 2 if not k.startswith("WLS") else 1)
    W.true(fa.get_param_vector_size() == 0, "nothing selected: size 0")
    W.true(fa.get_param_vector().size == 0, "nothing selected: empty vector")
    x = W.mat("x", 1, 1, -3, 3)
    y = fa.predict(x)
    fa.set_param_vector(W.np.zeros(0))
    W.eq(fa.predict(x), y, "nothing selected: nothing to set")
