"""
Catalogue of the library's samplers for the sampler workloads: every
oversampler, noise filter, undersampler, the multiclass wrapper, the
oversampling classifier and the metric tensors, each with parameter sets from
the library's own parameter_combinations (iteration counts reduced).
"""
import numpy as np

# iteration counts that only cost time
CHEAP = {
    "AMSCO": {"n_pop": 3, "n_iter": 2},
    "DSRBF": {"n_pop": 11, "n_init_pop": 13, "n_iter": 2, "n_sampling_epoch": 1},
    "IPADE_ID": {"OT": 3, "max_it": 3},
    "SMOTE_PSOBAT": {"maxit": 3},
    "SMOTE_PSO": {"n_pop": 4, "num_it": 3},
    "GASMOTE": {"maxn": 3, "n_pop": 6, "popl3": 1},
    "SSO": {"n_iter": 2},
    "SMOTE_FRST_2T": {},
    "ADG": {"k": 4},
    "SOMO": {"n_grid": 4},
}
# values the library's own combinations do not contain
KNN = ("sklearn.neighbors", "KNeighborsClassifier", {"n_neighbors": 3})
TREE = ("sklearn.tree", "DecisionTreeClassifier", {"random_state": 7, "max_depth": 3})
EXTRA = {
    "ADASYN": {"beta": [0.5], "d_th": [0.3]}, "DBSMOTE": {"db_iter_limit": [1]}, "MSYN": {"pressure": [1.0, 2.5]},
    "MCT": {"n_neighbors": [3]}, "MOT2LD": {"d_cut": [0.3, 1.5], "n_components": [1]},
    "NDO_sampling": {"T": [0.1]}, "NEATER": {"h": [5], "alpha": [0.5]},
    "SMOTE_IPF": {"n_folds": [3], "classifier": [KNN, TREE]}, "SMMO": {"ensemble": [[KNN, TREE], [TREE]]},
    "AMSCO": {"classifier": [KNN, TREE]}, "CCR": {"scaling": [0.5]}, "ASMOBD": {"eps": [1.0], "eta": [0.3]},
    "IPADE_ID": {"dt_classifier": [TREE], "base_classifier": [KNN, TREE]}, "SMOBD": {"min_samples": [3]},
    "MWMOTE": {"cmax": [2.0], "cf_th": [1.0]}, "SOMO": {"sigma": [1.0]}, "ADG": {"k": [3]},
    "GASMOTE": {"n_neighbors": [3]}, "SMOTE_PSO": {"eps": [0.2]}, "DSMOTE": {"n_step": [7]},
}
# trains a TensorFlow model on the process-wide generators; not simulated
EXCLUDED = {"DEAGO"}

NOISE = ["TomekLinkRemoval", "CondensedNearestNeighbors", "CNNTomekLinks", "EditedNearestNeighbors",
         "NeighborhoodCleaningRule", "OneSidedSelection"]


def sv():
    import smote_variants
    return smote_variants


def cls(name):
    import smote_variants.noise_removal as nr
    import smote_variants.undersampling as us
    for mod in (sv(), nr, us):
        if hasattr(mod, name):
            return getattr(mod, name)
    raise KeyError(name)


def oversamplers():
    return sorted(o.__name__ for o in sv().get_all_oversamplers() if o.__name__ not in EXCLUDED)


_COMBOS = {}


def combos(name):
    if name not in _COMBOS:
        c = cls(name)
        try:
            _COMBOS[name] = c.parameter_combinations()
        except Exception:
            _COMBOS[name] = [{}]
    return _COMBOS[name]


def cheap(name):
    """reduced parameters this class really has"""
    import inspect
    sig = inspect.signature(cls(name).__init__).parameters
    return {k: v for k, v in CHEAP.get(name, {}).items() if k in sig}


def params(rng, name, seed):
    c = combos(name)
    p = dict(c[rng.randrange(len(c))]) if c and rng.random() < 0.7 else {}
    p.update(cheap(name))
    p["random_state"] = seed
    if name in EXTRA and rng.random() < 0.3:
        k = rng.choice(sorted(EXTRA[name]))
        p[k] = rng.choice(EXTRA[name][k])
    if rng.random() < 0.2 and has_ss(name):
        ss = dict(p.get("ss_params") or {})
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(["n_dim", "simplex_sampling", "within_simplex_sampling", "gaussian_component"])
            ss[k] = rng.choice({"n_dim": [2, 3], "simplex_sampling": ["random", "volume", "deterministic"],
                                "within_simplex_sampling": ["random", "deterministic"],
                                "gaussian_component": [{}, {"sigma": 0.1}]}[k])
        p["ss_params"] = ss
    return p


_HAS_SS = {}


def has_ss(name):
    if name not in _HAS_SS:
        import inspect
        _HAS_SS[name] = "ss_params" in inspect.signature(cls(name).__init__).parameters
    return _HAS_SS[name]


def filter_params(rng, name):
    """parameters of the noise filters; every second time the defaults"""
    if rng.random() < 0.5:
        return {}
    return dict(rng.choice({
        "TomekLinkRemoval": [{"strategy": "remove_majority"}, {"strategy": "remove_both"}],
        "EditedNearestNeighbors": [{"remove": "min"}, {"remove": "maj"}, {"remove": "both"}],
        "NeighborhoodCleaningRule": [{"threshold": 0.3}, {"threshold": 0.7}],
    }.get(name, [{}])))


def spec(rng, kind=None, name=None):
    kind = kind or rng.choice(["os"] * 12 + ["nf", "us", "mc", "clf", "mt"])
    seed = rng.choice([1, 5, 42, 12345])
    if kind == "os":
        name = name or rng.choice(oversamplers())
        return {"kind": "os", "name": name, "params": params(rng, name, seed)}
    if kind == "nf":
        name = name or rng.choice(NOISE)
        return {"kind": "nf", "name": name, "params": filter_params(rng, name)}
    if kind == "us":
        if rng.random() < 0.4:
            return {"kind": "us", "name": "RandomUndersampling", "params": {"random_state": seed}}
        return {"kind": "us", "name": "OversamplingDrivenUndersampling",
                "params": {"oversampler_specification": ["smote_variants", rng.choice(["SMOTE", "ADASYN"]),
                                                         {"random_state": 5}],
                           "mode": rng.choice(["random", "farthest"]), "random_state": seed}}
    if kind == "mc":
        return {"kind": "mc", "name": rng.choice(["SMOTE", "distance_SMOTE", "Borderline_SMOTE1", "kmeans_SMOTE",
                                                  "polynom_fit_SMOTE_star", "MWMOTE", "G_SMOTE"]),
                "params": {"random_state": seed},
                "strategy": rng.choice(["eq_1_vs_many_successive", "equalize_1_vs_many"])}
    if kind == "clf":
        return {"kind": "clf", "name": rng.choice(["SMOTE", "Borderline_SMOTE1", "ADASYN", "LVQ_SMOTE",
                                                   "SMOTE_TomekLinks", "E_SMOTE", "ISOMAP_Hybrid"]),
                "params": {"random_state": seed},
                "clf": rng.choice([["sklearn.tree", "DecisionTreeClassifier", {"random_state": 3}],
                                   ["smote_variants.classifiers", "MLPClassifierWrapper",
                                    {"random_state": 3, "max_iter": 5}],
                                   ["sklearn.neighbors", "KNeighborsClassifier", {}]])}
    return {"kind": "mt", "name": rng.choice(["rf", "cov", "cov_min", "ITML", "LSML", "NCA", "MI_weighted", "id"]), "params": {}}


def build(sp):
    """a fresh object -> callable(X, y) -> tuple of result arrays"""
    m = sv()
    k = sp["kind"]
    if k == "os":
        o = cls(sp["name"])(**sp["params"])

        def run(X, y):
            a, b = o.sample(X, y)
            return a, b, np.asarray(o.preprocessing_transform(X))
        return o, run
    if k == "nf":
        o = cls(sp["name"])(**sp["params"])
        return o, lambda X, y: tuple(o.remove_noise(X, y))
    if k == "us":
        p = dict(sp["params"])
        if "oversampler_specification" in p:
            p["oversampler_specification"] = tuple(p["oversampler_specification"])
        o = cls(sp["name"])(**p)
        return o, lambda X, y: tuple(o.sample(X, y))
    if k == "mc":
        o = m.MulticlassOversampling(oversampler=sp["name"], oversampler_params=sp["params"],
                                     strategy=sp["strategy"])
        return o, lambda X, y: tuple(o.sample(X, y))
    if k == "clf":
        from smote_variants.classifiers import OversamplingClassifier
        o = OversamplingClassifier(("smote_variants", sp["name"], sp["params"]), tuple(sp["clf"]))

        def run(X, y):
            o.fit(X, y)
            return o.predict(X), o.predict_proba(X)
        return o, run
    from smote_variants.base import MetricTensor
    o = MetricTensor(metric_learning_method=sp["name"])
    return o, lambda X, y: (o.tensor(X, y),)


# ----------------------------------------------------------------- data
def data(d):
    """d: {"seed","n_min","n_maj","dim","kind","dtype","multi"}"""
    rs = np.random.RandomState(d["seed"])
    dim = d["dim"]
    if d.get("multi"):
        cs = d["multi"] if isinstance(d["multi"], list) else [d["n_maj"], d["n_min"], max(4, d["n_min"] - 2)]
        X = np.vstack([rs.normal(size=(n, dim)) + 0.8 * i for i, n in enumerate(cs)])
        y = np.hstack([np.repeat(i, n) for i, n in enumerate(cs)])
    else:
        Xm = rs.normal(size=(d["n_maj"], dim))
        Xn = rs.normal(size=(d["n_min"], dim)) * 0.7 + {"overlap": 0.4, "mid": 1.0, "sep": 6.0}.get(d["kind"], 1.0)
        X = np.vstack([Xm, Xn])
        y = np.hstack([np.repeat(0, d["n_maj"]), np.repeat(1, d["n_min"])])
        if d["kind"] == "dup":
            X[d["n_maj"]:] = X[d["n_maj"] + (np.arange(d["n_min"]) % max(2, d["n_min"] // 3))]
        elif d["kind"] == "grid":
            X = np.round(X)
        elif d["kind"] == "const":
            X[:, 0] = 1.5
        elif d["kind"] == "line":
            # features that depend on each other
            X[:, -1] = 2 * X[:, 0] - 1
        elif d["kind"] == "halo":
            # a dense majority among a scattered minority
            X[:d["n_maj"]] = Xm * 0.1
            X[d["n_maj"]:] = (Xn - 1.0) * 2.0
        elif d["kind"] == "two":
            # minority in two groups, one of them inside the majority
            X[d["n_maj"]::2] -= 1.0
            X[d["n_maj"] + 1::2] += 4.0
        if d.get("swap"):
            y = 1 - y
    if d.get("labels"):
        y = np.array(d["labels"])[y]
    p = rs.permutation(len(y))
    X, y = X[p], y[p]
    if d.get("xdtype") == "int":
        X = np.round(X * 3)
    if d.get("xdtype"):
        X = X.astype(d["xdtype"])
    if d.get("ydtype"):
        y = y.astype(d["ydtype"])
    if d.get("order") == "F":
        X = np.asfortranarray(X)
    elif d.get("order") == "view":
        # every second row and column of a larger array the caller owns
        B = np.full((2 * len(X), 2 * X.shape[1]), 7, dtype=X.dtype)
        B[::2, ::2] = X
        c = np.zeros(2 * len(y), dtype=y.dtype)
        c[::2] = y
        X, y = B[::2, ::2], c[::2]
    return X, y


def data_spec(rng, kind="os"):
    d = {"seed": rng.randrange(10**6), "n_min": rng.choice([5, 6, 8, 9, 11]),
         "n_maj": rng.choice([12, 18, 22, 30]), "dim": rng.choice([2, 3, 3, 5]),
         "kind": rng.choice(["mid", "mid", "mid", "overlap", "overlap", "sep", "dup", "grid", "halo", "two", "line"]),
         "swap": rng.random() < 0.2, "order": rng.choice(["C", "C", "F"])}
    if kind == "mc":
        d["multi"] = rng.choice([1, 1, 1, [14, 9, 7, 5], [12, 12, 6], [9, 16, 12], [20, 8], [13, 12, 11], [10, 10]])
        d["kind"] = "mid"
        d["swap"] = False
    elif rng.random() < 0.15:
        d["labels"] = rng.choice([[-1, 1], [1, 2], [7, 3], [3, 7]])
    if rng.random() < 0.2:
        d["order"] = "view"
    if rng.random() < 0.15:
        d["xdtype"] = rng.choice(["float32", "int"])
    if rng.random() < 0.1:
        d["ydtype"] = rng.choice(["float", "int8"]) if kind not in ("us", "mc") else "int8"
    if rng.random() < 0.05:
        d["n_maj"] = d["n_min"]
    return d


def same(a, b):
    if len(a) != len(b):
        return False
    for x, z in zip(a, b):
        x, z = np.asarray(x), np.asarray(z)
        if x.shape != z.shape or x.dtype != z.dtype or x.tobytes() != z.tobytes():
            return False
    return True


def freeze(out):
    return tuple(np.array(x, copy=True) for x in out)
