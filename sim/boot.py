"""
Process set-up shared by all checks: third-party imports first, then the
simulated standard library, then the code under test from /repo.
"""
import os
import sys
import warnings

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS",
           "NUMEXPR_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "-1")
sys.dont_write_bytecode = True

REPO = os.environ.get("VERIF_REPO", "/repo")
_booted = False


def boot():
    global _booted
    if _booted:
        return
    _booted = True
    import logging
    import gc
    import glob, tempfile, shutil, pathlib, json, pickle, uuid, datetime  # noqa
    import concurrent.futures, concurrent.futures.thread  # noqa
    import numpy, scipy, pandas, joblib, sklearn  # noqa
    import joblib.parallel, joblib._parallel_backends  # noqa
    import joblib.externals.loky  # noqa
    import sklearn.model_selection, sklearn.preprocessing, sklearn.tree  # noqa
    import sklearn.neighbors, sklearn.metrics, sklearn.linear_model  # noqa
    import sklearn.naive_bayes, sklearn.dummy, sklearn.ensemble, sklearn.svm  # noqa
    import sklearn.neural_network, sklearn.mixture, sklearn.manifold, sklearn.cluster  # noqa
    import sklearn.discriminant_analysis, sklearn.gaussian_process, sklearn.decomposition  # noqa
    import scipy.stats, scipy.spatial, scipy.optimize, scipy.signal, scipy.special  # noqa
    import scipy.sparse.linalg, scipy.linalg  # noqa
    try:
        import matplotlib.pyplot  # noqa
    except Exception:
        pass
    try:
        import metric_learn  # noqa
    except Exception:
        pass
    try:
        import statistics, minisom  # noqa
    except Exception:
        pass
    from . import patch
    patch.install()
    for k in [m for m in sys.modules if m == "smote_variants" or m.startswith("smote_variants.")]:
        raise RuntimeError("smote_variants imported before the simulator")
    sys.path.insert(0, REPO)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import smote_variants
    real = os.path.realpath(smote_variants.__file__)
    if not real.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"smote_variants imported from {real}")
    from . import salt
    salt.install()
    logging.disable(logging.CRITICAL)
    gc.collect()
    gc.freeze()
