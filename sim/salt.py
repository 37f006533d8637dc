"""
Hash randomisation as a simulated source of nondeterminism.

Every real interpreter draws its own salt for hash() of strings and bytes; all simulated processes
live in one interpreter, so the code under test gets a hash() whose salt belongs to the simulated
process: inherited by forked children, new in spawned and restarted ones. 0 = the plain hash().
"""
import builtins
import sys

REAL = builtins.hash
SALT = 0


def _salted(x):
    if isinstance(x, (str, bytes)):
        return len(x) > 0
    if isinstance(x, (tuple, frozenset)):
        return any(_salted(v) for v in x)
    return False


def sim_hash(x):
    h = REAL(x)
    if SALT and _salted(x):
        h = ((h ^ (SALT * 0x9E3779B97F4A7C15)) * 0xBF58476D1CE4E5B9) & 0x1FFFFFFFFFFFFFFF
        return h - 0x1000000000000000
    return h


def set_salt(n):
    global SALT
    SALT = n


def derive(n):
    return (SALT * 1000003 + n * 7919 + 17) % 0x7FFFFFFF or 1


def install():
    for name, m in list(sys.modules.items()):
        if m is not None and (name == "smote_variants" or name.startswith("smote_variants.")):
            vars(m).setdefault("hash", sim_hash)
