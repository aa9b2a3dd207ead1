"""Deterministic analytic PES used by the checks (loaded by i-PI as a custom PES).

V = sum_i [ k/2 |r_i|^2 + k4/4 |r_i|^4 ] + sum_{i<j} kp/2 (|r_ij|-r0)^2
    + c/2 (vol/v0 - 1)^2 + s*shear(h)
with exact forces and the exact virial -dV/d(strain) (affine scaling of r and h).
"""

import json
import numpy as np

__DRIVER_NAME__ = "vpes"
__DRIVER_CLASS__ = "VPES"


def evaluate(cell, pos, k=0.02, k4=0.003, kp=0.01, r0=1.5, c=0.0, v0=1000.0, aniso=1.0, sp=0.0):
    pos = np.asarray(pos, float).reshape(-1, 3)
    cell = np.asarray(cell, float)
    kv = np.array([k, k * aniso, k * aniso * aniso])
    kv = kv * (1.0 + sp * np.arange(len(pos)))[:, None]  # sp makes the atoms distinguishable
    r2 = (pos**2).sum(axis=1)
    pot = 0.5 * (kv * pos**2).sum() + 0.25 * k4 * (r2**2).sum()
    f = -kv * pos - k4 * r2[:, None] * pos
    n = len(pos)
    if kp != 0.0 and n > 1:
        for i in range(n):
            for j in range(i):
                d = pos[i] - pos[j]
                r = np.sqrt((d**2).sum()) + 1e-300
                pot += 0.5 * kp * (r - r0) ** 2
                g = -kp * (r - r0) * d / r
                f[i] += g
                f[j] -= g
    vir = np.dot(f.T, pos)
    if c != 0.0:
        vol = abs(np.linalg.det(cell))
        x = vol / v0 - 1.0
        pot += 0.5 * c * x * x
        vir = vir - np.eye(3) * (c * x * vol / v0)
    return float(pot), f, vir


class VPES:
    def __init__(self, verbose=False, **kw):
        kw.pop("verbosity", None)
        self.extra_mode = kw.pop("extra", "json")
        self.kw = {k: float(v) for k, v in kw.items()}
        self.ncalls = 0

    def compute_structure(self, cell, pos):
        self.ncalls += 1
        pot, f, vir = evaluate(cell, pos, **self.kw)
        if self.extra_mode == "json":
            ex = json.dumps(
                {"dip": [float(x) for x in pos.sum(axis=0)], "val": float(pot * 2)}
            )
        else:
            ex = "raw%.6f" % pot
        return pot, f, vir, ex

    def __call__(self, cell, pos):
        if isinstance(cell, list):
            return [self.compute_structure(c, p) for c, p in zip(cell, pos)]
        return self.compute_structure(cell, pos)
