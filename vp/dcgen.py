"""Random DC surveys: every mixture of pole and dipole sources and receivers, on the surface or buried."""
import numpy as np


def grid_coord(rng, n, off, step, span):
    return off + step * rng.integers(-span, span, size=n)


def random_survey(rng, dim=3, n_src=None, kinds=("pole", "dipole"), rx_kinds=("pole", "dipole"), off=None, step=None, buried=False,
                  data_type="volt", multi_rx=True, scale_z=True):
    """survey and the table of its quadrupoles [(kind_s, a, b, kind_r, m, n)] in data order.  Coordinates have few
    digits, so that text formats hold them exactly."""
    from simpeg.electromagnetics.static import resistivity as dc

    step = step or float(rng.choice([1.0, 2.5, 5.0, 25.0]))
    off = (rng.choice([0.0, 0.0, 100.0, 500000.0, 6000000.0], size=dim - 1) if off is None else np.broadcast_to(off, dim - 1)).astype(float)
    if step == 2.5:
        off = np.minimum(off, 500000.0)
    n_src = n_src or int(rng.integers(1, 6))
    used = set()

    def point():
        while True:
            p = [off[i] + step * rng.integers(-30, 30) for i in range(dim - 1)]
            p.append(-float(rng.integers(0, 40)) / 2 if buried else (float(rng.integers(0, 20)) if scale_z else 0.0))
            k = tuple(p[:-1]) if not buried else tuple(p)
            if k not in used:
                return np.array(p), k

    srcs, table = [], []
    for _ in range(n_src):
        used.clear()
        while True:
            a, ka = point()
            used.add(ka)
            b, kb = point()
            used.add(kb)
            ks = str(rng.choice(kinds))
            key = (ks,) + tuple(a) + (tuple(b) if ks == "dipole" else ())
            if key not in [t[-1] for t in table]:
                break
        rxs = []
        for _ in range(int(rng.integers(1, 4)) if multi_rx else 1):
            kr = str(rng.choice(rx_kinds))
            n = int(rng.integers(1, 5))
            M, N = [], []
            for _ in range(n):
                m, km = point()
                used.add(km)
                q, kq = point()
                used.add(kq)
                M.append(m)
                N.append(q)
            M, N = np.array(M), np.array(N)
            rxs.append(dc.receivers.Pole(M, data_type=data_type) if kr == "pole" else dc.receivers.Dipole(M, N, data_type=data_type))
            for m, q in zip(M, N):
                table.append((ks, a, b if ks == "dipole" else a, kr, m, q if kr == "dipole" else m, key))
        srcs.append(dc.sources.Pole(rxs, a) if ks == "pole" else dc.sources.Dipole(rxs, a, b))
    return dc.Survey(srcs), table


def rows_of(survey):
    """the same table read from the objects of a survey, in data order."""
    from simpeg.electromagnetics.static import resistivity as dc

    out = []
    for s in survey.source_list:
        loc = np.atleast_2d(np.asarray(s.location, float))
        pole = len(loc) == 1
        for r in s.receiver_list:
            if isinstance(r.locations, (list, tuple)):
                M, N, kr = r.locations[0], r.locations[1], "dipole"
            else:
                M, N, kr = r.locations, r.locations, "pole"
            for m, n in zip(M, N):
                out.append(("pole" if pole else "dipole", loc[0], loc[-1], kr, np.asarray(m), np.asarray(n)))
    return out


def as_array(table, cols=None):
    return np.array([np.r_[t[1], t[2], t[4], t[5]] for t in table])


def kinds_of(table):
    return [(t[0], t[3]) for t in table]
