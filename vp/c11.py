"""C11: what is written is what is read, and conversions keep the pairing of data and geometry.

Random surveys and data are written by the library into the case's scratch directory and read back; the rows
(electrodes or locations, kinds, data, uncertainties) are compared, in order where the format keeps it and as sets of
rows where the reader sorts.  Files of the same format written by the harness (permuted and extra columns, comments)
are read too.  Objects passed to writers are digested before and after."""
import os

import numpy as np

from .core import case, digest, quiet
from .dcgen import as_array, kinds_of, random_survey, rows_of

RULE = "file formats x survey mixtures x data types x coordinates, conversions; distinct when format, options and mixture are new"
REQUIRED = {"files_written": 80, "rows_compared": 1500, "conversions": 60, "foreign_files": 20}


def state(data):
    out = [data.dobs.copy(), data.standard_deviation.copy(), data.relative_error.copy() if data.relative_error is not None else None,
           data.noise_floor.copy() if data.noise_floor is not None else None]
    for s in data.survey.source_list:
        out.append(np.asarray(s.location) if s.location is not None else None)
        for r in s.receiver_list:
            loc = r.locations
            out += list(loc) if isinstance(loc, (list, tuple)) else [loc]
            out.append(list(getattr(r, "components", [])))
            out.append(getattr(r, "data_type", None))
    return digest(out)


def make_data(ctx, survey):
    from simpeg.data import Data

    n = survey.nD
    d = ctx.rng.standard_normal(n) * 10.0 ** ctx.rng.integers(-6, 3)
    sd = np.abs(ctx.rng.standard_normal(n)) * np.abs(d).max() + 1e-3 * np.abs(d).max()
    return Data(survey, dobs=d, standard_deviation=sd), d, sd


def compare(ctx, back, table, d, sd, ordered, what, cols=None, prec=1.5e-6):
    rows = rows_of(back.survey)
    ctx.event("rows_compared", len(rows))
    if not ctx.check(len(rows) == len(table), "number of data read", f"{what}: {len(rows)} instead of {len(table)}"):
        return
    A, B = as_array(rows), as_array(table)
    if cols is not None:
        B = cols(B)
    ka, kb = np.array(kinds_of(rows)), np.array(kinds_of(table))
    da = np.asarray(back.dobs) if d is not None else None
    # without data, uncertainties are the noise floor
    sa = np.asarray(back.standard_deviation if d is not None else back.noise_floor) if sd is not None else None
    ia = ib = np.arange(len(rows))
    if not ordered:
        ia = np.lexsort(np.r_[A.T, [da if d is not None else 0 * A[:, 0]]])
        ib = np.lexsort(np.r_[B.T, [d if d is not None else 0 * B[:, 0]]])
    ctx.close(A[ia], B[ib], "electrodes read", rtol=prec, atol=1e-6, scale=1.0, msg=what)
    ctx.check(np.array_equal(ka[ia], kb[ib]), "kinds of electrodes read", what)
    if d is not None:
        ctx.close(da[ia], d[ib], "data read", rtol=prec, msg=what)
    if sd is not None:
        ctx.close(sa[ia], sd[ib], "uncertainties read", rtol=prec, msg=what)


@case("C11", "dcip_ubc", quick=8, thorough=60, cost=2)
def dcip_ubc(ctx):
    from simpeg.electromagnetics.static.utils import static_utils as su
    from simpeg.utils import io_utils as io

    rng = ctx.rng
    for it in range(6):
        dim = int(rng.choice([2, 3]))
        mixed = rng.random() < 0.6
        kinds = ("pole", "dipole") if mixed else (str(rng.choice(["pole", "dipole"])),)
        rkinds = ("pole", "dipole") if mixed else (str(rng.choice(["pole", "dipole"])),)
        fmt = str(rng.choice(["general", "surface", "simple"] if dim == 2 else ["general", "surface"]))
        dt = str(rng.choice(["volt", "apparent_chargeability", "secondary_potential"]))
        ft = str(rng.choice(["dobs", "dpred", "survey"]))
        sv, table = random_survey(rng, dim=dim, kinds=kinds, rx_kinds=rkinds, buried=fmt == "general" and rng.random() < 0.5,
                                  data_type="volt" if dt == "secondary_potential" else dt)
        data, d, sd = make_data(ctx, sv)
        ctx.label(f"{dim}D {fmt} {dt} {ft} src {sorted(set(t[0] for t in table))} rx {sorted(set(t[3] for t in table))}")
        fn = f"obs{it}.txt"
        com = [None, "! a comment", "a comment"][int(rng.integers(3))]
        before = state(data)
        with ctx.guard(), quiet():
            if dim == 2:
                io.write_dcip2d_ubc(fn, data, dt, ft, format_type=fmt, comment_lines=com)
                back = io.read_dcip2d_ubc(fn, dt, fmt)
            else:
                oct_ = rng.random() < 0.3
                w, r = (io.write_dcipoctree_ubc, io.read_dcipoctree_ubc) if oct_ else (io.write_dcip3d_ubc, io.read_dcip3d_ubc)
                w(fn, data, dt, ft, format_type=fmt, comment_lines=com if com or not oct_ else "")
                back = r(fn, dt)
            ctx.event("files_written")
            ctx.check(state(data) == before, "written object unchanged")

            def flat(B, dim=dim, fmt=fmt):
                B = B.copy()
                if fmt != "general":
                    B[:, dim - 1::dim] = 9999.0
                return B

            esd = None
            if ft == "dobs":
                esd = sd
            elif ft == "dpred" and dim == 3 and dt == "volt":
                esd = su.apparent_resistivity_from_voltage(sv, d)
            compare(ctx, back, table, None if ft == "survey" else d, esd, fmt != "simple", f"{dim}D {fmt}", flat)
            want = "volt" if dt != "apparent_chargeability" else dt
            ctx.check(all(x.data_type == want for s in back.survey.source_list for x in s.receiver_list), "data type of receivers")


@case("C11", "dcip_xyz", quick=4, thorough=30)
def dcip_xyz(ctx):
    from simpeg.utils import io_utils as io

    rng = ctx.rng
    for it in range(6):
        dim = int(rng.choice([2, 3]))
        sv, table = random_survey(rng, dim=dim, buried=rng.random() < 0.4)
        data, d, sd = make_data(ctx, sv)
        n = sv.nD
        extra = {"LINE": rng.integers(0, 50, n).astype(float), "ELEV": rng.standard_normal(n)}
        h = {2: (("XA", "ZA"), ("XB", "ZB"), ("XM", "ZM"), ("XN", "ZN")), 3: tuple((f"X{e}", f"Y{e}", f"Z{e}") for e in "ABMN")}[dim]
        wd, wu, wx = rng.random(3) < 0.8
        ctx.label(f"xyz {dim}D data {wd} uncert {wu} extra {wx}")
        fn = f"x{it}.xyz"
        before = state(data)
        with ctx.guard(), quiet():
            io.write_dcip_xyz(fn, data, data_header="V" if wd else None, uncertainties_header="UNC" if wu else None, out_dict=extra if wx else None)
            ctx.event("files_written")
            ctx.check(state(data) == before, "written object unchanged")
            for rd in range(2):
                # read all that is there, or a subset
                sub = rd == 1
                qd, qu = wd and (not sub or rng.random() < 0.5), wu and (not sub or rng.random() < 0.5)
                qx = ([k for k in rng.permutation(list(extra)) if not sub or rng.random() < 0.6] if wx else []) or None
                out = io.read_dcip_xyz(fn, "volt", *h, data_header="V" if qd else None, uncertainties_header="UNC" if qu else None, dict_headers=qx)
                back, dic = out if qx else (out, {})
                compare(ctx, back, table, d if qd else None, sd if qu else None, False, "xyz", prec=1e-7)
                # extra columns follow their row
                rows = as_array(rows_of(back.survey))
                ref = as_array(table)
                for k, v in dic.items():
                    got = {tuple(np.round(r, 4)) + (round(float(x), 5),) for r, x in zip(rows, v)}
                    exp = {tuple(np.round(r, 4)) + (round(float(x), 5),) for r, x in zip(ref, extra[k])}
                    ctx.check(got == exp, "extra columns read", k)
        # a file of another program: columns in any order, columns to ignore, some electrodes without elevation
        with ctx.guard(), quiet():
            surf = rng.random() < 0.5
            cols = {}
            B = as_array(table)
            for i, e in enumerate("ABMN"):
                for j, c in enumerate("XZ" if dim == 2 else "XYZ"):
                    if surf and c == "Z":
                        continue
                    cols[c + e] = B[:, dim * i + j]
            cols["V"], cols["UNC"], cols["OTHER"], cols["LINE"] = d, sd, rng.standard_normal(n), extra["LINE"]
            names = [str(x) for x in rng.permutation(list(cols))]
            with open(fn, "w") as f:
                f.write("  ".join(names) + "\n")
                for i in range(n):
                    f.write("  ".join("%.10e" % cols[k][i] for k in names) + "\n")
                    if i == 0:
                        f.write("! a comment line\n")
            hh = tuple(tuple(x for x in t if not (surf and x[0] == "Z")) for t in h)
            out = io.read_dcip_xyz(fn, "volt", *hh, data_header="V", uncertainties_header="UNC", dict_headers=["LINE"], is_surface_data=surf)
            ctx.event("foreign_files")
            ctx.label(f"foreign xyz {dim}D surface {surf}")

            def flat(B, dim=dim):
                B = B.copy()
                if surf:
                    B[:, dim - 1::dim] = 9999.0
                return B

            compare(ctx, out[0], table, d, sd, False, "foreign xyz", flat, prec=1e-8)


@case("C11", "potential_fields", quick=4, thorough=30)
def potential_fields(ctx):
    from simpeg.data import Data
    from simpeg.potential_fields import gravity, magnetics
    from simpeg.utils import io_utils as io

    rng = ctx.rng
    for it in range(8):
        kind = ["mag", "grav", "gg"][it % 3]
        n = int(rng.integers(1, 30))
        locs = np.round(rng.uniform(-500, 500, (n, 3)), 2) + np.array([rng.choice([0.0, 5000.0]), 0, 0])
        comps = None
        if kind == "mag":
            B = np.round([rng.uniform(20000, 70000), rng.uniform(-90, 90), rng.uniform(-180, 180)], 2)
            rx = magnetics.receivers.Point(locs)
            sv = magnetics.survey.Survey(magnetics.sources.UniformBackgroundField([rx], amplitude=B[0], inclination=B[1], declination=B[2]))
            w, r = io.write_mag3d_ubc, io.read_mag3d_ubc
        elif kind == "grav":
            sv = gravity.survey.Survey(gravity.sources.SourceField([gravity.receivers.Point(locs, components="gz")]))
            w, r = io.write_grav3d_ubc, io.read_grav3d_ubc
        else:
            allc = ["gxx", "gxy", "gxz", "gyy", "gyz", "gzz", "guv"]
            comps = [str(c) for c in rng.permutation(allc)[: int(rng.integers(1, 8))]]
            sv = gravity.survey.Survey(gravity.sources.SourceField([gravity.receivers.Point(locs, components=list(comps))]))
            w, r = io.write_gg3d_ubc, io.read_gg3d_ubc
        d = rng.standard_normal(sv.nD) * 10.0 ** rng.integers(-3, 3)
        sd = rng.uniform(0.1, 1, sv.nD)
        data = Data(sv, dobs=d, standard_deviation=sd)
        ctx.label(kind, comps)
        before = state_pf(data)
        with ctx.guard(), quiet():
            w(f"p{it}.obs", data)
            ctx.event("files_written")
            ctx.check(state_pf(data) == before, "written object unchanged")
            back = r(f"p{it}.obs")
            rx = back.survey.source_field.receiver_list[0]
            ctx.event("rows_compared", n)
            ctx.close(rx.locations, locs, "locations read", rtol=1.5e-6)
            ctx.close(back.dobs, d, "data read", rtol=1.5e-6)
            ctx.close(back.standard_deviation, sd, "uncertainties read", rtol=1.5e-6)
            if comps:
                ctx.check(list(rx.components) == comps, "components read", f"{rx.components} {comps}")
            if kind == "mag":
                sf = back.survey.source_field
                ctx.close([sf.amplitude, sf.inclination, sf.declination], B, "inducing field read", rtol=1e-9, atol=0.0051)
            # and once more: what was read can be written and read again
            w(f"p{it}b.obs", back)
            again = r(f"p{it}b.obs")
            ctx.close(again.dobs, back.dobs, "data read again", rtol=1e-12)
            ctx.close(again.standard_deviation, back.standard_deviation, "uncertainties read again", rtol=1e-12)


def state_pf(data):
    rx = data.survey.source_field.receiver_list[0]
    return digest([data.dobs, data.standard_deviation, rx.locations, list(rx.components)])


def nsem_data(ctx, dim=3, comps=None, n_loc=None):
    import simpeg.electromagnetics.natural_source as ns
    from simpeg.electromagnetics.natural_source.survey import Data

    rng = ctx.rng
    n = n_loc or int(rng.integers(1, 6))
    locs = np.round(rng.uniform(-100, 100, (n, dim)), 3)
    comps = comps or [("z" + o) for o in ("xx", "xy", "yx", "yy") if rng.random() < 0.7] + [("t" + o) for o in ("zx", "zy") if rng.random() < 0.5]
    comps = comps or ["zxy"]
    order = [str(c) for c in rng.permutation(comps)] if rng.random() < 0.5 else comps
    srcs = []
    fr = np.sort(rng.uniform(0.1, 1000, int(rng.integers(1, 5))))
    for f in fr:
        rx = []
        for c in order:
            for part in ("real", "imag"):
                if c[0] == "z":
                    rx.append(ns.receivers.Impedance(locs, orientation=c[1:], component=part))
                else:
                    rx.append(ns.receivers.Tipper(locs, orientation=c[1:], component=part))
        srcs.append(ns.sources.PlanewaveXYPrimary(rx, f))
    sv = ns.Survey(srcs)
    d = rng.standard_normal(sv.nD)
    return Data(sv, d, relative_error=rng.uniform(0.01, 0.1, sv.nD), noise_floor=rng.uniform(0.01, 0.1, sv.nD)), locs, order, fr


def nsem_rows(data):
    """{(frequency, kind+orientation, component, location): datum}"""
    out = {}
    i = 0
    for s in data.survey.source_list:
        for r in s.receiver_list:
            k = ("t" if type(r).__name__ == "Tipper" else "z") + r.orientation
            for loc in r.locations[0]:
                key = (round(s.frequency, 9), k, r.component, tuple(np.round(loc, 6)))
                out.setdefault(key, []).append(float(data.dobs[i]))
                i += 1
    return out


@case("C11", "nsem_records", quick=3, thorough=20)
def nsem_records(ctx):
    from simpeg.electromagnetics.natural_source.survey import Data
    from simpeg.electromagnetics.natural_source.utils import data_utils as du

    rng = ctx.rng
    for it in range(6):
        data, locs, comps, fr = nsem_data(ctx)
        ref = nsem_rows(data)
        for rt in ("RealImag", "Complex"):
            ctx.label("records", rt, ",".join(comps), len(locs), len(fr))
            with ctx.guard():
                rec = data.toRecArray(rt)
                ctx.event("conversions")
                # the table itself
                flat = np.asarray(rec).ravel()
                ctx.check(len(flat) == len(locs) * len(fr), "rows of the record array")
                for row in flat:
                    loc = tuple(np.round([row["x"], row["y"], row["z"]], 6))
                    for c in comps:
                        for part, suf in (("real", "r"), ("imag", "i")):
                            v = row[c + suf] if rt == "RealImag" else getattr(row[c], part)
                            ctx.check(float(v) == ref[(round(float(row["freq"]), 9), c, part, loc)][0], "entries of the record array")
                back = Data.fromRecArray(rec)
                ctx.check(nsem_rows(back) == ref, "data after a record array")
        with ctx.guard():
            dl, fl, tl = du.extract_data_info(data)
            i = 0
            ok = np.array_equal(dl, data.dobs)
            for s in data.survey.source_list:
                for r in s.receiver_list:
                    k = ("t" if type(r).__name__ == "Tipper" else "z") + r.orientation
                    ok = ok and np.all(fl[i:i + r.nD] == s.frequency) and all(t == k for t in tl[i:i + r.nD])
                    i += r.nD
            ctx.check(ok and len(tl) == i, "extracted data info")
        with ctx.guard():
            keep = np.unique(rng.integers(0, len(locs), max(1, len(locs) // 2)))
            fk = [float(f) for f in fr if rng.random() < 0.7] or [float(fr[0])]
            ck = [c for c in comps if rng.random() < 0.6] or [comps[0]]
            new = du.resample_data(data, locs=locs[keep], freqs=fk, rxs=ck)
            exp = {k: v for k, v in ref.items() if k[0] in [round(f, 9) for f in fk] and k[1] in ck and k[3] in {tuple(np.round(locs[i], 6)) for i in keep}}
            ctx.event("conversions")
            ctx.check(nsem_rows(new) == exp, "resampled data")
            full = du.resample_data(data)
            ctx.check(nsem_rows(full) == ref, "resampled data of everything")
            ctx.close(full.standard_deviation, data.standard_deviation, "uncertainties of resampled data", rtol=1e-12)
        # rotation: a representation of rotations, invariants kept
        data, locs, comps, fr = nsem_data(ctx, comps=["zxx", "zxy", "zyx", "zyy"])
        with ctx.guard():
            a, b = rng.uniform(-180, 180, 2)
            ctx.label("rotation")
            r1 = du.rotate_data(du.rotate_data(data, a), b)
            r2 = du.rotate_data(data, a + b)
            base = Data.fromRecArray(data.toRecArray("Complex"))
            ctx.event("conversions")
            ctx.close(r1.dobs, r2.dobs, "composition of rotations", rtol=1e-10)
            ctx.close(du.rotate_data(data, 0.0).dobs, base.dobs, "rotation by zero", rtol=1e-12)
            z0, z1 = tens(base), tens(du.rotate_data(data, a))
            ctx.close(np.linalg.det(z0), np.linalg.det(z1), "determinant after rotation", rtol=1e-10)
            ctx.close(z0[:, 0, 0] + z0[:, 1, 1], z1[:, 0, 0] + z1[:, 1, 1], "trace after rotation", rtol=1e-10, scale=np.abs(z0).max())
            # rotating the axes by 90 degrees
            z9 = tens(du.rotate_data(data, 90.0))
            ctx.close(z9[:, 0, 0], z0[:, 1, 1], "rotation by 90 degrees", rtol=1e-10, scale=np.abs(z0).max())
        with ctx.guard():
            mode = str(rng.choice(["yx", "xy", "det"]))
            ctx.label("to 1D", mode)
            lst = du.convert3Dto1Dobject(data, mode)
            ctx.event("conversions")
            rows = nsem_rows(data)
            ctx.check(len(lst) == len(np.unique(locs, axis=0)), "number of 1D data sets")
            for one in lst:
                loc = tuple(np.round(one.survey.source_list[0].receiver_list[0].locations[0][0], 6))
                j = 0
                for s in one.survey.source_list:
                    z = {c: rows[(round(s.frequency, 9), c, "real", loc)][0] + 1j * rows[(round(s.frequency, 9), c, "imag", loc)][0] for c in comps}
                    want = {"yx": z["zyx"], "xy": -z["zxy"], "det": np.sqrt(z["zxx"] * z["zyy"] - z["zxy"] * z["zyx"])}[mode]
                    for r in s.receiver_list:
                        ctx.close(one.dobs[j], getattr(want, r.component), "data of 1D data sets", rtol=1e-12, atol=1e-14)
                        j += 1


def tens(data):
    """impedance tensors by (frequency, location)"""
    rows = nsem_rows(data)
    keys = sorted({(k[0], k[3]) for k in rows})
    return np.array([[[rows[(f, "z" + a + b, "real", l)][0] + 1j * rows[(f, "z" + a + b, "imag", l)][0] for b in "xy"] for a in "xy"] for f, l in keys])


@case("C11", "conversions", quick=4, thorough=30)
def conversions(ctx):
    from simpeg.electromagnetics.static import induced_polarization as ip
    from simpeg.electromagnetics.static import spectral_induced_polarization as sip
    from simpeg.electromagnetics.static import resistivity as dc
    from simpeg.electromagnetics.static.utils import static_utils as su

    rng = ctx.rng
    for it in range(6):
        dim = int(rng.choice([2, 3]))
        sv, table = random_survey(rng, dim=dim, buried=rng.random() < 0.5)
        ctx.label(f"DC to IP {dim}D")
        with ctx.guard():
            s2 = ip.from_dc_to_ip_survey(sv, "2.5D" if dim == 2 else "3D")
            ctx.event("conversions")
            ctx.check(np.array_equal(as_array(rows_of(s2)), as_array(table)) and kinds_of(rows_of(s2)) == kinds_of(table), "IP survey of a DC survey")
        with ctx.guard():
            times = np.sort(rng.uniform(1e-3, 1, int(rng.integers(1, 4))))
            s3 = sip.survey.from_dc_to_sip_survey(sv, times)
            ctx.event("conversions")
            r3 = rows_of(s3)
            ctx.check(np.array_equal(as_array(r3), as_array(table)) and kinds_of(r3) == kinds_of(table), "SIP survey of a DC survey")
            ctx.check(all(np.array_equal(r.times, times) for s in s3.source_list for r in s.receiver_list), "times of the SIP survey")
        # three-dimensional lines to two-dimensional surveys
        nl = int(rng.integers(1, 4))
        srcs, ids, exp = [], [], []
        utm = np.r_[rng.choice([0.0, 500000.0]), rng.choice([0.0, 6000000.0])]
        for k in rng.permutation(nl):
            ang = rng.uniform(0, 2 * np.pi)
            u, x0 = np.array([np.cos(ang), np.sin(ang)]), utm + rng.uniform(-1000, 1000, 2)
            l2, t2 = random_survey(rng, dim=2, off=0.0, step=5.0, buried=rng.random() < 0.4)
            to3 = lambda p: np.c_[x0 + np.outer(np.atleast_2d(p)[:, 0], u), np.atleast_2d(p)[:, 1]]  # noqa: E731
            for s in l2.source_list:
                rx = [dc.receivers.Pole(to3(r.locations)) if not isinstance(r.locations, (list, tuple)) else dc.receivers.Dipole(to3(r.locations[0]), to3(r.locations[1])) for r in s.receiver_list]
                loc = to3(s.location)
                srcs.append(dc.sources.Pole(rx, loc[0]) if len(loc) == 1 else dc.sources.Dipole(rx, loc[0], loc[1]))
                ids += [int(k)] * s.nD
            exp += t2
        ids = np.array(ids)
        s3d = dc.Survey(srcs)
        ctx.label(f"lines {nl} utm {utm[1] > 0}")
        with ctx.guard():
            lst, idx = su.convert_survey_3d_to_2d_lines(s3d, ids, output_indexing=True)
            ctx.event("conversions")
            ctx.check(len(lst) == len(np.unique(ids)), "number of lines")
            ctx.check(np.array_equal(np.sort(np.concatenate(idx)), np.arange(s3d.nD)), "every datum in exactly one line")
            if not np.array_equal(np.sort(np.concatenate(idx)), np.arange(s3d.nD)):
                continue
            for line, ii, k in zip(lst, idx, np.unique(ids)):
                rows = rows_of(line)
                ctx.check(len(rows) == len(ii) and np.all(ids[ii] == k), "data of a line")
                e = [exp[j] for j in ii]
                ctx.check(kinds_of(rows) == kinds_of(e), "kinds of electrodes on a line")
                A, B = as_array(rows), as_array(e)
                # elevations kept; distances along the line kept up to origin and direction
                ctx.close(A[:, 1::2], B[:, 1::2], "elevations on a line", rtol=1e-9, atol=1e-9)
                sa, sb = A[:, 0::2].ravel(), B[:, 0::2].ravel()
                ctx.close(np.abs(sa[:, None] - sa), np.abs(sb[:, None] - sb), "distances along a line", rtol=1e-9, atol=2e-5)


@case("C11", "gocad", quick=1, thorough=5)
def gocad(ctx):
    from simpeg.utils import io_utils as io

    rng = ctx.rng
    for it in range(5):
        nv, nt = int(rng.integers(3, 30)), int(rng.integers(1, 40))
        V = np.round(rng.uniform(-1e3, 1e3, (nv, 3)), 4)
        T = rng.integers(1, nv + 1, (nt, 3))
        with open("s.ts", "w") as f:
            f.write("GOCAD TSurf 1\nHEADER {\nname:s\n}\nTFACE\n")
            for i, v in enumerate(V):
                f.write("VRTX %d %.4f %.4f %.4f\n" % (i + 1, *v))
            for t in T:
                f.write("TRGL %d %d %d\n" % tuple(t))
            f.write("END\n")
        ctx.label("gocad")
        with ctx.guard():
            v, t = io.read_GOCAD_ts("s.ts")
            ctx.event("foreign_files")
            ctx.check(np.array_equal(v, V) and np.array_equal(t, T), "surface read")
    os.remove("s.ts")


@case("C11", "electrode_io", quick=3, thorough=20)
def electrode_io(ctx):
    """files of the older electrode reader: csv tables, two-dimensional UBC files (both kinds), conversions of data"""
    from simpeg.electromagnetics.static import resistivity as dc

    rng = ctx.rng
    for it in range(6):
        st = ["dipole-dipole", "pole-dipole", "dipole-pole", "pole-pole"][int(rng.integers(4))]
        n = int(rng.integers(3, 25))
        x = np.round(rng.permutation(np.arange(40) * 10.0)[:12] + rng.choice([0.0, 1234.5]), 2)
        P = np.array([rng.permutation(x)[:4] for _ in range(n)])
        P = P[rng.permutation(n)]
        src = P[rng.integers(0, max(1, n // 3), n), :2]
        rows = np.c_[src, P[:, 2:]]
        rows[rows[:, 2] == rows[:, 0], 2] += 5.0
        rows[rows[:, 2] == rows[:, 1], 2] += 5.0
        rows[rows[:, 3] == rows[:, 0], 3] += 2.5
        rows[rows[:, 3] == rows[:, 1], 3] += 2.5
        if st.startswith("pole"):
            rows[:, 1] = rows[:, 0]
        if st.endswith("-pole"):
            rows[:, 3] = rows[:, 2]
        v = rng.standard_normal(n) * 10.0 ** rng.integers(-3, 2)
        sd = rng.uniform(0.01, 1, n)
        z = np.zeros(n)
        kind = ["csv", "simple", "general"][it % 3]
        ctx.label(kind, st)

        def table(survey):
            A, B, M, N = (np.atleast_2d(q) for q in (survey.locations_a, survey.locations_b, survey.locations_m, survey.locations_n))
            return np.c_[A[:, 0], B[:, 0], M[:, 0], N[:, 0], survey.dobs, survey.std]

        ref = np.c_[rows, v, sd]
        if st.startswith("pole"):
            ref[:, 1] = np.nan
        if st.endswith("-pole"):
            ref[:, 3] = np.nan
        with ctx.guard(), quiet():
            io = dc.IO()
            if kind == "csv":
                L = [np.c_[rows[:, k], z] for k in range(4)]
                first = dc.IO()
                first.from_abmn_locations_to_survey(*L, survey_type=st, data_dc=v)
                o = first.sort_inds
                first.write_to_csv("d.csv", v[o], standard_deviation=sd[o])
                ctx.event("files_written")
                sv = io.read_dc_data_csv("d.csv")
            elif kind == "simple":
                with open("d.obs", "w") as f:
                    f.write("! a comment\n" if rng.random() < 0.5 else "")
                    for r in np.c_[rows, v, sd]:
                        f.write(" ".join(repr(float(q)) for q in r) + "\n")
                sv = io.read_ubc_dc2d_obs_file("d.obs", input_type="simple")
            else:
                key = np.unique(rows[:, :2], axis=0)
                with open("d.obs", "w") as f:
                    f.write("! a comment\n")
                    for k in key[rng.permutation(len(key))]:
                        on = (rows[:, :2] == k).all(1)
                        f.write(f"{k[0]!r} 0.0 {k[1]!r} 0.0 {on.sum()}\n".replace("np.float64(", "").replace(")", ""))
                        for r, a, b in zip(rows[on], v[on], sd[on]):
                            f.write(f"{float(r[2])!r} 0.0 {float(r[3])!r} 0.0 {float(a)!r} {float(b)!r}\n")
                sv = io.read_ubc_dc2d_obs_file("d.obs", input_type="general")
            if kind != "csv":
                ctx.event("foreign_files")
            ctx.event("rows_compared", n)
            got = table(sv)
            if st.startswith("pole"):
                got[:, 1] = np.nan
            if st.endswith("-pole"):
                got[:, 3] = np.nan
            a = got[np.lexsort(np.nan_to_num(got).T[::-1])]
            b = ref[np.lexsort(np.nan_to_num(ref).T[::-1])]
            ctx.check(a.shape == b.shape and np.allclose(np.nan_to_num(a), np.nan_to_num(b), rtol=1e-9), "rows of the file", f"{a[:3]} {b[:3]}")
            ctx.close(io.voltages, sv.dobs, "voltages of the reader", rtol=1e-12)
            # conversions go both ways
            with np.errstate(all="ignore"):
                rho = np.asarray(io.apparent_resistivity)
                cond = np.asarray(io.apparent_conductivity)
                ok = np.isfinite(rho) & np.isfinite(cond) & (rho != 0)
                ctx.close((rho * cond)[ok], np.ones(ok.sum()), "apparent conductivity is the inverse resistivity", rtol=1e-10)
                for t, val in (("apparent_resistivity", rho), ("apparent_conductivity", cond)):
                    other = dc.IO()
                    L = [np.c_[rows[:, k], z] for k in range(4)]
                    back = np.empty(n)
                    back[io.sort_inds] = val
                    src_order = io.sort_inds
                    if kind == "general":
                        continue  # rows of the file were regrouped
                    if kind == "csv":
                        L = [q[first.sort_inds] for q in L]
                    other.from_abmn_locations_to_survey(*L, survey_type=st, data_dc=back, data_dc_type=t)
                    ctx.close(np.asarray(other.voltages)[ok], np.asarray(sv.dobs)[ok], f"voltages from {t}", rtol=1e-9)
    for f in ("d.csv", "d.obs"):
        if os.path.exists(f):
            os.remove(f)


@case("C11", "drivers", quick=3, thorough=20)
def drivers(ctx):
    """driver files of potential-field inversions: every line read, files found beside the driver"""
    import discretize
    from simpeg.data import Data
    from simpeg.potential_fields import gravity, magnetics
    from simpeg.utils import drivers as D
    from simpeg.utils import io_utils as io

    rng = ctx.rng
    for it in range(4):
        mag = bool(it % 2)
        h = [rng.uniform(1, 3, int(rng.integers(2, 5))) for _ in range(3)]
        mesh = discretize.TensorMesh([np.round(q, 3) for q in h], origin=np.round(rng.uniform(-10, 10, 3), 2))
        base = "drv"
        os.makedirs(base, exist_ok=True)
        mesh.write_UBC(base + "/m.msh")
        n = int(rng.integers(2, 8))
        locs = np.round(rng.uniform(-10, 10, (n, 3)), 2)
        if mag:
            sv = magnetics.survey.Survey(magnetics.sources.UniformBackgroundField([magnetics.receivers.Point(locs)], amplitude=50000, inclination=60, declination=20))
        else:
            sv = gravity.survey.Survey(gravity.sources.SourceField([gravity.receivers.Point(locs, components="gz")]))
        d, sd = rng.standard_normal(n), rng.uniform(0.1, 1, n)
        with quiet():
            (io.write_mag3d_ubc if mag else io.write_grav3d_ubc)(base + "/d.obs", Data(sv, dobs=d, standard_deviation=sd))
        m0, mr = np.round(rng.uniform(0, 1, mesh.n_cells), 4), np.round(rng.uniform(0, 1, mesh.n_cells), 4)
        mesh.write_model_UBC(base + "/m0.mod", m0)
        mesh.write_model_UBC(base + "/mref.mod", mr)
        act = rng.choice([0.0, 1.0, -1.0], mesh.n_cells)
        act[:2] = 1.0, -1.0
        mesh.write_model_UBC(base + "/act.mod", act)
        M = rng.standard_normal((mesh.n_cells, 3))
        top = mesh.origin[2] + mesh.h[2].sum() + 10
        how = ["file", "topo"][int(rng.integers(2))]
        with open(base + "/topo.txt", "w") as f:
            c = [(x, y) for x in (-1e3, 1e3) for y in (-1e3, 1e3)]
            f.write("4\n" + "".join(f"{x} {y} {top}\n" for x, y in c))
        line3 = {"file": "FILE act.mod", "topo": "TOPO topo.txt"}[how]
        start = "FILE m0.mod" if rng.random() < 0.5 else "VALUE 0.25"
        refl = "FILE mref.mod" if rng.random() < 0.5 else "VALUE 0.125"
        chi = rng.choice(["DEFAULT", "VALUE 0.7"])
        al = rng.choice(["DEFAULT", "VALUE 0.1 2 3 4.5"])
        bd = rng.choice(["NONE", "VALUE -1.5 2.5"])
        ep = rng.choice(["DEFAULT", "VALUE 0.01 0.02"])
        wg = rng.choice(["DEFAULT", "FILE w.mod"])
        c = lambda s: s + rng.choice([" ! comment", "  ! comment", ""])
        L = [c("MESH m.msh"), c("OBS d.obs"), c(line3), c(start), c(refl)]
        if mag:
            mg = rng.choice(["DEFAULT", "FILE mag.txt"])
            L.append(c(str(mg)))
            ub = np.empty_like(M)
            for k in range(3):  # UBC order: z fastest and downwards, then x, then y
                q = M[:, k].reshape(mesh.shape_cells, order="F")
                ub[:, k] = np.transpose(q[:, :, ::-1], (2, 0, 1)).ravel(order="F")
            np.savetxt(base + "/mag.txt", ub)
        L += [c(str(wg)), c(str(chi)), c(str(al)), c(str(bd)), c("VALUE 2 1 1 0 3"), c(str(ep))]
        with open(base + "/in.inp", "w") as f:
            f.write("\n".join(L) + "\n")
        ctx.label("driver", mag, how, start, refl)
        with ctx.guard(), quiet():
            dr = (D.MagneticsDriver_Inv if mag else D.GravityDriver_Inv)(base + "/in.inp")
            ctx.event("foreign_files")
            order = [str(q) for q in rng.permutation(["m0", "mref", "static", "dynamic", "data", "mag"])]
            A = np.ones(mesh.n_cells, bool) if how == "topo" else act != 0
            for what in order:
                if what == "m0":
                    got = np.asarray(dr.m0)
                    ref = m0 if start.startswith("FILE") else np.full(mesh.n_cells, 0.25)
                    ctx.check(got.shape == ref.shape and np.allclose(got, ref) or got.size == A.sum() and np.allclose(got, ref[A]), "starting model of the driver", f"{got.shape}")
                elif what == "mref":
                    got = np.asarray(dr.mref)
                    ref = mr if refl.startswith("FILE") else np.full(mesh.n_cells, 0.125)
                    ctx.check(got.shape == ref.shape and np.allclose(got, ref) or got.size == A.sum() and np.allclose(got, ref[A]), "reference model of the driver", f"{got.shape}")
                elif what in ("static", "dynamic"):
                    a = (act if how == "file" else np.ones(mesh.n_cells))[A]
                    got = dr.staticCells if what == "static" else dr.dynamicCells
                    ctx.check(np.array_equal(got, np.where(a == (-1 if what == "static" else 1))[0]), what + " cells of the driver", f"{got}")
                elif what == "data":
                    ctx.close(dr.data.dobs, d, "data of the driver", rtol=1e-5)
                    ctx.close(dr.data.standard_deviation, sd, "uncertainties of the driver", rtol=1e-5)
                    ctx.check(dr.survey is dr.data.survey, "survey of the driver")
                elif mag and str(mg).startswith("FILE"):
                    ctx.close(np.asarray(dr.magnetizationModel), M, "magnetization of the driver", rtol=1e-10)
                elif mag:
                    got = np.asarray(dr.magnetizationModel)
                    sf = dr.survey.source_field
                    i, e = np.deg2rad(60.0), np.deg2rad(20.0)
                    u = np.r_[np.cos(i) * np.sin(e), np.cos(i) * np.cos(e), -np.sin(i)]
                    ctx.close(got, np.tile(u, (got.shape[0], 1)), "default magnetization of the driver", rtol=1e-8)
            ctx.check(np.array_equal(np.asarray(dr.activeCells, bool), A), "active cells of the driver")
            ctx.check(np.array_equal(dr.mesh.h[0], mesh.h[0]) and np.allclose(dr.mesh.origin, mesh.origin), "mesh of the driver")
            ctx.check(dr.chi == (1.0 if chi == "DEFAULT" else 0.7), "chi factor of the driver", f"{dr.chi}")
            ctx.check(np.array_equal(dr.alphas, np.ones(4) if al == "DEFAULT" else [0.1, 2, 3, 4.5]), "alphas of the driver", f"{dr.alphas}")
            ctx.check(np.array_equal(dr.bounds, [-np.inf, np.inf] if bd == "NONE" else [-1.5, 2.5]), "bounds of the driver", f"{dr.bounds}")
            ctx.check(np.array_equal(dr.lpnorms, [2, 1, 1, 0, 3]), "norms of the driver", f"{dr.lpnorms}")
            ctx.check((dr.eps is None) if ep == "DEFAULT" else np.array_equal(dr.eps, [0.01, 0.02]), "thresholds of the driver", f"{dr.eps}")
            ctx.check((dr.wgtfile == "w.mod") if str(wg).startswith("FILE") else not dr.wgtfile, "weights of the driver", f"{dr.wgtfile}")
            ctx.event("rows_compared", 12)
        import shutil

        shutil.rmtree(base)


@case("C11", "edi", quick=2, thorough=12)
def edi(ctx):
    """magnetotelluric EDI files; the projection (an optional package) is replaced by one that records its arguments"""
    import importlib
    import sys
    import types
    from simpeg.electromagnetics.natural_source.utils import edi_files_utils as E

    rng = ctx.rng
    utm = types.ModuleType("utm")
    utm.from_latlon = lambda a, b: (1000.0 * b, 1000.0 * a, 1, "N")
    sys.modules["utm"] = utm
    E = importlib.reload(E)
    for it in range(4):
        files, rows = [], []
        comps = ["ZXX", "ZXY", "ZYX", "ZYY"]
        for k in range(int(rng.integers(1, 4))):
            nf = int(rng.integers(2, 9))
            f = np.sort(10.0 ** rng.uniform(-2, 3, nf))[::-1]
            Z = rng.standard_normal((nf, 4)) + 1j * rng.standard_normal((nf, 4))
            var = rng.uniform(0.01, 1, (nf, 4))
            deg = [int(rng.integers(0, 80)) * int(rng.choice([-1, 1])), int(rng.integers(0, 3 if it % 2 else 170)) * int(rng.choice([-1, 1]))]
            mins = rng.integers(0, 60, 2)
            sec = np.round(rng.uniform(0, 59, 2), 2)
            neg = rng.random(2) < 0.5
            txt = [f"{'-' if neg[j] else ''}{abs(deg[j])}:{mins[j]}:{sec[j]}" for j in range(2)]
            val = [(-1 if neg[j] else 1) * (abs(deg[j]) + mins[j] / 60 + sec[j] / 3600) for j in range(2)]
            el = float(np.round(rng.uniform(0, 3000), 1))
            nm = f"s{k}.edi"

            def block(key, v):
                o = f">{key} ROT=ZROT //{nf}\n" if key != "FREQ" else f">FREQ  NFREQ={nf} //{nf}\n" if rng.random() < 0.5 else f">FREQ //{nf}\n"
                for i in range(0, nf, 3):
                    o += " ".join("%.10e" % q for q in v[i:i + 3]) + "\n"
                return o

            with open(nm, "w") as fh:
                fh.write(f">HEAD\n LAT={txt[0]}\n LONG={txt[1]}\n ELEV={el}\n\n")
                fh.write(block("FREQ", f))
                for j, c in enumerate(comps):
                    fh.write(block(c + "R", Z[:, j].real) + block(c + "I", Z[:, j].imag) + block(c + ".VAR", var[:, j]))
                fh.write(">END\n")
            files.append(nm)
            rows.append((f, Z, var, val, el))
        ctx.label("edi", len(files))
        with ctx.guard(), quiet():
            imp = E.EDIimporter(files)
            imp.importFiles()
            ctx.event("foreign_files", len(files))
            a = imp()
            s = 4e-4 * np.pi
            i0 = 0
            sw = [3, 2, 1, 0]  # x north, y east -> x east, y north
            for f, Z, var, val, el in rows:
                nf = f.size
                q = a[i0:i0 + nf]
                i0 += nf
                ctx.event("rows_compared", nf)
                ctx.close(np.ravel(q["freq"]), f, "frequencies of an EDI file", rtol=1e-8)
                ctx.close(np.ravel(q["y"]), np.full(nf, 1000 * val[0]), "latitude of an EDI file", rtol=1e-8)
                ctx.close(np.ravel(q["x"]), np.full(nf, 1000 * val[1]), "longitude of an EDI file", rtol=1e-8)
                ctx.close(np.ravel(q["z"]), np.full(nf, el), "elevation of an EDI file", rtol=1e-8)
                for j, c in enumerate(comps):
                    t = comps[sw[j]].lower()
                    ctx.close(np.ravel(q[t + "r"]), s * Z[:, j].real, "impedances of an EDI file", rtol=1e-8)
                    ctx.close(np.ravel(q[t + "i"]), s * Z[:, j].imag, "impedances of an EDI file", rtol=1e-8)
            ctx.check(np.size(a) == i0, "rows of the EDI files")
        for nm in files:
            os.remove(nm)
