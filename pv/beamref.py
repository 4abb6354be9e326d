"""Independent reference for tracking and BPM readings."""
import at
import numpy as np


def track(ring, z, turns, refs):
    """(6, N, R, T), positions are not-a-number where the particle is lost"""
    out = at.lattice_track(ring.deepcopy(), np.array(z, dtype=float, order="F"), nturns=turns, refpts=np.array(refs), keep_lattice=False,
                           in_place=False, use_mp=False)[0]
    out = np.array(out)
    out[:, np.isnan(out[0])] = np.nan
    return out


def orbit(ring, refs):
    return np.array(at.find_orbit6(ring.deepcopy(), refpts=np.array(refs), keep_lattice=False)[1])


def nanmean(x, axis):
    n = np.sum(~np.isnan(x), axis=axis)
    s = np.nansum(x, axis=axis)
    return np.where(n > 0, s / np.maximum(n, 1), np.nan)


def wmean(x, w, axis):
    """weighted mean over the entries which are numbers"""
    ok = ~np.isnan(x) & ~np.isnan(w)
    sw = np.sum(np.where(ok, w, 0), axis=axis)
    sx = np.sum(np.where(ok, w * np.where(np.isnan(x), 0, x), 0), axis=axis)
    return np.where(sw > 0, sx / np.where(sw > 0, sw, 1), np.nan)


LINE = at.Lattice([at.Drift("LINE", 1.0), at.Drift("LINE", 1.0)], energy=1e9, periodicity=1)


def recorder(SC, after=None):
    """records the injected bunches through the injection's post-processing function"""
    rec = []

    def post(z):
        z = np.array(z) if after is None else after(np.array(z))
        rec.append(np.array(z))
        track(LINE, z, 1, [2])  # post-processing may involve the tracking through another lattice
        return z
    SC.INJ.postFun = post
    return rec


def bpm_error(ring, ords):
    """(roll (B,), offset (2, B), cal (2, B), sum (B,), noise (2, B), noise_co (2, B))"""
    g = lambda f: np.array([np.array(getattr(ring[o], f), dtype=float) for o in ords])  # noqa: E731
    return dict(roll=g("Roll").ravel() + g("SupportRoll").ravel(), offset=(g("Offset") + g("SupportOffset")).T, cal=g("CalError").T,
                sum=g("SumError").ravel(), noise=g("Noise").T, noise_co=g("NoiseCO").T)


def clean(centroid, err):
    """(2, B, T) true position -> noiseless reading"""
    c, s = np.cos(err["roll"])[:, None], np.sin(err["roll"])[:, None]
    x = np.array([c * centroid[0] - s * centroid[1], s * centroid[0] + c * centroid[1]])
    return (x - err["offset"][:, :, None]) * (1 + err["cal"][:, :, None])


def shot(ring, ords, z, turns, mode):
    """centroid (2, B, T) and surviving fraction (B, T) at the BPMs"""
    if mode == "ORB":
        o = orbit(ring, ords)[:, [0, 2]].T
        x = o.reshape(2, 1, len(ords), 1)
    else:
        x = track(ring, z, turns, ords)[[0, 2]]
    return nanmean(x, 1), np.mean(~np.isnan(x[0]), axis=0)


def flat(x):
    """(2, B, T) -> (2, T*B) ordered turn by turn"""
    return np.transpose(x, (0, 2, 1)).reshape(2, -1)
