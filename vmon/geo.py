"""Independent great-circle reference (vector form, well conditioned everywhere); Earth radius as documented by CIS."""
import numpy as np
R = 6378.0


def xyz(lat, lon):
    la, lo = np.radians(np.asarray(lat, float)), np.radians(np.asarray(lon, float))
    return np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)], axis=-1)


def gc_matrix(lat1, lon1, lat2, lon2):
    """(n, m) distances in km between every pair."""
    a, b = xyz(lat1, lon1), xyz(lat2, lon2)
    half = np.linalg.norm(a[:, None, :] - b[None, :, :], axis=-1) / 2.0
    half2 = np.linalg.norm(a[:, None, :] + b[None, :, :], axis=-1) / 2.0
    return 2.0 * R * np.arctan2(half, half2)


def gc(lat1, lon1, lat2, lon2):
    return float(gc_matrix([lat1], [lon1], [lat2], [lon2])[0, 0])


TOL = 1e-3   # km: nothing closer than this to a threshold is judged
