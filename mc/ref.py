"""Independent reference mathematics: quaternions (w, x, y, z) as plain numpy
arrays, rigid motions as 3x3 matrix plus vector.  Only ``squad`` is taken from
the quaternion package (trusted base, a dependency of the code under test)."""
import numpy as np


def qmul(a, b):
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    aw, ax, ay, az = (a[..., i] for i in range(4))
    bw, bx, by, bz = (b[..., i] for i in range(4))
    return np.stack(
        (
            aw * bw - ax * bx - ay * by - az * bz,
            aw * bx + ax * bw + ay * bz - az * by,
            aw * by - ax * bz + ay * bw + az * bx,
            aw * bz + ax * by - ay * bx + az * bw,
        ),
        axis=-1,
    )


def qconj(q):
    return np.asarray(q, float) * np.array([1.0, -1.0, -1.0, -1.0])


def qinv(q):
    q = np.asarray(q, float)
    return qconj(q) / np.sum(q * q, axis=-1, keepdims=True)


def qnormed(q):
    q = np.asarray(q, float)
    return q / np.sqrt(np.sum(q * q, axis=-1, keepdims=True))


def qmat(q):
    """Rotation matrices of the normalised quaternions, shape (..., 3, 3)."""
    q = qnormed(q)
    w, x, y, z = (q[..., i] for i in range(4))
    m = np.empty(q.shape[:-1] + (3, 3))
    m[..., 0, 0] = 1 - 2 * (y * y + z * z)
    m[..., 0, 1] = 2 * (x * y - w * z)
    m[..., 0, 2] = 2 * (x * z + w * y)
    m[..., 1, 0] = 2 * (x * y + w * z)
    m[..., 1, 1] = 1 - 2 * (x * x + z * z)
    m[..., 1, 2] = 2 * (y * z - w * x)
    m[..., 2, 0] = 2 * (x * z - w * y)
    m[..., 2, 1] = 2 * (y * z + w * x)
    m[..., 2, 2] = 1 - 2 * (x * x + y * y)
    return m


def rot(q, v):
    """Rotate vector(s) v (..., 3) by quaternion(s) q (..., 4), broadcasting."""
    return np.einsum("...ij,...j->...i", qmat(q), np.asarray(v, float))


def axang(axis, angle):
    axis = np.asarray(axis, float)
    axis = axis / np.linalg.norm(axis)
    angle = np.asarray(angle, float)
    return np.concatenate(
        (np.cos(angle / 2)[..., None], np.sin(angle / 2)[..., None] * axis),
        axis=-1,
    )


class Rigid:
    """p -> R p + t, possibly batched over a leading axis."""

    def __init__(self, R=None, t=None):
        self.R = np.eye(3) if R is None else R
        self.t = np.zeros(3) if t is None else np.asarray(t, float)

    @classmethod
    def from_tq(cls, t, q):
        return cls(qmat(q), t)

    def inv(self):
        Rt = np.swapaxes(self.R, -1, -2)
        return Rigid(Rt, -np.einsum("...ij,...j->...i", Rt, self.t))

    def then(self, other):
        """First self, then other."""
        return Rigid(
            other.R @ self.R,
            np.einsum("...ij,...j->...i", other.R, self.t) + other.t,
        )

    def point(self, p):
        return np.einsum("...ij,...j->...i", self.R, np.asarray(p, float)) + self.t

    def vector(self, v):
        return np.einsum("...ij,...j->...i", self.R, np.asarray(v, float))


def unflip(q):
    """Choose signs so that consecutive quaternions are closest."""
    q = np.array(q, float)
    for i in range(1, len(q)):
        if np.sum(q[i] * q[i - 1]) < 0:
            q[i] = -q[i]
    return q


def squad(q, t_in, t_out):
    """Reference rotation interpolation of samples q (n, 4) along axis 0."""
    import quaternion as Q

    q = unflip(q)
    t_in = np.asarray(t_in, float)
    t_out = np.asarray(t_out, float)
    if len(t_in) == 1:
        return np.repeat(q, len(t_out), axis=0)
    if len(t_out) == 0:
        return np.zeros((0, 4))
    return Q.as_float_array(Q.squad(Q.as_quat_array(q), t_in, t_out))


def lerp(v, t_in, t_out):
    """Linear interpolation of v (n, ...) along axis 0."""
    v = np.asarray(v, float)
    t_in = np.asarray(t_in, float)
    out = []
    for t in np.asarray(t_out, float):
        i = int(np.searchsorted(t_in, t))
        if i < len(t_in) and t_in[i] == t:
            out.append(v[i])
        else:
            assert 0 < i < len(t_in), (t, t_in)
            a = (t - t_in[i - 1]) / (t_in[i] - t_in[i - 1])
            out.append((1 - a) * v[i - 1] + a * v[i])
    return np.array(out).reshape((len(out),) + v.shape[1:])


def hold(v, t_in, t_out):
    """Value of the last event at or before each time (first before any)."""
    v = np.asarray(v, float)
    idx = [max(0, int(np.searchsorted(t_in, t, side="right")) - 1) for t in t_out]
    return v[idx]


def close(a, b, tol=1e-9):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    a = a.astype(float)
    b = b.astype(float)
    with np.errstate(all="ignore"):
        d = np.abs(a - b)
        ok = (d <= tol * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b))
    return bool(np.all(ok))


def same_rot(q, R, tol=1e-9):
    """Does quaternion array q (..., 4) describe the rotation matrices R?"""
    q = np.asarray(q, float)
    if q.shape[-1:] != (4,) or q.shape[:-1] != np.shape(R)[:-2]:
        return False
    if q.size == 0:
        return True
    if not np.all(np.isfinite(q)):
        return False
    return close(qmat(q), R, tol)


def same_quat(a, b, tol=1e-9):
    """Equal up to one sign per quaternion (last axis)."""
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    s = np.sign(np.sum(a * b, axis=-1, keepdims=True))
    return close(a * s, b, tol)
