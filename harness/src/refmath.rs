//! Reference mathematics, written independently of the library (plain arrays, quaternions).
pub type V3 = [f64; 3];
/// w, x, y, z
pub type Quat = [f64; 4];
pub const DT: f64 = 1e-3;

pub fn gain(dt: f64, f: f64) -> f64 {
    // dt / (dt + tau), tau = 1 / (2 pi f)
    let tau = 1.0 / (std::f64::consts::TAU * f);
    dt / (dt + tau)
}
pub fn lowpass(dt: f64, y: f64, last: f64, f: f64) -> f64 {
    let g = gain(dt, f);
    y * g + last * (1.0 - g)
}

// ---------------------------------------------------------------- vectors
pub fn dot(a: &V3, b: &V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn norm(a: &V3) -> f64 {
    dot(a, a).sqrt()
}
pub fn add(a: &V3, b: &V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: &V3, b: &V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn scale(a: &V3, s: f64) -> V3 {
    [a[0] * s, a[1] * s, a[2] * s]
}

// ---------------------------------------------------------------- rotations
pub fn qmul(a: &Quat, b: &Quat) -> Quat {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
pub fn qinv(a: &Quat) -> Quat {
    [a[0], -a[1], -a[2], -a[3]]
}
pub fn qnorm(a: &Quat) -> Quat {
    let n = (a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3]).sqrt();
    [a[0] / n, a[1] / n, a[2] / n, a[3] / n]
}
/// rotation vector -> quaternion
pub fn qexp(v: &V3) -> Quat {
    let t = norm(v);
    if t < 1e-300 {
        return [1., 0., 0., 0.];
    }
    let s = (t / 2.).sin() / t;
    [(t / 2.).cos(), v[0] * s, v[1] * s, v[2] * s]
}
/// quaternion -> rotation vector (angle in [0, pi])
pub fn qlog(q: &Quat) -> V3 {
    let q = if q[0] < 0. { [-q[0], -q[1], -q[2], -q[3]] } else { *q };
    let v = [q[1], q[2], q[3]];
    let s = norm(&v);
    if s < 1e-300 {
        return [0.; 3];
    }
    let angle = 2.0 * s.atan2(q[0]);
    scale(&v, angle / s)
}
pub fn qangle(a: &Quat, b: &Quat) -> f64 {
    norm(&qlog(&qmul(a, &qinv(b))))
}
/// Shepperd's method on the rotation part of a column-major 4x4 matrix
pub fn qmat(m: &[f64; 16]) -> Quat {
    let r = |row: usize, col: usize| m[col * 4 + row];
    let t = r(0, 0) + r(1, 1) + r(2, 2);
    let c = [t, r(0, 0), r(1, 1), r(2, 2)];
    let mut k = 0;
    for i in 1..4 {
        if c[i] > c[k] {
            k = i;
        }
    }
    let q = match k {
        0 => [1. + t, r(2, 1) - r(1, 2), r(0, 2) - r(2, 0), r(1, 0) - r(0, 1)],
        1 => [r(2, 1) - r(1, 2), 1. + r(0, 0) - r(1, 1) - r(2, 2), r(0, 1) + r(1, 0), r(0, 2) + r(2, 0)],
        2 => [r(0, 2) - r(2, 0), r(0, 1) + r(1, 0), 1. - r(0, 0) + r(1, 1) - r(2, 2), r(1, 2) + r(2, 1)],
        _ => [r(1, 0) - r(0, 1), r(0, 2) + r(2, 0), r(1, 2) + r(2, 1), 1. - r(0, 0) - r(1, 1) + r(2, 2)],
    };
    qnorm(&q)
}
pub fn pose(q: &Quat, t: &V3) -> [f64; 16] {
    let [w, x, y, z] = *q;
    [
        1. - 2. * (y * y + z * z), 2. * (x * y + w * z), 2. * (x * z - w * y), 0.,
        2. * (x * y - w * z), 1. - 2. * (x * x + z * z), 2. * (y * z + w * x), 0.,
        2. * (x * z + w * y), 2. * (y * z - w * x), 1. - 2. * (x * x + y * y), 0.,
        t[0], t[1], t[2], 1.,
    ]
}
pub fn trans(m: &[f64; 16]) -> V3 {
    [m[12], m[13], m[14]]
}
/// the rotation from a towards b, a fraction g of the way along the shorter arc
pub fn slerp(a: &Quat, b: &Quat, g: f64) -> Quat {
    let d = qlog(&qmul(b, &qinv(a)));
    qmul(&qexp(&scale(&d, g)), a)
}
pub fn filter_pose(y: &[f64; 16], last: &[f64; 16], dt: f64, f: f64) -> [f64; 16] {
    let g = gain(dt, f);
    let t = add(&scale(&trans(y), g), &scale(&trans(last), 1. - g));
    pose(&slerp(&qmat(last), &qmat(y), g), &t)
}
/// last row and axes of a homogeneous transformation: unit length (tol), orthogonal, right-handed
pub fn homogeneous(m: &[f64; 16], tol: f64) -> bool {
    if !m.iter().all(|x| x.is_finite()) || m[3] != 0. || m[7] != 0. || m[11] != 0. || m[15] != 1. {
        return false;
    }
    for i in 0..3 {
        let c = norm(&[m[4 * i], m[4 * i + 1], m[4 * i + 2]]);
        let r = norm(&[m[i], m[4 + i], m[8 + i]]);
        if (c - 1.).abs() > tol || (r - 1.).abs() > tol {
            return false;
        }
    }
    let c = |k: usize| [m[4 * k], m[4 * k + 1], m[4 * k + 2]];
    let dot = |a: [f64; 3], b: [f64; 3]| a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
    let (x, y, z) = (c(0), c(1), c(2));
    let n = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]];
    dot(x, y).abs() < 1e-3 && dot(y, z).abs() < 1e-3 && dot(z, x).abs() < 1e-3 && dot(n, z) > 0.
}

// ---------------------------------------------------------------- limits
/// nominal limits (velocity, acceleration, jerk) of the robot
#[derive(Clone, Copy, Debug)]
pub struct Lim {
    pub v: f64,
    pub a: f64,
    pub j: f64,
}
const EPS: f64 = 1e-3;
pub const JOINT_NOMINAL: [Lim; 7] = [
    Lim { v: 2.175, a: 15., j: 7500. },
    Lim { v: 2.175, a: 7.5, j: 3750. },
    Lim { v: 2.175, a: 10., j: 5000. },
    Lim { v: 2.175, a: 12.5, j: 6250. },
    Lim { v: 2.61, a: 15., j: 7500. },
    Lim { v: 2.61, a: 20., j: 10000. },
    Lim { v: 2.61, a: 20., j: 10000. },
];
pub const TRANS_NOMINAL: Lim = Lim { v: 2.0, a: 13.0, j: 6500. };
pub const ROT_NOMINAL: Lim = Lim { v: 2.5, a: 25.0, j: 12500. };
pub const ELBOW_NOMINAL: Lim = Lim { v: 2.175, a: 10., j: 5000. };
pub const TORQUE_RATE_NOMINAL: f64 = 1000.;
impl Lim {
    /// what the library limits to: a margin below the nominal values
    pub fn applied(self) -> Lim {
        let a = self.a - EPS;
        Lim { v: self.v - EPS - 1e-3 * DT * a, a, j: self.j - EPS }
    }
    pub fn times(self, f: f64) -> Lim {
        Lim { v: self.v * f, a: self.a * f, j: self.j * f }
    }
}
fn clamp(x: f64, lo: f64, hi: f64) -> f64 {
    if x < lo {
        lo
    } else if x > hi {
        hi
    } else {
        x
    }
}
/// limited velocity
pub fn limit_v(l: &Lim, v: f64, v0: f64, a0: f64) -> f64 {
    let want = ((v - v0) / DT - a0) / DT;
    let acc = a0 + clamp(want, -l.j, l.j) * DT;
    // the braking parabola at the velocity limit, sampled
    let k = l.j / l.a;
    let hi = (k * (l.v - v0)).min(l.a);
    let lo = (k * (-l.v - v0)).max(-l.a);
    let acc = if acc > hi { hi } else { acc };
    let acc = if acc < lo { lo } else { acc };
    v0 + acc * DT
}
pub fn limit_p(l: &Lim, p: f64, p0: f64, v0: f64, a0: f64) -> f64 {
    p0 + limit_v(l, (p - p0) / DT, v0, a0) * DT
}
pub fn limit_tau(c: f64, last: f64) -> f64 {
    let m = TORQUE_RATE_NOMINAL - EPS;
    last + clamp((c - last) / DT, -m, m) * DT
}
pub fn limit_vec(l: &Lim, v: &V3, v0: &V3, a0: &V3) -> V3 {
    let want = scale(&sub(&scale(&sub(v, v0), 1. / DT), a0), 1. / DT);
    let n = norm(&want);
    let mut acc = *a0;
    if n > 0. {
        acc = add(&acc, &scale(&want, n.min(l.j) / n * DT));
    }
    let m = norm(&acc);
    if m <= f64::EPSILON {
        return *v0;
    }
    let u = scale(&acc, 1. / m);
    // distance along u from v0 to the sphere of radius l.v
    let d = dot(&u, v0);
    let dist = -d + (d * d - dot(v0, v0) + l.v * l.v).sqrt();
    let safe = (l.j / l.a * dist).min(l.a);
    add(v0, &scale(&u, m.min(safe) * DT))
}
pub fn head(t: &[f64; 6]) -> V3 {
    [t[0], t[1], t[2]]
}
pub fn tail(t: &[f64; 6]) -> V3 {
    [t[3], t[4], t[5]]
}
pub fn join(a: &V3, b: &V3) -> [f64; 6] {
    [a[0], a[1], a[2], b[0], b[1], b[2]]
}
pub fn limit_twist(v: &[f64; 6], v0: &[f64; 6], a0: &[f64; 6]) -> [f64; 6] {
    join(
        &limit_vec(&TRANS_NOMINAL.applied(), &head(v), &head(v0), &head(a0)),
        &limit_vec(&ROT_NOMINAL.applied(), &tail(v), &tail(v0), &tail(a0)),
    )
}
/// twist (world frame) that leads from pose `last` to pose `p` in one sample
pub fn twist_between(p: &[f64; 16], last: &[f64; 16]) -> [f64; 6] {
    let t = scale(&sub(&trans(p), &trans(last)), 1. / DT);
    let r = scale(&qlog(&qmul(&qmat(p), &qinv(&qmat(last)))), 1. / DT);
    join(&t, &r)
}
pub fn limit_pose(p: &[f64; 16], p0: &[f64; 16], v0: &[f64; 6], a0: &[f64; 6]) -> [f64; 16] {
    let v = twist_between(p, p0);
    let t = limit_vec(&TRANS_NOMINAL.applied(), &head(&v), &head(v0), &head(a0));
    let r = limit_vec(&ROT_NOMINAL.applied().times(0.99), &tail(&v), &tail(v0), &tail(a0));
    let q = qnorm(&qmul(&qexp(&scale(&r, DT)), &qmat(p0)));
    pose(&q, &add(&trans(p0), &scale(&t, DT)))
}
pub fn max_diff(a: &[f64], b: &[f64]) -> f64 {
    let mut m: f64 = 0.;
    for (x, y) in a.iter().zip(b) {
        let d = (x - y).abs();
        if d.is_nan() {
            return f64::INFINITY;
        }
        m = m.max(d);
    }
    m
}
