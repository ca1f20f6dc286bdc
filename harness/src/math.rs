//! Small dense linear algebra in plain f64 arrays. It is deliberately independent of nalgebra:
//! it is the oracle for what the library computes with nalgebra.

pub type V3 = [f64; 3];
pub type M3 = [[f64; 3]; 3];

pub fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn scale(a: V3, s: f64) -> V3 {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn norm(a: V3) -> f64 {
    // avoid overflow for large components
    let m = a[0].abs().max(a[1].abs()).max(a[2].abs());
    if m < 1e-300 || !m.is_finite() {
        return m;
    }
    let b = scale(a, 1.0 / m);
    m * dot(b, b).sqrt()
}
pub fn cross(a: V3, b: V3) -> V3 {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn unit(a: V3) -> V3 {
    scale(a, 1.0 / norm(a))
}
pub const I3: M3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
pub const Z3: M3 = [[0.0; 3]; 3];

pub fn mm(a: &M3, b: &M3) -> M3 {
    let mut r = Z3;
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j];
        }
    }
    r
}
pub fn mv(a: &M3, v: V3) -> V3 {
    [dot(a[0], v), dot(a[1], v), dot(a[2], v)]
}
pub fn madd(a: &M3, b: &M3) -> M3 {
    let mut r = Z3;
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[i][j] + b[i][j];
        }
    }
    r
}
pub fn mscale(a: &M3, s: f64) -> M3 {
    let mut r = *a;
    for row in r.iter_mut() {
        for x in row.iter_mut() {
            *x *= s;
        }
    }
    r
}
pub fn tr(a: &M3) -> M3 {
    let mut r = Z3;
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[j][i];
        }
    }
    r
}
pub fn skew(v: V3) -> M3 {
    [[0.0, -v[2], v[1]], [v[2], 0.0, -v[0]], [-v[1], v[0], 0.0]]
}
/// Rz(yaw) Ry(pitch) Rx(roll)
pub fn rpy(a: V3) -> M3 {
    let (sr, cr) = a[0].sin_cos();
    let (sp, cp) = a[1].sin_cos();
    let (sy, cy) = a[2].sin_cos();
    let rx = [[1.0, 0.0, 0.0], [0.0, cr, -sr], [0.0, sr, cr]];
    let ry = [[cp, 0.0, sp], [0.0, 1.0, 0.0], [-sp, 0.0, cp]];
    let rz = [[cy, -sy, 0.0], [sy, cy, 0.0], [0.0, 0.0, 1.0]];
    mm(&rz, &mm(&ry, &rx))
}
/// Rodrigues
pub fn axis_angle(axis: V3, angle: f64) -> M3 {
    let k = skew(axis);
    let k2 = mm(&k, &k);
    let (s, c) = angle.sin_cos();
    madd(&I3, &madd(&mscale(&k, s), &mscale(&k2, 1.0 - c)))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Iso {
    pub r: M3,
    pub t: V3,
}
impl Iso {
    pub const ID: Iso = Iso { r: I3, t: [0.0; 3] };
    pub fn mul(&self, o: &Iso) -> Iso {
        Iso {
            r: mm(&self.r, &o.r),
            t: add(mv(&self.r, o.t), self.t),
        }
    }
    pub fn inv(&self) -> Iso {
        let rt = tr(&self.r);
        Iso {
            r: rt,
            t: scale(mv(&rt, self.t), -1.0),
        }
    }
}

/// largest absolute difference of the entries; NaN counts as infinite
pub fn mdiff(a: &M3, b: &M3) -> f64 {
    let mut d: f64 = 0.0;
    for i in 0..3 {
        for j in 0..3 {
            let x = (a[i][j] - b[i][j]).abs();
            if x.is_nan() {
                return f64::INFINITY;
            }
            d = d.max(x);
        }
    }
    d
}
pub fn vdiff(a: V3, b: V3) -> f64 {
    let mut d: f64 = 0.0;
    for i in 0..3 {
        let x = (a[i] - b[i]).abs();
        if x.is_nan() {
            return f64::INFINITY;
        }
        d = d.max(x);
    }
    d
}

/// A transform and its time derivative
#[derive(Clone, Copy, Debug)]
pub struct Dual {
    pub p: Iso,
    pub dr: M3,
    pub dt: V3,
}
impl Dual {
    pub const ID: Dual = Dual {
        p: Iso::ID,
        dr: Z3,
        dt: [0.0; 3],
    };
    pub fn constant(p: Iso) -> Dual {
        Dual {
            p,
            dr: Z3,
            dt: [0.0; 3],
        }
    }
    /// product rule
    pub fn mul(&self, o: &Dual) -> Dual {
        Dual {
            p: self.p.mul(&o.p),
            dr: madd(&mm(&self.dr, &o.p.r), &mm(&self.p.r, &o.dr)),
            dt: add(add(mv(&self.dr, o.p.t), mv(&self.p.r, o.dt)), self.dt),
        }
    }
    /// angular velocity: dR R^T is its cross product matrix
    pub fn omega(&self) -> V3 {
        let m = mm(&self.dr, &tr(&self.p.r));
        [
            (m[2][1] - m[1][2]) / 2.0,
            (m[0][2] - m[2][0]) / 2.0,
            (m[1][0] - m[0][1]) / 2.0,
        ]
    }
}

/// Rotation vector of a rotation matrix and its angle in [0, pi]
pub fn log3(r: &M3) -> (V3, f64) {
    // quaternion by Shepperd's method
    let t = r[0][0] + r[1][1] + r[2][2];
    let (w, v): (f64, V3);
    if t >= r[0][0] && t >= r[1][1] && t >= r[2][2] {
        let s = (1.0 + t).max(0.0).sqrt() * 2.0;
        w = s / 4.0;
        v = [
            (r[2][1] - r[1][2]) / s,
            (r[0][2] - r[2][0]) / s,
            (r[1][0] - r[0][1]) / s,
        ];
    } else {
        let i = if r[0][0] >= r[1][1] && r[0][0] >= r[2][2] {
            0
        } else if r[1][1] >= r[2][2] {
            1
        } else {
            2
        };
        let j = (i + 1) % 3;
        let k = (i + 2) % 3;
        let s = (1.0 + r[i][i] - r[j][j] - r[k][k]).max(0.0).sqrt() * 2.0;
        let mut q = [0.0; 3];
        q[i] = s / 4.0;
        q[j] = (r[i][j] + r[j][i]) / s;
        q[k] = (r[i][k] + r[k][i]) / s;
        w = (r[k][j] - r[j][k]) / s;
        v = q;
    }
    let (w, v) = if w < 0.0 { (-w, scale(v, -1.0)) } else { (w, v) };
    let n = norm(v);
    let angle = 2.0 * n.atan2(w);
    if n < 1e-300 {
        return ([0.0; 3], 0.0);
    }
    (scale(v, angle / n), angle)
}

/// Dynamic matrix, rows of columns
#[derive(Clone, Debug)]
pub struct Mat {
    pub r: usize,
    pub c: usize,
    pub d: Vec<f64>,
}
impl Mat {
    pub fn zero(r: usize, c: usize) -> Mat {
        Mat {
            r,
            c,
            d: vec![0.0; r * c],
        }
    }
    pub fn at(&self, i: usize, j: usize) -> f64 {
        self.d[i * self.c + j]
    }
    pub fn set(&mut self, i: usize, j: usize, v: f64) {
        self.d[i * self.c + j] = v;
    }
    pub fn t(&self) -> Mat {
        let mut m = Mat::zero(self.c, self.r);
        for i in 0..self.r {
            for j in 0..self.c {
                m.set(j, i, self.at(i, j));
            }
        }
        m
    }
    pub fn mul(&self, o: &Mat) -> Mat {
        assert_eq!(self.c, o.r);
        let mut m = Mat::zero(self.r, o.c);
        for i in 0..self.r {
            for j in 0..o.c {
                let mut s = 0.0;
                for k in 0..self.c {
                    s += self.at(i, k) * o.at(k, j);
                }
                m.set(i, j, s);
            }
        }
        m
    }
    pub fn mulv(&self, v: &[f64]) -> Vec<f64> {
        assert_eq!(self.c, v.len());
        (0..self.r)
            .map(|i| (0..self.c).map(|k| self.at(i, k) * v[k]).sum())
            .collect()
    }
}

/// Singular values (descending) and pseudo inverse by one-sided Jacobi rotations.
pub fn svd_pinv(a: &Mat, eps: f64) -> (Vec<f64>, Mat) {
    // work on the matrix with at least as many rows as columns
    if a.r < a.c {
        let (s, p) = svd_pinv(&a.t(), eps);
        return (s, p.t());
    }
    let n = a.c;
    let mut u = a.clone();
    let mut v = Mat::zero(n, n);
    for i in 0..n {
        v.set(i, i, 1.0);
    }
    for _ in 0..60 {
        let mut off: f64 = 0.0;
        for p in 0..n {
            for q in p + 1..n {
                let (mut al, mut be, mut ga) = (0.0, 0.0, 0.0);
                for i in 0..u.r {
                    al += u.at(i, p) * u.at(i, p);
                    be += u.at(i, q) * u.at(i, q);
                    ga += u.at(i, p) * u.at(i, q);
                }
                if ga == 0.0 || ga.abs() <= 1e-16 * (al * be).sqrt() {
                    continue;
                }
                off = off.max(ga.abs() / (al * be).sqrt());
                let zeta = (be - al) / (2.0 * ga);
                let t = zeta.signum() / (zeta.abs() + (1.0 + zeta * zeta).sqrt());
                let t = if zeta == 0.0 { 1.0 } else { t };
                let c = 1.0 / (1.0 + t * t).sqrt();
                let s = c * t;
                for i in 0..u.r {
                    let (x, y) = (u.at(i, p), u.at(i, q));
                    u.set(i, p, c * x - s * y);
                    u.set(i, q, s * x + c * y);
                }
                for i in 0..n {
                    let (x, y) = (v.at(i, p), v.at(i, q));
                    v.set(i, p, c * x - s * y);
                    v.set(i, q, s * x + c * y);
                }
            }
        }
        if off < 1e-15 {
            break;
        }
    }
    let mut s: Vec<f64> = (0..n)
        .map(|j| {
            (0..u.r)
                .map(|i| u.at(i, j) * u.at(i, j))
                .sum::<f64>()
                .sqrt()
        })
        .collect();
    // pinv = V S^-1 U^T with U = u / s
    let mut pinv = Mat::zero(n, a.r);
    for (k, sk) in s.iter().enumerate() {
        if *sk > eps {
            for i in 0..n {
                for j in 0..a.r {
                    let x = pinv.at(i, j) + v.at(i, k) * u.at(j, k) / (sk * sk);
                    pinv.set(i, j, x);
                }
            }
        }
    }
    s.sort_by(|a, b| b.partial_cmp(a).unwrap_or(std::cmp::Ordering::Equal));
    (s, pinv)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn log_inverts_axis_angle() {
        for i in 0..2000 {
            let a = unit([(i as f64).sin(), (i as f64 * 1.7).cos(), (i as f64 * 0.3).sin()]);
            let ang = (i as f64) / 2000.0 * std::f64::consts::PI;
            let (v, n) = log3(&axis_angle(a, ang));
            assert!((n - ang).abs() < 1e-7, "{ang} {n}");
            assert!(vdiff(v, scale(a, ang)) < 1e-6, "{ang}");
        }
    }
    #[test]
    fn pinv() {
        for (r, c) in [(6, 6), (6, 7), (3, 9), (6, 3), (1, 1), (2, 5)] {
            let mut a = Mat::zero(r, c);
            let mut x: u64 = 12345;
            for v in a.d.iter_mut() {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                *v = ((x >> 33) as f64) / 2f64.powi(30) - 1.0;
            }
            let (_, p) = svd_pinv(&a, 1e-9);
            let apa = a.mul(&p).mul(&a);
            for (x, y) in apa.d.iter().zip(a.d.iter()) {
                assert!((x - y).abs() < 1e-12);
            }
            let ap = a.mul(&p);
            for i in 0..r {
                for j in 0..r {
                    assert!((ap.at(i, j) - ap.at(j, i)).abs() < 1e-12);
                }
            }
        }
    }
}
