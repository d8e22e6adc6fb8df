use cv_core::nalgebra::*;
use cv_core::*;
use rand::{Rng, SeedableRng};
use rand_xoshiro::Xoshiro256PlusPlus;
use serde_json::Value;
use std::collections::BTreeMap;

pub type V3 = Vector3<f64>;
pub type Uv3 = UnitVector3<f64>;
pub type Iso = IsometryMatrix3<f64>;

pub struct Ctx<'a> {
    pub v: &'a Value,
    pub rng: Xoshiro256PlusPlus,
    pub reps: usize,
    pub ix: usize,
    pub fails: Vec<(String, String)>,
    pub tally: BTreeMap<String, u64>,
    /// whether to record behaviours of the code, for TLC to check
    pub record: bool,
    pub recorded: Vec<Value>,
}

/// The randomness of a vector depends on nothing but the vector and the seed.
fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| {
        (h ^ b as u64).wrapping_mul(0x100000001b3)
    })
}

impl<'a> Ctx<'a> {
    pub fn new(v: &'a Value, seed: u64, ix: usize, reps: usize) -> Self {
        Ctx {
            v,
            rng: Xoshiro256PlusPlus::seed_from_u64(
                seed.wrapping_mul(0x9E3779B97F4A7C15)
                    ^ fnv(&v.to_string()),
            ),
            reps,
            ix,
            fails: vec![],
            tally: BTreeMap::new(),
            record: false,
            recorded: vec![],
        }
    }
    pub fn count(&mut self, k: &str) {
        *self.tally.entry(k.to_string()).or_default() += 1;
    }
    /// Record the largest value seen, in units of 1e-18 (the tally holds integers).
    pub fn check(&mut self, ok: bool, key: &str, msg: impl FnOnce() -> String) -> bool {
        self.count(&format!("checks:{key}"));
        if !ok && self.fails.len() < 20 {
            let m = msg();
            self.fails.push((key.to_string(), m));
        }
        ok
    }
    /// `|err| <= tol`, where NaN is never close.
    pub fn close(&mut self, err: f64, tol: f64, key: &str, msg: impl FnOnce() -> String) -> bool {
        if std::env::var_os("CONF_DEC").is_some() {
            let d = if err > 0.0 { err.log10().ceil() } else { -99.0 };
            self.count(&format!("dec:{key}:{d}"));
        }
        self.check(err <= tol, key, || {
            format!("error {err:e} > {tol:e}: {}", msg())
        })
    }
    pub fn unif(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.rng.gen::<f64>()
    }
    pub fn int(&mut self, a: i64, b: i64) -> i64 {
        self.rng.gen_range(a..=b)
    }
    /// 10^u, u uniform
    pub fn mag(&mut self, lo: f64, hi: f64) -> f64 {
        let u = self.unif(lo, hi);
        10f64.powf(u)
    }
    pub fn gauss(&mut self) -> f64 {
        let u: f64 = 1.0 - self.rng.gen::<f64>();
        let v: f64 = self.rng.gen::<f64>();
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos()
    }
    pub fn dir(&mut self) -> V3 {
        loop {
            let v = V3::new(self.gauss(), self.gauss(), self.gauss());
            if v.norm() > 1e-3 {
                return v.normalize();
            }
        }
    }
    pub fn rot(&mut self) -> Rotation3<f64> {
        loop {
            let q = Quaternion::new(self.gauss(), self.gauss(), self.gauss(), self.gauss());
            if q.norm() > 1e-3 {
                return UnitQuaternion::new_normalize(q).to_rotation_matrix();
            }
        }
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.rng.gen_range(0..=i);
            xs.swap(i, j);
        }
    }
    pub fn s(&self, k: &str) -> &'a str {
        self.v[k]
            .as_str()
            .unwrap_or_else(|| panic!("HARNESS: no string {k}"))
    }
    pub fn b(&self, k: &str) -> bool {
        self.v[k]
            .as_bool()
            .unwrap_or_else(|| panic!("HARNESS: no boolean {k}"))
    }
    pub fn i(&self, k: &str) -> i64 {
        self.v[k]
            .as_i64()
            .unwrap_or_else(|| panic!("HARNESS: no integer {k}"))
    }
    pub fn f(&self, k: &str) -> f64 {
        self.i(k) as f64
    }
    pub fn arr(&self, k: &str) -> &'a Vec<Value> {
        arr(&self.v[k])
    }
}

pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array()
        .unwrap_or_else(|| panic!("HARNESS: not an array: {v}"))
}
pub fn num(v: &Value) -> f64 {
    v.as_i64()
        .unwrap_or_else(|| panic!("HARNESS: not an integer: {v}")) as f64
}
pub fn nums(v: &Value) -> Vec<f64> {
    arr(v).iter().map(num).collect()
}
pub fn v3(v: &Value) -> V3 {
    let n = nums(v);
    assert!(n.len() == 3, "HARNESS: not a 3-vector: {v}");
    V3::new(n[0], n[1], n[2])
}
pub fn v4(v: &Value) -> Vector4<f64> {
    let n = nums(v);
    assert!(n.len() == 4, "HARNESS: not a 4-vector: {v}");
    Vector4::new(n[0], n[1], n[2], n[3])
}
/// matrix given by rows
pub fn m3(v: &Value) -> Matrix3<f64> {
    let r: Vec<V3> = arr(v).iter().map(v3).collect();
    Matrix3::from_rows(&[r[0].transpose(), r[1].transpose(), r[2].transpose()])
}
/// rotation matrix of an integer quaternion, correct to the last place
pub fn rotq(v: &Value) -> Rotation3<f64> {
    let q = v4(v);
    let (a, b, c, d) = (q[0], q[1], q[2], q[3]);
    let n = a * a + b * b + c * c + d * d;
    assert!(n > 0.0, "HARNESS: zero quaternion");
    let m = Matrix3::new(
        a * a + b * b - c * c - d * d,
        2.0 * (b * c - a * d),
        2.0 * (b * d + a * c),
        2.0 * (b * c + a * d),
        a * a - b * b + c * c - d * d,
        2.0 * (c * d - a * b),
        2.0 * (b * d - a * c),
        2.0 * (c * d + a * b),
        a * a - b * b - c * c + d * d,
    );
    Rotation3::from_matrix_unchecked(m / n)
}
/// pose [q, t, d]
pub fn pose(v: &Value) -> Iso {
    let d = num(&v["d"]);
    Iso::from_parts((v3(&v["t"]) / d).into(), rotq(&v["q"]))
}
pub fn unit(v: V3) -> Uv3 {
    UnitVector3::new_normalize(v)
}
pub fn finite(x: &[f64]) -> bool {
    x.iter().all(|n| n.is_finite())
}
pub fn iso_finite(i: &Iso) -> bool {
    i.rotation.matrix().iter().all(|n| n.is_finite())
        && i.translation.vector.iter().all(|n| n.is_finite())
}
/// largest entry of RᵀR - I, and |det R - 1|
pub fn rot_defect(r: &Rotation3<f64>) -> f64 {
    let m = r.matrix();
    let d = (m.transpose() * m - Matrix3::identity()).abs().max();
    let e = (m.determinant() - 1.0).abs();
    if d.is_nan() || e.is_nan() {
        f64::NAN
    } else {
        d.max(e)
    }
}
/// angle between two rotations, accurate for small angles
pub fn rot_dist(a: &Rotation3<f64>, b: &Rotation3<f64>) -> f64 {
    (a.matrix() - b.matrix()).norm()
}
pub fn angle(a: &V3, b: &V3) -> f64 {
    a.cross(b).norm().atan2(a.dot(b))
}
pub fn iso(i: Iso) -> String {
    format!(
        "R={:?} t={:?}",
        i.rotation.matrix().as_slice(),
        i.translation.vector.as_slice()
    )
}
