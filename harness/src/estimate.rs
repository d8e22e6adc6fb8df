//! Estimators from matches (specs/Matches.tla): C17, C19.
use crate::util::*;
use cv_core::nalgebra::*;
use cv_core::sample_consensus::Estimator;
use cv_core::*;
use cv_pinhole::EssentialMatrix;
use eight_point::EightPoint;
use nister_stewenius::NisterStewenius;
use serde_json::Value;

/// One concretisation of a vector: both cameras turned, and another unit of distance.
struct Scene {
    pose: Iso,
    a: Vec<V3>,
    b: Vec<V3>,
}

fn scene(cx: &mut Ctx, v: &Value, rep: usize) -> Scene {
    let p = pose(&v["pose"]);
    let ms = arr(&v["ms"]);
    let (ra, rb, k) = match rep {
        0 => (Rotation3::identity(), Rotation3::identity(), 1.0),
        _ => (cx.rot(), cx.rot(), cx.mag(-6.0, 6.0)),
    };
    let rotation = rb * p.rotation * ra.inverse();
    let translation = rb * p.translation.vector * k;
    Scene {
        pose: Iso::from_parts(translation.into(), rotation),
        a: ms.iter().map(|m| (ra * v3(&m["a"])).normalize()).collect(),
        b: ms.iter().map(|m| (rb * v3(&m["b"])).normalize()).collect(),
    }
}

impl Scene {
    fn matches(&self) -> Vec<FeatureMatch> {
        self.a.iter().zip(&self.b).map(|(a, b)| FeatureMatch(UnitVector3::new_unchecked(*a), UnitVector3::new_unchecked(*b))).collect()
    }
    fn essential(&self) -> Matrix3<f64> {
        let e = self.pose.translation.vector.cross_matrix() * self.pose.rotation.matrix();
        e / e.norm()
    }
}

fn essential(p: &Iso) -> Matrix3<f64> {
    p.translation.vector.cross_matrix() * p.rotation.matrix()
}
/// distance between lines through two matrices
fn apart(e: &Matrix3<f64>, f: &Matrix3<f64>) -> f64 {
    let (e, f) = (e / e.norm(), f / f.norm());
    let d = (e - f).norm().min((e + f).norm());
    if d.is_nan() { f64::INFINITY } else { d }
}
/// nonzero singular values of the equations of the first n matches, largest first
fn design(a: &[V3], b: &[V3], n: usize) -> Vec<f64> {
    let mut m = DMatrix::zeros(n, 9);
    for i in 0..n {
        for j in 0..3 {
            for k in 0..3 {
                m[(i, 3 * j + k)] = b[i][j] * a[i][k];
            }
        }
    }
    let mut s: Vec<f64> = m.svd(false, false).singular_values.iter().copied().collect();
    s.sort_by(|x, y| y.partial_cmp(x).unwrap());
    s
}

fn sound_poses(cx: &mut Ctx, key: &str, poses: &[CameraToCamera]) {
    for p in poses {
        let ok = iso_finite(&p.0);
        cx.check(ok, &format!("{key}-finite"), || iso(p.0));
        if ok {
            cx.close(rot_defect(&p.0.rotation), 1e-9, &format!("{key}-rigid"), || iso(p.0));
            cx.close((p.0.translation.vector.norm() - 1.0).abs(), 1e-9, &format!("{key}-rigid"), || iso(p.0));
        }
    }
}
/// whether one of the poses is the given one up to the length of the translation
fn nearest(poses: &[CameraToCamera], r: &Rotation3<f64>, t: &V3) -> f64 {
    poses
        .iter()
        .map(|p| rot_dist(&p.0.rotation, r) + (p.0.translation.vector.normalize() - t.normalize()).norm())
        .fold(f64::INFINITY, f64::min)
}

fn min_samples<E: Estimator<FeatureMatch>>(_: &E) -> usize {
    E::MIN_SAMPLES
}

/// C17
pub fn eight(cx: &mut Ctx) {
    for rep in 0..cx.reps {
        let v = cx.v;
        let sc = scene(cx, v, rep);
        let mut data = sc.matches();
        if rep % 3 == 2 && data.len() == 8 {
            cx.shuffle(&mut data);
        }
        let n = data.len();
        let est = EightPoint::new();
        let e = est.from_matches(data.iter().copied());
        let poses: Vec<_> = est.estimate(data.iter().copied()).into_iter().collect();
        let at = || format!("{n} matches of {}: {:?} {}", iso(sc.pose), e, poses.iter().map(|p| iso(p.0)).collect::<Vec<_>>().join("; "));
        cx.check(poses.len() <= 4, "count", at);
        cx.check(min_samples(&est) <= 8, "samples", at);
        sound_poses(cx, "pose", &poses);
        if data.iter().any(|m| m.0.z.abs() < 1e-6 || m.1.z.abs() < 1e-6) {
            cx.count("class:in-plane");
        }
        if let Some(e) = e {
            cx.check(finite(e.0.as_slice()), "finite", at);
            cx.check(e.0.norm() > 0.0, "nonzero", at);
            let e = e.0 / e.0.norm();
            // whatever the matches are, the first eight satisfy it
            for m in data.iter().take(8) {
                cx.close((m.1.transpose() * e * m.0.into_inner())[0].abs(), 3e-4, "constraint", at);
            }
            cx.count(if n < 8 { "class:few" } else { "class:eight" });
        }
        if n < 8 || !cx.b("eight") {
            continue;
        }
        let a: Vec<_> = data.iter().map(|m| m.0.into_inner()).collect();
        let b: Vec<_> = data.iter().map(|m| m.1.into_inner()).collect();
        let s = design(&a, &b, 8);
        let tol = 1e-12 * (s[0] / s[7]).powi(2);
        if !(tol < 1e-4) {
            cx.count("class:ill-conditioned");
            continue;
        }
        cx.count("class:determined");
        let want = sc.essential();
        match e {
            None => {
                cx.check(false, "none", at);
            }
            Some(e) => {
                cx.close(apart(&e.0, &want), 1e-9 + tol, "essential", at);
                for m in &data {
                    let r = (m.1.transpose() * (e.0 / e.0.norm()) * m.0.into_inner())[0].abs();
                    cx.close(r, 1e-9 + tol, "residual", at);
                }
                cx.close(nearest(&poses, &sc.pose.rotation, &sc.pose.translation.vector), 1e-7 + tol.sqrt().min(100.0 * tol), "pose", at);
                let t = sc.pose.translation.vector;
                let twist = Rotation3::from_axis_angle(&unit(t), std::f64::consts::PI) * sc.pose.rotation;
                for (r, t) in [(sc.pose.rotation, -t), (twist, t), (twist, -t)] {
                    cx.close(nearest(&poses, &r, &t), 1e-7 + tol.sqrt().min(100.0 * tol), "other-poses", at);
                }
            }
        }
    }
}

/// C19
pub fn five(cx: &mut Ctx) {
    let v = cx.v;
    if arr(&v["ms"]).len() < 5 {
        return;
    }
    for rep in 0..cx.reps {
        let sc = scene(cx, v, rep);
        let mut data: Vec<_> = sc.matches().into_iter().take(5).collect();
        if rep % 3 == 2 {
            cx.shuffle(&mut data);
        }
        let est = NisterStewenius::new();
        let poses: Vec<_> = est.estimate(data.iter().copied()).into_iter().collect();
        let at = || format!("{} gave {} poses: {}", iso(sc.pose), poses.len(), poses.iter().take(4).map(|p| iso(p.0)).collect::<Vec<_>>().join("; "));
        cx.check(poses.len() <= 40, "count", at);
        cx.check(min_samples(&est) <= 5, "samples", at);
        sound_poses(cx, "pose", &poses);
        let a: Vec<_> = data.iter().map(|m| m.0.into_inner()).collect();
        let b: Vec<_> = data.iter().map(|m| m.1.into_inner()).collect();
        cx.count(if poses.is_empty() { "class:no-poses" } else { "class:poses" });
        if !cx.b("five") {
            cx.count("class:undetermined");
            continue;
        }
        for p in &poses {
            let e = essential(&p.0);
            for i in 0..5 {
                cx.close((b[i].transpose() * e * a[i])[0].abs(), 1e-3, "constraint", || format!("{} from {}", iso(p.0), at()));
            }
        }
        // how well the true pose is determined by the five matches
        let s = design(&a, &b, 5);
        let (r, t) = (sc.pose.rotation, sc.pose.translation.vector.normalize());
        let m = DMatrix::from_fn(5, 6, |i, j| {
            let ra = r * a[i];
            let mut ax = V3::zeros();
            ax[j % 3] = 1.0;
            if j < 3 { b[i].dot(&t.cross(&ax.cross(&ra))) } else { b[i].dot(&ax.cross(&ra)) }
        });
        let mut q: Vec<f64> = m.svd(false, false).singular_values.iter().copied().collect();
        q.sort_by(|x, y| y.partial_cmp(x).unwrap());
        let cond = 1.0 / (q[4] * s[4] / s[0]);
        if !(cond < 300.0) {
            cx.count("class:ill-conditioned");
            continue;
        }
        cx.count("class:determined");
        cx.close(nearest(&poses, &r, &t), 1e-5, "true-pose", at);
    }
}
