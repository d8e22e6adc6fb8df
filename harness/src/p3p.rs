//! Perspective-three-point (specs/ThreePoints.tla): C18.
use crate::util::*;
use cv_core::nalgebra::*;
use cv_core::sample_consensus::Estimator;
use cv_core::*;
use lambda_twist::LambdaTwist;

/// C18
pub fn p3p(cx: &mut Ctx) {
    let v = cx.v;
    let p = pose(&v["pose"]);
    let pts: Vec<_> = cx.arr("pts").iter().map(v4).collect();
    let bs: Vec<_> = cx.arr("bs").iter().map(v3).collect();
    let (exact, far, collinear, single) = (cx.b("exact"), cx.b("far"), cx.b("collinear"), cx.b("single"));
    let square = cx.b("square");
    cx.check(<LambdaTwist as Estimator<FeatureWorldMatch>>::MIN_SAMPLES <= 3, "samples", || "needs more than three".into());
    for rep in 0..cx.reps {
        // another world frame (world = f world'), unit of distance and camera frame
        let (rc, f, k) = match rep {
            0 => (Rotation3::identity(), Iso::identity(), 1.0),
            _ => {
                let shift = cx.dir() * cx.unif(0.0, 5.0);
                (cx.rot(), Iso::from_parts(shift.into(), cx.rot()), cx.mag(-5.0, 5.0))
            }
        };
        let mut truth = p * f;
        truth.translation.vector *= k;
        let truth = Iso::from_parts((rc * truth.translation.vector).into(), rc * truth.rotation);
        let back = f.inverse().to_homogeneous();
        let mut ms: Vec<(Uv3, Vector4<f64>)> = (0..3)
            .map(|i| {
                let mut x = back * pts[i];
                x.w /= k;
                (unit(rc * bs[i]), x / x.norm())
            })
            .collect();
        if rep % 3 == 2 {
            cx.shuffle(&mut ms);
        }
        let data: Vec<_> = ms.iter().map(|(b, x)| FeatureWorldMatch(*b, WorldPoint::from_homogeneous(*x))).collect();
        let poses: Vec<WorldToCamera> = LambdaTwist::new().estimate(data.iter().copied()).into_iter().collect();
        let at = || format!("truth {} of {data:?} exact {exact} gave {} poses: {}", iso(truth), poses.len(), poses.iter().map(|p| iso(p.0)).collect::<Vec<_>>().join("; "));
        cx.check(poses.len() <= 4, "count", at);
        let class = match () {
            _ if far => "far",
            _ if collinear => "collinear",
            _ if !exact => "wrong",
            _ if !single => "danger",
            _ if square => "square",
            _ => "general",
        };
        cx.count(&format!("class:{class}"));
        let world: Vec<V3> = ms.iter().map(|(_, x)| x.xyz() / x.w).collect();
        let size = (world[0] - world[1]).norm() + (world[0] - world[2]).norm();
        for q in &poses {
            let ok = iso_finite(&q.0);
            cx.check(ok, &format!("finite-{class}"), at);
            if !ok {
                continue;
            }
            cx.close(rot_defect(&q.0.rotation), 1e-9, &format!("rigid-{class}"), at);
            if collinear {
                continue;
            }
            for (b, x) in &ms {
                // the distance of the point from the ray of its bearing
                let y = q.0.rotation * x.xyz() / x.w + q.0.translation.vector;
                let off = if y.dot(b) > 0.0 { y.cross(b).norm() } else { y.norm() };
                // (far away, for bearings that nearly agree, rounding leaves only the direction)
                cx.close((off / size).min(angle(&y, b) * 1e4), 1e-3, &format!("explains-{class}"), at);
            }
        }
        if !(single && exact) {
            continue;
        }
        // how well the depths are determined: derivatives of the three squared distances
        let u: Vec<V3> = ms.iter().map(|(_, x)| truth.rotation * x.xyz() / x.w + truth.translation.vector).collect();
        let l: Vec<f64> = u.iter().map(|u| u.norm()).collect();
        let d = |i: usize, j: usize| 2.0 * u[i].dot(&(u[i] - u[j])) / l[i];
        let jac = Matrix3::new(d(0, 1), d(1, 0), 0.0, d(0, 2), 0.0, d(2, 0), 0.0, d(1, 2), d(2, 1));
        let s = jac.singular_values();
        let cond = s.max() / s.min();
        let near = poses
            .iter()
            .map(|p| rot_dist(&p.0.rotation, &truth.rotation) + (p.0.translation.vector - truth.translation.vector).norm() / (l[0] + l[1] + l[2] + truth.translation.vector.norm()))
            .fold(f64::INFINITY, f64::min);
        if !(cond < 1e3) {
            cx.count("class:ill-conditioned");
            continue;
        }
        cx.count("class:determined");
        cx.close(near, 1e-4, &format!("true-pose-{class}"), at);
    }
}
