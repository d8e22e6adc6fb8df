//! Two views (specs/Epipolar.tla): C09, C10, C15 and the losses of C22.
use crate::util::*;
use cv_core::nalgebra::*;
use cv_core::sample_consensus::Model;
use cv_core::*;
use cv_geom::epipolar;
use cv_pinhole::EssentialMatrix;
use serde_json::Value;

/// One description of the scene of the vector: both cameras turned, distances in another unit.
struct View {
    turn_a: Matrix3<f64>,
    turn_b: Matrix3<f64>,
    unit: f64,
    pose: Iso,
    e: Matrix3<f64>,
}

fn view(cx: &mut Ctx, rep: usize) -> View {
    let (ta, tb, unit) = if rep == 0 {
        (Rotation3::identity(), Rotation3::identity(), 1.0)
    } else {
        (cx.rot(), cx.rot(), cx.mag(-3.0, 3.0))
    };
    let p = pose(&cx.v["pose"]);
    let e = m3(&cx.v["e"]) / cx.f("n");
    View {
        turn_a: ta.into_inner(),
        turn_b: tb.into_inner(),
        unit,
        pose: Iso::from_parts((tb * p.translation.vector * unit).into(), tb * p.rotation * ta.inverse()),
        e: tb.matrix() * e * ta.matrix().transpose() * unit,
    }
}
impl View {
    fn a(&self, o: &Value) -> V3 {
        self.turn_a * v3(&o["a"]).normalize()
    }
    fn b(&self, o: &Value) -> V3 {
        self.turn_b * v3(&o["b"]).normalize()
    }
    fn x(&self, o: &Value) -> Vector4<f64> {
        let x = v4(&o["x"]);
        (self.turn_a * x.xyz() * self.unit).push(x.w)
    }
    fn y(&self, o: &Value) -> V3 {
        self.turn_b * v3_(&o["y"]).normalize()
    }
}
/// xyz of a projective point
fn v3_(v: &Value) -> V3 {
    v4(v).xyz()
}

pub fn essential(cx: &mut Ctx) {
    for rep in 0..cx.reps {
        let w = view(cx, rep);
        let EssentialMatrix(e) = CameraToCamera(w.pose).into();
        let t = w.pose.translation.vector;
        let size = t.norm();
        let at = || format!("{} gave {e:?}", iso(w.pose));
        cx.close((e - w.e).norm(), 1e-12 * size, "matrix", at);
        let EssentialMatrix(inv) = CameraToCamera(w.pose).inverse().into();
        cx.close((inv - e.transpose()).norm(), 1e-12 * size, "inverse", at);
        cx.close((e.transpose() * t).norm(), 1e-12 * size * size, "left-null", at);
        let ee = e * e.transpose();
        cx.close(
            (ee - (Matrix3::identity() * t.norm_squared() - t * t.transpose())).norm(),
            1e-12 * size * size,
            "singular",
            at,
        );
        for o in cx.arr("obs") {
            let (a, b) = (w.a(o), w.b(o));
            if a.z.abs() < 0.02 || b.z.abs() < 0.02 {
                cx.count("class:grazing");
                continue;
            }
            let kind = o["kind"].as_str().unwrap();
            let (na, nb) = (v3(&o["a"]).norm(), v3(&o["b"]).norm());
            let form = num(&o["form"]) / cx.f("n") * w.unit / (na * nb) / (a.z * b.z);
            let m = FeatureMatch(unit(a), unit(b));
            for (sign, mat) in [(1.0, e), (-1.0, -e), (cx.mag(-3.0, 3.0), e)] {
                let r = EssentialMatrix(mat * sign).residual(&m);
                cx.close(
                    (r - form.abs() * sign.abs()).abs(),
                    1e-12 * size * sign.abs() / (a.z * b.z).abs(),
                    "residual",
                    || format!("{mat:?} times {sign}, {m:?}: {r} instead of {form}"),
                );
            }
            cx.count(&format!("class:{kind}"));
            if kind == "any" && num(&o["form"]) == 0.0 {
                cx.count("class:any-coplanar");
            }
        }
    }
}

/// Matches up two sets; the farthest two partners.
fn farthest<A: Copy>(xs: &[A], ys: &[A], dist: impl Fn(A, A) -> f64) -> f64 {
    if xs.len() != ys.len() {
        return f64::INFINITY;
    }
    let mut left: Vec<A> = ys.to_vec();
    let mut worst: f64 = 0.0;
    for &x in xs {
        let ds: Vec<f64> = left.iter().map(|&y| dist(x, y)).collect();
        if ds.iter().any(|d| d.is_nan()) {
            return f64::NAN;
        }
        let (i, d) = ds.iter().copied().enumerate().min_by(|a, b| a.1.partial_cmp(&b.1).unwrap()).unwrap();
        left.remove(i);
        worst = worst.max(d);
    }
    worst
}
fn iso_dist(a: Iso, b: Iso) -> f64 {
    rot_dist(&a.rotation, &b.rotation) + (a.translation.vector - b.translation.vector).norm()
}

pub fn decompose(cx: &mut Ctx) {
    let t0 = v3(&cx.v["pose"]["t"]);
    if t0 == V3::zeros() {
        return;
    }
    for rep in 0..cx.reps {
        let w = view(cx, rep);
        let t = w.turn_b * t0.normalize();
        let r = w.pose.rotation;
        let twist = Rotation3::from_matrix_unchecked(w.turn_b * rotq(&cx.v["twist"]).matrix() * w.turn_a.transpose());
        let want: Vec<Iso> = [(t, r), (-t, r), (t, twist), (-t, twist)]
            .into_iter()
            .map(|(t, r)| Iso::from_parts(t.into(), r))
            .collect();
        let k = cx.mag(-3.0, 3.0) / w.e.norm();
        let from_pose: EssentialMatrix = CameraToCamera(w.pose).into();
        // the documentation recommends at most 1e-6
        for (name, e, eps, tol) in [
            ("pose", from_pose.0, 1e-12, 1e-9),
            ("exact", w.e / w.e.norm(), 1e-9, 1e-7),
            ("scaled", w.e * k, 1e-12, 1e-9),
            ("negated", -w.e * k, 1e-6, 1e-4),
        ] {
            let m = EssentialMatrix(e);
            let at = |what: &dyn std::fmt::Debug| format!("{name} {e:?} of {}: {what:?}", iso(w.pose));
            let rots = m.possible_rotations(eps, 1000);
            match rots {
                Some(got) => {
                    cx.close(farthest(&got, &[r, twist], |a, b| rot_dist(&a, &b)), tol, &format!("rotations-{name}"), || at(&got));
                    for g in &got {
                        cx.close(rot_defect(g), tol, "proper", || at(g));
                    }
                }
                None => {
                    cx.check(false, &format!("rotations-{name}"), || at(&"None"));
                }
            };
            match m.possible_rotations_unscaled_translation(eps, 1000) {
                Some((ra, rb, tt)) => {
                    cx.close(farthest(&[ra, rb], &[r, twist], |a, b| rot_dist(&a, &b)), tol, &format!("parts-{name}"), || at(&(ra, rb, tt)));
                    cx.close((tt.normalize() - t).norm().min((tt.normalize() + t).norm()), tol, &format!("parts-{name}"), || at(&(ra, rb, tt)));
                    cx.check(tt.norm() > 0.0, "translation", || at(&tt));
                }
                None => {
                    cx.check(false, &format!("parts-{name}"), || at(&"None"));
                }
            }
            match m.possible_unscaled_poses(eps, 1000) {
                Some(got) => {
                    let got = got.map(|p| Iso::from_parts(p.0.translation.vector.normalize().into(), p.0.rotation));
                    cx.close(farthest(&got, &want, iso_dist), tol, &format!("poses-{name}"), || at(&got));
                    for g in got {
                        let EssentialMatrix(back) = CameraToCamera(g).into();
                        let (x, y) = (back / back.norm(), e / e.norm());
                        cx.close((x - y).norm().min((x + y).norm()), tol, "same-matrix", || at(&g));
                    }
                }
                None => {
                    cx.check(false, &format!("poses-{name}"), || at(&"None"));
                }
            }
            match m.possible_unscaled_poses_bearing(eps, 1000) {
                Some(got) => {
                    let got = got.map(|p| Iso::from_parts(p.0.translation.vector.normalize().into(), p.0.rotation));
                    let plus = farthest(&got, &[want[0], want[2]], iso_dist);
                    let minus = farthest(&got, &[want[1], want[3]], iso_dist);
                    cx.close(plus.min(minus), tol, &format!("bearing-{name}"), || at(&got));
                }
                None => {
                    cx.check(false, &format!("bearing-{name}"), || at(&"None"));
                }
            }
            cx.count(&format!("class:{name}"));
        }
    }
}

pub fn residuals(cx: &mut Ctx) {
    for rep in 0..cx.reps {
        let w = view(cx, rep);
        let baseline = w.pose.translation.vector.norm();
        for o in cx.arr("obs") {
            let kind = o["kind"].as_str().unwrap();
            let (a, b) = (w.a(o), w.b(o));
            let (x, y) = (w.x(o), w.y(o));
            // the pose as one of the world
            let r = WorldToCamera(w.pose).residual(&FeatureWorldMatch(unit(b), WorldPoint::from_homogeneous(x)));
            let want = 1.0 - b.dot(&y);
            cx.close((r - want).abs(), 1e-11, "world", || format!("{} point {x:?} bearing {b:?}: {r} instead of {want}", iso(w.pose)));
            if kind != "any" && x.w != 0.0 {
                // the sign of the exact answer comes from the specification
                let exact = num(&o["dot"]);
                cx.check((exact > 0.0) == !o["fb"].as_bool().unwrap(), "HARNESS", || o.to_string());
            }
            // the pose as a relative one
            let m = FeatureMatch(unit(a), unit(b));
            let r = CameraToCamera(w.pose).residual(&m);
            let at = || format!("{} {m:?} point {x:?}: {r}", iso(w.pose));
            cx.check((-1e-9..=2.0 + 1e-9).contains(&r), "range", at);
            if kind == "any" || x.w == 0.0 || baseline == 0.0 {
                cx.count("class:any");
                continue;
            }
            let p = x.xyz() / x.w;
            let depth_b = (w.pose.rotation * p + w.pose.translation.vector).norm();
            let parallax = (w.pose.rotation * p).cross(&w.pose.translation.vector).norm() / (p.norm() * depth_b);
            let scale = (p.norm() / baseline).max(baseline / p.norm()).max(depth_b / baseline).max(baseline / depth_b);
            if parallax < 0.02 || scale > 100.0 {
                cx.count("class:narrow");
                continue;
            }
            let flips = [&o["fa"], &o["fb"]].iter().filter(|f| f.as_bool().unwrap()).count();
            cx.close((r - flips as f64).abs(), 1e-6, &format!("flips-{flips}"), at);
            cx.count(&format!("class:flips-{flips}"));
        }
    }
}

/// The part of C22 about the loss.
pub fn losses(cx: &mut Ctx) {
    if v3(&cx.v["pose"]["t"]) == V3::zeros() {
        return;
    }
    for rep in 0..cx.reps {
        let w = view(cx, rep);
        for o in cx.arr("obs") {
            let kind = o["kind"].as_str().unwrap();
            let (a, b) = (w.pose.rotation * w.a(o), w.b(o));
            let t = w.pose.translation.vector;
            let ca = a.cross(&t).norm() / t.norm();
            let cb = b.cross(&t).norm() / t.norm();
            let k = cx.mag(-3.0, 3.0);
            let l = epipolar::loss(t, unit(a), unit(b));
            let at = || format!("t {t:?} a {a:?} b {b:?}: {l}");
            cx.check((0.0..=1.0 + 1e-9).contains(&l), "loss-range", at);
            if a.dot(&b) < 1e-6 || ca.max(cb) < 0.01 {
                cx.count("class:loss-open");
                continue;
            }
            // exact triple product of the specification
            let n = v3(&o["a"]).norm() * v3(&o["b"]).norm() * v3(&cx.v["pose"]["t"]).norm() / num(&cx.v["pose"]["d"]);
            let sine = num(&o["form"]).abs() / cx.f("n") / n;
            let want = sine / ca.max(cb);
            cx.close((l - want).abs(), 1e-9, "loss", || format!("t {t:?} a {a:?} b {b:?}: {l} instead of {want}"));
            for (name, other) in [
                ("swap", epipolar::loss(t, unit(b), unit(a))),
                ("unit", epipolar::loss(t * k, unit(a), unit(b))),
                ("opposite", epipolar::loss(-t, unit(a), unit(b))),
            ] {
                cx.close((l - other).abs(), 1e-9, &format!("loss-{name}"), || format!("t {t:?} a {a:?} b {b:?} k {k}: {l} and {other}"));
            }
            cx.count(&format!("class:loss-{kind}"));
            if sine == 0.0 {
                cx.count("class:loss-zero");
            }
        }
    }
}

/// specs/Recondition.tla, C11: the calls of the history, each on what the last one really returned.
pub fn recondition(cx: &mut Ctx) {
    for rep in 0..cx.reps {
        let (left, right, k) = if rep == 0 {
            (Rotation3::identity(), Rotation3::identity(), 1.0)
        } else {
            (cx.rot(), cx.rot(), cx.mag(-3.0, 3.0))
        };
        let (mut l, mut r) = (left, right);
        let want = |h: &Value, l: &Rotation3<f64>, r: &Rotation3<f64>| l.matrix() * (m3(&h["m"]) / num(&h["n"]) * k) * r.matrix().transpose();
        let sing = |h: &Value, i: usize| num(&h["s"][i]) / num(&h["d"]) * k;
        let hist = cx.arr("hist");
        let mut m = want(&hist[0], &l, &r);
        for (i, h) in hist.iter().enumerate().skip(1) {
            let op = arr(&h["op"]);
            let before = m;
            match op[0].as_str().unwrap() {
                "recondition" => {
                    let got = EssentialMatrix(m).recondition(1e-12, 1000);
                    let Some(EssentialMatrix(e)) = got else {
                        cx.check(false, "some", || format!("nothing for {m:?}"));
                        break;
                    };
                    m = e;
                    let at = || format!("{before:?} gave {m:?}");
                    // an essential matrix, in any case
                    let size = sing(h, 0);
                    let ee = m * m.transpose();
                    cx.close(m.determinant().abs(), 1e-9 * size.powi(3), "det", at);
                    cx.close((2.0 * ee * m - ee.trace() * m).norm(), 1e-9 * size.powi(3), "trace", at);
                    cx.close((m.norm_squared() - 2.0 * size * size).abs(), 1e-9 * size * size, "mean", at);
                    if !hist[i - 1]["det"].as_bool().unwrap() {
                        cx.count("class:undetermined");
                        break;
                    }
                    cx.count("class:recondition");
                    // it stands for the same poses
                    let dets = sing(&hist[i - 1], 1) - sing(&hist[i - 1], 2);
                    if dets > 0.01 * size {
                        let x = EssentialMatrix(before).possible_unscaled_poses(1e-12, 1000);
                        let y = EssentialMatrix(m).possible_unscaled_poses(1e-12, 1000);
                        match (x, y) {
                            (Some(x), Some(y)) => {
                                cx.close(farthest(&x, &y, |a, b| iso_dist(a.0, b.0)), 1e-6, "same-poses", || {
                                    format!("{before:?} gave {m:?}: {x:?} {y:?}")
                                });
                            }
                            _ => {
                                cx.check(false, "same-poses", at);
                            }
                        }
                    }
                }
                "transpose" => {
                    m.transpose_mut();
                    std::mem::swap(&mut l, &mut r);
                }
                "negate" => m = -m,
                "scale" => m *= num(&op[1]) / num(&op[2]),
                "left" => m = l.matrix() * rotq(&op[1]).matrix() * l.matrix().transpose() * m,
                "right" => m = m * r.matrix() * rotq(&op[1]).matrix().transpose() * r.matrix().transpose(),
                "disturb" => m = want(h, &l, &r),
                o => panic!("HARNESS: unknown operation {o}"),
            }
            let w = want(h, &l, &r);
            // the closest essential matrix depends on the gap between the singular values
            cx.close((m - w).norm(), 1e-9 * w.norm(), "matrix", || format!("{} of {before:?} gave {m:?} instead of {w:?}", op[0]));
        }
    }
}
