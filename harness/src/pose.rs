//! Histories of specs/Pose.tla through cv-core's poses and projective points (C01, C02).
use crate::util::*;
use cv_core::nalgebra::*;
use cv_core::*;
use serde_json::Value;

/// homogeneous vector of the specification's point in a unit of distance 1/s
fn hom(v: &Value, s: f64) -> Vector4<f64> {
    let x = v4(v);
    Vector4::new(x[0], x[1], x[2], x[3] / s)
}
fn scaled(v: &Value, s: f64) -> Iso {
    let mut i = pose(v);
    i.translation.vector *= s;
    i
}

/// Everything that is promised about a point which ought to be `want`.
fn canonical<P: Projective>(cx: &mut Ctx, p: P, want: Vector4<f64>, tol: f64, kind: &str) {
    let h = p.homogeneous();
    let at = || format!("{kind} {h:?}, expected the point {want:?}");
    cx.close((h.xyz().norm() - 1.0).abs(), 1e-12, "canonical-unit", at);
    cx.check(h.w >= 0.0 && h.w.is_finite(), "canonical-sign", at);
    let r = want.xyz().norm();
    let dir = want.xyz() / r;
    cx.close((p.bearing().into_inner() - dir).norm(), tol, "bearing", at);
    let w = want.w / r;
    cx.close((h.w - w).abs(), tol * w, "distance", at);
    match p.point() {
        Some(e) => {
            if cx.check(want.w != 0.0, "euclid-infinite", at) {
                let x = want.xyz() / want.w;
                cx.close((e.coords - x).norm(), 2.0 * tol * x.norm(), "euclid", at);
                let q = P::from_point(e);
                cx.close(
                    (q.homogeneous() - h).xyz().norm(),
                    1e-12,
                    "euclid-and-back",
                    at,
                );
                cx.close(
                    (q.homogeneous().w - h.w).abs(),
                    1e-12 * w,
                    "euclid-and-back",
                    at,
                );
            }
            cx.count("class:finite");
        }
        None => {
            cx.check(want.w == 0.0, "euclid-absent", at);
            cx.count("class:infinite");
        }
    }
}

/// Points made from homogeneous vectors in every way.
fn representations<P: Projective>(cx: &mut Ctx, x: &Value, kind: &str) {
    let s = cx.mag(-12.0, 12.0);
    let want = hom(x, s);
    let k = cx.mag(-60.0, 60.0);
    let p = P::from_homogeneous(want * k);
    canonical(cx, p, want, 1e-12, kind);
    canonical(cx, P::from_homogeneous(p.homogeneous()), want, 1e-12, kind);
    canonical(cx, P::from_homogeneous_unchecked(p.homogeneous()), want, 1e-12, kind);
    if want.w != 0.0 {
        // the other sign is the same point
        let n = P::from_homogeneous(want * -k);
        canonical(cx, n, want, 1e-12, kind);
        canonical(cx, P::from_point(Point3::from(want.xyz() / want.w)), want, 1e-12, kind);
        cx.count("class:negated");
    }
    if p.homogeneous().w > 0.0 {
        cx.check(p.point().is_some(), "euclid-absent", || format!("{:?}", p.homogeneous()));
    }
}

struct State {
    iso: Iso,
    pt: Vector4<f64>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Want {
    Points,
    Poses,
}

/// Checks of a single state, for one kind of pose.
fn state<P: Pose>(cx: &mut Ctx, i: Iso, x: Vector4<f64>, out: Vector4<f64>, tol: f64, want: Want, kind: &str)
where
    P::Inverse: Pose<InputPoint = P::OutputPoint, OutputPoint = P::InputPoint>,
{
    let p = P::from(i);
    let x = P::InputPoint::from_homogeneous(x);
    let y = p.transform(x);
    if want == Want::Points {
        canonical(cx, y, out, tol, kind);
        return;
    }
    let at = || format!("{kind} {} at {:?}", iso(i), x.homogeneous());
    let seen = |cx: &mut Ctx, h: Vector4<f64>, key: &str| {
        let r = out.xyz().norm();
        cx.close((h.xyz() - out.xyz() / r).norm(), tol, key, at);
        cx.close((h.w - out.w / r).abs(), tol * out.w / r, key, at);
    };
    seen(cx, y.homogeneous(), "transform");
    let inv = p.inverse();
    let back = inv.transform(y).homogeneous();
    cx.close((back - x.homogeneous()).xyz().norm(), tol, "undone", at);
    cx.close(
        (back - x.homogeneous()).w.abs(),
        tol * x.homogeneous().w,
        "undone",
        at,
    );
    let t = i.translation.vector.norm();
    let same = |cx: &mut Ctx, a: Iso, b: Iso, key: &str| {
        cx.close(rot_dist(&a.rotation, &b.rotation), 1e-12, key, at);
        cx.close((a.translation.vector - b.translation.vector).norm(), 1e-12 * t, key, at);
    };
    same(cx, inv.isometry(), i.inverse(), "inverse");
    same(cx, p.isometry(), i, "isometry");
    same(cx, P::from_parts(i.translation.vector, i.rotation).isometry(), i, "from-parts");
    same(cx, P::identity().isometry() * i, i, "identity");
    let m = p.homogeneous();
    let top = m.fixed_slice::<3, 3>(0, 0) - i.rotation.matrix();
    cx.close(top.norm(), 1e-12, "matrix", at);
    cx.close((m.fixed_slice::<3, 1>(0, 3) - i.translation.vector).norm(), 1e-12 * t, "matrix", at);
    cx.close((m.row(3) - RowVector4::new(0.0, 0.0, 0.0, 1.0)).norm(), 0.0, "matrix", at);
    // the other sign and another factor of the homogeneous vector are the same point
    if out.w != 0.0 {
        let h = p.transform(P::InputPoint::from_homogeneous(-3.0 * x.homogeneous()));
        seen(cx, h.homogeneous(), "transform-negated");
    }
}

pub fn points(cx: &mut Ctx) {
    history(cx, Want::Points)
}
pub fn poses(cx: &mut Ctx) {
    history(cx, Want::Poses)
}

fn history(cx: &mut Ctx, want: Want) {
    for rep in 0..cx.reps {
        let s = if rep == 0 { 1.0 } else { cx.mag(-6.0, 6.0) };
        let hist = cx.arr("hist");
        let mut st = State {
            iso: scaled(&hist[0]["pose"], s),
            pt: hom(&hist[0]["pt"], s),
        };
        // longest translation so far, and how much the point has been amplified
        let mut tmax = 0.0f64;
        let mut amp = 1.0f64;
        for (k, h) in hist.iter().enumerate() {
            let op = arr(&h["op"]);
            let name = op[0].as_str().unwrap();
            tmax = tmax.max(num4(&h["pose"]) * s);
            let cw = WorldToCamera::from(st.iso);
            let x = WorldPoint::from_homogeneous(st.pt);
            match name {
                "init" => {}
                "after" => {
                    let m = scaled(&op[1], s);
                    tmax = tmax.max(m.translation.vector.norm());
                    st.iso = CameraToCamera::from(m).isometry() * cw.isometry();
                }
                "before" => {
                    let m = scaled(&op[1], s);
                    tmax = tmax.max(m.translation.vector.norm());
                    st.iso = cw.isometry() * WorldToWorld::from(m).isometry();
                }
                "invert" => {
                    st.pt = cw.transform(x).homogeneous();
                    st.iso = cw.inverse().isometry();
                }
                "rescale" => {
                    st.iso = cw.scale(num(&op[1]) / num(&op[2])).isometry();
                }
                "rebuild" => {
                    let m = cw.homogeneous();
                    let t = m.fixed_slice::<3, 1>(0, 3).into_owned();
                    let r = Rotation3::from_matrix_unchecked(m.fixed_slice::<3, 3>(0, 0).into_owned());
                    st.iso = CameraToWorld::from_parts(t, r).isometry();
                }
                "reframe" => {
                    let m = scaled(&op[1], s);
                    tmax = tmax.max(m.translation.vector.norm());
                    let w = WorldToWorld::from(m);
                    st.pt = w.transform(x).homogeneous();
                    st.iso = cw.isometry() * w.inverse().isometry();
                }
                "toworld" => {
                    let m = scaled(&op[1], s);
                    tmax = tmax.max(m.translation.vector.norm());
                    st.iso = WorldToWorld::from_camera_poses(cw, m.into()).isometry();
                }
                "advance" => st.pt = cw.transform(x).homogeneous(),
                "rehomog" => st.pt = WorldPoint::from_homogeneous(st.pt * num(&op[1])).homogeneous(),
                "euclid" => {
                    let e = match WorldPoint::from_homogeneous(st.pt).point() {
                        Some(e) => e,
                        None => {
                            cx.check(false, "euclid-absent", || format!("{:?}", st.pt));
                            return;
                        }
                    };
                    st.pt = CameraPoint::from_point(e).homogeneous();
                }
                "observe" => st.pt = WorldPoint::from_homogeneous(hom(&op[1], s)).homogeneous(),
                o => panic!("HARNESS: unknown operation {o}"),
            }
            let (px, out) = (hom(&h["pt"], s), hom(&h["out"], s));
            let len = |x: &Vector4<f64>| x.xyz().norm() / x.w;
            let cond = |x: &Vector4<f64>| if x.w == 0.0 { 1.0 } else { 1.0 + tmax / len(x) };
            match name {
                "observe" => amp = 1.0,
                "invert" | "reframe" | "advance" => amp *= cond(&px).max(1.0) * 2.0,
                _ => {}
            }
            let here = if out.w == 0.0 { 1.0 } else { (len(&px) + tmax) / len(&out) };
            let tol = 4e-14 * (k as f64 + 2.0) * amp * (1.0 + here) * cond(&px).max(1.0);
            if tol > 1e-7 {
                cx.count("class:ill-conditioned");
                return;
            }
            cx.count(&format!("class:{name}"));
            let what = || format!("step {k} ({name}) of the history, unit {s:e}: {} {:?}", iso(st.iso), st.pt);
            let ex = scaled(&h["pose"], s);
            if want == Want::Poses {
                cx.close(rot_dist(&st.iso.rotation, &ex.rotation), 1e-12, "pose-rotation", what);
                let d = (st.iso.translation.vector - ex.translation.vector).norm();
                cx.close(d, 4e-14 * (k as f64 + 2.0) * tmax, "pose-translation", what);
                let n = px.xyz().norm();
                let hp = WorldPoint::from_homogeneous(st.pt).homogeneous();
                cx.close((hp.xyz() - px.xyz() / n).norm(), tol, "point", what);
                cx.close((hp.w - px.w / n).abs(), tol * px.w / n, "point", what);
            } else {
                canonical(cx, WorldPoint::from_homogeneous(st.pt), px, tol, "along");
                representations::<WorldPoint>(cx, &h["pt"], "WorldPoint");
                representations::<CameraPoint>(cx, &h["out"], "CameraPoint");
            }
            state::<WorldToCamera>(cx, st.iso, st.pt, out, tol, want, "WorldToCamera");
            state::<CameraToWorld>(cx, st.iso, st.pt, out, tol, want, "CameraToWorld");
            state::<CameraToCamera>(cx, st.iso, st.pt, out, tol, want, "CameraToCamera");
            state::<WorldToWorld>(cx, st.iso, st.pt, out, tol, want, "WorldToWorld");
        }
    }
}

fn num4(v: &Value) -> f64 {
    v3(&v["t"]).norm() / num(&v["d"])
}
