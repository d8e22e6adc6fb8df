//! Camera models (specs/Camera.tla, C06 to C08) and reprojection errors (specs/Reprojection.tla, C16).
use crate::util::*;
use cv_core::nalgebra::*;
use cv_core::*;
use cv_geom::triangulation::*;
use cv_pinhole::*;
use serde_json::Value;

/// Configures the camera by the calls of the history; `c` scales the image.
fn build(cx: &mut Ctx, c: f64, check: bool) -> CameraIntrinsics {
    let mut cam = CameraIntrinsics::identity();
    for op in cx.arr("hist") {
        let op = arr(op);
        let f = |i: usize| num(&op[i]) / 2.0 * c;
        let before = cam;
        let name = op[0].as_str().unwrap();
        match name {
            "identity" => {
                cam = CameraIntrinsics::identity();
                if check {
                    cx.check(cam.matrix() == Matrix3::identity(), "identity", || format!("{cam:?}"));
                }
                // in units in which c = 1
                cam.focals *= c;
            }
            "focals" => cam = cam.focals(Vector2::new(f(1), f(2))),
            "focal" => cam = cam.focal(f(1)),
            "principal_point" => cam = cam.principal_point(Point2::new(f(1), f(2))),
            "skew" => cam = cam.skew(f(1)),
            "sensor" => {
                let pixels = Vector2::new(num(&op[1]) as usize, num(&op[2]) as usize);
                let size = Vector2::new(cx.mag(-4.0, 0.0), cx.mag(-4.0, 0.0));
                let spec = CameraSpecification::from_sensor(pixels, size);
                let square = CameraSpecification::from_sensor_square(pixels, size.x);
                let focal = num(&op[3]) / 2.0;
                cam = if cx.int(0, 1) == 0 { spec } else { square }.intrinsics_centered(focal);
                if check {
                    let (pw, ph) = (size.x / pixels.x as f64, size.y / pixels.y as f64);
                    let at = || format!("{pixels:?} {size:?}: {spec:?} {square:?} {cam:?}");
                    cx.check(spec.pixels == pixels && square.pixels == pixels, "sensor-pixels", at);
                    cx.close((spec.pixel_dimensions - Vector2::new(pw, ph)).norm(), 1e-12 * pw.max(ph), "sensor-size", at);
                    cx.close((square.pixel_dimensions - Vector2::new(pw, pw)).norm(), 1e-12 * pw, "sensor-square", at);
                    let other = square.intrinsics_centered(focal);
                    cx.check(other == cam, "sensor-centred", at);
                    cx.count("class:sensor");
                }
                cam.focals *= c;
                cam.principal_point *= c;
            }
            o => panic!("HARNESS: unknown operation {o}"),
        }
        if check {
            cx.count(&format!("class:{name}"));
            let at = || format!("{name}: {before:?} became {cam:?}");
            let (focals, point, skew) = (cam.focals != before.focals, cam.principal_point != before.principal_point, cam.skew != before.skew);
            let ok = match name {
                "focal" | "focals" => !point && !skew,
                "principal_point" => !focals && !skew,
                "skew" => !focals && !point,
                _ => true,
            };
            cx.check(ok, "setter", at);
        }
    }
    cam
}

fn want_cam(v: &Value, c: f64) -> CameraIntrinsics {
    let f = |k: &str| num(&v[k]) / 2.0 * c;
    CameraIntrinsics {
        focals: Vector2::new(f("fx"), f("fy")),
        principal_point: Point2::new(f("px"), f("py")),
        skew: f("s"),
    }
}

fn pixel(v: &Value, c: f64) -> Option<Vector2<f64>> {
    let p = v3(v);
    (p.z != 0.0).then(|| Vector2::new(p.x, p.y) / p.z / 2.0 * c)
}

/// pixel and bearing of one another
fn pair(cx: &mut Ctx, m: &impl CameraModel, cam: &CameraIntrinsics, ray: V3, px: Vector2<f64>, key: &str) {
    let bearing = unit(ray);
    let at = || format!("{cam:?} ray {ray:?} pixel {px:?}");
    // errors are relative to the terms that are added up
    let (x, y) = (ray.x / ray.z, ray.y / ray.z);
    let pp = cam.principal_point.coords.norm();
    let size = pp + (cam.focals.x * x).abs() + (cam.focals.y * y).abs() + (cam.skew * y).abs();
    match m.uncalibrate(bearing) {
        Some(k) => cx.close((k.0.coords - px).norm(), 1e-10 * size, &format!("{key}-pixel"), at),
        None => cx.check(false, &format!("{key}-pixel"), at),
    };
    let b = m.calibrate(KeyPoint(px.into()));
    cx.close((b.norm() - 1.0).abs(), 1e-12, &format!("{key}-unit"), at);
    cx.check(b.z > 0.0, &format!("{key}-front"), at);
    let f = cam.focals.x.abs().min(cam.focals.y.abs());
    let steep = (1.0 + cam.skew.abs() / f) * (1.0 + size / f);
    if steep < 1e6 {
        cx.close((b.into_inner() - bearing.into_inner()).norm(), 1e-11 * steep, &format!("{key}-bearing"), at);
    }
    // and round trips
    match m.uncalibrate(b) {
        Some(k) => cx.close((k.0.coords - px).norm(), 1e-9 * size, &format!("{key}-round"), at),
        None => cx.check(false, &format!("{key}-round"), at),
    };
}

pub fn pinhole(cx: &mut Ctx) {
    if num(&cx.arr("k1")[0]) != 0.0 {
        return;
    }
    for rep in 0..cx.reps {
        let c = if rep == 0 { 1.0 } else { cx.mag(-3.0, 3.0) };
        let cam = want_cam(&cx.v["cam"], c);
        for o in cx.arr("obs") {
            let ray = v3(&o["ray"]) * cx.mag(-6.0, 6.0);
            match pixel(&o["pixel"], c) {
                Some(p) => {
                    pair(cx, &cam, &cam, ray, p, "exact");
                    cx.count("class:seen");
                }
                None => {
                    cx.check(cam.uncalibrate(unit(ray)).is_none(), "behind", || format!("{cam:?} {ray:?}"));
                    cx.count("class:unseen");
                }
            }
        }
        // any other ray
        let d = cx.dir();
        let (x, y) = (d.x / d.z, d.y / d.z);
        if d.z > 1e-3 {
            let px = Vector2::new(cam.focals.x * x + cam.skew * y, cam.focals.y * y) + cam.principal_point.coords;
            pair(cx, &cam, &cam, d, px, "any");
        } else if d.z < 0.0 {
            cx.check(cam.uncalibrate(unit(d)).is_none(), "behind", || format!("{cam:?} {d:?}"));
        }
        // just in front of and just behind the plane of the camera
        let z = cx.mag(-12.0, -2.0);
        let g = unit(V3::new(d.x, d.y, z));
        cx.check(cam.uncalibrate(g).is_some(), "grazing", || format!("{cam:?} {g:?}"));
        let g = unit(V3::new(d.x, d.y, -z));
        cx.check(cam.uncalibrate(g).is_none(), "behind", || format!("{cam:?} {g:?}"));
    }
}

pub fn distorted(cx: &mut Ctx) {
    let k = nums(&cx.v["k1"]);
    for rep in 0..cx.reps {
        let c = if rep == 0 { 1.0 } else { cx.mag(-3.0, 3.0) };
        let cam = want_cam(&cx.v["cam"], c);
        let k1 = k[0] / k[1];
        let m = CameraIntrinsicsK1Distortion::new(cam, k1);
        cx.check(m.simple_intrinsics == cam && m.k1 == k1, "new", || format!("{m:?}"));
        for o in cx.arr("obs") {
            let ray = v3(&o["ray"]) * cx.mag(-6.0, 6.0);
            match pixel(&o["pixel"], c) {
                Some(p) => {
                    near_limit(cx, &m, ray, p);
                    cx.count(if k1 == 0.0 { "class:undistorted" } else { "class:seen" });
                }
                None => {
                    cx.check(m.uncalibrate(unit(ray)).is_none(), "absent", || format!("{m:?} {ray:?}"));
                    cx.count(if ray.z > 0.0 { "class:beyond" } else { "class:behind" });
                }
            }
        }
        if k1 == 0.0 {
            // the model without distortion is the pinhole model
            let d = cx.dir();
            let px = KeyPoint(Point2::new(cx.gauss(), cx.gauss()) * 100.0 * c);
            let at = || format!("{m:?} {d:?} {px:?}");
            cx.close((m.calibrate(px).into_inner() - cam.calibrate(px).into_inner()).norm(), 1e-12, "plain", at);
            match (m.uncalibrate(unit(d)), cam.uncalibrate(unit(d))) {
                (None, None) => {}
                (Some(a), Some(b)) => {
                    let size = 1.0 + a.0.coords.norm() + cam.principal_point.coords.norm();
                    cx.close((a.0 - b.0).norm(), 1e-9 * size, "plain", at);
                }
                _ => {
                    cx.check(false, "plain", at);
                }
            }
            continue;
        }
        // any k1 and any position in the image within the range, down to the centre
        let k1 = k1 * cx.mag(-6.0, 1.0);
        let m = CameraIntrinsicsK1Distortion::new(cam, k1);
        let rho = if cx.int(0, 3) == 0 { 1.0 - cx.mag(-3.0, -0.1) } else { cx.mag(-30.0, -0.05) };
        let th = cx.unif(0.0, 7.0);
        let r = (rho / k1.abs()).sqrt();
        let d = Vector2::new(r * th.cos(), r * th.sin());
        let u = d / (1.0 + k1.signum() * rho);
        let px = Vector2::new(cam.focals.x * d.x + cam.skew * d.y, cam.focals.y * d.y) + cam.principal_point.coords;
        near_limit(cx, &m, V3::new(u.x, u.y, 1.0), px);
        // the principal point
        let z = cx.mag(-3.0, 3.0);
        near_limit(cx, &m, V3::new(0.0, 0.0, z), cam.principal_point.coords);
        // beyond the range and behind the camera
        if k1 > 0.0 {
            let u = 0.5 / k1.sqrt() * (1.0 + cx.mag(-6.0, 6.0));
            let b = unit(V3::new(u * th.cos(), u * th.sin(), 1.0));
            cx.check(m.uncalibrate(b).is_none(), "absent", || format!("{m:?} {b:?}"));
        }
        let d = cx.dir();
        let b = unit(V3::new(d.x, d.y, -d.z.abs()));
        cx.check(m.uncalibrate(b).is_none(), "absent", || format!("{m:?} {b:?}"));
    }
}

/// Close to the limit of the range the position in the image is the root of a nearly degenerate quadratic.
fn near_limit(cx: &mut Ctx, m: &CameraIntrinsicsK1Distortion, ray: V3, px: Vector2<f64>) {
    let cam = m.simple_intrinsics;
    let u2 = (ray.x * ray.x + ray.y * ray.y) / (ray.z * ray.z);
    let disc = (1.0 - 4.0 * m.k1 * u2).max(0.0);
    let at = || format!("{m:?} ray {ray:?} pixel {px:?}");
    let bearing = unit(ray);
    let off = (px - cam.principal_point.coords).norm();
    let f = cam.focals.x.abs().min(cam.focals.y.abs());
    let skewed = 1.0 + cam.skew.abs() / f + cam.focals.x.abs().max(cam.focals.y.abs()) / f;
    let size = (cam.principal_point.coords.norm() + off) * skewed * skewed;
    // d(position)/d(ray) grows with 1/sqrt(discriminant), and with the distance to the k1 < 0 pole
    let pole = (1.0 + 4.0 * m.k1.abs() * u2) / disc.max(1e-300).sqrt();
    if pole * size / f > 1e6 {
        cx.count("class:ill-conditioned");
        return;
    }
    match m.uncalibrate(bearing) {
        Some(k) => cx.close((k.0.coords - px).norm(), 1e-11 * pole * size, "pixel", at),
        None => cx.check(false, "pixel", at),
    };
    let b = m.calibrate(KeyPoint(px.into()));
    cx.close((b.norm() - 1.0).abs(), 1e-12, "unit", at);
    cx.check(b.z > 0.0, "front", at);
    cx.close((b.into_inner() - bearing.into_inner()).norm(), 1e-11 * pole * (1.0 + size / f), "bearing", at);
    match m.uncalibrate(b) {
        Some(k) => cx.close((k.0.coords - px).norm(), 1e-10 * pole * size * (1.0 + size / f), "round", at),
        None => cx.check(false, "round", at),
    };
}

pub fn configured(cx: &mut Ctx) {
    if num(&cx.arr("k1")[0]) != 0.0 {
        return;
    }
    for rep in 0..cx.reps {
        let c = if rep == 0 { 1.0 } else { cx.mag(-3.0, 3.0) };
        let cam = build(cx, c, true);
        let want = want_cam(&cx.v["cam"], c);
        let at = || format!("{cam:?}, expected {want:?}");
        let close = |cx: &mut Ctx, a: f64, b: f64, key: &str| cx.close((a - b).abs(), 1e-12 * b.abs(), key, at);
        close(cx, cam.focals.x, want.focals.x, "focals");
        close(cx, cam.focals.y, want.focals.y, "focals");
        close(cx, cam.principal_point.x, want.principal_point.x, "principal-point");
        close(cx, cam.principal_point.y, want.principal_point.y, "principal-point");
        close(cx, cam.skew, want.skew, "skew");
        let m = cam.matrix();
        for o in cx.arr("obs") {
            let ray = v3(&o["ray"]);
            if let Some(p) = pixel(&o["pixel"], c) {
                let h = m * (ray / ray.z);
                let size = h.abs().max() + cam.principal_point.coords.norm();
                let at = || format!("{cam:?} {ray:?}: {h:?}, expected {p:?}");
                cx.close((h.z - 1.0).abs(), 1e-12, "matrix", at);
                cx.close((h.xy() - p).norm(), 1e-10 * size, "matrix", at);
                match cam.uncalibrate(unit(ray)) {
                    Some(k) => cx.close((k.0.coords - p).norm(), 1e-10 * size, "projection", at),
                    None => cx.check(false, "projection", at),
                };
                cx.count("class:seen");
            }
        }
    }
}

/// Answers whatever it is told to.
struct Stub(Option<CameraPoint>);
impl TriangulatorRelative for Stub {
    fn triangulate_relative(&self, _: CameraToCamera, _: UnitVector3<f64>, _: UnitVector3<f64>) -> Option<CameraPoint> {
        self.0
    }
}

pub fn reprojection(cx: &mut Ctx) {
    let defined = cx.b("defined");
    for rep in 0..cx.reps {
        let s = if rep == 0 { 1.0 } else { cx.mag(-6.0, 6.0) };
        let mut i = pose(&cx.v["pose"]);
        i.translation.vector *= s;
        let p = CameraToCamera(i);
        let x = v4(&cx.v["x"]);
        let x = (x.norm() > 0.0).then(|| CameraPoint::from_homogeneous(Vector4::new(x.x, x.y, x.z, x.w / s)));
        let (a, b) = (v3(&cx.v["a"]), v3(&cx.v["b"]));
        let m = FeatureMatch(unit(a), unit(b));
        let at = || format!("{} {a:?} {b:?} {x:?}", iso(i));
        let got = pose_reprojection_error(p, m, Stub(x));
        let avg = average_pose_reprojection_error(p, m, Stub(x));
        cx.check(got.is_some() == defined, "defined", at);
        cx.check(avg.is_some() == defined, "average-defined", at);
        cx.count(if defined { "class:defined" } else { "class:absent" });
        if let (Some(g), Some(avg), true) = (got, avg, defined) {
            let e = cx.arr("errors");
            let mut mean = 0.0;
            let mut size = 0.0;
            for k in 0..2 {
                let n = v3(&e[k]);
                let want = Vector2::new(n.x, n.y) / n.z;
                let tol = 1e-10 * (1.0 + want.norm() + [a, b][k].norm() / [a, b][k].z.abs()) * 30.0;
                cx.close((g[k] - want).norm(), tol, "error", || format!("{}: {g:?}, expected {want:?} of image {k}", at()));
                mean += 0.5 * want.norm();
                size += tol;
            }
            cx.close((avg - mean).abs(), size, "average", || format!("{}: {avg}, expected {mean}", at()));
        }
        // with the triangulators of cv-geom
        let base = v3(&cx.v["pose"]["t"]);
        if cx.b("exact") && base.norm() > 0.0 && num(&cx.arr("x")[3]) > 0.0 && a.z > 0.0 && b.z > 0.0 {
            let par = angle(&(i.rotation * a), &b);
            if par > 0.02 && par < 3.1 {
                cx.count("class:exact");
                for (name, got) in [
                    ("LinearEigen", average_pose_reprojection_error(p, m, LinearEigenTriangulator::new())),
                    ("AngularL1", average_pose_reprojection_error(p, m, AngularL1Triangulator::default())),
                    ("AngularLInfinity", average_pose_reprojection_error(p, m, AngularLInfinityTriangulator::default())),
                ] {
                    match got {
                        Some(e) => cx.close(e, 1e-6, &format!("exact-{name}"), at),
                        None => cx.check(false, &format!("exact-{name}"), at),
                    };
                }
            }
        }
    }
}
