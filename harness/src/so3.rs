//! Tangent spaces (specs/Tangent.tla, C03), Jacobians (specs/Jacobian.tla, C04) and the Lie algebra
//! (specs/So3Algebra.tla, C05).
use crate::util::*;
use cv_core::nalgebra::*;
use cv_core::*;
use serde_json::Value;
use std::f64::consts::PI;

/// rotation vector of an integer quaternion, of length at most pi
fn logq(v: &Value) -> V3 {
    let q = v4(v);
    let (w, x) = (q[0], V3::new(q[1], q[2], q[3]));
    let n = x.norm();
    if n == 0.0 {
        return V3::zeros();
    }
    // w >= 0 in the canonical representative
    x / n * (2.0 * n.atan2(w))
}

fn half_turn(v: &Value) -> bool {
    num(&arr(v)[0]) == 0.0
}

/// Rodrigues
fn rodrigues(w: V3) -> Matrix3<f64> {
    let th = w.norm();
    if th < 1e-9 {
        let k = w.cross_matrix();
        return Matrix3::identity() + k + 0.5 * k * k;
    }
    let k = (w / th).cross_matrix();
    let s = (0.5 * th).sin();
    Matrix3::identity() + th.sin() * k + 2.0 * s * s * (k * k)
}

fn log_of(cx: &mut Ctx, r: Rotation3<f64>, want: V3, half: bool, key: &str) {
    let w = Skew3::from(r);
    let at = || format!("the logarithm of {:?} is {:?}, expected {:?}", r.matrix().as_slice(), w.0, want);
    let e = (w.0 - want).norm();
    let e = if half { e.min((w.0 + want).norm()) } else { e };
    cx.close(e, 1e-9, key, at);
    cx.check(w.0.norm() <= PI + 1e-12, "log-length", at);
    cx.close((w.rotation().matrix() - r.matrix()).norm(), 1e-9, "log-exp", at);
}

fn exp_of(cx: &mut Ctx, w: V3, want: &Matrix3<f64>, tol: f64, key: &str) {
    let r = Skew3(w).rotation();
    let at = || format!("the exponential of {:?} is {:?}, expected {:?}", w, r.matrix().as_slice(), want.as_slice());
    cx.close((r.matrix() - want).norm(), tol, key, at);
    cx.close(rot_defect(&r), 1e-12, "exp-proper", at);
    let j = Skew3(w).jacobian_input();
    cx.close((j.fixed_slice::<3, 3>(0, 0) - want).norm(), tol, "exp-homogeneous", at);
}

fn se3_of<P: Pose>(cx: &mut Ctx, i: Iso, w: V3, half: bool, kind: &str) {
    let v = P::from(i).se3();
    let t = i.translation.vector;
    let at = || format!("{kind} {}: se3 {:?}", iso(i), v.as_slice());
    cx.close((v.fixed_rows::<3>(0) - t).norm(), 1e-12 * t.norm(), "se3-translation", at);
    let r = V3::new(v[3], v[4], v[5]);
    let e = (r - w).norm();
    cx.close(if half { e.min((r + w).norm()) } else { e }, 1e-9, "se3-rotation", at);
    let b = P::from_se3(v).isometry();
    cx.close(rot_dist(&b.rotation, &i.rotation), 1e-9, "se3-back", at);
    cx.close((b.translation.vector - t).norm(), 1e-12 * t.norm(), "se3-back", at);
}

pub fn tangent(cx: &mut Ctx) {
    for rep in 0..cx.reps {
        let s = if rep == 0 { 1.0 } else { cx.mag(-6.0, 6.0) };
        let hist = cx.arr("hist");
        let first = &hist[0]["el"];
        let base = logq(&first["q"]);
        let mk = |e: &Value| {
            Se3TangentSpace::new(v3(&e["t"]) / num(&e["d"]) * s, base * num(&e["k"]))
        };
        let mut el = mk(first);
        let mut tmax = 0.0f64;
        for h in hist.iter() {
            let op = arr(&h["op"]);
            let name = op[0].as_str().unwrap();
            match name {
                "init" => {}
                "inverse" => el = el.inverse(),
                "scale" => el = el.scale(num(&op[1])),
                "scale_translation" => el = el.scale_translation(num(&op[1])),
                "scale_rotation" => el = el.scale_rotation(num(&op[1])),
                "add" => {
                    let o = Se3TangentSpace::new(v3(&op[1]) * s, base * num(&op[2]));
                    tmax = tmax.max(o.translation.norm());
                    let sum = el + o;
                    let mut inc = el;
                    inc += o;
                    cx.close((inc.to_vec() - sum.to_vec()).norm(), 1e-12 * sum.to_vec().norm(), "add-assign", || format!("{el:?} {o:?}"));
                    let all: Se3TangentSpace = [el, o].iter().copied().sum();
                    cx.close((all.to_vec() - sum.to_vec()).norm(), 1e-12 * sum.to_vec().norm(), "sum", || format!("{el:?} {o:?}"));
                    el = sum;
                }
                o => panic!("HARNESS: unknown operation {o}"),
            }
            cx.count(&format!("class:{name}"));
            let ex = mk(&h["el"]);
            tmax = tmax.max(ex.translation.norm());
            let at = || format!("after {name}: {el:?}, expected {ex:?}");
            cx.close((el.translation - ex.translation).norm(), 1e-11 * tmax, "el-translation", at);
            cx.close((el.rotation - ex.rotation).norm(), 1e-11, "el-rotation", at);
            let mut want = pose(&h["iso"]);
            want.translation.vector *= s;
            let got = el.isometry();
            let at = || format!("after {name}: {el:?} is {}, expected {}", iso(got), iso(want));
            cx.close(rot_dist(&got.rotation, &want.rotation), 1e-11, "el-isometry", at);
            cx.close((got.translation.vector - want.translation.vector).norm(), 1e-11 * tmax, "el-isometry", at);
            let (id, tm) = (el.inverse().isometry() * got, tmax);
            cx.close(rot_dist(&id.rotation, &Rotation3::identity()), 1e-11, "el-inverse", at);
            cx.close(id.translation.vector.norm(), 1e-11 * tm, "el-inverse", at);
            let v = el.to_vec();
            cx.check(Se3TangentSpace::from_vec(v) == el, "vec", at);
            cx.close((v.fixed_rows::<3>(0) - el.translation).norm(), 0.0, "vec", at);
            cx.close((v.fixed_rows::<3>(3) - el.rotation).norm(), 0.0, "vec", at);
            let (rt, rr) = el.rotations();
            if s * tmax < 1e3 {
                cx.close((rt.matrix() - rodrigues(el.translation)).norm(), 1e-9, "rotations", at);
            }
            cx.close((rr.matrix() - want.rotation.matrix()).norm(), 1e-11, "rotations", at);
            let l1 = el.l1();
            for (a, b) in [(l1.translation, el.translation), (l1.rotation, el.rotation)] {
                let n = b.norm();
                let e = if n > 0.0 { (a - b / n).norm() } else { a.norm() };
                cx.close(e, 1e-12, "l1", at);
            }
            let bad = V3::new(f64::NAN, 1.0, 2.0);
            let z = Se3TangentSpace::new(bad, el.rotation);
            cx.check(z.translation == V3::zeros() && z.rotation == el.rotation, "nan", at);
            let z = Se3TangentSpace::new(el.translation, bad);
            cx.check(z.rotation == V3::zeros() && z.translation == el.translation, "nan", at);

            // the logarithm of the rotation itself
            let (r, w, half) = (rotq(&h["rot"]), logq(&h["rot"]), half_turn(&h["rot"]));
            cx.count(if half { "class:half-turn" } else { "class:no-half-turn" });
            log_of(cx, r, w, half, "log");
            exp_of(cx, w, r.matrix(), 1e-12, "exp");
            if w.norm() > 0.0 {
                let m = cx.int(-3, 3) as f64;
                let longer = w + w / w.norm() * (2.0 * PI * m);
                exp_of(cx, longer, r.matrix(), 1e-12, "exp-turns");
                if rep > 0 {
                    // along the same axis: arbitrarily small angles, all angles, almost half turns
                    let axis = w / w.norm();
                    let tiny = axis * cx.mag(-18.0, -2.0);
                    let m = rodrigues(tiny);
                    exp_of(cx, tiny, &m, 1e-12, "exp-tiny");
                    log_of(cx, Rotation3::from_matrix_unchecked(m), tiny, false, "log-tiny");
                    let any = axis * cx.unif(-PI, PI);
                    let m = rodrigues(any);
                    exp_of(cx, any, &m, 1e-12, "exp-any");
                    log_of(cx, Rotation3::from_matrix_unchecked(m), any, false, "log-any");
                    let gap = cx.mag(-14.0, -1.0);
                    let near = axis * (PI - gap);
                    let m = rodrigues(near);
                    exp_of(cx, near, &m, 1e-12, "exp-near");
                    log_of(cx, Rotation3::from_matrix_unchecked(m), near, gap < 1e-9, "log-near");
                }
            }
            let i = Iso::from_parts((el.translation).into(), r);
            se3_of::<WorldToCamera>(cx, i, w, half, "WorldToCamera");
            se3_of::<CameraToWorld>(cx, i, w, half, "CameraToWorld");
            se3_of::<CameraToCamera>(cx, i, w, half, "CameraToCamera");
            se3_of::<WorldToWorld>(cx, i, w, half, "WorldToWorld");
        }
    }
    let id = Se3TangentSpace::identity();
    cx.close((id.isometry().to_homogeneous() - Matrix4::identity()).norm(), 1e-12, "identity", || format!("{id:?}"));
}

fn jac_of<P: Pose>(cx: &mut Ctx, i: Iso, x: Vector4<f64>, out: Vector4<f64>, jin: &Matrix4<f64>, js: &Matrix4x6<f64>, kind: &str) {
    let p = P::from(i);
    let x = P::InputPoint::from_homogeneous(x);
    let (y, a, b) = p.transform_jacobians(x);
    let at = || format!("{kind} {} at {:?}: {a:?} {b:?}, expected {jin:?} {js:?}", iso(i), x.homogeneous());
    let size = 1.0 + i.translation.vector.norm();
    cx.close((a - jin).abs().max(), 1e-11 * size, "input", at);
    let scale = js.abs().max();
    cx.close((b - js).abs().max(), 1e-11 * scale, "self", at);
    let h = y.homogeneous();
    let r = out.xyz().norm();
    let tol = 1e-11 * (1.0 + size * x.homogeneous().w) * (x.homogeneous().xyz().norm() / r).max(1.0);
    let same = |cx: &mut Ctx, h: Vector4<f64>, key: &str| {
        cx.close((h.xyz() - out.xyz() / r).norm(), tol, key, at);
        cx.close((h.w - out.w / r).abs(), tol * out.w / r, key, at);
    };
    same(cx, h, "point");
    let (y1, a1) = p.transform_jacobian_input(x);
    let (y2, b2) = p.transform_jacobian_self(x);
    same(cx, y1.homogeneous(), "point-input");
    same(cx, y2.homogeneous(), "point-self");
    same(cx, p.transform(x).homogeneous(), "point-only");
    cx.close((a1 - jin).abs().max(), 1e-11 * size, "input-only", at);
    cx.close((b2 - js).abs().max(), 1e-11 * scale, "self-only", at);
}

pub fn jacobians(cx: &mut Ctx) {
    for rep in 0..cx.reps {
        let s = if rep == 0 { 1.0 } else { cx.mag(-4.0, 4.0) };
        let mut i = pose(&cx.v["pose"]);
        i.translation.vector *= s;
        let n = cx.f("n");
        let mat = |k: &str| -> Vec<Vec<f64>> { cx.arr(k).iter().map(|r| nums(r).iter().map(|x| x / n).collect()).collect() };
        let (ji, js) = (mat("jin"), mat("jself"));
        let x = v4(&cx.v["pt"]);
        let r = x.xyz().norm();
        // lengths in units of 1/s; the point is normalised before it is transformed
        let hx = Vector4::new(x[0], x[1], x[2], x[3] / s);
        let out = v4(&cx.v["out"]) / n / r;
        let out = Vector4::new(out[0], out[1], out[2], out[3] / s);
        let jin = Matrix4::from_fn(|a, b| if a < 3 && b == 3 { ji[a][b] * s } else { ji[a][b] });
        let jself = Matrix4x6::from_fn(|a, b| if b < 3 { js[a][b] / r / s } else { js[a][b] / r });
        cx.count(if x[3] == 0.0 { "class:infinite" } else { "class:finite" });
        jac_of::<WorldToCamera>(cx, i, hx, out, &jin, &jself, "WorldToCamera");
        jac_of::<CameraToWorld>(cx, i, hx, out, &jin, &jself, "CameraToWorld");
        jac_of::<CameraToCamera>(cx, i, hx, out, &jin, &jself, "CameraToCamera");
        jac_of::<WorldToWorld>(cx, i, hx, out, &jin, &jself, "WorldToWorld");
        // the pieces on their own
        let y = out.xyz();
        let got = Skew3::jacobian_self(y);
        let want = Matrix3::from_fn(|a, b| jself[(a, b + 3)]);
        cx.close((got + y.cross_matrix()).norm(), 1e-12 * y.norm(), "skew-self", || format!("{y:?} {got:?}"));
        if i.translation.vector.norm() == 0.0 {
            cx.close((got - want).norm(), 1e-11 * (1.0 + want.norm()), "skew-self", || format!("{y:?} {got:?} {want:?}"));
        }
        let w = logq(&cx.v["pose"]["q"]);
        let j = Skew3(w).jacobian_input();
        let want = i.rotation.to_homogeneous();
        cx.close((j - want).norm(), 1e-12, "skew-input", || format!("{w:?} {j:?} {want:?}"));
    }
}

pub fn algebra(cx: &mut Ctx) {
    let (u0, v0) = (v3(&cx.v["u"]), v3(&cx.v["v"]));
    for rep in 0..cx.reps {
        let (a, b) = if rep == 0 { (1.0, 1.0) } else { (cx.mag(-9.0, 9.0), -cx.mag(-9.0, 9.0)) };
        let (u, v) = (u0 * a, v0 * b);
        let (su, sv) = (Skew3(u), Skew3(v));
        let at = || format!("{u:?} {v:?}");
        let n = |x: f64| 1e-12 * x;
        let (un, vn) = (u.norm(), v.norm());
        let hat = m3(&cx.v["hat"]) * a;
        cx.close((su.hat() - hat).norm(), n(un), "hat", at);
        cx.close((su.hat() * v - v3(&cx.v["cross"]) * a * b).norm(), n(un * vn), "hat-cross", at);
        cx.close((Skew3::vee(su.hat()).0 - u).norm(), n(un), "vee", at);
        cx.close((su.hat2() - m3(&cx.v["hat2"]) * a * a).norm(), n(un * un), "hat2", at);
        cx.close((su.hat2() - su.hat() * su.hat()).norm(), n(un * un), "hat2-square", at);
        cx.close((su.hat2() * v - v3(&cx.v["nested"]) * a * a * b).norm(), n(un * un * vn), "nested", at);
        cx.close((su.bracket(sv).0 - v3(&cx.v["cross"]) * a * b).norm(), n(un * vn), "bracket", at);
        cx.close((sv.bracket(su).0 + v3(&cx.v["cross"]) * a * b).norm(), n(un * vn), "antisymmetric", at);
        cx.close((su.bracket(su.bracket(sv)).0 - v3(&cx.v["nested"]) * a * a * b).norm(), n(un * un * vn), "nested-bracket", at);
        let w = V3::new(cx.gauss(), cx.gauss(), cx.gauss());
        let sw = Skew3(w);
        let j = su.bracket(sv.bracket(sw)).0 + sv.bracket(sw.bracket(su)).0 + sw.bracket(su.bracket(sv)).0;
        cx.close(j.norm(), n(un * vn * w.norm()), "jacobi", at);
        // small rotations
        if u0.norm() > 0.0 {
            let th = cx.mag(-10.0, -0.4);
            let small = u0 / u0.norm() * th;
            let r = Skew3(small).rotation_small();
            let at = || format!("rotation_small of {small:?} is {:?}", r.matrix().as_slice());
            cx.close(rot_defect(&r), 1e-9, "small-proper", at);
            cx.close((r.matrix() - rodrigues(small)).norm(), 1e-9 + 2.0 * th * th * th, "small", at);
            cx.count("class:small");
        }
        let z = Skew3(V3::zeros()).rotation_small();
        cx.close((z.matrix() - Matrix3::identity()).norm(), 1e-12, "small-zero", || format!("{z:?}"));
        cx.count("class:pair");
    }
}
