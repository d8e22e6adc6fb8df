//! Losses and gradients (specs/Epipolar.tla, Gradient.tla, ThreeView.tla): C22.
use crate::util::*;
use cv_core::nalgebra::*;
use cv_core::*;
use cv_geom::epipolar::*;
use serde_json::Value;

pub fn run(cx: &mut Ctx) {
    if cx.v.get("obs").is_some() {
        crate::essential::losses(cx)
    } else if cx.v.get("marks").is_some() {
        three(cx)
    } else {
        one(cx)
    }
}

/// A camera, a point, and steps of either along the gradient.
fn one(cx: &mut Ctx) {
    for rep in 0..cx.reps {
        let (turn, k) = if rep == 0 { (Rotation3::identity(), 1.0) } else { (cx.rot(), cx.mag(-3.0, 3.0)) };
        let point = |h: &Value| turn * v3(&h["v"]) / num(&h["d"]) * k;
        let mut v = point(&cx.arr("hist")[0]);
        let mut frame = turn;
        for (i, h) in cx.arr("hist").iter().enumerate() {
            let op = arr(&h["op"]);
            let name = op[0].as_str().unwrap();
            let b = unit(frame * v3(&h["b"]));
            let before = v;
            // do it to the real thing, at the ray it was about
            match name {
                "init" | "retarget" => {}
                "reframe" => {}
                "point" => {
                    let g = point_gradient(-v, b);
                    v += g * (num(&op[1]) / num(&op[2]));
                }
                "camera" => {
                    let g = world_pose_gradient(v, b);
                    let d = g.scale_rotation(0.0).scale(num(&op[1]) / num(&op[2]));
                    v = d.isometry() * Point3::from(v) - Point3::origin();
                }
                "turn" => {
                    // all the way: by the angle whose sine it is
                    let g = world_pose_gradient(v, b);
                    let (sine, cosine) = (g.rotation.norm(), v.dot(&b) / v.norm());
                    if sine > 0.0 {
                        let d = g.scale_translation(0.0).scale_rotation(sine.atan2(cosine) / sine);
                        v = d.isometry() * Point3::from(v) - Point3::origin();
                    }
                }
                o => panic!("HARNESS: unknown operation {o}"),
            }
            let want = point(h);
            if name == "reframe" {
                // the frame moves along with both
                let r = rotq(&op[1]);
                frame = turn * r * turn.inverse() * frame;
                v = turn * r * turn.inverse() * v;
                frame = turn;
            }
            let at = || format!("{name} of {before:?} for bearing {b:?} gave {v:?} instead of {want:?}");
            cx.close((v - want).norm(), 1e-10 * before.norm(), &format!("step-{name}"), at);
            cx.count(&format!("class:{name}"));
            if i == 0 || true {
                v = want;
            }
            let b = unit(turn * v3(&h["b"]));
            let perp = turn * v3(&h["perp"]) / num(&h["n"]) * k;
            let axis = turn * v3(&h["axis"]) / (v3(&h["v"]).norm() * v3(&h["b"]).norm());
            let g = world_pose_gradient(v, b);
            let p = point_gradient(-v, b);
            let at = || format!("point {v:?} bearing {b:?}: {g:?} {p:?} instead of {perp:?} {axis:?}");
            cx.close((g.translation - perp).norm(), 1e-13 * v.norm(), "translation", at);
            cx.close((g.rotation - axis).norm(), 1e-13, "rotation", at);
            cx.close((p - perp).norm(), 1e-13 * v.norm(), "point", at);
            // a step of any length
            let s = cx.mag(-3.0, -0.0);
            let theta = angle(&v, &b);
            let turned = g.scale_translation(0.0).scale(s).isometry() * Point3::from(v) - Point3::origin();
            cx.close((angle(&turned, &b) - (theta - s * theta.sin())).abs(), 1e-7, "turn", || format!("point {v:?} bearing {b:?} step {s}: {turned:?}"));
            let moved = g.scale_rotation(0.0).scale(s).isometry() * Point3::from(v) - Point3::origin();
            let (d0, d1) = (v.cross(&b).norm(), moved.cross(&b).norm());
            cx.close((d1 - (1.0 - s) * d0).abs(), 1e-12 * v.norm(), "move", || format!("point {v:?} bearing {b:?} step {s}: {moved:?}"));
            if num(&h["dot"]) > 0.0 && axis.norm() > 1e-6 && s < 0.5 {
                let both = g.scale(s).isometry() * Point3::from(v) - Point3::origin();
                cx.check(angle(&both, &b) < theta, "both", || format!("point {v:?} bearing {b:?} step {s}: {both:?}"));
                cx.count("class:both");
            }
            if axis.norm() == 0.0 {
                cx.count("class:on-ray");
            }
        }
    }
}

/// gradient of the rotation of a pair, from the exact axis and the lengths of the normals
fn pair(p: &Value) -> V3 {
    v3(&p["axis"]) / (num(&p["na"]).sqrt() * num(&p["nb"]).sqrt())
}

fn three(cx: &mut Ctx) {
    for rep in 0..cx.reps {
        let (turn, k) = if rep == 0 { (Rotation3::identity(), 1.0) } else { (cx.rot(), cx.mag(-3.0, 3.0)) };
        let (pf, ps) = (turn * v3(&cx.v["pf"]) * k, turn * v3(&cx.v["ps"]) * k);
        for mark in cx.arr("marks") {
            let (m, g) = (&mark["m"], &mark["g"]);
            let dir = |n: &str| unit(turn * v3(&m[n]));
            let (c, f, s) = (dir("c"), dir("f"), dir("s"));
            let got = three_view_gradients(c, f, pf, s, ps);
            let at = || format!("c {c:?} f {f:?} at {pf:?} s {s:?} at {ps:?}: {got:?}");
            let (cf, cs, fs) = (pair(&g["cf"]), pair(&g["cs"]), pair(&g["fs"]));
            let want = [turn * (2.0 * cf - fs) / 3.0, turn * (2.0 * cs + fs) / 3.0];
            for i in 0..2 {
                cx.close((got[i].rotation - want[i]).norm(), 1e-11, "three-rotation", || {
                    format!("c {c:?} f {f:?} at {pf:?} s {s:?} at {ps:?}: {} instead of {}", got[i].rotation, want[i])
                });
                cx.check(finite(got[i].translation.as_slice()), "three-finite", at);
            }
            let size = v3(&m["x"]).norm() * k + pf.norm() + ps.norm();
            if m["exact"].as_bool().unwrap() {
                for i in 0..2 {
                    cx.close(got[i].translation.norm(), 1e-9 * size, "three-zero", at);
                }
                cx.count("class:three-exact");
            } else {
                cx.count("class:three-inexact");
            }
            // the cameras are alike, and the frame is of no consequence
            let other = three_view_gradients(c, s, ps, f, pf);
            let (r, u) = (cx.rot(), cx.mag(-2.0, 2.0));
            let rot = |b: Uv3| unit(r * b.into_inner());
            let turned = three_view_gradients(rot(c), rot(f), r * pf * u, rot(s), r * ps * u);
            // points far away, and decisions between nearly equal alternatives, are not comparable
            let big = got.iter().map(|g| g.translation.norm()).fold(0.0, f64::max);
            if big < 100.0 * size && decided(c, f, pf, s, ps) {
                let meet = meet(f, s, ps - pf);
                for i in 0..2 {
                    cx.close((got[i].rotation - other[1 - i].rotation).norm(), 1e-11, "three-exchange", at);
                    if meet {
                        cx.close((got[i].translation - other[1 - i].translation).norm(), 1e-8 * (size + big), "three-exchange", at);
                    }
                    cx.close((r * got[i].rotation - turned[i].rotation).norm(), 1e-11, "three-turn", at);
                    cx.close((r * got[i].translation * u - turned[i].translation).norm(), 1e-8 * (size + big) * u, "three-turn", at);
                }
                cx.count("class:three-equivariant");
            }
        }
    }
}

/// The two ways to turn one of two rays into the plane of the other and t.
fn corrected(a: Uv3, b: Uv3, t: V3) -> [(V3, V3); 2] {
    let into = |u: Uv3, w: Uv3| {
        let n = w.cross(&t).normalize();
        (u.into_inner() - u.dot(&n) * n).normalize()
    };
    [(into(a, b), b.into_inner()), (a.into_inner(), into(b, a))]
}
/// Whether they meet in front of both ends of t.
fn meet(a: Uv3, b: Uv3, t: V3) -> bool {
    let t = t.normalize();
    corrected(a, b, t).iter().all(|(a, b)| {
        let z = a.cross(b);
        t.cross(b).dot(&z) > 1e-6 && t.cross(a).dot(&z) > 1e-6
    })
}
/// Whether all choices within the gradients are clear: which bearing is corrected, and cheirality.
fn decided(c: Uv3, f: Uv3, pf: V3, s: Uv3, ps: V3) -> bool {
    [(pf, c, f), (ps, c, s), (ps - pf, f, s)].into_iter().all(|(t, a, b)| {
        let t = t.normalize();
        let (x, y) = (a.cross(&t).norm(), b.cross(&t).norm());
        (x - y).abs() > 1e-6
            && x.min(y) > 1e-3
            && corrected(a, b, t).iter().all(|(a, b)| {
                let z = a.cross(b);
                z.norm() > 1e-2 && a.dot(b).abs() > 1e-6 && t.cross(b).dot(&z).abs() > 1e-6
            })
    })
}
