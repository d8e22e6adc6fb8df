//! Pencil.tla: the angular triangulators against the optimal planes of the pencil, and against rivals.
use crate::util::*;
use cv_core::nalgebra::*;
use cv_core::*;
use cv_geom::triangulation::*;

/// Everything in the frame of the first camera; `q` turns into the axes of the second one.
struct Scene {
    a: V3,
    b: V3,
    c: V3,
    q: Rotation3<f64>,
}

impl Scene {
    fn pose(&self) -> CameraToCamera {
        CameraToCamera(Iso::from_parts((-(self.q * self.c)).into(), self.q))
    }
    fn answer(&self, name: &str) -> Option<V3> {
        let (p, a, b) = (self.pose(), unit(self.a), unit(self.q * self.b));
        match name {
            "l1" => AngularL1Triangulator.triangulate_relative(p, a, b),
            _ => AngularLInfinityTriangulator.triangulate_relative(p, a, b),
        }
        .map(|x| x.homogeneous())
        .map(|h| h.xyz() / h.w)
    }
    fn angles(&self, x: &V3) -> (f64, f64) {
        (angle(&self.a, x), angle(&self.b, &(x - self.c)))
    }
    fn cost(&self, name: &str, x: &V3) -> f64 {
        let (a, b) = self.angles(x);
        if name == "l1" {
            a + b
        } else {
            a.max(b)
        }
    }
    fn moved(&self, s: f64, r: &Rotation3<f64>, w: &Rotation3<f64>) -> Self {
        Scene {
            a: r * self.a,
            b: r * self.b,
            c: r * self.c * s,
            q: w * self.q * r.inverse(),
        }
    }
    /// sine of the angle the two rays to `x` make
    fn parallax(&self, x: &V3) -> f64 {
        let y = x - self.c;
        x.cross(&y).norm() / (x.norm() * y.norm())
    }
}

/// No rival may do better than the answer.
fn challenge(cx: &mut Ctx, sc: &Scene, name: &str, rivals: &[V3], kind: &str) {
    let Some(x) = sc.answer(name) else { return };
    let key = format!("{name}-{kind}");
    if !cx.check(x.iter().all(|n| n.is_finite()), &key, || {
        format!("{x:?} is not finite")
    }) {
        return;
    }
    let near = x.norm().min((x - sc.c).norm());
    // a point in the centre of a camera is in no direction
    if near < 1e-3 * sc.c.norm() || sc.parallax(&x) < 1e-3 {
        return;
    }
    let mine = sc.cost(name, &x);
    let mut best = (f64::INFINITY, x);
    let mut one = |y: V3| {
        let k = sc.cost(name, &y);
        if k < best.0 {
            best = (k, y)
        }
    };
    for y in rivals {
        one(*y);
        // on the way to and from the answer
        for f in [0.5, 0.1, 0.01, -0.1] {
            one(x + (y - x) * f);
        }
        // the plane of the pencil that contains the rival, with both bearings laid into it
        let m = sc.c.cross(y);
        if m.norm() > 1e-6 * y.norm() * sc.c.norm() {
            let m = m.normalize();
            let u = sc.a - m * sc.a.dot(&m);
            let v = sc.b - m * sc.b.dot(&m);
            let uv = u.cross(&v);
            if uv.norm() > 1e-6 * u.norm() * v.norm() {
                one(u * (sc.c.cross(&v).dot(&uv) / uv.norm_squared()));
            }
        }
    }
    for _ in 0..6 {
        let e = cx.mag(-4.0, -0.5) * near;
        one(x + cx.dir() * e);
    }
    cx.check(mine <= best.0 + 1e-7, &key, || {
        format!(
            "{x:?} is seen at {:?}, and {:?} at {:?}: {:?} {:?} {:?}",
            sc.angles(&x),
            best.1,
            sc.angles(&best.1),
            sc.a,
            sc.b,
            sc.c
        )
    });
}

pub fn run(cx: &mut Ctx) {
    let v = cx.v;
    let base = Scene {
        a: v3(&v["a"]),
        b: v3(&v["b"]),
        c: v3(&v["c"]),
        q: rotq(&v["q"]),
    };
    let rival = v3(&v["rival"]);
    let exact = cx.b("exact");
    let id = Rotation3::identity();
    for rep in 0..=cx.reps {
        let (s, r, w) = if rep == 0 {
            (1.0, id, id)
        } else {
            (cx.mag(-4.0, 4.0), cx.rot(), cx.rot())
        };
        let sc = base.moved(s, &r, &w);
        for name in ["l1", "linf"] {
            let want = &v[name];
            let h = v4(&want["x"]);
            let out = want["out"]
                .as_str()
                .unwrap_or_else(|| panic!("HARNESS: no outcome"));
            cx.count(&format!("class:{name}-{out}{}", if exact { "-exact" } else { "" }));
            let got = sc.answer(name);
            match out {
                "point" => {
                    let x = r * (h.xyz() / h.w) * s;
                    let p = sc.parallax(&x);
                    if p < 0.02 {
                        cx.count("class:narrow");
                        continue;
                    }
                    let key = format!("{name}-optimum");
                    match got {
                        None => {
                            cx.check(false, &key, || format!("no point instead of {x:?}"));
                        }
                        Some(y) => {
                            let e = (x - y).norm() / (x.norm() + sc.c.norm());
                            cx.close(e, 1e-8, &key, || {
                                format!("{y:?} instead of {x:?}: {:?} {:?} {:?}", sc.a, sc.b, sc.c)
                            });
                        }
                    }
                }
                "none" => {
                    cx.check(got.is_none(), &format!("{name}-none"), || {
                        format!("{got:?} although the rays do not meet in front: {:?} {:?} {:?}", sc.a, sc.b, sc.c)
                    });
                }
                _ => {}
            }
            let mut rivals = vec![r * rival * s];
            if rep == 0 {
                // mirrored in the frame
                rivals.push(-rival);
            }
            // open: rays that are parallel, or meet in a centre, where rounding decides
            if out != "open" {
                challenge(cx, &sc, name, &rivals, "rival");
            }
            // any real bearings near these: the optimum is not rational any more, but remains one
            let noise = cx.mag(-3.0, -0.3) * sc.a.norm();
            let far = Scene {
                a: (sc.a + cx.dir() * noise) * cx.mag(-1.0, 1.0),
                b: sc.b + cx.dir() * noise,
                c: sc.c,
                q: sc.q,
            };
            let more = [r * rival * s, cx.dir() * s, sc.a * s * cx.mag(-2.0, 2.0)];
            challenge(cx, &far, name, &more, "rival-general");
        }
    }
}
