//! Triangulation.tla: triangulators against exact scenes.
use crate::util::*;
use cv_core::nalgebra::*;
use cv_core::*;
use cv_geom::triangulation::*;

#[derive(Clone)]
struct Scene {
    /// homogeneous, w in {0, 1}
    pt: Vector4<f64>,
    obs: Vec<(Rotation3<f64>, V3, V3)>,
}

impl Scene {
    fn load(cx: &Ctx) -> Self {
        Scene {
            pt: v4(&cx.v["pt"]),
            obs: cx
                .arr("obs")
                .iter()
                .map(|o| (rotq(&o[0]), v3(&o[1]), v3(&o[2])))
                .collect(),
        }
    }
    /// x |-> s Q x + t on the world
    fn moved(&self, s: f64, q: &Rotation3<f64>, t: &V3) -> Self {
        let x = q * self.pt.xyz() * s + t * self.pt.w;
        Scene {
            pt: x.push(self.pt.w),
            obs: self
                .obs
                .iter()
                .map(|(r, c, b)| (r * q.inverse(), q * c * s + t, *b))
                .collect(),
        }
    }
    fn pairs(&self) -> Vec<(WorldToCamera, Uv3)> {
        self.obs
            .iter()
            .map(|(r, c, b)| {
                (
                    WorldToCamera(Iso::from_parts((-(r * c)).into(), *r)),
                    unit(*b),
                )
            })
            .collect()
    }
    fn extent(&self) -> f64 {
        self.obs
            .iter()
            .map(|o| o.1.norm())
            .fold(self.pt.xyz().norm(), f64::max)
    }
    /// RelativeDlt divides by the third component of the directions, so it needs them not to be small
    fn dlt(&self) -> bool {
        self.obs.iter().all(|o| o.2.z.abs() > 0.2 * o.2.norm())
    }
    fn near_origin(&self) -> bool {
        self.pt.w != 0.0 && self.pt.xyz().norm() < 0.05 * self.extent()
    }
}

const MANY: [&str; 3] = ["LinearEigen", "SineL1", "MeanMean"];
const TWO: [&str; 6] = [
    "LinearEigen",
    "SineL1",
    "MeanMean",
    "RelativeDlt",
    "AngularL1",
    "AngularLInfinity",
];

fn observations(name: &str, p: &[(WorldToCamera, Uv3)]) -> Option<WorldPoint> {
    let it = p.iter().copied();
    match name {
        "LinearEigen" => LinearEigenTriangulator::new().triangulate_observations(it),
        "SineL1" => SineL1Triangulator::new().triangulate_observations(it),
        "MeanMean" => MeanMeanTriangulator.triangulate_observations(it),
        _ => unreachable!(),
    }
}
fn to_camera(name: &str, a: Uv3, p: &[(CameraToCamera, Uv3)]) -> Option<CameraPoint> {
    let it = p.iter().copied();
    match name {
        "LinearEigen" => LinearEigenTriangulator::new().triangulate_observations_to_camera(a, it),
        "SineL1" => SineL1Triangulator::new().triangulate_observations_to_camera(a, it),
        "MeanMean" => MeanMeanTriangulator.triangulate_observations_to_camera(a, it),
        _ => unreachable!(),
    }
}
fn relative(name: &str, pose: CameraToCamera, a: Uv3, b: Uv3) -> Option<CameraPoint> {
    match name {
        "LinearEigen" => LinearEigenTriangulator::new().triangulate_relative(pose, a, b),
        "SineL1" => SineL1Triangulator::new().triangulate_relative(pose, a, b),
        "MeanMean" => MeanMeanTriangulator.triangulate_relative(pose, a, b),
        "RelativeDlt" => RelativeDltTriangulator::new().triangulate_relative(pose, a, b),
        "AngularL1" => AngularL1Triangulator.triangulate_relative(pose, a, b),
        "AngularLInfinity" => AngularLInfinityTriangulator.triangulate_relative(pose, a, b),
        _ => unreachable!(),
    }
}
fn rel(a: &WorldToCamera, b: &WorldToCamera) -> CameraToCamera {
    CameraToCamera(b.0 * a.0.inverse())
}

/// All the answers a scene gets: (how, point in world coordinates).  `None` when nothing is returned.
fn answers(sc: &Scene) -> Vec<(String, Option<Vector4<f64>>)> {
    let p = sc.pairs();
    let mut out = vec![];
    for n in MANY {
        out.push((
            format!("{n}/observations"),
            observations(n, &p).map(|x| x.homogeneous()),
        ));
        let others: Vec<_> = p[1..].iter().map(|(q, b)| (rel(&p[0].0, q), *b)).collect();
        out.push((
            format!("{n}/to_camera"),
            to_camera(n, p[0].1, &others).map(|x| p[0].0.inverse().transform(x).homogeneous()),
        ));
    }
    if p.len() == 2 {
        for n in TWO {
            out.push((
                format!("{n}/relative"),
                relative(n, rel(&p[0].0, &p[1].0), p[0].1, p[1].1)
                    .map(|x| p[0].0.inverse().transform(x).homogeneous()),
            ));
        }
    }
    out
}

fn moves(cx: &mut Ctx, sc: &Scene) -> Vec<Scene> {
    let mut out = vec![sc.clone()];
    for _ in 0..cx.reps {
        let s = cx.mag(-3.0, 3.0);
        let q = cx.rot();
        let off = cx.unif(0.0, 2.0);
        let t = cx.dir() * s * off * sc.extent();
        let mut m = sc.moved(s, &q, &t);
        cx.shuffle(&mut m.obs);
        out.push(m);
    }
    out.retain(|m| !m.near_origin());
    out
}

/// distance between the camera and the point relative to the size of the scene: the smallest one
fn err(sc: &Scene, x: &Vector4<f64>) -> f64 {
    let p = x.xyz() / x.w;
    (p - sc.pt.xyz()).norm() / sc.extent()
}

pub fn exactness(cx: &mut Ctx) {
    if cx.s("out") != "point" {
        return;
    }
    cx.count("class:point");
    let base = Scene::load(cx);
    for sc in moves(cx, &base) {
        for (how, ans) in answers(&sc) {
            if how.starts_with("MeanMean") || (how.starts_with("RelativeDlt") && !sc.dlt()) {
                continue;
            }
            match ans {
                None => {
                    cx.check(false, &how, || {
                        format!("no point for an exact scene: {:?} {:?}", sc.pt, sc.obs)
                    });
                }
                Some(x) => {
                    let e = err(&sc, &x);
                    cx.close(e, if how.starts_with("Angular") { 1e-9 } else { 1e-6 }, &how, || {
                        format!("{:?} instead of {:?}", x.xyz() / x.w, sc.pt)
                    });
                }
            }
        }
    }
}

pub fn cheirality(cx: &mut Ctx) {
    let base = Scene::load(cx);
    let out = cx.s("out");
    cx.count(&format!("class:{out}"));
    for sc in moves(cx, &base) {
        for (how, ans) in answers(&sc) {
            let Some(x) = ans else { continue };
            let blind = how.starts_with("MeanMean") || (how.starts_with("RelativeDlt") && !sc.dlt());
            if out == "none" && !blind {
                cx.check(false, &how, || {
                    format!(
                        "{x:?} returned although the point is behind a camera: {:?} {:?}",
                        sc.pt, sc.obs
                    )
                });
                continue;
            }
            cx.check(x.iter().all(|n| n.is_finite()), &how, || {
                format!("{x:?} is not finite")
            });
            for (r, c, b) in &sc.obs {
                let d = r * (x.xyz() - c * x.w);
                // a point in the optical center is in no direction at all
                if d.norm() < 1e-9 {
                    continue;
                }
                let cos = d.normalize().dot(&b.normalize());
                cx.check(cos > -1e-4, &how, || {
                    format!(
                        "{x:?} is behind the camera at {c:?}, cosine {cos} {:?} {:?}",
                        sc.pt, sc.obs
                    )
                });
            }
        }
    }
}

pub fn invariance(cx: &mut Ctx) {
    let out = cx.s("out");
    let stable = cx.b("stable");
    if !stable {
        return;
    }
    cx.count(&format!("class:stable:{out}"));
    let base = Scene::load(cx);
    if base.near_origin() {
        return;
    }
    let want = answers(&base);
    for _ in 0..cx.reps {
        let q = cx.rot();
        // noisy scenes: the methods weigh errors by the distance to the world origin, so only the
        // orientation of the world is free; exact ones may move and change units as well
        let (s, t) = if out == "point" {
            let s = cx.mag(-2.0, 2.0);
            let off = cx.unif(0.0, 2.0);
            (s, cx.dir() * s * off * base.extent())
        } else {
            (1.0, V3::zeros())
        };
        let mut m = base.moved(s, &q, &t);
        if m.near_origin() {
            continue;
        }
        let keep_first = cx.int(0, 1) == 1;
        if keep_first {
            cx.shuffle(&mut m.obs[1..]);
        } else {
            cx.shuffle(&mut m.obs);
        }
        for ((how, a), (_, b)) in want.iter().zip(answers(&m)) {
            if how.starts_with("RelativeDlt") && !base.dlt() {
                continue;
            }
            // relative methods have a distinguished first camera
            if !how.ends_with("observations") && !keep_first && out != "point" {
                continue;
            }
            match (a, b) {
                (Some(a), Some(b)) => {
                    let moved: V3 = q * (a.xyz() / a.w) * s + t;
                    let e = (moved - b.xyz() / b.w).norm() / m.extent();
                    cx.close(e, if how.starts_with("Angular") { 1e-8 } else { 1e-5 }, how, || {
                        format!("{moved:?} became {:?} {:?}", b.xyz() / b.w, m.obs)
                    });
                }
                (None, None) => {}
                (a, b) => {
                    cx.check(false, how, || {
                        format!("{a:?} became {b:?} after rotating/reordering {:?}", m.obs)
                    });
                }
            }
        }
    }
}
