//! Nearest.tla: the refining triangulator must answer with the point nearest to the rays.
use crate::util::*;
use cv_core::nalgebra::*;
use cv_core::*;
use cv_geom::triangulation::*;

#[derive(Clone)]
struct Scene {
    near: V3,
    rays: Vec<(Rotation3<f64>, V3, V3)>,
}

impl Scene {
    /// x |-> s Q x + t on the world
    fn moved(&self, s: f64, q: &Rotation3<f64>, t: &V3) -> Self {
        Scene {
            near: q * self.near * s + t,
            rays: self
                .rays
                .iter()
                .map(|(r, c, d)| (r * q.inverse(), q * c * s + t, q * d))
                .collect(),
        }
    }
    fn pairs(&self) -> Vec<(WorldToCamera, Uv3)> {
        self.rays
            .iter()
            .map(|(r, c, d)| {
                (WorldToCamera(Iso::from_parts((-(r * c)).into(), *r)), unit(r * d))
            })
            .collect()
    }
    fn size(&self) -> f64 {
        self.rays.iter().map(|r| r.1.norm()).fold(self.near.norm(), f64::max)
    }
}

fn rel(a: &WorldToCamera, b: &WorldToCamera) -> CameraToCamera {
    CameraToCamera(b.0 * a.0.inverse())
}

/// What a triangulator says of the rays, in the world: as observations, seen from the first camera,
/// and for two rays as a relative pose.
fn ways<T>(t: &T, p: &[(WorldToCamera, Uv3)]) -> Vec<(&'static str, Option<WorldPoint>)>
where
    T: TriangulatorObservations + TriangulatorRelative,
{
    let back = |x: CameraPoint| p[0].0.inverse().transform(x);
    let others: Vec<_> = p[1..].iter().map(|(q, b)| (rel(&p[0].0, q), *b)).collect();
    let mut out = vec![
        ("observations", t.triangulate_observations(p.iter().copied())),
        (
            "to_camera",
            t.triangulate_observations_to_camera(p[0].1, others.iter().copied()).map(back),
        ),
    ];
    if p.len() == 2 {
        out.push(("relative", t.triangulate_relative(others[0].0, p[0].1, p[1].1).map(back)));
    }
    out
}

pub fn run(cx: &mut Ctx) {
    let out = cx.s("out");
    let det = cx.f("det");
    let base = Scene {
        near: v3(&cx.v["num"]) / det,
        rays: cx.arr("rays").iter().map(|o| (rotq(&o[0]), v3(&o[1]), v3(&o[2]))).collect(),
    };
    cx.count(&format!("class:{out}"));
    for i in 0..cx.reps {
        let mut sc = base.clone();
        if i > 0 {
            let s = cx.mag(-3.0, 3.0);
            let q = cx.rot();
            let off = cx.unif(0.0, 2.0);
            let t = cx.dir() * s * off * base.size();
            sc = base.moved(s, &q, &t);
            cx.shuffle(&mut sc.rays);
        }
        // the accuracy asked for is relative to the coordinates of the point
        if sc.near.norm() < 0.05 * sc.size() {
            continue;
        }
        let p = sc.pairs();
        let rate = cx.unif(0.3, 1.5);
        let tries = [
            ("default", SineL1Triangulator::new()),
            (
                "rate",
                SineL1Triangulator::new().optimization_rate(rate).max_iterations(20_000),
            ),
        ];
        let guess = ways(&LinearEigenTriangulator::new(), &p);
        for (set, t) in tries {
            for ((way, x), (_, g)) in ways(&t, &p).into_iter().zip(&guess) {
                let key = format!("{set}/{way}");
                match (x, g) {
                    (Some(x), _) => {
                        if out == "none" {
                            cx.check(false, &key, || {
                                format!("{x:?} although the nearest point {:?} is behind a camera {:?}", sc.near, sc.rays)
                            });
                            continue;
                        }
                        let x = x.homogeneous();
                        let e = (x.xyz() / x.w - sc.near).norm() / sc.size();
                        cx.close(e, 1e-7, &key, || {
                            format!("{:?} instead of {:?} {:?}", x.xyz() / x.w, sc.near, sc.rays)
                        });
                    }
                    (None, Some(g)) => {
                        cx.count("class:refined-away");
                        if g.point().is_some() {
                            cx.check(out == "none", &format!("{key}/lost"), || {
                                format!("nothing although {:?} is in front {:?}", sc.near, sc.rays)
                            });
                        }
                    }
                    (None, None) => cx.count(&format!("class:no-guess:{out}")),
                }
            }
        }
    }
}
