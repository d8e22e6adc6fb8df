//! Histories of the map: each operation is carried out on the code's tables, which then have to represent the partition that
//! the specification arrives at, with the constraints and the poses that go with it.
use crate::util::*;
use arrsac::Arrsac;
use bitarray::BitArray;
use cv_core::nalgebra::*;
use cv_core::*;
use cv_geom::triangulation::LinearEigenTriangulator;
use cv_pinhole::{CameraIntrinsics, CameraIntrinsicsK1Distortion};
use cv_sfm::access::*;
use cv_sfm::{Feature, VSlam, VSlamData, VSlamSettings};
use eight_point::EightPoint;
use lambda_twist::LambdaTwist;
use rand::{Rng, SeedableRng};
use rand_xoshiro::Xoshiro256PlusPlus;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Slam = VSlam<
    Arrsac<Xoshiro256PlusPlus>,
    Arrsac<Xoshiro256PlusPlus>,
    LambdaTwist,
    EightPoint,
    LinearEigenTriangulator,
    Xoshiro256PlusPlus,
>;

pub fn slam(settings: VSlamSettings, seed: u64) -> Slam {
    slam_with(settings, seed, 256)
}
pub fn slam_with(settings: VSlamSettings, seed: u64, hypotheses: usize) -> Slam {
    VSlam::new(
        VSlamData::default(),
        settings,
        Arrsac::new(settings.single_view_consensus_threshold, Xoshiro256PlusPlus::seed_from_u64(seed)).initialization_hypotheses(hypotheses),
        Arrsac::new(settings.two_view_consensus_threshold, Xoshiro256PlusPlus::seed_from_u64(seed)).initialization_hypotheses(hypotheses),
        LambdaTwist::new(),
        EightPoint::new(),
        LinearEigenTriangulator::new(),
        Xoshiro256PlusPlus::seed_from_u64(seed),
    )
}

/// A feature of a frame; both count from 1, as in the specification.
pub type Obs = (usize, usize);
pub type Block = BTreeSet<Obs>;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Shot {
    pub live: bool,
    pub views: BTreeSet<usize>,
    pub blocks: BTreeSet<Block>,
    pub cons: BTreeMap<BTreeSet<usize>, usize>,
}

fn int(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| panic!("HARNESS: not a number: {v}")) as usize
}
fn obs(v: &Value) -> Obs {
    (int(&v[0]), int(&v[1]))
}
fn block(v: &Value) -> Block {
    arr(v).iter().map(obs).collect()
}
fn ints(v: &Value) -> BTreeSet<usize> {
    arr(v).iter().map(int).collect()
}
fn shot(v: &Value) -> Shot {
    Shot {
        live: v["live"].as_bool().expect("HARNESS: live"),
        views: ints(&v["views"]),
        blocks: arr(&v["blocks"]).iter().map(block).collect(),
        cons: arr(&v["cons"]).iter().map(|c| (ints(&c[0]), int(&c[1]))).collect(),
    }
}
fn shot_json(s: &Shot) -> Value {
    json!({"live": s.live, "views": s.views, "blocks": s.blocks,
           "cons": s.cons.iter().map(|(t, n)| json!([t, n])).collect::<Vec<_>>()})
}

/// How the world of a reconstruction lies in the true one: pose = truth * gauge, with the translation scaled.
#[derive(Clone, Copy)]
pub struct Gauge {
    pub to_truth: Iso,
    pub scale: f64,
}

pub struct World<'a, 'b> {
    pub cx: &'a mut Ctx<'b>,
    pub slam: Slam,
    pub frames: Vec<FrameKey>,
    pub truth: Vec<Iso>,
    pub points: Vec<Point3<f64>>,
    pub sees: Vec<Vec<usize>>,
    pub recs: Vec<Option<ReconstructionKey>>,
    pub gauges: Vec<Option<Gauge>>,
    pub minobs: usize,
    pub extent: f64,
    /// how far from exact the poses may be
    pub tol: f64,
    /// the bearings are not quite exact
    pub noisy: bool,
}

impl World<'_, '_> {
    fn frame_of(&self, k: FrameKey) -> usize {
        self.frames.iter().position(|&f| f == k).map_or(0, |p| p + 1)
    }
    pub fn views(&self, r: ReconstructionKey) -> Vec<(ViewKey, usize)> {
        let rec = self.slam.data.reconstruction(r);
        rec.views.keys().map(|v| (v, self.frame_of(rec.views[v].frame))).collect()
    }
    fn view(&self, r: ReconstructionKey, f: usize) -> ViewKey {
        match self.views(r).into_iter().find(|x| x.1 == f) {
            Some((v, _)) => v,
            None => panic!("HARNESS: frame {f} has no view"),
        }
    }
    fn key(&self, r: usize) -> ReconstructionKey {
        self.recs[r - 1].expect("HARNESS: reconstruction is not live")
    }
    fn landmark(&self, r: ReconstructionKey, o: Obs) -> LandmarkKey {
        self.slam.data.observation_landmark(r, self.view(r, o.0), o.1 - 1)
    }
    fn mark(&self, r: ReconstructionKey, b: &Value) -> LandmarkKey {
        self.landmark(r, obs(&arr(b)[0]))
    }

    /// Reads the tables, and checks that every reference between them is answered by its counterpart.
    pub fn read(&mut self, at: &str) -> Vec<Shot> {
        let keys: BTreeSet<ReconstructionKey> = self.slam.data.reconstructions().collect();
        let mut frame_views: HashMap<FrameKey, Vec<(ReconstructionKey, ViewKey)>> = HashMap::new();
        let mut shots = vec![];
        for slot in 0..self.recs.len() {
            let Some(r) = self.recs[slot].filter(|r| keys.contains(r)) else {
                shots.push(Shot::default());
                continue;
            };
            let mut s = Shot { live: true, ..Shot::default() };
            let (slam, cx) = (&self.slam, &mut *self.cx);
            let rec = slam.data.reconstruction(r);
            let number = |k: FrameKey| self.frames.iter().position(|&f| f == k).map_or(0, |p| p + 1);
            for v in rec.views.keys() {
                let view = &rec.views[v];
                frame_views.entry(view.frame).or_default().push((r, v));
                let f = number(view.frame);
                cx.check(s.views.insert(f), "map-frame-twice", || format!("{at}: frame {f} has two views in a reconstruction"));
                let n = slam.data.frame(view.frame).descriptor_features.len();
                cx.check(view.landmarks.len() == n, "map-features", || {
                    format!("{at}: the view of frame {f} has {} landmarks for {n} features", view.landmarks.len())
                });
                for (i, &l) in view.landmarks.iter().enumerate() {
                    match rec.landmarks.get(l) {
                        None => {
                            cx.check(false, "map-landmark-missing", || format!("{at}: feature {} of frame {f} is of no landmark", i + 1));
                        }
                        Some(lm) => {
                            cx.check(lm.observations.get(&v) == Some(&i), "map-observation", || {
                                format!("{at}: feature {} of frame {f} belongs to a landmark which observes {:?} there", i + 1, lm.observations.get(&v))
                            });
                        }
                    }
                }
            }
            for l in rec.landmarks.keys() {
                let lm = &rec.landmarks[l];
                cx.check(!lm.observations.is_empty(), "map-empty-landmark", || format!("{at}: a landmark without observations"));
                let mut b = Block::new();
                for (&v, &i) in &lm.observations {
                    match rec.views.get(v) {
                        None => {
                            cx.check(false, "map-stale-view", || format!("{at}: a landmark is observed by a view that is gone"));
                        }
                        Some(view) => {
                            let f = number(view.frame);
                            b.insert((f, i + 1));
                            cx.check(view.landmarks.get(i) == Some(&l), "map-not-back", || {
                                format!("{at}: a landmark is observed by feature {} of frame {f}, which belongs to another", i + 1)
                            });
                        }
                    }
                }
                if !b.is_empty() {
                    s.blocks.insert(b);
                }
            }
            for (views, _) in constraints(&slam.data, r) {
                let fs: BTreeSet<usize> = views.iter().filter_map(|&v| rec.views.get(v).map(|x| number(x.frame))).collect();
                cx.check(fs.len() == 3, "con-views", || format!("{at}: a constraint does not name three views of its reconstruction"));
                *s.cons.entry(fs).or_default() += 1;
            }
            shots.push(s);
        }
        // the frames' own references
        for (n, &f) in self.frames.clone().iter().enumerate() {
            let of = frame_views.remove(&f).unwrap_or_default();
            let says = self.slam.data.frame(f).view;
            self.cx.check(of.len() <= 1, "map-frame-shared", || format!("{at}: frame {} has views in two reconstructions", n + 1));
            self.cx.check(of.first().copied() == says, "map-frame-view", || {
                format!("{at}: frame {} refers to {says:?}, its views are {of:?}", n + 1)
            });
        }
        let live = self.recs.iter().flatten().count();
        self.cx.check(keys.len() <= live, "map-stray", || format!("{at}: a reconstruction that nothing created"));
        shots
    }

    /// The pose which frame f should have in the reconstruction in slot r.
    fn expected(&self, r: usize, f: usize) -> Option<Iso> {
        let g = self.gauges[r - 1]?;
        let mut p = self.truth[f - 1] * g.to_truth;
        p.translation.vector *= g.scale;
        Some(p)
    }
    pub fn poses(&mut self, at: &str) {
        if self.noisy {
            return;
        }
        for r in 1..=self.recs.len() {
            let Some(key) = self.recs[r - 1] else { continue };
            if !has_reconstruction(&self.slam.data, key) {
                continue;
            }
            let scale = self.gauges[r - 1].map_or(1.0, |g| g.scale);
            let extent = self.extent * scale;
            for (v, f) in self.views(key) {
                let Some(want) = self.expected(r, f) else { continue };
                let got = self.slam.data.pose(key, v).isometry();
                let e = rot_dist(&got.rotation, &want.rotation) + (got.translation.vector - want.translation.vector).norm() / extent;
                self.cx.close(e, self.tol, "pose-view", || format!("{at}: frame {f} is at {}, not at {}", iso(got), iso(want)));
            }
            // constraints relate the views they name
            let views: HashMap<ViewKey, usize> = self.views(key).into_iter().collect();
            let relative = |w: &Self, a: usize, b: usize| -> Iso {
                let mut p = w.truth[b - 1] * w.truth[a - 1].inverse();
                p.translation.vector *= scale;
                p
            };
            let cons = constraints(&self.slam.data, key);
            let edges = edges(&self.slam.data, key);
            for ((vs, ps), es) in cons.iter().zip(&edges) {
                let Some(fs) = vs.iter().map(|v| views.get(v).copied()).collect::<Option<Vec<usize>>>() else { continue };
                for (p, f) in ps.iter().zip(&fs[1..]) {
                    let want = relative(self, fs[0], *f);
                    let e = rot_dist(&p.rotation, &want.rotation) + (p.translation.vector - want.translation.vector).norm() / extent;
                    self.cx.close(e, self.tol, "con-pose", || format!("{at}: constraint from frame {} to {f} is {}, not {}", fs[0], iso(*p), iso(want)));
                }
                let mut seen = BTreeSet::new();
                for (to, (from, p)) in es {
                    let (Some(&to), Some(&from)) = (views.get(to), views.get(from)) else {
                        self.cx.check(false, "con-edge-views", || format!("{at}: an edge between views that do not exist"));
                        continue;
                    };
                    seen.insert((from, to));
                    let want = relative(self, from, to);
                    let e = rot_dist(&p.rotation, &want.rotation) + (p.translation.vector - want.translation.vector).norm() / extent;
                    self.cx.close(e, self.tol, "con-edge", || format!("{at}: edge from frame {from} to {to} is {}, not {}", iso(*p), iso(want)));
                }
                self.cx.check(seen.len() == 6, "con-edges", || format!("{at}: a constraint makes edges {seen:?}"));
            }
        }
    }

    /// A random motion of the world, as an element of se(3) which moves by about the given share of the extent.
    fn motion(&mut self, r: usize, size: f64) -> Matrix4<f64> {
        let unit = self.extent * self.gauges[r - 1].expect("HARNESS: gauge").scale;
        let mut g = || V3::new(self.cx.gauss(), self.cx.gauss(), self.cx.gauss());
        let (w, t) = (g() * size, g() * (size * unit * 0.5));
        Matrix4::new(0.0, -w.z, w.y, t.x, w.z, 0.0, -w.x, t.y, -w.y, w.x, 0.0, t.z, 0.0, 0.0, 0.0, 0.0)
    }
    fn put_back(&mut self, r: usize) {
        let key = self.key(r);
        for (v, f) in self.views(key) {
            if let Some(p) = self.expected(r, f) {
                set_pose(&mut self.slam.data, key, v, WorldToCamera(p));
            }
        }
    }
    /// One view is displaced; the steps of optimising displace all by the powers of its motion which the specification says.
    fn pull(&mut self, e: &Value, at: &str) {
        let (r, f, k) = (int(&e["r"]), int(&e["v"]), int(&e["k"]));
        let d = e["rate"].as_f64().expect("HARNESS: rate");
        let key = self.key(r);
        let unit = self.extent * self.gauges[r - 1].expect("HARNESS: gauge").scale;
        let size = self.cx.mag(-3.0, -0.7);
        let mut xi = self.motion(r, size);
        if k > 1 {
            // the powers of rotations about different centres are not those of one motion
            xi.fixed_slice_mut::<3, 3>(0, 0).fill(0.0);
        }
        let v = self.view(key, f);
        // the motion as frame g sees it
        let seen = |w: &Self, g: usize| {
            let p = w.expected(r, g).expect("HARNESS: gauge").to_homogeneous();
            let m = p * xi.exp() * p.try_inverse().expect("HARNESS: pose");
            let rot = Rotation3::from_matrix_unchecked(m.fixed_slice::<3, 3>(0, 0).into_owned());
            Iso::from_parts(V3::new(m[(0, 3)], m[(1, 3)], m[(2, 3)]).into(), rot)
        };
        // shares of a motion are shares of its translation and of its angle
        let share = |m: Iso, s: f64| {
            Iso::from_parts((m.translation.vector * s).into(), Rotation3::new(UnitQuaternion::from_rotation_matrix(&m.rotation).scaled_axis() * s))
        };
        let start = seen(self, f) * self.expected(r, f).expect("HARNESS: gauge");
        set_pose(&mut self.slam.data, key, v, WorldToCamera(start));
        let (rate, iterations) = (self.slam.settings.graph_optimization_rate, self.slam.settings.optimization_iterations);
        self.slam.settings.graph_optimization_rate = 1.0 / d;
        self.slam.settings.optimization_iterations = k;
        let kept = self.slam.apply_constraints(key).is_some();
        self.slam.settings.graph_optimization_rate = rate;
        self.slam.settings.optimization_iterations = iterations;
        if !self.cx.check(kept, "pull-kept", || format!("{at}: optimising gives the reconstruction up")) {
            return;
        }
        for a in arr(&e["a"]) {
            let (g, n) = (int(&a[0]), a[1].as_i64().expect("HARNESS: power") as f64);
            if !self.views(key).iter().any(|x| x.1 == g) {
                self.cx.check(false, "pull-view", || format!("{at}: the view of frame {g} is gone"));
                continue;
            }
            let power = n / d.powi(k as i32);
            let there = seen(self, g);
            let by = if g == f { share(there.inverse(), 1.0 - power) * there } else { share(there, power) };
            let want = by * self.expected(r, g).expect("HARNESS: gauge");
            let got = self.slam.data.pose(key, self.view(key, g)).isometry();
            let err = rot_dist(&got.rotation, &want.rotation) + (got.translation.vector - want.translation.vector).norm() / unit;
            if n != 0.0 {
                self.cx.count(if g == f { "class:pulled-back" } else { "class:pulled-along" });
            }
            self.cx.close(err / size, self.tol, "pull-step", || {
                format!("{at}: frame {f} is displaced, then frame {g} is at {}, not at {}", iso(got), iso(want))
            });
        }
        self.put_back(r);
    }
    /// Constraints are as large as the poses they were made from, wherever these are.
    fn resize(&mut self, e: &Value, at: &str) {
        let (r, f) = (int(&e["r"]), int(&e["v"]));
        let key = self.key(r);
        let size = self.cx.mag(-4.0, -2.5);
        for (v, g) in self.views(key) {
            let xi = self.motion(r, size);
            let m = self.expected(r, g).expect("HARNESS: gauge").to_homogeneous() * xi.exp();
            let rot = Rotation3::from_matrix_unchecked(m.fixed_slice::<3, 3>(0, 0).into_owned());
            set_pose(&mut self.slam.data, key, v, WorldToCamera(Iso::from_parts(V3::new(m[(0, 3)], m[(1, 3)], m[(2, 3)]).into(), rot)));
        }
        let before = constraints(&self.slam.data, key);
        let v = self.view(key, f);
        self.slam.x_record_view_constraints(key, v);
        let mut old = before.clone();
        for (views, poses) in constraints(&self.slam.data, key) {
            if let Some(i) = old.iter().position(|c| c.0 == views && c.1 == poses) {
                old.swap_remove(i);
                continue;
            }
            self.cx.count("class:resized");
            let at_of = |w: &Self, v: ViewKey| w.slam.data.pose(key, v).isometry();
            let first = at_of(self, views[0]).inverse();
            let want: f64 = views[1..].iter().map(|&v| (at_of(self, v) * first).translation.vector.norm()).sum();
            let got: f64 = poses.iter().map(|p| p.translation.vector.norm()).sum();
            self.cx.close((got / want - 1.0).abs(), 1e-9, "pull-size", || format!("{at}: a constraint of size {got} for poses of size {want}"));
        }
        forget_constraints(&mut self.slam.data, key, before);
        self.put_back(r);
    }

    /// An event for TLC.
    fn record(&mut self, e: &Value, after: &[Shot], answer: Option<bool>) {
        let mut ev = e.clone();
        ev["recs"] = after.iter().map(shot_json).collect();
        for k in ["kept", "did", "merged"] {
            if !ev[k].is_null() {
                if let Some(a) = answer {
                    ev[k] = json!(a);
                }
            }
        }
        self.cx.recorded.push(ev);
    }

    /// Where a point is in the reconstruction in slot r.
    pub fn placed(&self, r: usize, p: usize) -> Option<Point3<f64>> {
        let g = self.gauges[r - 1]?;
        let q = g.to_truth.inverse() * self.points[p - 1];
        Some(Point3::from(q.coords * g.scale))
    }
    fn same_point(&self, b: &Block) -> Option<usize> {
        let ids: BTreeSet<usize> = b.iter().map(|&o| self.point_of(o)).collect();
        (ids.len() == 1).then(|| *ids.iter().next().unwrap())
    }

    /// What is asked about the landmarks of a reconstruction.
    fn landmarks(&mut self, r: usize, s: &Shot, robust: &BTreeSet<Block>, at: &str) {
        if !s.live || self.noisy {
            return;
        }
        let key = self.key(r);
        let unit = self.extent * self.gauges[r - 1].map_or(1.0, |g| g.scale);
        let need = self.minobs.min(s.views.len());
        let blocks: Vec<&Block> = s.blocks.iter().collect();
        let pick = self.cx.rng.gen_range(0..blocks.len().max(1));
        for (n, &b) in blocks.iter().enumerate() {
            let o = *b.iter().next().unwrap();
            let l = self.landmark(key, o);
            let is = robust.contains(b);
            let got = self.slam.is_landmark_robust(key, l);
            self.cx.check(got == is, "lm-robust", || format!("{at}: landmark {b:?} robust: {got}"));
            let point = self.same_point(b);
            let near = |w: &Self, x: Option<WorldPoint>, p: usize| {
                let want = w.placed(r, p);
                match (x.and_then(|x| x.point()), want) {
                    (Some(x), Some(want)) => (x - want).norm() / unit,
                    _ => f64::INFINITY,
                }
            };
            let t = self.slam.triangulate_landmark(key, l);
            let tr = self.slam.triangulate_landmark_robust(key, l);
            if b.len() < 2 {
                self.cx.check(t.is_none(), "lm-single", || format!("{at}: a point from the single observation {b:?}"));
            } else if let Some(p) = point {
                let e = near(self, t, p);
                self.cx.close(e, 1e-5, "lm-point", || format!("{at}: landmark {b:?} lies at {t:?}"));
            }
            if !is {
                self.cx.check(tr.is_none(), "lm-robust-none", || format!("{at}: a point from the landmark {b:?}, which is not robust"));
            } else if let Some(p) = point {
                let e = near(self, tr, p);
                self.cx.close(e, 1e-5, "lm-robust-point", || format!("{at}: robust landmark {b:?} lies at {tr:?}"));
            }
            // the observations say what they are
            for &(f, i) in b {
                let v = self.view(key, f);
                let d = &self.slam.data;
                let frame = self.frames[f - 1];
                let same = d.observation_landmark(key, v, i - 1) == l
                    && d.landmark_bearing(key, v, l) == d.bearing(frame, i - 1)
                    && d.observation_bearing(key, v, i - 1) == d.bearing(frame, i - 1)
                    && d.observation_color(key, v, i - 1) == d.color(frame, i - 1);
                self.cx.check(same, "lm-observation", || format!("{at}: feature {i} of frame {f} is another feature's"));
                let loss = self.slam.x_observation_loss(key, v, i - 1);
                if b.len() == 1 {
                    self.cx.check(loss >= 1.0, "lm-loss-single", || format!("{at}: loss {loss} of the single observation {b:?}"));
                } else if point.is_some() {
                    self.cx.close(loss, 1e-9, "lm-loss", || format!("{at}: loss {loss} of feature {i} of frame {f} in {b:?}"));
                }
            }
            // without the one wrong observation
            let odd = if point.is_none() && b.len() > 2 {
                b.iter().find(|&o| self.same_point(&b.iter().filter(|p| *p != o).copied().collect()).is_some())
            } else {
                None
            };
            if let Some(&o) = odd {
                self.cx.count("class:odd");
                let rest: Block = b.iter().filter(|p| **p != o).copied().collect();
                let t = self.slam.triangulate_landmark_robust_without_view(key, l, self.view(key, o.0));
                let e = near(self, t, self.same_point(&rest).unwrap());
                self.cx.close(e, 1e-5, "lm-odd-point", || format!("{at}: landmark {b:?} without {o:?} lies at {t:?}"));
            }
            if n != pick {
                continue;
            }
            // without one of its views
            let Some(p) = point else { continue };
            let &(f, _) = b.iter().nth(self.cx.rng.gen_range(0..b.len())).unwrap();
            let v = self.view(key, f);
            let without = self.slam.is_landmark_robust_without_view(key, l, v);
            self.cx.check(without == (b.len() > 2), "lm-without", || format!("{at}: landmark {b:?} without frame {f} is robust: {without}"));
            let t = self.slam.triangulate_landmark_robust_without_view(key, l, v);
            if b.len() > 2 {
                let e = near(self, t, p);
                self.cx.close(e, 1e-5, "lm-without-point", || format!("{at}: landmark {b:?} without frame {f} lies at {t:?}"));
            } else {
                self.cx.check(t.is_none(), "lm-without-none", || format!("{at}: landmark {b:?} without frame {f} has a point"));
            }
            // together with another
            let frames: BTreeSet<usize> = b.iter().map(|o| o.0).collect();
            let others: Vec<&Block> =
                blocks.iter().copied().filter(|c| self.same_point(c) == Some(p) && c.iter().all(|o| !frames.contains(&o.0))).collect();
            if let Some(&c) = others.first() {
                let m = self.landmark(key, *c.iter().next().unwrap());
                let enough = b.len() + c.len() >= need;
                let got = self.slam.is_merged_landmark_robust(key, [l, m]);
                self.cx.check(got == enough, "lm-merged", || format!("{at}: {b:?} and {c:?} together are robust: {got}"));
                let t = self.slam.triangulate_merged_landmark_robust(key, [l, m]);
                if enough {
                    let e = near(self, t, p);
                    self.cx.close(e, 1e-5, "lm-merged-point", || format!("{at}: {b:?} and {c:?} lie at {t:?}"));
                } else {
                    self.cx.check(t.is_none(), "lm-merged-none", || format!("{at}: {b:?} and {c:?} have a point"));
                }
            }
        }
    }

    /// The exported file shows the cameras and the robust landmarks.
    fn export(&mut self, r: usize, s: &Shot, robust: &BTreeSet<Block>, at: &str) {
        let key = self.key(r);
        let faces = self.cx.rng.gen();
        let path = std::env::temp_dir().join(format!("maps-{}-{:?}.ply", std::process::id(), std::thread::current().id()));
        self.slam.export_reconstruction(key, &path, faces);
        let text = std::fs::read_to_string(&path).expect("HARNESS: the exported file");
        std::fs::remove_file(&path).expect("HARNESS: the exported file");
        self.cx.count("class:exported");
        let mut lines = text.lines();
        let (mut sizes, mut rows) = (vec![], vec![]);
        for line in lines.by_ref().take_while(|&l| l != "end_header") {
            if let Some(x) = line.strip_prefix("element ") {
                let (name, n) = x.split_once(' ').unwrap();
                sizes.push((name.to_string(), n.parse::<usize>().unwrap()));
            }
        }
        for l in lines {
            rows.push(l.split_whitespace().map(|x| x.parse::<f64>().unwrap_or(f64::NAN)).collect::<Vec<_>>());
        }
        let Some(nv) = sizes.iter().find(|s| s.0 == "vertex").map(|s| s.1) else {
            self.cx.check(false, "lm-export-form", || format!("{at}: no vertices"));
            return;
        };
        let (vertices, triangles) = rows.split_at(nv.min(rows.len()));
        let unit = self.extent * self.gauges[r - 1].map_or(1.0, |g| g.scale);
        let at3 = |row: &Vec<f64>| V3::new(row[0], row[1], row[2]);
        // Robust landmarks of one point each are where their points are, once, with a colour that one of their observations has.
        let ncam = 5 * s.views.len();
        let robust_ok = robust.iter().all(|b| self.same_point(b).is_some());
        if robust_ok {
            self.cx.check(nv == ncam + robust.len(), "lm-export-count", || {
                format!("{at}: {nv} vertices for {} cameras and {} robust landmarks", s.views.len(), robust.len())
            });
        }
        let (cams, points): (Vec<&Vec<f64>>, Vec<&Vec<f64>>) = vertices.iter().partition(|v| v[3..6] == [255.0, 0.0, 255.0]);
        self.cx.check(cams.len() == ncam, "lm-export-cameras", || format!("{at}: {} vertices of {} cameras", cams.len(), s.views.len()));
        for b in robust {
            let Some(p) = self.same_point(b) else { continue };
            let Some(want) = self.placed(r, p) else { continue };
            let hits = points
                .iter()
                .filter(|v| (at3(v) - want.coords).norm() < 1e-4 * unit && b.iter().any(|o| v[3..6] == [(o.1 - 1) as f64, p as f64, 7.0]))
                .count();
            self.cx.check(hits > 0, "lm-export-point", || format!("{at}: landmark {b:?} is not at {want}"));
        }
        // A camera is the centre and the four corners of a window in front of it.
        for &f in &s.views {
            let Some(pose) = self.expected(r, f) else { continue };
            let inv = pose.inverse();
            let c = (inv * Point3::origin()).coords;
            let seen: Vec<&Block> = robust.iter().filter(|b| b.iter().any(|o| o.0 == f)).collect();
            let d = if seen.is_empty() {
                0.0
            } else {
                seen.iter()
                    .filter_map(|b| Some((self.placed(r, self.same_point(b)?)? - Point3::from(c)).norm()))
                    .sum::<f64>()
                    / seen.len() as f64
            };
            let found: Vec<usize> = (0..vertices.len()).filter(|&i| (at3(&vertices[i]) - c).norm() < 1e-4 * unit * 1e-2).collect();
            self.cx.check(!found.is_empty(), "lm-export-centre", || format!("{at}: nothing at the centre of camera {f}"));
            if !robust_ok || d < 0.1 * unit * 1e-1 {
                continue;
            }
            self.cx.count("class:windows");
            let corners: Vec<V3> =
                [(1.0, 1.0), (1.0, -1.0), (-1.0, -1.0), (-1.0, 1.0)].iter().map(|&(x, y)| c + inv.rotation * V3::new(x, y, 1.0) * (0.01 * d)).collect();
            let at_corner: Vec<Option<usize>> =
                corners.iter().map(|k| (0..vertices.len()).find(|&i| (at3(&vertices[i]) - k).norm() < 1e-3 * 0.01 * d)).collect();
            let ok = at_corner.iter().all(|x| x.is_some());
            self.cx.check(ok, "lm-export-corners", || format!("{at}: the window of camera {f} is not where it looks: {at_corner:?}"));
            if faces && ok {
                // sides of the pyramid: each joins the centre and two neighbouring corners
                let ks: Vec<usize> = at_corner.iter().map(|x| x.unwrap()).collect();
                for i in 0..4 {
                    let (a, b) = (ks[i] as f64, ks[(i + 1) % 4] as f64);
                    let side = triangles.iter().any(|t| {
                        t[0] == 3.0 && t.len() == 4 && t.contains(&a) && t.contains(&b) && found.iter().any(|&k| t[1..].contains(&(k as f64)))
                    });
                    self.cx.check(side, "lm-export-side", || format!("{at}: the pyramid of camera {f} lacks a side"));
                }
            }
        }
        let nt = if faces { 4 * s.views.len() } else { 0 };
        self.cx.check(triangles.len() == nt, "lm-export-faces", || format!("{at}: {} faces, {nt} expected", triangles.len()));
    }

    fn point_of(&self, o: Obs) -> usize {
        self.sees[o.0 - 1][o.1 - 1]
    }
    /// The mean distance from frame f of the robust landmarks it observes, in the true scale.
    fn mean_distance(&self, s: &Shot, f: usize) -> Option<f64> {
        let need = self.minobs.min(s.views.len());
        let center = self.truth[f - 1].inverse() * Point3::origin();
        let d: Vec<f64> = s
            .blocks
            .iter()
            .filter(|b| b.len() >= need.max(2) && b.iter().any(|o| o.0 == f))
            .map(|b| (self.points[self.point_of(*b.iter().next().unwrap()) - 1] - center).norm())
            .collect();
        (!d.is_empty()).then(|| d.iter().sum::<f64>() / d.len() as f64)
    }
}

pub fn settings(scene: &Value) -> VSlamSettings {
    let n = |k: &str| int(&scene[k]);
    VSlamSettings {
        maximum_cosine_distance: 1e-9,
        maximum_sine_distance: 1e-4,
        robust_view_bearing_pair_minimum_cosine_distance: 1e-7,
        robust_view_num_robust_bearing_pair: n("minpairs"),
        minimum_robust_landmarks: n("minrobust"),
        robust_minimum_observations: n("minobs"),
        robust_observation_incidence_minimum_cosine_distance: 1e-7,
        optimization_minimum_new_constraints: n("minnew"),
        optimization_iterations: 3,
        optimization_minimum_landmarks: n("mincovis"),
        optimization_robust_covisibility_minimum_landmarks: n("mincovis"),
        graph_optimization_rate: 1e-2,
        constraint_patience: 60,
        reconstruction_optimization_iterations: 1,
        ..Default::default()
    }
}

/// One replay is judged for each of the properties by what it says about them.
fn judge(cx: &mut Ctx, about: &[&str]) {
    for rep in 0..cx.reps {
        once(cx, rep, about == ["map-"] && rep > 0);
        cx.fails.retain(|(key, _)| about.iter().any(|a| key.starts_with(a)));
    }
}
pub fn tables(cx: &mut Ctx) {
    judge(cx, &["map-"])
}
pub fn constraint_poses(cx: &mut Ctx) {
    judge(cx, &["con-"])
}
pub fn poses(cx: &mut Ctx) {
    // the constraints are part of where the views are said to be
    judge(cx, &["pose-", "con-edge"])
}
pub fn pulls(cx: &mut Ctx) {
    judge(cx, &["pull-"])
}
pub fn landmarks(cx: &mut Ctx) {
    if cx.v.get("eyes").is_some() {
        return crate::spread::landmarks(cx);
    }
    judge(cx, &["lm-"])
}

fn once(cx: &mut Ctx, rep: usize, noisy: bool) {
    let scene = &cx.v["scene"];
    let unit_scale = if rep == 0 { 1.0 } else { cx.mag(-2.0, 2.0) };
    let centres: Vec<V3> = arr(&scene["centres"]).iter().map(|c| v3(c) * unit_scale).collect();
    let truth: Vec<Iso> = arr(&scene["qs"])
        .iter()
        .zip(&centres)
        .map(|(q, c)| {
            let rot = if rep == 0 { rotq(q) } else { cx.rot() * rotq(q) };
            Iso::from_parts((-(rot * c)).into(), rot)
        })
        .collect();
    let points: Vec<Point3<f64>> = arr(&scene["points"]).iter().map(|p| Point3::from(v3(p) * unit_scale)).collect();
    let sees: Vec<Vec<usize>> = arr(&scene["sees"]).iter().map(|s| arr(s).iter().map(int).collect()).collect();
    let extent = 20.0 * unit_scale;
    let mut settings = settings(scene);
    if rep % 2 == 0 {
        // still less than what wrong pairs of this scene miss each other by
        settings.maximum_sine_distance = 4e-3;
    }
    // noise that is neither seen by the thresholds nor amplified by optimising constraints made of it
    let optimised = arr(&cx.v["hist"]).iter().any(|e| ["optimise", "regenerate", "pull", "resize"].iter().any(|&o| e["op"] == *o));
    let noisy = noisy && !optimised;
    if noisy {
        cx.count("class:noisy");
    }
    let mut slam = slam(settings, cx.rng.gen());
    let feed = slam.add_feed(CameraIntrinsicsK1Distortion::new(CameraIntrinsics::identity(), 0.0));
    let mut frames = vec![];
    for (t, s) in truth.iter().zip(&sees) {
        let features = s
            .iter()
            .enumerate()
            .map(|(i, &p)| {
                let mut d = [0u8; 64];
                cx.rng.fill(&mut d[..]);
                let mut ray = unit((t * points[p - 1]).coords).into_inner();
                if noisy {
                    ray += cx.dir() * 1e-6;
                }
                let feature = Feature { bearing: unit(ray), response: 1.0, color: [i as u8, p as u8, 7] };
                (BitArray::new(d), feature)
            })
            .collect();
        frames.push(add_frame(&mut slam.data, feed, features));
    }
    let hist = cx.v["hist"].as_array().expect("HARNESS: hist");
    let nrecs = hist.first().map_or(0, |e| arr(&e["recs"]).len());
    // TLC checks recordings of one scene
    let record = cx.record && rep == 0 && frames.len() == 6 && int(&scene["k"]) == 6 && int(&scene["minobs"]) == 3;
    let mut w = World { cx, slam, frames, truth, points, sees, recs: vec![None; nrecs], gauges: vec![None; nrecs], minobs: int(&scene["minobs"]), extent, tol: 1e-5, noisy };
    if record {
        w.cx.recorded.push(json!({"op": "reset", "recs": vec![shot_json(&Shot::default()); nrecs]}));
    }
    let mut before: Vec<Shot> = vec![Shot::default(); nrecs];
    for (step, e) in hist.iter().enumerate() {
        let op = e["op"].as_str().expect("HARNESS: op");
        let at = format!("step {} {op}", step + 1);
        w.cx.count(&format!("class:{op}"));
        let mut answer = None;
        apply(&mut w, op, e, &before, &at, &mut answer);
        let after = w.read(&at);
        for r in 0..nrecs {
            if !after[r].live {
                w.recs[r] = None;
                w.gauges[r] = None;
            }
        }
        w.poses(&at);
        if record {
            w.record(e, &after, answer);
        }
        let want: Vec<Shot> = arr(&e["recs"]).iter().map(shot).collect();
        let loose = e["loose"].as_bool().unwrap_or(false);
        if loose {
            w.cx.count("class:loose");
            if after != want {
                if op == "filterobs" {
                    // whatever is put aside, something is
                    let r = int(&e["r"]) - 1;
                    let mixed = |b: &&Block| b.len() > 1 && w.same_point(b).is_none();
                    let whole: Vec<&Block> = before[r].blocks.iter().filter(mixed).filter(|b| after[r].blocks.contains(b)).collect();
                    let torn: Vec<&Block> =
                        before[r].blocks.iter().filter(|b| !mixed(b)).filter(|b| after[r].live && !after[r].blocks.contains(b)).collect();
                    let what = format!("{at}: inconsistent landmarks {whole:?} are kept, consistent ones {torn:?} are not");
                    w.cx.check(whole.is_empty() && torn.is_empty(), "map-filtered", || what);
                }
                // the specification allows more than one outcome; TLC judges the recorded one
                w.cx.count("class:diverged");
                if record && w.cx.fails.is_empty() {
                    free(&mut w, after);
                }
                return;
            }
        }
        for k in ["kept", "did", "merged"] {
            if let (Some(want), Some(got)) = (e[k].as_bool(), answer) {
                w.cx.check(want == got, &format!("map-answer-{op}"), || format!("{at}: answered {got}"));
            }
        }
        let mut ok = true;
        for r in 0..nrecs {
            let (a, b) = (&after[r], &want[r]);
            ok &= w.cx.check(a.live == b.live, &format!("map-live-{op}"), || format!("{at}: reconstruction {} exists: {}", r + 1, a.live));
            ok &= w.cx.check(a.views == b.views, &format!("map-views-{op}"), || format!("{at}: views {:?}, not {:?}", a.views, b.views));
            ok &= w.cx.check(a.blocks == b.blocks, &format!("map-landmarks-{op}"), || {
                format!(
                    "{at}: landmarks {:?}, not {:?}",
                    a.blocks.difference(&b.blocks).collect::<Vec<_>>(),
                    b.blocks.difference(&a.blocks).collect::<Vec<_>>()
                )
            });
            ok &= w.cx.check(a.cons == b.cons, &format!("con-set-{op}"), || format!("{at}: constraints {:?}, not {:?}", a.cons, b.cons));
        }
        if !ok || !w.cx.fails.is_empty() {
            return;
        }
        for r in 1..=nrecs {
            let robust: BTreeSet<Block> = arr(&e["recs"][r - 1]["robust"]).iter().map(block).collect();
            w.landmarks(r, &after[r - 1], &robust, &at);
            if after[r - 1].live && !w.noisy && w.cx.rng.gen_range(0..6) == 0 {
                w.export(r, &after[r - 1], &robust, &at);
            }
        }
        if !w.cx.fails.is_empty() {
            return;
        }
        before = after;
    }
}

/// Goes on from an outcome which the specification's history does not have, with operations chosen here; TLC judges them.
fn free(w: &mut World, mut before: Vec<Shot>) {
    w.cx.count("class:free");
    for step in 0..16 {
        let Some(e) = choose(w, &before) else { continue };
        let op = e["op"].as_str().unwrap().to_string();
        let at = format!("free step {} {op}", step + 1);
        w.cx.count(&format!("class:free:{op}"));
        let mut answer = None;
        apply(w, &op, &e, &before, &at, &mut answer);
        let after = w.read(&at);
        for r in 0..after.len() {
            if !after[r].live {
                w.recs[r] = None;
                w.gauges[r] = None;
            }
        }
        w.poses(&at);
        w.record(&e, &after, answer);
        if !w.cx.fails.is_empty() {
            return;
        }
        before = after;
    }
}

fn choose(w: &mut World, before: &[Shot]) -> Option<Value> {
    let nf = w.frames.len();
    let features = w.sees[0].len();
    let mut free: Vec<usize> = (1..=nf).filter(|f| !before.iter().any(|s| s.views.contains(f))).collect();
    w.cx.shuffle(&mut free);
    let mut live: Vec<usize> = (0..before.len()).filter(|&r| before[r].live).collect();
    w.cx.shuffle(&mut live);
    let what = w.cx.rng.gen_range(0..14);
    if what == 0 {
        let vacant = before.iter().position(|s| !s.live)?;
        if free.len() < 3 {
            return None;
        }
        let (mut a, mut b, mut c): (Vec<usize>, Vec<usize>, Vec<usize>) =
            ((1..=features).collect(), (1..=features).collect(), (1..=features).collect());
        w.cx.shuffle(&mut a);
        w.cx.shuffle(&mut b);
        w.cx.shuffle(&mut c);
        let m: Vec<Value> = (0..features)
            .filter_map(|i| match w.cx.rng.gen_range(0..4) {
                0 => None,
                1 => Some(json!([a[i], b[i], 0])),
                2 => Some(json!([a[i], 0, c[i]])),
                _ => Some(json!([a[i], b[i], c[i]])),
            })
            .collect();
        return Some(json!({"op": "init", "r": vacant + 1, "c": free[0], "f": free[1], "s": free[2], "m": m}));
    }
    let slot = *live.first()?;
    let (s, r) = (&before[slot], slot + 1);
    let mut blocks: Vec<&Block> = s.blocks.iter().collect();
    w.cx.shuffle(&mut blocks);
    let mut views: Vec<usize> = s.views.iter().copied().collect();
    w.cx.shuffle(&mut views);
    let frames = |b: &Block| b.iter().map(|o| o.0).collect::<BTreeSet<_>>();
    let exact = s.blocks.iter().all(|b| b.iter().map(|&o| w.point_of(o)).collect::<BTreeSet<_>>().len() <= 1);
    Some(match what {
        1 | 2 => {
            let f = *free.first()?;
            // disjoint groups of landmarks which share no views
            let mut m = vec![];
            let mut left = blocks.clone();
            for i in 1..=features {
                if w.cx.rng.gen_range(0..4) == 0 {
                    continue;
                }
                let Some(a) = left.pop() else { break };
                let mut group = vec![a];
                if w.cx.rng.gen_range(0..3) == 0 {
                    if let Some(p) = left.iter().position(|b| frames(a).is_disjoint(&frames(b))) {
                        group.push(left.swap_remove(p));
                    }
                }
                m.push(json!([i, group]));
            }
            json!({"op": "view", "r": r, "f": f, "m": m})
        }
        3 => json!({"op": "drop", "r": r, "f": views.first()?}),
        4 => {
            let o = blocks.first()?.iter().next()?;
            json!({"op": "split", "r": r, "o": o, "did": false})
        }
        5 => json!({"op": "splitall", "r": r, "b": blocks.first()?}),
        6 => {
            let a = blocks.first()?;
            let b = blocks[1..].iter().find(|b| frames(a).is_disjoint(&frames(b)))?;
            json!({"op": "merge", "r": r, "a": a, "b": b})
        }
        7..=9 => json!({"op": "dedup", "r": r, "a": blocks.first()?, "b": blocks.get(1)?, "merged": false}),
        10 => json!({"op": "filterobs", "r": r, "kept": false}),
        11 => json!({"op": "filtermarks", "r": r}),
        12 if exact => json!({"op": "record", "r": r, "v": views.first()?, "did": false}),
        12 => json!({"op": "optimise", "r": r, "kept": false}),
        _ if !views.is_empty() && exact => json!({"op": "normalise", "r": r}),
        _ => return None,
    })
}

fn apply(w: &mut World, op: &str, e: &Value, before: &[Shot], at: &str, answer: &mut Option<bool>) {
    let slot = |k: &str| int(&e[k]);
    match op {
        "init" => {
            let (c, f, s) = (slot("c"), slot("f"), slot("s"));
            let rel = |to: usize| CameraToCamera(w.truth[to - 1] * w.truth[c - 1].inverse());
            let (fp, sp) = (rel(f), rel(s));
            let (mut both, mut first, mut second) = (vec![], vec![], vec![]);
            for m in arr(&e["m"]) {
                let (i, j, k) = (int(&m[0]), int(&m[1]), int(&m[2]));
                match (j, k) {
                    (0, k) => second.push([i - 1, k - 1]),
                    (j, 0) => first.push([i - 1, j - 1]),
                    (j, k) => both.push((i - 1, j - 1, k - 1)),
                }
            }
            w.cx.shuffle(&mut both);
            w.cx.shuffle(&mut first);
            w.cx.shuffle(&mut second);
            let key = w.slam.data.add_reconstruction(w.frames[c - 1], w.frames[f - 1], w.frames[s - 1], fp, sp, both, first, second);
            let r = slot("r");
            w.recs[r - 1] = Some(key);
            w.gauges[r - 1] = Some(Gauge { to_truth: w.truth[c - 1].inverse(), scale: 1.0 });
        }
        "view" => {
            let (r, f) = (slot("r"), slot("f"));
            let key = w.key(r);
            let pose = w.expected(r, f).expect("HARNESS: gauge");
            let existing = arr(&e["m"])
                .iter()
                .map(|m| (int(&m[0]) - 1, arr(&m[1]).iter().map(|b| w.mark(key, b)).collect()))
                .collect();
            add_view(&mut w.slam.data, key, w.frames[f - 1], WorldToCamera(pose), existing);
        }
        "join" => {
            let (s, d) = (slot("s"), slot("d"));
            let (ks, kd) = (w.key(s), w.key(d));
            let map: HashMap<LandmarkKey, LandmarkKey> = arr(&e["m"]).iter().map(|m| (w.mark(ks, &m[0]), w.mark(kd, &m[1]))).collect();
            // only reconstructions of one scale are joined
            let (gs, gd) = (w.gauges[s - 1].expect("HARNESS"), w.gauges[d - 1].expect("HARNESS"));
            rescale(&mut w.slam.data, ks, gd.scale / gs.scale);
            let mut transform = gd.to_truth.inverse() * gs.to_truth;
            transform.translation.vector *= gd.scale;
            w.slam.incorporate_reconstruction(ks, kd, WorldToWorld(transform), map);
        }
        "drop" => {
            let key = w.key(slot("r"));
            let v = w.view(key, slot("f"));
            remove_view(&mut w.slam.data, key, v);
        }
        "remove" => {
            let key = w.key(slot("r"));
            remove_reconstruction(&mut w.slam.data, key);
        }
        "split" => {
            let key = w.key(slot("r"));
            let o = obs(&e["o"]);
            let v = w.view(key, o.0);
            *answer = Some(split_observation(&mut w.slam.data, key, v, o.1 - 1));
        }
        "splitall" => {
            let key = w.key(slot("r"));
            let l = w.mark(key, &e["b"]);
            w.slam.x_split_landmark(key, l);
        }
        "merge" => {
            let key = w.key(slot("r"));
            let (a, b) = (w.mark(key, &e["a"]), w.mark(key, &e["b"]));
            let l = w.slam.data.merge_landmarks(key, a, b);
            let now = w.mark(key, &e["a"]);
            w.cx.check(l == now, "map-answer-merge", || format!("{at}: merge_landmarks names another landmark"));
        }
        "dedup" => {
            let key = w.key(slot("r"));
            let (a, b) = (w.mark(key, &e["a"]), w.mark(key, &e["b"]));
            let l = w.slam.merge_landmarks_dedup(key, a, b);
            *answer = Some(l.is_some());
            if let Some(l) = l {
                let there = w.slam.data.reconstruction(key).landmarks.contains_key(l);
                w.cx.check(there, "map-answer-dedup", || format!("{at}: names a landmark that does not exist"));
            }
        }
        "filterobs" => {
            let key = w.key(slot("r"));
            *answer = Some(w.slam.filter_non_robust_observations(key).is_some());
        }
        "filtermarks" => {
            let key = w.key(slot("r"));
            w.slam.filter_non_robust_landmarks(key);
        }
        "record" => {
            let key = w.key(slot("r"));
            let v = w.view(key, slot("v"));
            *answer = Some(w.slam.x_record_view_constraints(key, v));
        }
        "optimise" => {
            let key = w.key(slot("r"));
            *answer = Some(w.slam.apply_constraints(key).is_some());
        }
        "regenerate" => {
            let key = w.key(slot("r"));
            *answer = Some(w.slam.regenerate_reconstruction(key).is_some());
        }
        "normalise" => {
            let r = slot("r");
            let key = w.key(r);
            let first = w.views(key)[0];
            w.slam.normalize_reconstruction(key);
            if let Some(mean) = w.mean_distance(&before[r - 1], first.1) {
                w.cx.count("class:normalised");
                // the first view is the origin, and the mean distance of what it sees is one
                w.gauges[r - 1] = Some(Gauge { to_truth: w.truth[first.1 - 1].inverse(), scale: 1.0 / mean });
            }
        }
        "pull" => w.pull(e, at),
        "resize" => w.resize(e, at),
        other => panic!("HARNESS: unknown operation {other}"),
    }
}
