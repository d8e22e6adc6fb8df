//! Whole sessions, as specs/Session.tla makes them: frames of an exact scene go in through `add_frame`, one by one, and what
//! becomes of them is read from the tables.
use crate::history::{slam_with, Block, Gauge, Slam, World};
use crate::util::*;
use cv_core::nalgebra::*;
use cv_core::*;
use cv_pinhole::{CameraIntrinsics, CameraIntrinsicsK1Distortion};
use cv_sfm::access::*;
use cv_sfm::VSlamSettings;
use bitarray::BitArray;
use image::{DynamicImage, Rgb, RgbImage, Scripted};
use rand::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

fn int(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| panic!("HARNESS: not a number: {v}")) as usize
}
fn ints(v: &Value) -> BTreeSet<usize> {
    arr(v).iter().map(int).collect()
}

/// The poses, the constraints and the points are those of the scene.
pub fn exact(cx: &mut Ctx) {
    judge(cx, &["pose-", "con-", "pt-"])
}
/// The tables are whole, and TLC finds in the recordings what it expects.
pub fn behaves(cx: &mut Ctx) {
    judge(cx, &["map-", "ses-"])
}
fn judge(cx: &mut Ctx, about: &[&str]) {
    for rep in 0..cx.reps {
        once(cx, rep);
        cx.fails.retain(|(key, _)| about.iter().any(|a| key.starts_with(a)));
    }
}

const MANY: usize = 40;
const FEW: usize = 3;
/// In relation to the extent of the scene: what sample consensus leaves, and the optimizers make of that.
const TOL: f64 = 1e-3;

fn settings(window: usize, minnew: usize) -> VSlamSettings {
    let all = window == 0;
    VSlamSettings {
        maximum_cosine_distance: 1e-9,
        maximum_sine_distance: 1e-4,
        robust_view_bearing_pair_minimum_cosine_distance: 5e-3,
        robust_view_num_robust_bearing_pair: 3,
        minimum_robust_landmarks: 24,
        robust_minimum_observations: 3,
        robust_observation_incidence_minimum_cosine_distance: 1e-7,
        single_view_consensus_threshold: 1e-14,
        single_view_optimization_num_matches: 400,
        single_view_filter_loop_iterations: 2,
        single_view_patience: 5,
        single_view_initial_features: 1000,
        single_view_optimization_rate: 1e-3,
        single_view_minimum_landmarks: 20,
        single_view_minimum_robust_landmarks: 24,
        two_view_consensus_threshold: 1e-12,
        two_view_minimum_robust_matches: 30,
        three_view_patience: 5,
        three_view_minimum_relative_scales: 20,
        three_view_filter_loop_iterations: 2,
        three_view_optimization_landmarks: 400,
        three_view_minimum_robust_matches: 32,
        reconstruction_optimization_iterations: 1,
        tracking_features: 100_000,
        tracking_similar_frames: if all { 1000 } else { 0 },
        tracking_similar_frame_recent_threshold: 0,
        tracking_similar_frame_search_num: 1000,
        tracking_recent_frames: window,
        optimization_maximum_three_view_constraints: 1000,
        optimization_minimum_new_constraints: minnew,
        optimization_iterations: 3,
        optimization_minimum_landmarks: 24,
        optimization_maximum_landmarks: 200,
        optimization_robust_covisibility_minimum_landmarks: 24,
        graph_optimization_rate: 1e-2,
        constraint_patience: 3,
        ..Default::default()
    }
}

/// Descriptors which are far from each other: rows of a Hadamard matrix, with the bits in an order of their own and some of
/// them inverted.
struct Bits {
    order: Vec<usize>,
    flip: [u8; 64],
}
impl Bits {
    fn of(&self, row: usize, lost: &[usize]) -> [u8; 64] {
        let mut d = self.flip;
        for k in 0..512 {
            if ((row & k).count_ones() % 2 == 1) != lost.contains(&k) {
                let bit = self.order[k];
                d[bit / 8] ^= 1 << (bit % 8);
            }
        }
        d
    }
}

struct Point {
    bunch: usize,
    at: V3,
}

fn ball(cx: &mut Ctx, radius: f64) -> V3 {
    loop {
        let v = V3::new(cx.unif(-1.0, 1.0), cx.unif(-1.0, 1.0), cx.unif(-1.0, 1.0));
        if v.norm() <= 1.0 {
            return v * radius;
        }
    }
}

/// How far two rays are from meeting: the angle at which the second one passes the plane that holds the first and both eyes.
fn apart(a: &Iso, ra: &V3, b: &Iso, rb: &V3) -> f64 {
    let (ca, cb) = (a.inverse() * Point3::origin(), b.inverse() * Point3::origin());
    let (da, db) = (a.rotation.inverse() * ra, b.rotation.inverse() * rb);
    let n = (cb - ca).cross(&da);
    (n.normalize().dot(&db.normalize())).abs().asin()
}

fn once(cx: &mut Ctx, rep: usize) {
    let v = cx.v;
    let shots = arr(&v["shots"]);
    let (wide, narrow, small) = (ints(&v["bunches"]["wide"]), ints(&v["bunches"]["narrow"]), ints(&v["bunches"]["small"]));
    let sees: Vec<BTreeSet<usize>> = shots.iter().map(|s| ints(&s["sees"])).collect();
    let wrong: Vec<BTreeSet<usize>> = shots.iter().map(|s| ints(&s["wrong"])).collect();
    let (window, minnew) = (int(&v["mode"]["window"]), int(&v["mode"]["minnew"]));

    // the scene
    let mut points: Vec<Point> = vec![];
    for &b in wide.iter().chain(&small) {
        for _ in 0..if wide.contains(&b) { MANY } else { FEW } {
            points.push(Point { bunch: b, at: ball(cx, 1.0) });
        }
    }
    for &b in &narrow {
        let middle = ball(cx, 0.5);
        for _ in 0..MANY {
            points.push(Point { bunch: b, at: middle + ball(cx, 0.1) });
        }
    }
    let mut eyes: Vec<V3> = vec![];
    let front = cx.dir();
    while eyes.len() < shots.len() {
        let far = shots[eyes.len()]["far"].as_bool().expect("HARNESS: far");
        let distance = if far { cx.unif(45.0, 60.0) } else { cx.unif(4.0, 7.0) };
        // all from one side: rays at more than a right angle are not trusted
        let e = (front + cx.dir() * cx.unif(0.0, 0.6)).normalize() * distance;
        if eyes.iter().all(|o| (0.2..1.0).contains(&angle(o, &e))) {
            eyes.push(e);
        }
    }
    let mut truth: Vec<Iso> = vec![];
    for e in &eyes {
        // the scene is not in the middle of the frame
        let aim = ball(cx, 0.3) * (e.norm() / 5.0);
        let up = cx.dir();
        let look = Rotation3::look_at_lh(&(aim - e), &up);
        truth.push(Iso::from_parts((-(look * e)).into(), look));
    }
    // somewhere else, and of another size
    let size = if rep == 0 { 1.0 } else { cx.mag(-2.0, 2.0) };
    let place = Iso::from_parts((cx.dir() * 3.0).into(), cx.rot());
    for t in &mut truth {
        *t = *t * place.inverse();
        t.translation.vector *= size;
    }
    for p in &mut points {
        p.at = (place * Point3::from(p.at)).coords * size;
    }
    let ray = |t: &Iso, p: &V3| (t * Point3::from(*p)).coords;
    // where the frames report the points
    let mut rays: Vec<BTreeMap<usize, V3>> = vec![];
    for f in 0..shots.len() {
        let mut r = BTreeMap::new();
        for (k, p) in points.iter().enumerate().filter(|(_, p)| sees[f].contains(&p.bunch)) {
            let right = ray(&truth[f], &p.at);
            if !wrong[f].contains(&p.bunch) {
                r.insert(k, right);
                continue;
            }
            let mut best = (0.0, right);
            for _ in 0..300 {
                let q = (place * Point3::from(ball(cx, 1.0))).coords * size;
                let seen = ray(&truth[f], &q);
                let mut worst = angle(&seen, &right);
                for g in 0..shots.len() {
                    if g == f || !sees[g].contains(&p.bunch) {
                        continue;
                    }
                    let other = if g < f { rays[g][&k] } else { ray(&truth[g], &p.at) };
                    worst = f64::min(worst, apart(&truth[f], &seen, &truth[g], &other));
                }
                if worst > best.0 {
                    best = (worst, seen);
                }
                if best.0 > 0.02 {
                    break;
                }
            }
            if best.0 < 2e-3 {
                cx.count("class:no-wrong-ray");
                return;
            }
            r.insert(k, best.1);
        }
        rays.push(r);
    }

    // the session
    let mut slam: Slam = slam_with(settings(window, minnew), cx.rng.gen(), 100);
    let mut bits = Bits { order: (0..512).collect(), flip: [0; 64] };
    cx.shuffle(&mut bits.order);
    cx.rng.fill(&mut bits.flip[..]);
    let words = (0..8).map(|_| BitArray::new(std::array::from_fn(|_| cx.rng.gen()))).collect();
    set_words(&mut slam.data, words);
    let mut rows: Vec<usize> = (0..512).collect();
    cx.shuffle(&mut rows);
    let feeds: BTreeSet<usize> = shots.iter().map(|s| int(&s["feed"])).collect();
    let mut cameras = BTreeMap::new();
    for d in feeds {
        let (focal, centre) = (Vector2::new(cx.unif(300.0, 900.0), cx.unif(300.0, 900.0)), Point2::new(cx.unif(200.0, 400.0), cx.unif(200.0, 400.0)));
        let k = CameraIntrinsics::identity().focals(focal).principal_point(centre);
        let key = slam.add_feed(CameraIntrinsicsK1Distortion::new(k, 0.0));
        cameras.insert(d, (key, focal, centre));
    }
    let rgb = RgbImage::from_fn(4, 4, |x, y| Rgb([x as u8 * 60, y as u8 * 60, 9]));
    let record = cx.record && rep == 0;
    let mut w = World {
        cx,
        slam,
        frames: vec![],
        truth,
        points: points.iter().map(|p| Point3::from(p.at)).collect(),
        sees: vec![],
        recs: vec![],
        gauges: vec![],
        minobs: 3,
        extent: 5.0 * size,
        tol: TOL,
        noisy: false,
    };
    if record {
        w.cx.recorded.push(json!({"op": "reset", "mode": v["mode"], "feed": 0, "sees": [], "wrong": [], "far": false, "recs": []}));
    }
    for (f, shot) in shots.iter().enumerate() {
        let at = format!("frame {}", f + 1);
        // reconstructions which meet in a frame are another matter
        let shared = |r: &Option<ReconstructionKey>| {
            w.views(r.unwrap()).iter().any(|&(_, g)| sees[g - 1].intersection(&sees[f]).any(|b| !small.contains(b)))
        };
        if w.recs.iter().filter(|r| shared(r)).count() > 1 {
            w.cx.count("class:meet");
            return;
        }
        let &(feed, focal, centre) = &cameras[&int(&shot["feed"])];
        let mut order: Vec<usize> = rays[f].keys().copied().collect();
        w.cx.shuffle(&mut order);
        let features = order
            .iter()
            .enumerate()
            .map(|(i, &k)| {
                let r = rays[f][&k];
                assert!(r.z > 0.0, "HARNESS: a point behind the camera");
                let (x, y) = (r.x / r.z * focal.x + centre.x, r.y / r.z * focal.y + centre.y);
                let lost: Vec<usize> = (0..w.cx.rng.gen_range(0..6)).map(|_| w.cx.rng.gen_range(0..512)).collect();
                Scripted { point: (1.0, 1.0), fine: Some((x, y)), response: (order.len() - i) as f32, descriptor: bits.of(rows[k], &lost) }
            })
            .collect();
        let image = DynamicImage { rgb: rgb.clone(), features };
        if shot["far"] == true {
            w.cx.count("class:far");
        }
        let key = w.slam.add_frame(feed, &image);
        w.frames.push(key);
        w.sees.push(order.iter().map(|k| k + 1).collect());
        let kept = w.slam.data.frame(key).descriptor_features.len();
        assert!(kept == order.len(), "HARNESS: {kept} features of {}", order.len());
        w.recs = w.slam.data.reconstructions().map(Some).collect();
        w.gauges = vec![None; w.recs.len()];
        for slot in 0..w.recs.len() {
            w.gauges[slot] = gauge(&w, w.recs[slot].unwrap());
        }
        let read = w.read(&at);
        w.poses(&at);
        let mut recs = vec![];
        for (slot, s) in read.iter().enumerate() {
            // the points of a bunch fare alike
            let mut of: BTreeMap<usize, BTreeSet<BTreeSet<usize>>> = BTreeMap::new();
            for b in &s.blocks {
                let ids: BTreeSet<usize> = b.iter().map(|o| w.sees[o.0 - 1][o.1 - 1] - 1).collect();
                w.cx.check(ids.len() == 1, "ses-mixed", || format!("{at}: a landmark of {} points", ids.len()));
                of.entry(*ids.iter().next().unwrap()).or_default().insert(b.iter().map(|o| o.0).collect());
            }
            let mut blocks: BTreeMap<usize, BTreeSet<BTreeSet<usize>>> = BTreeMap::new();
            for (k, sets) in of {
                let b = points[k].bunch;
                match blocks.get(&b) {
                    Some(other) => {
                        w.cx.check(*other == sets, "ses-alike", || format!("{at}: landmarks of one bunch are seen in {sets:?} and {other:?}"));
                    }
                    None => {
                        blocks.insert(b, sets);
                    }
                }
            }
            for (t, n) in &s.cons {
                w.cx.check(*n == 1, "ses-constraint-twice", || format!("{at}: {n} constraints between {t:?}"));
            }
            located(&mut w, slot, &s.blocks, s.views.len(), &at);
            let blocks: Vec<Value> = blocks.iter().flat_map(|(b, sets)| sets.iter().map(move |s| json!([b, s]))).collect();
            recs.push(json!({"views": s.views, "blocks": blocks, "cons": s.cons.keys().collect::<Vec<_>>()}));
            w.cx.count(&format!("class:views-{}", s.views.len()));
        }
        w.cx.count(&format!("class:recs-{}", recs.len()));
        if record {
            w.cx.recorded.push(json!({"op": "add", "mode": v["mode"], "feed": shot["feed"], "sees": shot["sees"], "wrong": shot["wrong"], "far": shot["far"], "recs": recs}));
        }
        if !w.cx.fails.is_empty() {
            return;
        }
    }
}

/// How a reconstruction lies in the scene, by its first two views.
fn gauge(w: &World, r: ReconstructionKey) -> Option<Gauge> {
    let views = w.views(r);
    let [(va, a), (vb, b)] = [*views.first()?, *views.get(1)?];
    let (pa, pb) = (w.slam.data.pose(r, va).isometry(), w.slam.data.pose(r, vb).isometry());
    let eye = |p: Iso| p.inverse() * Point3::origin();
    let scale = (eye(pa) - eye(pb)).norm() / (eye(w.truth[a - 1]) - eye(w.truth[b - 1])).norm();
    let mut p = pa;
    p.translation.vector /= scale;
    Some(Gauge { to_truth: w.truth[a - 1].inverse() * p, scale })
}

/// Robust landmarks are where their points are.
fn located(w: &mut World, slot: usize, blocks: &BTreeSet<Block>, views: usize, at: &str) {
    let (r, Some(g)) = (w.recs[slot].unwrap(), w.gauges[slot]) else { return };
    let keys: BTreeMap<usize, ViewKey> = w.views(r).into_iter().map(|(v, f)| (f, v)).collect();
    for b in blocks {
        let &(f, i) = b.iter().next().unwrap();
        let l = w.slam.data.observation_landmark(r, keys[&f], i - 1);
        let robust = b.len() >= 3.min(views);
        let t = w.slam.triangulate_landmark_robust(r, l);
        w.cx.check(t.is_some() == robust, "pt-robust", || format!("{at}: a landmark seen by {} of {views} has a robust point: {}", b.len(), t.is_some()));
        if let (Some(t), Some(want)) = (t.and_then(|t| t.point()), w.placed(slot + 1, w.sees[f - 1][i - 1])) {
            let e = (t - want).norm() / (w.extent * g.scale);
            w.cx.close(e, TOL, "pt-place", || format!("{at}: a landmark lies at {t}, not at {want}"));
        }
    }
}
