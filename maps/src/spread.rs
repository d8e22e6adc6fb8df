//! Landmarks which the specification Spread.tla says are spread enough, or not.
use crate::history::*;
use crate::util::*;
use bitarray::BitArray;
use cv_core::nalgebra::*;
use cv_core::*;
use cv_pinhole::{CameraIntrinsics, CameraIntrinsicsK1Distortion};
use cv_sfm::access::*;
use cv_sfm::{Feature, VSlamSettings};
use rand::Rng;
use serde_json::Value;
use std::collections::HashMap;

pub fn landmarks(cx: &mut Ctx) {
    for _ in 0..cx.reps {
        once(cx);
    }
}

fn once(cx: &mut Ctx) {
    let eyes: Vec<(V3, usize)> = cx.arr("eyes").iter().map(|e| (v3(&e[0]), e[1].as_u64().expect("HARNESS: of") as usize)).collect();
    let n = eyes.len();
    let b = |v: &Value| v.as_bool().expect("HARNESS: bool");
    let count = |k: usize| eyes.iter().filter(|e| e.1 == k).count();
    let bar = nums(&cx.v["bar"]);
    // landmarks keep their observations in no particular order, so that those for which it could matter are made often
    let copies = if (1..=2).any(|k| count(k) > 2 && cx.v["pairs"][k - 1] == 1) { 12 } else { 3 };
    let unit_scale = cx.mag(-2.0, 2.0);
    let point = Point3::from(cx.dir() * cx.unif(0.0, 9.0) * unit_scale);
    let poses: Vec<Iso> = eyes
        .iter()
        .map(|(d, _)| {
            let rot = cx.rot();
            // the eye looks at the point from where it is
            let centre = point.coords + d * unit_scale;
            Iso::from_parts((-(rot * centre)).into(), rot)
        })
        .collect();
    let settings = VSlamSettings {
        robust_minimum_observations: cx.v["need"].as_u64().expect("HARNESS: need") as usize,
        robust_observation_incidence_minimum_cosine_distance: bar[0] / bar[1],
        ..Default::default()
    };
    let seed = cx.rng.gen();
    let mut slam = slam(settings, seed);
    let feed = slam.add_feed(CameraIntrinsicsK1Distortion::new(CameraIntrinsics::identity(), 0.0));
    let frames: Vec<FrameKey> = poses
        .iter()
        .map(|p| {
            let features = (0..copies)
                .map(|_| {
                    let mut d = [0u8; 64];
                    cx.rng.fill(&mut d[..]);
                    (BitArray::new(d), Feature { bearing: unit((p * point).coords), response: 1.0, color: [1, 2, 3] })
                })
                .collect();
            add_frame(&mut slam.data, feed, features)
        })
        .collect();
    let rel = |to: usize| CameraToCamera(poses[to] * poses[0].inverse());
    let r = slam.data.add_reconstruction(frames[0], frames[1], frames[2], rel(1), rel(2), vec![], vec![], vec![]);
    // the reconstruction's world is the first camera
    for i in 3..n {
        add_view(&mut slam.data, r, frames[i], WorldToCamera(rel(i).0), HashMap::new());
    }
    let want = poses[0] * point;
    let rec = slam.data.reconstruction(r);
    let views: Vec<ViewKey> = frames
        .iter()
        .map(|&f| rec.views.keys().find(|&v| rec.views[v].frame == f).unwrap_or_else(|| panic!("HARNESS: a frame has no view")))
        .collect();
    let mut order: Vec<usize> = (0..n).collect();
    for c in 0..copies {
        // the landmarks come to be in any order
        cx.shuffle(&mut order);
        let mut of: [Option<LandmarkKey>; 3] = [None; 3];
        for &i in &order {
            let k = eyes[i].1;
            if k == 0 {
                continue;
            }
            let l = slam.data.observation_landmark(r, views[i], c);
            of[k] = Some(match of[k] {
                None => l,
                Some(a) if cx.rng.gen() => slam.data.merge_landmarks(r, a, l),
                Some(a) => slam.data.merge_landmarks(r, l, a),
            });
        }
        let near = |x: Option<WorldPoint>| x.and_then(|x| x.point()).map_or(f64::INFINITY, |x| (x - want).norm() / unit_scale);
        let arrive = |cx: &mut Ctx, what: &str, t: Option<WorldPoint>, robust: bool, meet: bool| {
            if !robust {
                cx.check(t.is_none(), "lm-spread-none", || format!("{what} has a point, but is not robust"));
            } else if meet {
                cx.close(near(t), 1e-4, "lm-spread-point", || format!("{what} lies at {t:?}, not at {want}"));
            }
        };
        for k in 1..=2 {
            let Some(l) = of[k] else { continue };
            let what = format!("landmark {k}");
            let (robust, meet) = (b(&cx.v["robust"][k - 1]), b(&cx.v["meet"][k - 1]));
            let got = slam.is_landmark_robust(r, l);
            cx.check(got == robust, "lm-spread-robust", || format!("{what} robust: {got}"));
            arrive(cx, &what, slam.triangulate_landmark_robust(r, l), robust, meet);
            if meet && count(k) >= 2 {
                let t = slam.triangulate_landmark(r, l);
                cx.close(near(t), 1e-4, "lm-spread-any", || format!("{what} lies at {t:?}, not at {want}"));
            }
            if count(k) > 2 && cx.v["pairs"][k - 1] == 1 {
                cx.count("class:one-pair-of-many");
            }
            if count(k) >= 2 {
                cx.count(if robust { "class:spread" } else { "class:huddled" });
            }
            for i in (0..n).filter(|&i| eyes[i].1 == k) {
                let (robust, meet) = (b(&cx.v["less"][i][0]), b(&cx.v["less"][i][1]));
                let what = format!("landmark {k} without eye {}", i + 1);
                let got = slam.is_landmark_robust_without_view(r, l, views[i]);
                cx.check(got == robust, "lm-spread-without", || format!("{what} robust: {got}"));
                arrive(cx, &what, slam.triangulate_landmark_robust_without_view(r, l, views[i]), robust, meet);
            }
        }
        if let [_, Some(x), Some(y)] = of {
            let (robust, meet) = (b(&cx.v["merged"]), b(&cx.v["meet"][2]));
            let pair = if cx.rng.gen() { [x, y] } else { [y, x] };
            let got = slam.is_merged_landmark_robust(r, pair);
            cx.check(got == robust, "lm-spread-merged", || format!("the two landmarks as one robust: {got}"));
            cx.count(if robust { "class:merged-spread" } else { "class:merged-huddled" });
            arrive(cx, "the two landmarks as one", slam.triangulate_merged_landmark_robust(r, pair), robust, meet);
        }
    }
}
