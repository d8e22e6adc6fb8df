//! Frames as specs/Frames.tla makes them: what is kept of an image, which frames are found for a frame, and which
//! features match.
use crate::history::{slam, Slam};
use crate::util::*;
use bitarray::BitArray;
use cv_core::nalgebra::*;
use cv_core::*;
use cv_pinhole::{CameraIntrinsics, CameraIntrinsicsK1Distortion};
use cv_sfm::access::*;
use cv_sfm::VSlamSettings;
use image::{DynamicImage, Rgb, RgbImage, Scripted};
use rand::Rng;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

fn int(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| panic!("HARNESS: not a number: {v}")) as usize
}
fn pairs(v: &Value) -> BTreeSet<(usize, usize)> {
    arr(v).iter().map(|p| (int(&p[0]), int(&p[1]))).collect()
}
fn set(v: &Value) -> BTreeSet<usize> {
    arr(v).iter().map(int).collect()
}

pub fn matches(cx: &mut Ctx) {
    judge(cx, "match-")
}
pub fn neighbours(cx: &mut Ctx) {
    judge(cx, "near-")
}
pub fn features(cx: &mut Ctx) {
    judge(cx, "feat-")
}

fn judge(cx: &mut Ctx, only: &'static str) {
    for rep in 0..cx.reps {
        once(cx, rep, only);
    }
}

/// The bits of a descriptor, in an order of their own and some of them inverted, which changes no distance.
struct Bits {
    order: Vec<usize>,
    flip: [u8; 64],
}
impl Bits {
    fn of(&self, word: usize, lost: &BTreeSet<usize>) -> [u8; 64] {
        let mut d = self.flip;
        for k in 0..64 {
            if !lost.contains(&(k + 1)) {
                let bit = self.order[64 * word + k];
                d[bit / 8] ^= 1 << (bit % 8);
            }
        }
        d
    }
}

fn once(cx: &mut Ctx, rep: usize, only: &'static str) {
    let v = cx.v;
    let budget = int(&v["budget"]);
    let settings = VSlamSettings { tracking_features: budget, ..VSlamSettings::default() };
    let mut slam: Slam = slam(settings, cx.rng.gen());
    let mut bits = Bits { order: (0..512).collect(), flip: [0; 64] };
    if rep > 0 {
        cx.shuffle(&mut bits.order);
        cx.rng.fill(&mut bits.flip[..]);
    }
    let mut words: Vec<usize> = (0..8).collect();
    cx.shuffle(&mut words);
    set_words(&mut slam.data, words.iter().map(|&w| BitArray::new(bits.of(w, &BTreeSet::new()))).collect());
    // two cameras
    let cameras: Vec<CameraIntrinsics> = (0..2)
        .map(|_| {
            CameraIntrinsics::identity()
                .focals(Vector2::new(cx.unif(5.0, 30.0), cx.unif(5.0, 30.0)))
                .principal_point(Point2::new(cx.unif(2.0, 12.0), cx.unif(2.0, 12.0)))
        })
        .collect();
    let feeds: Vec<FeedKey> =
        cameras.iter().map(|&c| slam.add_feed(CameraIntrinsicsK1Distortion::new(c, 0.0))).collect();
    let pattern: Vec<Vec<u64>> =
        arr(&v["pattern"]).iter().map(|p| arr(p).iter().map(|x| int(x) as u64).collect()).collect();
    let rgb = RgbImage::from_fn(int(&v["width"]) as u32, int(&v["height"]) as u32, |x, y| {
        let (x, y) = (x as u64, y as u64);
        let tone = |p: &Vec<u64>| ((p[0] * x + p[1] * y + p[2] * x * y + p[3]) % 256) as u8;
        Rgb([tone(&pattern[0]), tone(&pattern[1]), tone(&pattern[2])])
    });
    let (loud, base) = (cx.mag(-4.0, 1.0) as f32, if rep == 0 { 0.0 } else { cx.unif(0.0, 3.0) as f32 });

    let mut frames: Vec<FrameKey> = vec![];
    let mut counts = BTreeMap::new();
    let mut groups: Vec<Option<ReconstructionKey>> = vec![];
    for e in arr(&v["log"]) {
        match e["op"].as_str().unwrap_or("") {
            "shoot" => {
                let feed = int(&e["feed"]) - 1;
                let image = DynamicImage {
                    rgb: rgb.clone(),
                    features: arr(&e["raw"])
                        .iter()
                        .map(|f| Scripted {
                            fine: None,
                            point: (num(&f["spot"][0]) as f32 / 4.0, num(&f["spot"][1]) as f32 / 4.0),
                            response: loud * (base + num(&f["resp"]) as f32),
                            descriptor: bits.of(int(&f["w"]), &set(&f["lost"])),
                        })
                        .collect(),
                };
                let found = slam.x_features(feeds[feed], &image);
                let expect = arr(&v["frames"][frames.len()]["feats"]);
                let at = frames.len() + 1;
                cx.count("class:shot");
                if expect.len() == budget && arr(&e["raw"]).len() > budget {
                    cx.count("class:over-budget");
                }
                let mut f = None;
                if only == "feat-" {
                    check_features(cx, at, &cameras[feed], &bits, &found, expect, (loud, base));
                    if groups.iter().all(|g| g.is_none()) {
                        // the whole way in, which also tries to localise the frame: too little to go by here
                        f = Some(slam.add_frame(feeds[feed], &image));
                        cx.count("class:whole");
                    }
                }
                let f = f.unwrap_or_else(|| add_frame(&mut slam.data, feeds[feed], found));
                if only == "feat-" {
                    let frame = slam.data.frame(f);
                    let n = frame.descriptor_features.len();
                    cx.check(n == expect.len(), "feat-kept", || format!("frame {at} keeps {n} features of {}", expect.len()));
                    let again = (0..n).map(|i| (*frame.descriptor(i), frame.feature(i).clone())).collect::<Vec<_>>();
                    check_features(cx, at, &cameras[feed], &bits, &again, expect, (loud, base));
                    for i in 0..n.min(expect.len()) {
                        let (b, c) = (frame.bearing(i) == frame.feature(i).bearing, frame.color(i) == frame.feature(i).color);
                        cx.check(b && c, "feat-access", || format!("frame {at}: feature {i} is not what it was added as"));
                        let same = slam.data.bearing(f, i) == frame.bearing(i)
                            && slam.data.descriptor(f, i) == frame.descriptor(i)
                            && slam.data.color(f, i) == frame.color(i);
                        cx.check(same, "feat-access", || format!("frame {at}: feature {i} differs by the way it is asked for"));
                    }
                    let no = counts.entry(feed).or_insert(0usize);
                    let (ok_feed, ix) = (frame.feed == feeds[feed], frame.feed_frame);
                    cx.check(ok_feed && ix == *no, "feat-place", || {
                        format!("frame {at} is number {ix} of its feed instead of {no}, or of another feed")
                    });
                    *no += 1;
                    let view = slam.data.frame(f).view;
                    cx.check(view.is_none(), "feat-view", || format!("frame {at} has got a view out of nothing"));
                }
                frames.push(f);
            }
            "join" => {
                let w: Vec<FrameKey> = arr(&e["who"]).iter().map(|f| frames[int(f) - 1]).collect();
                let pose = |cx: &mut Ctx| CameraToCamera(Iso::from_parts(cx.dir().into(), cx.rot()));
                let (p, q) = (pose(cx), pose(cx));
                groups.push(Some(slam.data.add_reconstruction(w[0], w[1], w[2], p, q, vec![], vec![], vec![])));
                cx.count("class:joined");
            }
            "part" => {
                let g = int(&e["group"]) - 1;
                if let Some(r) = groups[g].take() {
                    remove_reconstruction(&mut slam.data, r);
                }
                cx.count("class:parted");
            }
            x => panic!("HARNESS: operation {x}"),
        }
    }

    match only {
        "match-" => check_matches(cx, &slam, &frames),
        "near-" => check_near(cx, &slam, &frames, &groups),
        _ => {}
    }
}

fn check_features(
    cx: &mut Ctx,
    at: usize,
    camera: &CameraIntrinsics,
    bits: &Bits,
    found: &[(BitArray<64>, cv_sfm::Feature)],
    expect: &[Value],
    (loud, base): (f32, f32),
) {
    if !cx.check(found.len() == expect.len(), "feat-kept", || {
        format!("frame {at}: {} features kept instead of {}", found.len(), expect.len())
    }) {
        return;
    }
    for (i, ((d, f), e)) in found.iter().zip(expect).enumerate() {
        let descriptor = bits.of(int(&e["w"]), &set(&e["lost"]));
        let response = loud * (base + num(&e["resp"]) as f32);
        if !cx.check(d.bytes() == &descriptor && f.response == response, "feat-order", || {
            format!("frame {at}: feature {i} has response {} instead of {response}, or another descriptor", f.response)
        }) {
            continue;
        }
        let (x, y) = (num(&e["spot"][0]) / 4.0, num(&e["spot"][1]) / 4.0);
        let ray = unit(V3::new(
            (x - camera.principal_point.x) / camera.focals.x,
            (y - camera.principal_point.y) / camera.focals.y,
            1.0,
        ));
        cx.close((f.bearing.into_inner() - ray.into_inner()).norm(), 1e-9, "feat-bearing", || {
            format!("frame {at}: feature at ({x}, {y}) has bearing {} instead of {}", f.bearing.into_inner(), ray.into_inner())
        });
        let colour: Vec<f64> = arr(&e["colour"]).iter().map(num).collect();
        if colour[0] < 0.0 {
            cx.count("class:colour-edge");
            continue;
        }
        cx.count(if colour == [0.0, 0.0, 0.0] { "class:colour-none" } else { "class:colour" });
        let got: Vec<f64> = f.color.iter().map(|&c| c as f64).collect();
        cx.check(got == colour, "feat-colour", || format!("frame {at}: the colour at ({x}, {y}) is {got:?}, not {colour:?}"));
    }
}

fn check_matches(cx: &mut Ctx, slam: &Slam, frames: &[FrameKey]) {
    let v = cx.v;
    for m in arr(&v["matches"]) {
        let (a, b, by) = (int(&m["a"]), int(&m["b"]), int(&m["m"]) as u32);
        let expect = pairs(&m["pairs"]);
        for flip in [false, true] {
            let (x, y) = if flip { (b, a) } else { (a, b) };
            let got = access_matches(slam, frames[x - 1], frames[y - 1], by);
            let listed: BTreeSet<(usize, usize)> =
                got.iter().map(|&[i, j]| if flip { (j + 1, i + 1) } else { (i + 1, j + 1) }).collect();
            cx.check(listed.len() == got.len(), "match-once", || format!("a match of frames {x} and {y} is listed twice"));
            cx.check(listed == expect, "match-pairs", || {
                format!("frames {x} and {y} by {by}: {listed:?} match instead of {expect:?}")
            });
            cx.count(if expect.is_empty() { "class:none" } else { "class:matched" });
        }
    }
    for m in arr(&v["loose"]) {
        let (a, b) = (int(&m["a"]), int(&m["b"]));
        let (must, may) = (pairs(&m["must"]), pairs(&m["may"]));
        let got: BTreeSet<(usize, usize)> =
            access_matches(slam, frames[a - 1], frames[b - 1], 0).iter().map(|&[i, j]| (i + 1, j + 1)).collect();
        cx.check(must.is_subset(&got) && got.is_subset(&may), "match-loose", || {
            format!("frames {a} and {b} without a margin: {got:?}, between {must:?} and {may:?}")
        });
        let (l, r): (BTreeSet<usize>, BTreeSet<usize>) = (got.iter().map(|p| p.0).collect(), got.iter().map(|p| p.1).collect());
        cx.check(l.len() == got.len() && r.len() == got.len(), "match-one", || {
            format!("frames {a} and {b} without a margin: {got:?} is not one to one")
        });
        if must != may {
            cx.count("class:tied");
        }
    }
}
fn access_matches(slam: &Slam, a: FrameKey, b: FrameKey, by: u32) -> Vec<[usize; 2]> {
    cv_sfm::access::matches(&slam.data, a, b, by)
}

fn check_near(cx: &mut Ctx, slam: &Slam, frames: &[FrameKey], groups: &[Option<ReconstructionKey>]) {
    let v = cx.v;
    let number = |k: FrameKey| frames.iter().position(|&f| f == k).map_or(0, |p| p + 1);
    for q in arr(&v["near"]) {
        let (f, p) = (int(&q["f"]), &q["q"]);
        let (similar, recent) = (int(&p["similar"]), int(&p["recent"]));
        let (headed, free) = cv_sfm::access::neighbours(
            &slam.data,
            frames[f - 1],
            similar,
            recent,
            int(&p["threshold"]),
            int(&p["search"]),
        );
        let mut listed: Vec<(usize, usize)> = free.iter().map(|&k| (number(k), 0)).collect();
        for (r, views) in &headed {
            let g = groups.iter().position(|x| *x == Some(*r)).map_or(usize::MAX, |p| p + 1);
            for &view in views {
                listed.push((number(slam.data.view(*r, view).frame), g));
            }
            cx.check(!views.is_empty(), "near-heading", || format!("frame {f}: a reconstruction without views is listed"));
        }
        let found: BTreeSet<usize> = listed.iter().map(|x| x.0).collect();
        let recents = set(&q["recent"]);
        let (must, may) = (set(&q["similar"]["must"]), set(&q["similar"]["may"]));
        cx.check(found.len() == listed.len(), "near-once", || format!("frame {f} {p}: {listed:?} has a frame twice"));
        cx.check(recents.is_subset(&found), "near-recent", || format!("frame {f} {p}: {found:?} lacks recent ones of {recents:?}"));
        cx.check(must.is_subset(&found), "near-similar", || format!("frame {f} {p}: {found:?} lacks similar ones of {must:?}"));
        cx.check(found.iter().all(|g| recents.contains(g) || may.contains(g)), "near-only", || {
            format!("frame {f} {p}: {found:?} is more than {recents:?} and {may:?}")
        });
        cx.check(found.difference(&recents).count() <= similar, "near-many", || {
            format!("frame {f} {p}: more than {similar} similar frames in {found:?} besides {recents:?}")
        });
        for (g, group) in listed {
            let expect = if g == 0 { usize::MAX } else { int(&v["frames"][g - 1]["group"]) };
            cx.check(group == expect, "near-group", || {
                format!("frame {f} {p}: frame {g} is listed under reconstruction {group}, but is in {expect}")
            });
            cx.count(if group == 0 { "class:free" } else { "class:grouped" });
        }
        if must != may {
            cx.count("class:tied");
        }
        if !must.is_empty() {
            cx.count("class:similar");
        }
        if !recents.is_empty() {
            cx.count("class:recent");
        }
    }
}
