//! Refinement of poses (specs/Refine.tla, ThreeView.tla): C20, C21.
use crate::util::*;
use cv_core::nalgebra::*;
use cv_core::*;
use cv_geom::epipolar;
use cv_optimize::*;
use serde_json::{json, Value};

/// Records what happens in every iteration of a refinement: the ranks of the magnitudes that decide when it stops
/// (those that cannot be told apart are equal), and whether it moved.
fn record<S: Clone>(
    cx: &mut Ctx,
    name: &str,
    iterations: usize,
    run: &dyn Fn(usize) -> S,
    one: &dyn Fn(&S) -> S,
    magnitudes: &dyn Fn(&S) -> Option<Vec<f64>>,
    gap: &dyn Fn(&S, &S) -> f64,
) {
    let mut seen: Vec<(Vec<f64>, &str)> = vec![];
    let mut here = run(0);
    for k in 0..iterations {
        // where it is all but done, rounding decides
        let Some(m) = magnitudes(&here) else { break };
        let step = gap(&one(&here), &here);
        let next = run(k + 1);
        let moved = gap(&next, &here);
        let word = if step < 1e-11 {
            "unclear"
        } else if moved > 0.5 * step {
            "yes"
        } else if moved < 1e-3 * step {
            "no"
        } else {
            "unclear"
        };
        seen.push((m, word));
        here = next;
    }
    if seen.len() < 60 {
        return;
    }
    let width = seen[0].0.len();
    let mut ranks = vec![vec![0; width]; seen.len()];
    for w in 0..width {
        let mut ix: Vec<usize> = (0..seen.len()).collect();
        ix.sort_by(|&a, &b| seen[a].0[w].partial_cmp(&seen[b].0[w]).unwrap());
        let mut rank = 1;
        for k in 0..ix.len() {
            if k > 0 && seen[ix[k]].0[w] > seen[ix[k - 1]].0[w] * (1.0 + 1e-9) {
                rank += 1;
            }
            ranks[ix[k]][w] = rank;
        }
    }
    cx.recorded.push(json!({"op": "begin", "width": width, "name": name, "rank": 0}));
    for (m, (_, moved)) in ranks.iter().zip(&seen) {
        cx.recorded.push(json!({"op": "iterate", "m": m, "moved": moved}));
        cx.count(&format!("class:moved-{moved}"));
    }
    cx.count("class:recorded");
    if seen.iter().any(|s| s.1 == "no") {
        cx.count("class:stopped");
    }
}
/// The norms of the sums of moves and turns, unless they are too small to be told from rounding.
fn sums(t: &[V3], r: &[V3], l1: bool, size: f64) -> Option<[f64; 2]> {
    let clear = |v: &[V3], s: f64| v.iter().all(|v| v.norm() == 0.0 || v.norm() > 1e-5 * s);
    if l1 && !(clear(t, size) && clear(r, 1.0)) {
        return None;
    }
    let sum = |v: &[V3]| -> f64 {
        v.iter().filter(|v| v.norm() > 0.0).map(|v| if l1 { v.normalize() } else { *v }).sum::<V3>().norm()
    };
    let (a, b) = (sum(t), sum(r));
    if (a > 0.0 && a < 1e-7 * if l1 { 1.0 } else { size }) || (b > 0.0 && b < 1e-7) {
        return None;
    }
    Some([a, b])
}

type Marks = Vec<FeatureWorldMatch>;

/// The two refinements of a single pose.
#[derive(Clone, Copy, Debug)]
enum One {
    L1(f64, f64),
    L2(f64),
}
impl One {
    fn run(self, p: Iso, iterations: usize, marks: &Marks) -> Iso {
        let p = WorldToCamera(p);
        match self {
            One::L1(eps, rate) => single_view_simple_optimize_l1(p, eps, rate, iterations, marks).isometry(),
            One::L2(rate) => single_view_simple_optimize_l2(p, rate, iterations, marks).isometry(),
        }
    }
    fn rate(self) -> f64 {
        match self {
            One::L1(_, r) | One::L2(r) => r,
        }
    }
    fn name(self) -> &'static str {
        match self {
            One::L1(..) => "l1",
            One::L2(..) => "l2",
        }
    }
    /// How far rounding of a gradient that is zero can move the pose in an iteration.
    fn noise(self, size: f64, n: usize) -> f64 {
        match self {
            One::L1(eps, rate) => 4.0 * rate * n as f64 * (eps * size + 1e-12 * size),
            One::L2(_) => 1e-13 * size,
        }
    }
}
fn gap(a: &Iso, b: &Iso, size: f64) -> f64 {
    (a.translation.vector - b.translation.vector).norm() + size * rot_dist(&a.rotation, &b.rotation)
}
/// The isometry of a step: turned and moved.
fn step(t: V3, r: V3) -> Iso {
    let rotation = Rotation3::from_scaled_axis(r);
    Iso::from_parts((rotation * t).into(), rotation)
}
fn matches(xs: &[Vector4<f64>], bs: &[V3]) -> Marks {
    xs.iter().zip(bs).map(|(x, b)| FeatureWorldMatch(unit(*b), WorldPoint::from_homogeneous(*x))).collect()
}
/// sum of squared sines of the angles by which the landmarks are missed
fn misfit(p: &Iso, xs: &[Vector4<f64>], bs: &[V3]) -> f64 {
    xs.iter()
        .zip(bs)
        .filter(|(x, _)| x.w != 0.0)
        .map(|(x, b)| angle(&(p * Point3::from(x.xyz() / x.w)).coords, b).powi(2))
        .sum()
}

pub fn single(cx: &mut Ctx) {
    let marks = cx.arr("marks");
    let moves = cx.arr("moves");
    for rep in 0..cx.reps {
        // the scene in another frame and unit
        let (turn, unit_) = if rep == 0 { (Rotation3::identity(), 1.0) } else { (cx.rot(), cx.mag(-3.0, 3.0)) };
        let place = |p: Iso| Iso::from_parts((p.translation.vector * unit_).into(), p.rotation * turn.inverse());
        let truth = place(pose(&cx.v["truth"]));
        let start = place(pose(&cx.v["start"]));
        let mut xs = vec![];
        let mut bs = vec![];
        let mut size = start.translation.vector.norm().max(truth.translation.vector.norm());
        for m in marks {
            let h = v4(&m["x"]);
            let x = turn * h.xyz() * unit_;
            xs.push(Vector4::new(x.x, x.y, x.z, h.w) * if cx.int(0, 1) == 0 { 1.0 } else { cx.unif(-2.0, 2.0) });
            bs.push(v3(&m["b"]).normalize());
            if h.w != 0.0 {
                size = size.max(x.norm() / h.w);
            }
        }
        size = size.max(unit_);
        let ms = matches(&xs, &bs);
        let n = ms.len();
        let usable = moves.iter().filter(|m| num(&m["den"]) != 0.0).count();
        let rate = cx.unif(0.01, 1.0);
        let eps = cx.mag(-12.0, -3.0);
        for m in [One::L1(eps, rate), One::L2(rate)] {
            let name = m.name();
            let say = |got: &Iso, want: &Iso| format!("{m:?} from {} gave {} instead of {}; {ms:?}", iso(start), iso(*got), iso(*want));
            // nothing to do
            let got = m.run(start, 0, &ms);
            cx.close(gap(&got, &start, size), 1e-14 * size, &format!("{name}-no-iterations"), || say(&got, &start));
            if usable == 0 {
                let k = cx.int(1, 300) as usize;
                let got = m.run(start, k, &ms);
                cx.close(gap(&got, &start, size), 1e-12 * size, &format!("{name}-no-landmarks"), || say(&got, &start));
                cx.count("class:unusable");
                continue;
            }
            // one iteration, as specified
            let tscale = start.translation.vector.norm();
            let (mut t, mut r, mut ts, mut rs) = (V3::zeros(), V3::zeros(), 0.0, 0.0);
            for k in moves.iter().filter(|k| num(&k["den"]) != 0.0) {
                let dt = v3(&k["perp"]) / num(&k["den"]) * unit_;
                let dr = v3(&k["turn"]) / (num(&k["ny"]).sqrt() * num(&k["nb"]).sqrt());
                match m {
                    One::L2(_) => {
                        t += dt;
                        r += dr;
                    }
                    One::L1(..) => {
                        ts += 1.0 / (dt.norm() + tscale * eps);
                        rs += 1.0 / (dr.norm() + eps);
                        if dt.norm() > 0.0 {
                            t += dt.normalize();
                            r += dr.normalize();
                        }
                    }
                }
            }
            let want = match m {
                One::L2(_) => step(t * (rate / n as f64), r * (rate / n as f64)) * start,
                One::L1(..) => step(t * rate / ts, r * rate / rs) * start,
            };
            let got = m.run(start, 1, &ms);
            let zeros = moves.iter().filter(|k| num(&k["den"]) != 0.0 && v3(&k["turn"]) == V3::zeros()).count();
            let noise = m.noise(size, zeros);
            cx.close(gap(&got, &want, size), 1e-11 * size + noise, &format!("{name}-one"), || say(&got, &want));
            // many iterations, in one go or in two
            let m = match m {
                One::L1(eps, rate) => One::L1(eps.min(1e-7), rate / 2.0),
                One::L2(rate) => One::L2(rate / 2.0),
            };
            let noise = m.noise(size, n);
            let (i, j) = (cx.int(1, 25) as usize, cx.int(1, 25) as usize);
            if cx.record && rep == 0 && usable > 1 {
                record(
                    cx, name, 300,
                    &|k| m.run(start, k, &ms),
                    &|p| m.run(*p, 1, &ms),
                    &|p| {
                        let g: Vec<_> = xs.iter().zip(&bs).filter(|(x, _)| x.w != 0.0).map(|(x, b)| {
                            epipolar::world_pose_gradient((p * Point3::from(x.xyz() / x.w)).coords, unit(*b))
                        }).collect();
                        let t: Vec<V3> = g.iter().map(|g| g.translation).collect();
                        let r: Vec<V3> = g.iter().map(|g| g.rotation).collect();
                        sums(&t, &r, matches!(m, One::L1(..)), size).map(|s| s.to_vec())
                    },
                    &|a, b| gap(a, b, size) / size,
                );
            }
            let all = m.run(start, i + j, &ms);
            // how much the result depends on the start: some scenes are turning points
            let mut rough = 0.0f64;
            for _ in 0..4 {
                let d = Iso::from_parts((cx.dir() * size * 1e-10).into(), Rotation3::from_scaled_axis(cx.dir() * 1e-10));
                rough = rough.max(gap(&m.run(d * start, i + j, &ms), &all, size));
            }
            let chaotic = rough > 1e-6 * size;
            let rough = if chaotic { f64::INFINITY } else { 10.0 * rough + 1e-9 * size + (i + j) as f64 * noise * 10.0 };
            cx.count(if chaotic { "class:chaotic" } else { "class:calm" });
            let two = m.run(m.run(start, i, &ms), j, &ms);
            cx.close(gap(&all, &two, size), rough, &format!("{name}-compose"), || say(&two, &all));
            cx.check(iso_finite(&all), &format!("{name}-finite"), || say(&all, &start));
            cx.close(rot_defect(&all.rotation), 1e-9, &format!("{name}-proper"), || say(&all, &start));
            // order, and repetition
            let mut order: Vec<usize> = (0..n).collect();
            cx.shuffle(&mut order);
            let shuffled: Marks = order.iter().map(|&i| ms[i]).collect();
            let got = m.run(start, i + j, &shuffled);
            cx.close(gap(&got, &all, size), rough, &format!("{name}-order"), || say(&got, &all));
            let twice: Marks = ms.iter().chain(&shuffled).copied().collect();
            let got = m.run(start, i + j, &twice);
            cx.close(gap(&got, &all, size), rough, &format!("{name}-repeat"), || say(&got, &all));
            // other frames of the world and of the camera, other units
            let f = {
                let t = if let One::L2(_) = m { cx.dir() * cx.unif(0.0, 3.0) * size } else { V3::zeros() };
                Iso::from_parts(t.into(), cx.rot())
            };
            let ys: Vec<Vector4<f64>> = xs.iter().map(|x| {
                let p = f.rotation * x.xyz() + f.translation.vector * x.w;
                Vector4::new(p.x, p.y, p.z, x.w)
            }).collect();
            // the origin of the world is no landmark
            if ys.iter().all(|y| y.xyz().norm() > 1e-3 * size * y.w.abs()) {
                let got = m.run(start * f.inverse(), i + j, &matches(&ys, &bs)) * f;
                cx.close(gap(&got, &all, size), 4.0 * rough, &format!("{name}-world"), || say(&got, &all));
            }
            let c = Iso::from_parts(V3::zeros().into(), cx.rot());
            let cs: Vec<V3> = bs.iter().map(|b| c.rotation * b).collect();
            let got = c.inverse() * m.run(c * start, i + j, &matches(&xs, &cs));
            cx.close(gap(&got, &all, size), rough, &format!("{name}-camera"), || say(&got, &all));
            let u = cx.mag(-2.0, 2.0);
            let scaled = |p: Iso, u: f64| Iso::from_parts((p.translation.vector * u).into(), p.rotation);
            let us: Vec<Vector4<f64>> = xs.iter().map(|x| Vector4::new(x.x * u, x.y * u, x.z * u, x.w)).collect();
            let got = scaled(m.run(scaled(start, u), i + j, &matches(&us, &bs)), 1.0 / u);
            cx.close(gap(&got, &all, size), rough, &format!("{name}-unit"), || say(&got, &all));
            // what is right stays right
            let exact = cx.b("exact");
            if exact {
                let k = cx.int(1, 50) as usize;
                let slow = match m {
                    One::L1(eps, rate) => One::L1(eps, rate / 2.0),
                    One::L2(rate) => One::L2(rate / 2.0),
                };
                let got = slow.run(truth, k, &ms);
                cx.close(gap(&got, &truth, size), 1e-9 * size + noise * k as f64, &format!("{name}-keeps"), || say(&got, &truth));
                cx.count("class:right");
            }
            // what is nearly right becomes better
            let front = moves.iter().zip(marks).all(|(k, _)| num(&k["den"]) != 0.0);
            let different = marks.iter().map(|m| m["b"].to_string()).collect::<std::collections::HashSet<_>>().len();
            let off = misfit(&start, &xs, &bs);
            if exact && front && different >= 5 && off > 1e-9 {
                let worst = xs.iter().zip(&bs).map(|(x, b)| angle(&(start * Point3::from(x.xyz() / x.w)).coords, b)).fold(0.0, f64::max);
                // about as far away as each other
                let depth: Vec<f64> = xs.iter().map(|x| (start * Point3::from(x.xyz() / x.w)).coords.norm()).collect();
                let even = depth.iter().fold(0.0, |a: f64, b| a.max(*b)) < 3.0 * depth.iter().fold(f64::INFINITY, |a: f64, b| a.min(*b));
                if worst < 0.3 && even {
                    let slow = match m {
                        One::L1(..) => One::L1(1e-9, cx.unif(0.01, 0.1)),
                        One::L2(_) => One::L2(cx.unif(0.01, 0.1)),
                    };
                    let k = cx.int(10, 50) as usize;
                    let got = slow.run(start, k, &ms);
                    let now = misfit(&got, &xs, &bs);
                    cx.close(now / off, 1.0, &format!("{name}-better"), || format!("{slow:?} {k} iterations: {off} to {now}; from {} gave {} instead of {}; {ms:?}", iso(start), iso(got), iso(truth)));
                    cx.count("class:better");
                }
            }
            cx.count(&format!("class:{name}"));
        }
    }
}

/// The three refinements of a pair of poses.
#[derive(Clone, Copy, Debug)]
enum Two {
    L1(f64, f64),
    L2(f64),
    Adaptive,
}
type Pair = [Iso; 2];
type Seen = Vec<[Uv3; 3]>;
impl Two {
    fn run(self, p: Pair, iterations: usize, seen: &Seen) -> Pair {
        let p = p.map(CameraToCamera);
        match self {
            Two::L1(eps, rate) => three_view_simple_optimize_l1(p, eps, rate, iterations, seen),
            Two::L2(rate) => three_view_simple_optimize_l2(p, rate, iterations, seen),
            Two::Adaptive => three_view_adaptive_optimize_l2(p, iterations, seen),
        }
        .map(|p| p.isometry())
    }
    fn name(self) -> &'static str {
        match self {
            Two::L1(..) => "l1",
            Two::L2(_) => "l2",
            Two::Adaptive => "adaptive",
        }
    }
    fn noise(self, size: f64, n: usize) -> f64 {
        match self {
            Two::L1(eps, rate) => 8.0 * rate * n as f64 * (eps * size + 1e-12 * size),
            _ => 1e-13 * size,
        }
    }
    /// The poses after an iteration, as documented: the cameras' inverse poses move along the gradients.
    fn one(self, p: Pair, seen: &Seen) -> Pair {
        let inv = p.map(|p| p.inverse());
        let n = seen.len() as f64;
        let grads: Vec<[Se3TangentSpace; 2]> = seen.iter().map(|&o| gradients(&p, o)).collect();
        let tscale: f64 = inv.iter().map(|p| p.translation.vector.norm()).sum();
        let mut out = p;
        for i in 0..2 {
            let t: Vec<V3> = grads.iter().map(|g| g[i].translation).collect();
            let r: Vec<V3> = grads.iter().map(|g| g[i].rotation).collect();
            let mean = |v: &[V3]| v.iter().sum::<V3>() / n;
            let (dt, dr) = match self {
                Two::L2(rate) => (mean(&t) * rate, mean(&r) * rate),
                Two::L1(eps, rate) => {
                    let w = |v: &[V3], e: f64| {
                        let sum: V3 = v.iter().filter(|v| v.norm() > 0.0).map(|v| v.normalize()).sum();
                        sum * rate / v.iter().map(|v| 1.0 / (v.norm() + e)).sum::<f64>()
                    };
                    (w(&t, tscale * eps), w(&r, eps))
                }
                Two::Adaptive => {
                    let w = |v: &[V3]| {
                        let size = v.iter().map(|v| v.norm()).sum::<f64>() / n;
                        if size == 0.0 { V3::zeros() } else { mean(v) * (mean(v).norm() / size) }
                    };
                    (w(&t), w(&r))
                }
            };
            out[i] = (step(dt, dr) * inv[i]).inverse();
        }
        out
    }
}
fn gradients(p: &Pair, [c, f, s]: [Uv3; 3]) -> [Se3TangentSpace; 2] {
    let [ftoc, stoc] = p.map(|p| p.inverse());
    epipolar::three_view_gradients(c, ftoc * f, ftoc.translation.vector, stoc * s, stoc.translation.vector)
}
fn gap2(a: &Pair, b: &Pair, size: f64) -> f64 {
    gap(&a[0], &b[0], size).max(gap(&a[1], &b[1], size))
}
fn nudge(cx: &mut Ctx, p: Iso, by: f64, size: f64) -> Iso {
    Iso::from_parts((cx.dir() * size * by).into(), Rotation3::from_scaled_axis(cx.dir() * by)) * p
}
fn iso2(p: &Pair) -> String {
    format!("{} and {}", iso(p[0]), iso(p[1]))
}
pub fn three(cx: &mut Ctx) {
    let marks = cx.arr("marks");
    let n = marks.len();
    for rep in 0..cx.reps {
        let k = if rep == 0 { 1.0 } else { cx.mag(-3.0, 3.0) };
        let place = |p: Iso| Iso::from_parts((p.translation.vector * k).into(), p.rotation);
        let truth = [place(pose(&cx.v["f"])), place(pose(&cx.v["s"]))];
        let seen: Seen = marks.iter().map(|m| {
            let m = &m["m"];
            [unit(v3(&m["c"])), truth[0].rotation * unit(v3(&m["f"])), truth[1].rotation * unit(v3(&m["s"]))]
        }).collect();
        let exact = marks.iter().all(|m| m["m"]["exact"].as_bool().unwrap());
        let size = truth.iter().map(|p| p.translation.vector.norm()).fold(0.0, f64::max)
            .max(marks.iter().map(|m| v3(&m["m"]["x"]).norm() * k).fold(0.0, f64::max));
        let base = truth[0].translation.vector.norm().min(truth[1].translation.vector.norm());
        // away from where several alternatives are equally good
        let off = cx.mag(-4.0, -0.7);
        let start = [nudge(cx, truth[0], off, base), nudge(cx, truth[1], off, base)];
        // all bearings meet well in front of the cameras
        let near = off < 1e-3 && marks.iter().all(|m| {
            let d = |n: &str| v3(&m["m"][n]);
            angle(&d("c"), &d("f")).min(angle(&d("c"), &d("s"))).min(angle(&d("f"), &d("s"))) > 0.05
        });
        let rate = cx.unif(0.01, 0.5);
        let eps = cx.mag(-12.0, -7.0);
        for m in [Two::L1(eps, rate), Two::L2(rate), Two::Adaptive] {
            let name = m.name();
            let say = |got: &Pair, want: &Pair| format!("{m:?} from {} gave {} instead of {}; {seen:?}", iso2(&start), iso2(got), iso2(want));
            let got = m.run(start, 0, &seen);
            cx.close(gap2(&got, &start, size), 1e-13 * size, &format!("{name}-no-iterations"), || say(&got, &start));
            let got = m.run(start, cx.int(1, 100) as usize, &vec![]);
            cx.close(gap2(&got, &start, size), 1e-13 * size, &format!("{name}-no-landmarks"), || say(&got, &start));
            // what is right stays right
            if exact {
                let k = if let Two::Adaptive = m { 2 } else { cx.int(1, 5) as usize };
                let got = m.run(truth, k, &seen);
                cx.close(gap2(&got, &truth, size), 1e-9 * size + 100.0 * m.noise(size, n) * k as f64, &format!("{name}-keeps"), || say(&got, &truth));
                cx.count("class:right");
            }
            let noise = m.noise(size, n);
            let sensitive = |cx: &mut Ctx, f: &dyn Fn(Pair) -> Pair| {
                let here = f(start);
                let d = (0..8).map(|_| {
                    let p = [nudge(cx, start[0], 1e-10, size), nudge(cx, start[1], 1e-10, size)];
                    gap2(&f(p), &here, size)
                }).fold(0.0, f64::max);
                cx.count(if d < 1e-6 * size { "class:calm" } else { "class:chaotic" });
                if d < 1e-6 * size { d * 10.0 + 1e-9 * size } else { f64::INFINITY }
            };
            // one iteration
            let got = m.run(start, 1, &seen);
            let want = m.one(start, &seen);
            let rough = sensitive(cx, &|p| m.run(p, 1, &seen)) + noise;
            cx.close(gap2(&got, &want, size), rough, &format!("{name}-one"), || say(&got, &want));
            // many, in one go or in two
            let most = if n < 4 || !exact { 3 } else { 25 };
            let (i, j) = (cx.int(1, most) as usize, cx.int(1, most) as usize);
            if cx.record && rep == 0 && !matches!(m, Two::Adaptive) {
                record(
                    cx, name, 300,
                    &|k| m.run(start, k, &seen),
                    &|p| m.run(*p, 1, &seen),
                    &|p| {
                        let g: Vec<_> = seen.iter().map(|&o| gradients(p, o)).collect();
                        let mut out = vec![];
                        for i in 0..2 {
                            let t: Vec<V3> = g.iter().map(|g| g[i].translation).collect();
                            let r: Vec<V3> = g.iter().map(|g| g[i].rotation).collect();
                            out.extend(sums(&t, &r, matches!(m, Two::L1(..)), size)?);
                        }
                        Some(out)
                    },
                    &|a, b| gap2(a, b, size) / size,
                );
            }
            let all = m.run(start, i + j, &seen);
            cx.check(all.iter().all(iso_finite), &format!("{name}-finite"), || say(&all, &start));
            cx.close(all.iter().map(|p| rot_defect(&p.rotation)).fold(0.0, f64::max), 1e-9, &format!("{name}-proper"), || say(&all, &start));
            let rough = sensitive(cx, &|p| m.run(p, i + j, &seen)) + noise * (i + j) as f64;
            let got = m.run(m.run(start, i, &seen), j, &seen);
            cx.close(gap2(&got, &all, size), rough, &format!("{name}-compose"), || say(&got, &all));
            let mut order: Vec<usize> = (0..n).collect();
            cx.shuffle(&mut order);
            let shuffled: Seen = order.iter().map(|&i| seen[i]).collect();
            let got = m.run(start, i + j, &shuffled);
            cx.close(gap2(&got, &all, size), rough, &format!("{name}-order"), || say(&got, &all));
            let twice: Seen = seen.iter().chain(&shuffled).copied().collect();
            let got = m.run(start, i + j, &twice);
            cx.close(gap2(&got, &all, size), rough, &format!("{name}-repeat"), || say(&got, &all));
            // the cameras are alike
            let swap = |[a, b]: Pair| [b, a];
            let swapped: Seen = seen.iter().map(|&[c, f, s]| [c, s, f]).collect();
            let got = swap(m.run(swap(start), i + j, &swapped));
            if exact && near { cx.close(gap2(&got, &all, size), rough, &format!("{name}-exchange"), || say(&got, &all)); }
            // each in its own frame
            let (qc, qf, qs) = (cx.rot(), cx.rot(), cx.rot());
            let turned: Seen = seen.iter().map(|&[c, f, s]| [qc * c, qf * f, qs * s]).collect();
            let to = |[a, b]: Pair| [qf * a * qc.inverse(), qs * b * qc.inverse()];
            let back = |[a, b]: Pair| [qf.inverse() * a * qc, qs.inverse() * b * qc];
            let got = back(m.run(to(start), i + j, &turned));
            cx.close(gap2(&got, &all, size), rough, &format!("{name}-turn"), || say(&got, &all));
            let u = cx.mag(-2.0, 2.0);
            let scaled = |p: Pair, u: f64| p.map(|p| Iso::from_parts((p.translation.vector * u).into(), p.rotation));
            let got = scaled(m.run(scaled(start, u), i + j, &seen), 1.0 / u);
            cx.close(gap2(&got, &all, size), rough, &format!("{name}-unit"), || say(&got, &all));
            cx.count(&format!("class:{name}"));
        }
    }
}
