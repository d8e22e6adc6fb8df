//! Replays vectors and behaviours generated by TLC from the specifications in /verif/specs
//! through the crates of /repo, and reports every disagreement.
//!
//! conf PROP --vec FILE [--vec FILE]... --out REPORT [--seed N] [--reps N] [--only INDEX]
#![allow(clippy::all)]
mod angular;
mod camera;
mod driver;
mod essential;
mod estimate;
mod gradient;
mod nearest;
mod p3p;
mod pose;
mod refine;
mod so3;
mod tri;
mod util;

use driver::Runner;

fn runner(prop: &str) -> Option<Runner> {
    Some(match prop {
        "C01" => pose::points,
        "C02" => pose::poses,
        "C03" => so3::tangent,
        "C04" => so3::jacobians,
        "C05" => so3::algebra,
        "C06" => camera::pinhole,
        "C07" => camera::distorted,
        "C08" => camera::configured,
        "C16" => camera::reprojection,
        "C09" => essential::essential,
        "C10" => essential::decompose,
        "C15" => essential::residuals,
        "C22" => gradient::run,
        "C11" => essential::recondition,
        "C17" => estimate::eight,
        "C18" => p3p::p3p,
        "C19" => estimate::five,
        "C20" => refine::single,
        "C21" => refine::three,
        "C23" => angular::run,
        "C31" => nearest::run,
        "C12" => tri::exactness,
        "C13" => tri::cheirality,
        "C14" => tri::invariance,
        _ => return None,
    })
}

fn main() {
    driver::drive(runner, 0)
}
