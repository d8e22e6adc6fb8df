//! Replays histories of the map of cv-sfm, generated by TLC from specs/Map.tla.
#![allow(clippy::all)]
#[path = "../../harness/src/driver.rs"]
mod driver;
mod frames;
mod history;
mod session;
mod spread;
#[path = "../../harness/src/util.rs"]
#[allow(dead_code)]
mod util;

fn runner(prop: &str) -> Option<driver::Runner> {
    Some(match prop {
        "C24" => history::tables,
        "C25" => history::constraint_poses,
        "C26" => history::poses,
        "C27" => history::landmarks,
        "C28" => frames::matches,
        "C29" => frames::neighbours,
        "C32" => session::exact,
        "C33" => session::behaves,
        "C30" => frames::features,
        "C34" => history::pulls,
        _ => return None,
    })
}

fn main() {
    driver::drive(runner, 6)
}
