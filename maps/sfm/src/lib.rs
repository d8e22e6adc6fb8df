//! cv-sfm as it stands in the repository, and access to its private items for the conformance checks.
include!("/repo/cv-sfm/src/lib.rs");

pub mod access {
    use super::*;
    pub use super::{ConstraintKey, FeedKey, FrameKey, LandmarkKey, ReconstructionKey, ViewKey};

    pub fn add_feed(d: &mut VSlamData, intrinsics: CameraIntrinsicsK1Distortion) -> FeedKey {
        d.feeds.insert(Feed { intrinsics, frames: vec![] })
    }
    pub fn add_frame(d: &mut VSlamData, feed: FeedKey, features: Vec<(BitArray<64>, Feature)>) -> FrameKey {
        d.add_frame(feed, features)
    }
    pub fn add_view(
        d: &mut VSlamData,
        r: ReconstructionKey,
        f: FrameKey,
        pose: WorldToCamera,
        existing: HashMap<usize, Vec<LandmarkKey>>,
    ) -> ViewKey {
        d.add_view(r, f, pose, |feature| existing.get(&feature).map(|l| l.iter().copied().collect()))
    }
    /// Replaces the words by which the signature of a frame is made.
    pub fn set_words(d: &mut VSlamData, words: Vec<BitArray<64>>) {
        d.hasher = HammingHasher::new_with_codewords(words);
    }
    pub fn matches(d: &VSlamData, a: FrameKey, b: FrameKey, better_by: u32) -> Vec<[usize; 2]> {
        symmetric_matching(d.frame(a), d.frame(b), better_by)
    }
    pub fn neighbours(
        d: &VSlamData,
        f: FrameKey,
        similar: usize,
        recent: usize,
        threshold: usize,
        search: usize,
    ) -> (HashMap<ReconstructionKey, Vec<ViewKey>>, Vec<FrameKey>) {
        d.find_visually_similar_and_recent_frames(f, similar, recent, threshold, search)
    }
    pub fn remove_view(d: &mut VSlamData, r: ReconstructionKey, v: ViewKey) {
        d.remove_view(r, v)
    }
    pub fn remove_reconstruction(d: &mut VSlamData, r: ReconstructionKey) {
        d.remove_reconstruction(r)
    }
    pub fn split_observation(d: &mut VSlamData, r: ReconstructionKey, v: ViewKey, feature: usize) -> bool {
        d.split_observation(r, v, feature)
    }
    pub fn has_reconstruction(d: &VSlamData, r: ReconstructionKey) -> bool {
        d.reconstructions.contains_key(r)
    }
    pub fn frames(d: &VSlamData) -> Vec<FrameKey> {
        d.frames.keys().collect()
    }
    pub fn constraints(d: &VSlamData, r: ReconstructionKey) -> Vec<([ViewKey; 3], [IsometryMatrix3<f64>; 2])> {
        d.reconstructions[r].constraints.values().map(|c| (c.views, c.poses)).collect()
    }
    /// What `edge_constraints` makes of each constraint.
    pub fn edges(d: &VSlamData, r: ReconstructionKey) -> Vec<Vec<(ViewKey, (ViewKey, IsometryMatrix3<f64>))>> {
        d.reconstructions[r].constraints.values().map(|c| c.edge_constraints().collect()).collect()
    }
    pub fn set_pose(d: &mut VSlamData, r: ReconstructionKey, v: ViewKey, pose: WorldToCamera) {
        d.reconstructions[r].views[v].pose = pose;
    }
    /// Forgets the constraints for which there is no room in `keep`, a bag of triples of views.
    pub fn forget_constraints(d: &mut VSlamData, r: ReconstructionKey, mut keep: Vec<([ViewKey; 3], [IsometryMatrix3<f64>; 2])>) {
        d.reconstructions[r].constraints.retain(|_, c| match keep.iter().position(|k| k.0 == c.views && k.1 == c.poses) {
            Some(i) => {
                keep.swap_remove(i);
                true
            }
            None => false,
        });
    }
    pub fn rescale(d: &mut VSlamData, r: ReconstructionKey, by: f64) {
        let r = &mut d.reconstructions[r];
        for v in r.views.values_mut() {
            v.pose.0.translation.vector *= by;
        }
        for c in r.constraints.values_mut() {
            for p in &mut c.poses {
                p.translation.vector *= by;
            }
        }
    }

    impl<C1, C2, PE, EE, T, R> VSlam<C1, C2, PE, EE, T, R>
    where
        C1: Consensus<PE, FeatureWorldMatch>,
        C2: Consensus<EE, FeatureMatch>,
        PE: Estimator<FeatureWorldMatch, Model = WorldToCamera>,
        EE: Estimator<FeatureMatch, Model = CameraToCamera>,
        T: TriangulatorObservations + Clone,
        R: Rng,
    {
        pub fn x_split_landmark(&mut self, r: ReconstructionKey, l: LandmarkKey) {
            self.split_landmark(r, l)
        }
        pub fn x_features(&self, feed: FeedKey, image: &DynamicImage) -> Vec<(BitArray<64>, Feature)> {
            self.kps_descriptors(&self.data.feeds[feed].intrinsics, image)
        }
        pub fn x_record_view_constraints(&mut self, r: ReconstructionKey, v: ViewKey) -> bool {
            self.record_view_constraints(r, v)
        }
        pub fn x_observation_loss(&self, r: ReconstructionKey, v: ViewKey, feature: usize) -> f64 {
            self.observation_loss(r, v, feature)
        }
    }
}
