#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    **({"observe_at": observe} if observe else {}),
                    **({"state": state} if state else {}), "hook_needed": hook},
    })


I, H = ["inputs"], ["inputs", "histories"]

prop("C01", "Projective points are canonical and lose nothing",
     """Every point made from a homogeneous vector with a nonzero xyz part, from a Euclidean point other than the
     origin, or by transforming another point has an xyz part of unit length and w >= 0, and denotes the projective
     point it was made from: its bearing is the direction towards the point and w is the reciprocal of its distance.
     Multiplying the homogeneous vector of a finite point by any nonzero factor, negative ones included, gives the same
     point. The Euclidean point is available for every point with w > 0 and equals the original, and is absent exactly
     for points at infinity (w = 0).""",
     H, "all nonzero homogeneous vectors, all factors, all sequences of conversions and transformations",
     "The only tests of points are the doc tests of other crates, with one point in front of the camera and w > 0.",
     ["cv-core/src/point.rs", "cv-core/src/pose.rs"],
     [("from_homogeneous normalises xyz and the sign of w", "cv-core/src/point.rs Projective::from_homogeneous"),
      ("point / from_point / bearing", "cv-core/src/point.rs Projective"),
      ("transform", "cv-core/src/pose.rs Pose::transform")])

prop("C02", "Poses act on points as rigid motions do",
     """Transforming a point by a pose rotates it and then translates it (points at infinity are only rotated), and
     transforming it by the inverse pose undoes this, for all four kinds of pose. After any sequence of composing,
     inverting, rescaling, rebuilding from parts or from the homogeneous matrix, and changing the world frame, the pose
     is the rigid motion that the same sequence of motions gives, and the two poses of one camera in two
     reconstructions give the world-to-world pose that takes the points and the camera of the first reconstruction to
     those of the second.""",
     H, "all poses, all points including those at infinity, all finite sequences of the operations",
     "The manual test checks two Jacobians at random poses; no test composes, inverts or rescales poses.",
     ["cv-core/src/pose.rs"],
     [("Pose trait", "cv-core/src/pose.rs Pose"),
      ("WorldToWorld::from_camera_poses", "cv-core/src/pose.rs WorldToWorld::from_camera_poses")])

prop("C03", "Exponential and log maps of rotations and poses are inverses",
     """Taking any rotation - the identity, arbitrarily small ones, quarter turns and half turns about any axis
     included - to so(3) and back gives the same rotation, the so(3) vector is along the rotation axis with the
     rotation angle (at most pi) as its length, and the exponential of any vector is the rotation about it by its
     length. The se(3) vector of a pose and back gives the same pose. The isometry of a tangent space element
     translates and then rotates, and the isometry of its inverse is the inverse isometry.""",
     I, "all rotations (dense sample of the group through integer quaternions), all poses and tangent vectors",
     "No test converts to so(3) and back except at small random angles inside the Jacobian tests.",
     ["cv-core/src/so3.rs", "cv-core/src/pose.rs"],
     [("exponential and log map", "cv-core/src/so3.rs From<Skew3> for Rotation3, From<Rotation3> for Skew3"),
      ("se3 / from_se3", "cv-core/src/pose.rs Pose"),
      ("tangent space", "cv-core/src/so3.rs Se3TangentSpace")])

prop("C04", "Jacobians of pose transformations are the true derivatives",
     """The Jacobian of a transformation with respect to the input point and the one with respect to the pose
     (translation columns before rotation columns) are the derivatives of the homogeneous output vector before it is
     normalised, for every kind of pose and every point, at infinity or not. The point returned next to the Jacobians
     is the transformed point, and the variants which return one Jacobian agree with the one returning both.""",
     I, "all poses and points",
     "Two tests compare the xyz rows with difference quotients at ten random poses near the identity; the w row and points at infinity are not compared.",
     ["cv-core/src/pose.rs", "cv-core/src/so3.rs"],
     [("transform_jacobians and its variants", "cv-core/src/pose.rs Pose"),
      ("pose_jacobian_self", "cv-core/src/pose.rs pose_jacobian_self"),
      ("Skew3::jacobian_input, Skew3::jacobian_self", "cv-core/src/so3.rs Skew3")])

prop("C05", "so(3) operators satisfy the Lie algebra",
     """The skew-symmetric matrix of a vector multiplies other vectors as the cross product does, vee undoes it, and
     the squared matrix is the matrix times itself. The bracket of two vectors is their cross product, hence
     antisymmetric and subject to the Jacobi identity. The small-angle rotation of a vector is a proper rotation
     matrix that agrees with the exponential map to second order in the angle.""",
     I, "all vectors", "No test of these operators exists.",
     ["cv-core/src/so3.rs"],
     [("hat, vee, hat2, bracket, rotation_small", "cv-core/src/so3.rs Skew3")])

prop("C06", "Pinhole calibration and projection are inverses",
     """For intrinsics with any nonzero focals, any principal point and any skew, the bearing of a pixel is a unit
     vector with positive z, projecting it gives back the pixel, and the bearing of the projection of a bearing in
     front of the camera is that bearing. Bearings behind the camera or in its plane (z <= 0) have no projection, and
     every bearing with z > 0 has one.""",
     I, "all intrinsics, all pixels, all bearings on both sides of and within the plane of the camera",
     "Doc tests round-trip one pixel with one camera.",
     ["cv-pinhole/src/lib.rs"],
     [("calibrate / uncalibrate", "cv-pinhole/src/lib.rs impl CameraModel for CameraIntrinsics"),
      ("matrix", "cv-pinhole/src/lib.rs CameraIntrinsics::matrix")])

prop("C07", "Distorted calibration and projection are inverses",
     """For the model with a first radial coefficient k1 of either sign or zero, projecting the bearing of any pixel
     inside the range where the distortion is invertible gives back the pixel, and the bearing of the projection of a
     bearing in that range is that bearing, the principal point included. Without distortion the model agrees with the
     pinhole model. A bearing which no pixel has - at or behind the plane of the camera, or beyond the range of the
     distortion - has no projection.""",
     I, "all intrinsics, all k1, all pixels whose distance r from the principal point in focal lengths has |k1| r^2 < 1, all bearings",
     "One doc test round-trips one pixel with k1 = -0.164624.",
     ["cv-pinhole/src/lib.rs"],
     [("calibrate / uncalibrate", "cv-pinhole/src/lib.rs impl CameraModel for CameraIntrinsicsK1Distortion")])

prop("C08", "Intrinsics from a camera specification match the sensor",
     """The size of a pixel is that of the sensor divided by the number of pixels in each direction, or for a sensor said
     to have square pixels in the horizontal direction alone. The intrinsics derived from a specification have the
     given focal length in pixels on both axes, no skew, and the principal point at the middle of the image, pixel
     coordinates running from the centre of the first pixel to the centre of the last. Setting focals, principal point
     or skew changes what it names and nothing else, and the matrix of the intrinsics takes a bearing with z = 1 to its
     pixel.""",
     H, "all sensors (pixel counts, sizes, focal lengths), all intrinsics, all sequences of settings",
     "No test builds a camera specification.",
     ["cv-pinhole/src/lib.rs"],
     [("CameraSpecification", "cv-pinhole/src/lib.rs CameraSpecification"),
      ("CameraIntrinsics builders", "cv-pinhole/src/lib.rs CameraIntrinsics")])

prop("C09", "Essential matrices of poses satisfy the epipolar constraint",
     """The essential matrix of a relative pose (t, R) has residual |b' E a| for every pair of bearings, divided by their
     z: zero for the two bearings of any point, and exactly for those pairs whose rays are coplanar with the baseline.
     The matrix has singular values |t|, |t| and 0, and t is in its left null space. The matrix of the inverse pose is
     its transpose.""",
     I, "all relative poses, all points and bearings",
     "Existing tests check a handful of random scenes with small motions.",
     ["cv-pinhole/src/essential.rs"],
     [("From<CameraToCamera> for EssentialMatrix", "cv-pinhole/src/essential.rs"),
      ("residual", "cv-pinhole/src/essential.rs impl Model<FeatureMatch> for EssentialMatrix")])

prop("C10", "Decomposing an essential matrix recovers the poses",
     """The possible poses of an essential matrix of a pose (t, R), whatever its scale and sign, are four: both signs of
     the unit translation with both R and R turned by half a turn about t. All four are proper rigid motions and have
     the same essential matrix up to scale and sign, and the sets of unscaled poses and of rotations list exactly
     those.""",
     I, "all relative poses with nonzero translation, all scales of the matrix",
     "One test runs 1000 random motions near the identity and accepts small failure rates.",
     ["cv-pinhole/src/essential.rs"],
     [("possible_rotations_unscaled_translation, possible_unscaled_poses, possible_unscaled_poses_bearing, possible_rotations",
       "cv-pinhole/src/essential.rs EssentialMatrix")])

prop("C11", "Reconditioning yields a true essential matrix",
     """Reconditioning a matrix gives an essential matrix whose two leading singular values are the mean of the two
     leading ones of the given matrix, and whose third is zero. If the second singular value of the given matrix is
     larger than its third the singular vectors are kept, so the result stands for the same poses. Reconditioning an
     essential matrix, or the result of reconditioning, changes nothing.""",
     H, "all 3x3 matrices with a nonzero leading singular value, all sequences of rescaling, perturbing and reconditioning",
     "Only reached through the eight-point tests, which do not look at it.",
     ["cv-pinhole/src/essential.rs"],
     [("recondition", "cv-pinhole/src/essential.rs EssentialMatrix::recondition")])

prop("C12", "Triangulation of exact observations returns the observed point",
     """When all observations are exact, the rays meet at a usable angle and the point is in front of all cameras, the
     linear, refined (sine L1), relative DLT and both angular triangulators return that point, in the frame they
     document: world coordinates for observations with world-to-camera poses, the first camera's coordinates for
     relative poses. This holds for any number of cameras, in any order, any unit of distance and any world frame.""",
     H, "all scenes of 2 or more cameras and a point not at the optical centre of a camera nor at the world origin, reached by any sequence of adding, dropping and reordering observations and changing the world frame",
     "Each triangulator has one doc test with one scene.",
     ["cv-geom/src/triangulation.rs", "cv-core/src/triangulation.rs"],
     [("triangulate_observations of the triangulators", "cv-geom/src/triangulation.rs"),
      ("triangulate_observations_to_camera, triangulate_relative", "cv-core/src/triangulation.rs")])

prop("C13", "Triangulated points are in front of every camera",
     """Whatever the observations are - exact, noisy, contradictory or degenerate - a point that any of the triangulators
     returns is finite and lies on the side of every observing camera towards which that camera's bearing points. When
     the observations are exact except that at least one bearing points away from the point, nothing is returned.""",
     H, "all sets of observations with at least one camera, exact, perturbed or reversed, all triangulators",
     "No test has a point behind a camera.",
     ["cv-geom/src/triangulation.rs"],
     [("cheirality filters", "cv-geom/src/triangulation.rs")])

prop("C14", "Triangulation does not depend on order or frame",
     """Reordering the observations or describing the same scene in a rotated world frame changes the answer of a
     triangulator only as it changes the scene itself: the same point, expressed in the new frame, or no point in both
     cases. For exact observations this also holds for a shifted origin and another unit of distance.""",
     H, "all well-posed scenes, all orders of the observations, all rotations; exact scenes: all similarities",
     "No test compares two descriptions of one scene.",
     ["cv-geom/src/triangulation.rs", "cv-core/src/triangulation.rs"],
     [("triangulators", "cv-geom/src/triangulation.rs"),
      ("triangulate_observations_to_camera", "cv-core/src/triangulation.rs")])

prop("C15", "Residuals of poses measure angles",
     """The residual of a world-to-camera pose for a bearing and a world point is one minus the cosine of the angle
     between the bearing and the direction in which the pose sees the point. The residual of a relative pose for two
     bearings is half the sum of that for both cameras at the point triangulated from them, and lies between 0 and 2
     for all bearings: it is 0 for exact matches of a point in front of both cameras, 1 if exactly one of their
     bearings is reversed, and 2 if both are, whatever the unit of distance.""",
     I, "all poses with a nonzero baseline, points and bearings",
     "The residuals are only used inside consensus tests.",
     ["cv-core/src/pose.rs"],
     [("residual", "cv-core/src/pose.rs impl Model for WorldToCamera / CameraToCamera")])

prop("C16", "Reprojection errors compare keypoints with reprojections",
     """The reprojection errors of a relative pose and a match are the differences, in each of the two images, between
     the keypoint and the projection of the triangulated point, in units of the focal length, and the average error is
     the mean of their lengths. They are zero for exact matches, and absent exactly when the point cannot be
     triangulated or is behind one of the cameras.""",
     I, "all poses, keypoints, and answers of the triangulator",
     "No test computes a reprojection error.",
     ["cv-pinhole/src/lib.rs"],
     [("pose_reprojection_error, average_pose_reprojection_error", "cv-pinhole/src/lib.rs")])

prop("C17", "Eight-point estimation is exact on exact matches",
     """From eight or more exact matches of which the first eight determine it, the eight-point algorithm returns the
     essential matrix of the relative pose up to scale, and that pose, up to the length of its translation, is among
     its four: at any scale of the scene, in any order, for bearings in any direction, reversed ones included. Whatever
     the matches are, also when they are degenerate or fewer than eight, all of the first eight satisfy a returned
     matrix, and everything returned is finite: a nonzero matrix, and at most four proper rigid motions with a
     translation of length one.""",
     I, "all relative poses and sequences of matches, determined (decided exactly) or not",
     "One test runs random scenes with points in front and small motions, with a tolerance on the failure rate.",
     ["eight-point/src/lib.rs"],
     [("EightPoint::from_matches", "eight-point/src/lib.rs"), ("Estimator", "eight-point/src/lib.rs")])

prop("C18", "P3P returns poses that explain the three observations",
     """Every world-to-camera pose that the three-point estimator returns, for whatever bearings of three points that are
     not collinear, is a finite proper rigid motion which sees each of the points in the direction of its bearing; there
     are at most four. For exact bearings of three points in general position the true pose is among them, at any unit
     of distance and in any world and camera frame (half turns included), whatever the order of the points.""",
     I, "all poses and triples of points in general position: not collinear, camera "
     "not on their danger cylinder, where the pose is a double root",
     "Tests use one or a few fixed scenes.",
     ["lambda-twist/src/lib.rs"],
     [("LambdaTwist::compute_poses_nordberg", "lambda-twist/src/lib.rs"), ("Estimator", "lambda-twist/src/lib.rs")])

prop("C19", "Five-point estimation returns the poses that explain the matches",
     """From any five matches the five-point estimator returns at most forty poses, all of them finite proper rigid
     motions with a translation of length one. When the matches are exact and determine their relative pose up to
     finitely many alternatives, every returned pose satisfies the epipolar constraints of all five matches, and the true
     pose, up to the length of its translation, is among them: at any scale of the scene, in any order, for
     bearings in any direction, reversed ones included.""",
     I, "all relative poses and five matches, determined (decided exactly) or not",
     "Tests run random scenes and tolerate failures.",
     ["nister-stewenius/src/lib.rs"],
     [("five_points_relative_pose", "nister-stewenius/src/lib.rs"), ("Estimator", "nister-stewenius/src/lib.rs")])

prop("C20", "Single-view refinement moves poses towards their observations",
     """Each iteration of refining a world-to-camera pose moves and turns it, after itself, by the rate times the mean (L2),
     or the Weiszfeld mean with the given epsilon (L1), of what brings each landmark at a finite distance onto its bearing;
     it stops early only once neither sum of these has been smaller than ever before for 50 iterations. So poses that are
     right stay right (for rates up to 1/4, up to epsilon), nearby wrong ones see distant landmarks with less error after
     a few slow iterations, and nothing happens without usable landmarks or iterations. Results are finite proper rigid
     motions, which do not depend on the order or repetition of landmarks, nor on the frames (for L1: up to turns) and
     the unit of distance they are described in.""",
     H, "all poses, all observation sets, all rates, epsilons and iteration counts",
     "Tests do not exercise the optimizers directly.",
     ["cv-optimize/src/single_view_optimizer.rs", "cv-geom/src/epipolar.rs"],
     [("single_view_simple_optimize_l1 / l2", "cv-optimize/src/single_view_optimizer.rs")])

prop("C21", "Three-view refinement moves both poses along their gradients",
     """Each iteration of refining the poses of two cameras relative to a third moves the inverse of each, after itself,
     along the three-view gradients: by the rate times their mean (L2) or Weiszfeld mean (L1), or by the mean scaled by the
     ratios of its norms to the mean norms (adaptive); only the former two stop early, once no sum of gradients has been
     smaller than ever before for 50 iterations. So poses that are right stay right, and nothing happens without
     observations or iterations. Results are finite proper rigid motions and do not depend on the order or repetition of
     the observations, nor on the frame of any camera or the unit of distance; exchanging the two cameras exchanges the
     results wherever exact bearings meet in front of the cameras.""",
     H, "all poses, all sets of three-view observations, all rates, epsilons and iteration counts",
     "Tests do not exercise the optimizers directly.",
     ["cv-optimize/src/three_view_optimizer.rs", "cv-geom/src/epipolar.rs"],
     [("three_view_simple_optimize_l1 / l2, three_view_adaptive_optimize_l2", "cv-optimize/src/three_view_optimizer.rs")])

prop("C22", "Epipolar losses and gradients have the right zeros and directions",
     """The loss of two bearings, no more than a right angle apart, under a pose with a baseline is the sine of the angle
     by which one of them misses the epipolar plane of the other: in [0, 1], zero for exact observations, the same with
     the cameras exchanged, and independent of the unit of distance. The gradients of a camera's pose and of a point
     are the shortest way from the point to the ray and the turn of its direction towards the bearing, so that a
     fraction s of a step along them takes away that fraction of the distance and s times the sine of the angle. The
     gradients of three views turn about the baselines between the cameras, vanish for exact observations, and follow
     when the scene is turned, rescaled, or its two outer cameras exchanged.""",
     H, "all poses, points, bearings, and sequences of steps",
     "No test calls these helpers.",
     ["cv-geom/src/epipolar.rs"],
     [("loss, point_gradient, world_pose_gradient, three_view_gradients", "cv-geom/src/epipolar.rs")])

prop("C23", "Angular triangulators minimise what they say they minimise",
     """For any two bearings and relative pose for which it returns a point, the L1 angular triangulator's point has the
     smallest possible sum, and the L-infinity angular triangulator's point the smallest possible maximum, of the two
     angles between the bearings and the directions to the point. No other point of space does better. Where the optimal
     directions meet in front of both cameras, that point is returned; where they meet behind one, none is.""",
     I, "all relative poses with a baseline, all pairs of bearings, all competing points",
     "The doc tests have exact observations, for which every triangulator gives the same point.",
     ["cv-geom/src/triangulation.rs"],
     [("AngularL1Triangulator, AngularLInfinityTriangulator", "cv-geom/src/triangulation.rs")])

SFM = ["cv-sfm/src/lib.rs"]
prop("C24", "The map's tables are one partition of the observations",
     """After any sequence of creating reconstructions, adding and removing views, splitting and merging landmarks,
     filtering and merging reconstructions, the tables of a map agree with one another: the landmarks of a reconstruction
     partition the features of its views, none has two features of one view, and every frame refers to the one view it
     has, if any. Each operation changes the partition as it says and nothing else: a new view adds its features to the
     landmarks they were matched with, splitting and merging touch only the landmarks they name, removing a view takes
     exactly its features and its constraints away, deduplication puts the worse of two features of one view aside, and
     filtering keeps the landmarks that are consistent and splits those that are not.""",
     ["histories"], "all sequences of operations on the map, with right and wrong matches",
     "cv-sfm has no tests at all.", SFM,
     [("add_reconstruction, add_view, remove_view, split_observation, remove_reconstruction, merge_landmarks", "cv-sfm/src/lib.rs VSlamData"),
      ("merge_landmarks_dedup, filter_non_robust_observations, filter_non_robust_landmarks, incorporate_reconstruction, split_landmark", "cv-sfm/src/lib.rs VSlam")],
     state="the partition of the observations of each reconstruction into landmarks, and its three-view constraints")

prop("C25", "Three-view constraints relate the views they name",
     """A constraint names three views of its reconstruction and holds the poses of the second and third in the frame of the
     first. Reconstructions start with one; a view gains one for each pair of other views with which it shares enough
     landmarks that are robust and seen in sufficiently different directions, or none if they are too few; removing a view
     removes exactly its own, and regeneration makes them afresh. The edges between the views that a constraint implies
     are the relative poses of those views, in every direction.""",
     ["histories"], "all sequences of operations on maps of exact scenes",
     "cv-sfm has no tests at all.", SFM,
     [("ThreeViewConstraint::edge_constraints, flatten_constraints", "cv-sfm/src/lib.rs"),
      ("constrain_view, generate_view_constraints, record_view_constraints, regenerate_reconstruction", "cv-sfm/src/lib.rs VSlam")])

prop("C26", "Operations on a map keep exact poses exact",
     """In a reconstruction whose views have exact poses, every operation leaves them exact: optimising by its constraints
     and regenerating them does not move them, normalising makes the first view the origin and the mean distance of what
     it sees the unit, and merging one reconstruction into another moves all its views and their constraints by the
     relative pose of the two. Relative poses of views change by nothing but the unit of distance.""",
     ["histories"], "all sequences of operations on maps of exact scenes",
     "cv-sfm has no tests at all.", SFM,
     [("apply_constraints, compute_momentum_bundle_adjust, apply_bundle_adjust", "cv-sfm/src/lib.rs VSlam"),
      ("normalize_reconstruction, incorporate_reconstruction, regenerate_reconstruction", "cv-sfm/src/lib.rs VSlam")])

prop("C27", "Robust landmarks are those well observed, and lie at their points",
     """A landmark is robust when it has as many observations as required, or as the reconstruction has views, and two of
     them differ enough in direction; this holds for a landmark as it is and for two taken together, and without one
     view for what differs in direction among the rest. A robust landmark of exact observations is triangulated at its
     point, one with a single observation nowhere, and exact observations have no loss. What is exported is each camera,
     as a window around what it looks at, and each robust landmark at its point in the colour of one of its features.""",
     ["histories"], "all landmarks of all maps of exact scenes",
     "cv-sfm has no tests at all.", ["cv-sfm/src/lib.rs", "cv-sfm/src/export.rs"],
     [("are_observations_robust, is_landmark_robust, is_merged_landmark_robust, triangulate_landmark*", "cv-sfm/src/lib.rs VSlam"),
      ("observation_loss", "cv-sfm/src/lib.rs VSlam"), ("export", "cv-sfm/src/export.rs")])

prop("C28", "Frames are matched one to one by their descriptors",
     """A feature of one frame and a feature of another match exactly when each is closer to the other, by the margin asked for,
     than every other feature of the other's frame; frames with less than two features have no matches. So every feature
     has at most one match, it makes no difference which of the frames is asked about first or in which order the features
     come, and a larger margin leaves a subset of the matches.""",
     ["inputs"], "all pairs of frames, with features which are equally close, repeated or far from all others",
     "cv-sfm has no tests at all.", SFM,
     [("matching, symmetric_matching", "cv-sfm/src/lib.rs")])

prop("C29", "Frames are compared with the recent and the similar ones",
     """The frames which a frame is compared with are those of its own feed which are fewer than the given number of frames away,
     before or after it, and, of the frames which the search for similar signatures finds, the most similar ones up to the
     given number that are neither itself, nor recent, nor closer in its feed than the given threshold. Each is listed once,
     as a view under the reconstruction it belongs to, or as free.""",
     ["histories"], "all histories of adding frames to several feeds and of frames joining and leaving reconstructions",
     "cv-sfm has no tests at all.", SFM,
     [("find_visually_similar_and_recent_frames, VSlamData::add_frame", "cv-sfm/src/lib.rs VSlamData")])

prop("C30", "A frame keeps the strongest features of its image",
     """The features of a frame are those which the detector reports, up to the number asked for, by falling response; each has its
     descriptor, the bearing of its position through the camera of its feed, and the colour of the image there,
     interpolated by the cubic through the four samples around, or black where these are not all in the image. A frame
     is numbered by its place in its feed and has no view before it is localised.""",
     ["inputs"], "all images, positions and budgets of features",
     "cv-sfm has no tests at all.", ["cv-sfm/src/lib.rs", "cv-sfm/src/bicubic.rs"],
     [("kps_descriptors, add_frame", "cv-sfm/src/lib.rs VSlam"), ("interpolate_bicubic", "cv-sfm/src/bicubic.rs")])

prop("C31", "The refined triangulation is the point nearest to the rays",
     """The triangulator that refines a linear estimate answers with the point for which the sum of the squared distances to the
     rays of the observations is least, whatever the order of the observations, the frame and unit of the world, the rate
     of the refinement, and whether the cameras are given in the world or relative to the first one. It answers whenever
     there is a linear estimate and this point is in front of every camera, and never when it is behind one.""",
     ["inputs"], "all rays which do not meet exactly, not nearly parallel",
     "The only test triangulates two rays which meet.", ["cv-geom/src/triangulation.rs", "cv-geom/src/epipolar.rs"],
     [("SineL1Triangulator", "cv-geom/src/triangulation.rs SineL1Triangulator"),
      ("point_gradient", "cv-geom/src/epipolar.rs point_gradient")])

prop("C32", "Sessions of exact frames end with every pose and landmark in place",
     """When the bearings of the frames are exact, except that a frame may report a few of the points in wrong places, then after
     every frame each reconstruction agrees with the scene up to one similarity of its own: the poses of its views, the
     constraints between them, and the points of its robust landmarks. This holds for every order of the frames, however
     they are oriented, whether a view was there at the start, was registered at once or when it was tried again.""",
     ["histories"], "all sessions of frames with exact and some wrong bearings",
     "cv-sfm has no tests at all.", SFM,
     [("init_reconstruction, init_two_view, register_frame, optimize_three_view, optimize_reconstruction", "cv-sfm/src/lib.rs VSlam")])

prop("C33", "A new frame is registered, starts a reconstruction or stays free",
     """A frame is registered in a reconstruction when it recognises enough robust landmarks of the views it is compared with, and
     enough constraints tie it to the other views; otherwise it starts one with any two free frames it is compared with when
     the three share enough points in different directions, whatever other pairs there are; then the free frames it is
     compared with are tried in the same way. A feature joins the landmark which it matches, or two of them which no view
     shares, exactly when the observations agree with the pose, so that what is reported in a wrong place stays in a landmark
     of its own. Nothing else changes, and no view, constraint or joint observation of a reconstruction gets lost.""",
     ["histories"], "all sessions of frames which see some of the points, and report some of them in wrong places",
     "cv-sfm has no tests at all.", SFM,
     [("add_frame, try_localize, try_localize_and_incorporate, try_init", "cv-sfm/src/lib.rs VSlam"),
      ("init_reconstruction, register_frame_subset, incorporate_frame, record_view_constraints", "cv-sfm/src/lib.rs VSlam")])

prop("C34", "An optimising step moves each view by a share of what is asked",
     """Each step of optimising a reconstruction moves every view, all at once, by the given share of the sum of what the edges into
     it ask for: the translations and the angles by which it differs from where the other view and their relative pose put it.
     So a displaced view is drawn back by as much as it draws the others along, step after step, and nothing else of the
     map changes. A constraint made of views that are out of place is as large as the poses it was made of.""",
     ["histories"], "all maps with constraints, displacements of a view, rates and numbers of steps",
     "cv-sfm has no tests at all.", SFM,
     [("apply_constraints, compute_momentum_bundle_adjust, constrain_view, flatten_constraints", "cv-sfm/src/lib.rs VSlam"),
      ("optimize_three_view", "cv-sfm/src/lib.rs VSlam")])

for p in P:
    n = p["statement"].count(". ") + 1  # sentences
    assert len(p["title"]) <= 80, p["title"]
    assert n <= 3, (p["id"], n)
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
