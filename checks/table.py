"""Which specifications, with which bounds, decide which property.

SPECS: the TLC runs of a specification.  `cfg` alone: exhaustive.  `sim': (quick, thorough) random
behaviours of `depth` steps, `copies' of them with different seeds.
PROPS: `specs' to run; `reps': (quick, thorough) random real-valued concretisations of each vector;
`need': lower bounds on what a run has to have reached, below which it counts as broken.
"""


def sim(module, cfg, num, depth, copies=(2, 8)):
    return {"module": module, "cfg": cfg, "sim": num, "depth": depth, "copies": copies}


def full(module, cfg, cfg_thorough=None, workers=2):
    return {"module": module, "cfg": cfg, "cfg_thorough": cfg_thorough, "workers": workers}


SPECS = {
    "Camera": [
        full("CameraMC", "Camera_ex"),
        sim("CameraMC", "Camera_sim", (150, 3000), 9),
    ],
    "Reprojection": [
        sim("ReprojectionMC", "Reprojection_sim", (500, 20000), 8),
    ],
    "Epipolar": [
        full("EpipolarMC", "Epipolar_ex"),
        sim("EpipolarMC", "Epipolar_sim", (500, 10000), 8),
    ],
    "Gradient": [
        full("GradientMC", "Gradient_ex"),
        sim("GradientMC", "Gradient_sim", (500, 10000), 6),
    ],
    "Recondition": [
        full("ReconditionMC", "Recondition_ex"),
        sim("ReconditionMC", "Recondition_sim", (500, 10000), 9),
    ],
    "ThreeView": [
        full("ThreeViewMC", "ThreeView_ex"),
        sim("ThreeViewMC", "ThreeView_sim", (300, 5000), 10),
    ],
    "Nearest": [
        full("NearestMC", "Nearest_ex"),
        sim("NearestMC", "Nearest_sim", (40, 600), 14, (3, 8)),
    ],
    "Spread": [
        full("SpreadMC", "Spread_ex", "Spread_big"),
        sim("SpreadMC", "Spread_sim", (150, 3000), 16),
        sim("SpreadMC", "Spread_narrow", (150, 3000), 16),
    ],
    "Pencil": [
        full("PencilMC", "Pencil_ex"),
        sim("PencilMC", "Pencil_49", (30, 600), 13),
        sim("PencilMC", "Pencil_81", (30, 600), 13),
    ],
    "Pose": [
        full("PoseMC", "Pose_ex", workers=3),
        sim("PoseMC", "Pose_sim", (100, 3000), 12),
    ],
    # the longer exhaustive run checks the specification, without replaying its two million histories
    "PoseDeep": [dict(full("PoseMC", "Pose_ex3", workers=6), copies=(0, 1))],
    "Refine": [
        full("RefineMC", "Refine_ex"),
        sim("RefineMC", "Refine_sim", (60, 1500), 23, (4, 8)),
    ],
    "ThreeViewMany": [
        sim("ThreeViewMC", "ThreeView_many", (200, 4000), 17, (2, 8)),
    ],
    "Map": [
        full("MapMC", "Map_small"),
        full("MapMC", "Map_small4", workers=4),
        full("MapMC", "Map_join5", "Map_join", workers=6),
        sim("MapMC", "Map_sim", (80, 400), 61, (3, 8)),
    ],
    "MapShort": [
        full("MapMC", "Map_small"),
        full("MapMC", "Map_small4", workers=4),
        sim("MapMC", "Map_sim", (80, 400), 61, (3, 8)),
    ],
    "MapPull": [
        full("MapMC", "Map_small"),
        full("MapMC", "Map_pull", workers=4),
        sim("MapMC", "Map_sim", (80, 400), 61, (3, 8)),
    ],
    "Frames": [
        full("FramesMC", "Frames_ex", workers=4),
        sim("FramesMC", "Frames_sim", (60, 1000), 23, (3, 8)),
    ],
    "FramesSim": [sim("FramesMC", "Frames_sim", (80, 1000), 23, (4, 8))],
    "Session": [
        full("SessionMC", "Session_ex", "Session_more", workers=4),
        full("SessionMC", "Session_narrow"),
        sim("SessionMC", "Session_sim", (100, 2000), 9, (3, 8)),
        sim("SessionMC", "Session_long", (100, 2000), 11, (3, 8)),
    ],
    "Stabilize": [full("StabilizeMC", "Stabilize_ex", "Stabilize_big")],
    "Tangent": [
        full("TangentMC", "Tangent_ex"),
        sim("TangentMC", "Tangent_sim", (300, 5000), 8),
    ],
    "Jacobian": [
        full("JacobianMC", "Jacobian_ex"),
        dict(full("JacobianMC", "Jacobian_big"), copies=(2, 12)),
    ],
    "So3Algebra": [
        full("So3AlgebraMC", "So3Algebra_ex", "So3Algebra_big"),
    ],
    "Matches": [
        full("MatchesMC", "Matches_ex"),
        sim("MatchesMC", "Matches_sim", (100, 3000), 20, (3, 8)),
        sim("MatchesMC", "Matches_flat", (60, 1000), 20, (1, 2)),
        sim("MatchesMC", "Matches_line", (60, 1000), 20, (1, 2)),
        sim("MatchesMC", "Matches_far", (60, 1000), 20, (1, 2)),
    ],
    "ThreePoints": [
        full("ThreePointsMC", "ThreePoints_ex"),
        sim("ThreePointsMC", "ThreePoints_sim", (150, 3000), 14, (3, 8)),
    ],
    "Triangulation": [
        full("TriangulationMC", "Triangulation_ex"),
        sim("TriangulationMC", "Triangulation_sim", (60, 1500), 14),
    ],
}

PROPS = {
    "C01": {
        "specs": ["Pose", "PoseDeep"], "reps": (2, 6),
        "need": {"class:finite": 100000, "class:infinite": 20000, "class:negated": 100000},
    },
    "C02": {
        "specs": ["Pose", "PoseDeep"], "reps": (2, 6),
        "need": {f"class:{op}": 2000 for op in ("after", "before", "invert", "rescale", "rebuild", "reframe",
                                                "toworld", "advance", "rehomog", "euclid", "observe")},
    },
    "C03": {
        "specs": ["Tangent"], "reps": (4, 30),
        "need": {"class:half-turn": 500, "class:inverse": 1000, "class:add": 1000, "class:scale": 1000,
                 "checks:log-near": 5000, "checks:log-tiny": 5000},
    },
    "C04": {
        "specs": ["Jacobian"], "reps": (5, 40),
        "need": {"class:finite": 2000, "class:infinite": 2000},
    },
    "C05": {
        "specs": ["So3Algebra"], "reps": (10, 30),
        "need": {"class:pair": 10000, "class:small": 10000},
    },
    "C06": {
        "specs": ["Camera"], "reps": (3, 20),
        "need": {"class:seen": 20000, "class:unseen": 20000, "checks:grazing": 1000},
    },
    "C07": {
        "specs": ["Camera"], "reps": (4, 30),
        "need": {"class:seen": 20000, "class:undistorted": 20000, "class:beyond": 2000, "class:behind": 20000},
    },
    "C08": {
        "specs": ["Camera"], "reps": (3, 20),
        "need": {"class:seen": 20000, "class:sensor": 500, "class:focal": 500, "class:focals": 500,
                 "class:principal_point": 500, "class:skew": 500},
    },
    "C09": {
        "specs": ["Epipolar"], "reps": (5, 50),
        "need": {"class:exact": 20000, "class:reversed": 10000, "class:any": 20000, "class:any-coplanar": 2000},
    },
    "C10": {
        "specs": ["Epipolar"], "reps": (5, 50),
        "need": {f"class:{k}": 10000 for k in ("pose", "exact", "scaled", "negated")},
    },
    "C11": {
        "specs": ["Recondition"], "reps": (3, 20),
        "need": {"class:recondition": 20000, "class:undetermined": 3000, "checks:same-poses": 20000},
    },
    "C12": {
        "specs": ["Triangulation"], "reps": (10, 100),
        "need": {"class:point": 1500},
    },
    "C13": {
        "specs": ["Triangulation"], "reps": (10, 60),
        "need": {"class:point": 1500, "class:none": 3000, "class:sound": 5000},
    },
    "C14": {
        "specs": ["Triangulation"], "reps": (20, 200),
        "need": {"class:stable:point": 1500, "class:stable:sound": 700},
    },
    "C15": {
        "specs": ["Epipolar"], "reps": (5, 50),
        "need": {"checks:world": 50000, "class:flips-0": 10000, "class:flips-1": 3000, "class:flips-2": 3000,
                 "class:any": 20000},
    },
    "C16": {
        "specs": ["Reprojection"], "reps": (6, 30),
        "need": {"class:defined": 5000, "class:absent": 5000, "class:exact": 1000},
    },
    "C17": {
        "specs": ["Matches"], "reps": (6, 40),
        "need": {"class:determined": 4000, "class:few": 8000, "class:eight": 8000, "class:in-plane": 1000},
    },
    "C18": {
        "specs": ["ThreePoints"], "reps": (6, 60),
        "need": {"class:determined": 30000, "class:wrong": 50000, "class:collinear": 5000, "class:far": 30000,
                 "checks:explains-general": 50000, "checks:explains-square": 3000, "checks:true-pose-square": 1000},
    },
    "C19": {
        "specs": ["Matches"], "reps": (6, 40),
        "need": {"class:determined": 3000, "class:undetermined": 2000, "class:ill-conditioned": 1000},
    },
    "C20": {
        "specs": ["Refine", "Stabilize"], "reps": (2, 20), "traces": (24, 200),
        "trace_spec": {"module": "StabilizeTrace", "cfg": "StabilizeTrace"},
        "need": {"class:l1": 30000, "class:l2": 30000, "class:unusable": 5000, "class:right": 30000, "class:better": 500,
                 "class:calm": 50000, "class:stopped": 5, "class:recorded": 20},
    },
    "C21": {
        "specs": ["ThreeView", "ThreeViewMany", "Stabilize"], "reps": (3, 20), "traces": (24, 200),
        "trace_spec": {"module": "StabilizeTrace", "cfg": "StabilizeTrace"},
        "need": {"class:l1": 10000, "class:l2": 10000, "class:adaptive": 10000, "class:right": 10000,
                 "class:calm": 50000, "class:stopped": 5, "class:recorded": 20, "checks:l2-exchange": 1000},
    },
    "C23": {
        "specs": ["Pencil"], "reps": (6, 60),
        "need": {"checks:l1-optimum": 20000, "checks:linf-optimum": 20000, "checks:l1-none": 20000,
                 "checks:linf-none": 20000, "checks:l1-rival": 20000, "checks:linf-rival": 20000,
                 "checks:l1-rival-general": 50000, "checks:linf-rival-general": 50000},
    },
    "C22": {
        "specs": ["Epipolar", "Gradient", "ThreeView"], "reps": (4, 30),
        "need": {"class:loss-zero": 20000, "class:loss-any": 10000, "class:both": 10000, "class:turn": 1000,
                 "class:three-exact": 10000, "class:three-inexact": 10000, "class:three-equivariant": 10000},
    },
    "C24": {
        "crate": "maps", "specs": ["Map"], "reps": (2, 20), "traces": (60, 600),
        "trace_spec": {"module": "MapTrace", "cfg": "MapTrace"},
        "need": {"class:init": 5000, "class:view": 3000, "class:drop": 3000, "class:join": 500, "class:dedup": 1500,
                 "class:merge": 1500, "class:split": 1500, "class:filterobs": 500, "class:filtermarks": 500,
                 "class:regenerate": 100, "class:record": 500, "class:free": 5, "class:loose": 500},
    },
    "C25": {
        "crate": "maps", "specs": ["Map"], "reps": (2, 20),
        "need": {"checks:con-pose": 10000, "checks:con-edge": 10000, "class:record": 500, "class:regenerate": 100,
                 "class:optimise": 500, "class:join": 500},
    },
    "C26": {
        "crate": "maps", "specs": ["Map"], "reps": (3, 30),
        "need": {"checks:pose-view": 10000, "class:normalised": 200, "class:optimise": 500, "class:regenerate": 100,
                 "class:join": 500},
    },
    "C27": {
        "crate": "maps", "specs": ["MapShort", "Spread"], "reps": (2, 20),
        "need": {"class:one-pair-of-many": 500, "class:merged-huddled": 200, "class:huddled": 5000, "class:spread": 5000,
                 "checks:lm-robust-point": 10000, "checks:lm-without-point": 500, "checks:lm-merged-point": 1000,
                 "class:exported": 2000, "class:windows": 1000},
    },
    "C28": {
        "crate": "maps", "specs": ["Frames"], "reps": (3, 30),
        "need": {"class:matched": 10000, "class:none": 10000, "class:tied": 2000},
    },
    "C29": {
        "crate": "maps", "specs": ["FramesSim"], "reps": (3, 30),
        "need": {"class:similar": 5000, "class:recent": 5000, "class:tied": 1000, "class:free": 5000, "class:grouped": 5000},
    },
    "C30": {
        "crate": "maps", "specs": ["FramesSim"], "reps": (3, 30),
        "need": {"class:colour": 5000, "class:colour-none": 2000, "class:over-budget": 300, "class:whole": 500},
    },
    "C31": {
        "specs": ["Nearest"], "reps": (4, 40),
        "need": {"class:point": 1500, "class:none": 3000, "class:refined-away": 300, "checks:default/observations": 5000,
                 "checks:rate/to_camera": 5000, "checks:default/relative": 1000},
    },
    "C32": {
        "crate": "maps", "specs": ["Session"], "reps": (1, 4),
        "need": {"class:recs-2": 200, "class:views-3": 1500, "class:views-5": 150, "class:views-8": 30,
                 "checks:con-edge": 10000, "checks:pt-place": 50000},
    },
    "C33": {
        "crate": "maps", "specs": ["Session"], "reps": (1, 1), "traces": (3000, 30000),
        "trace_spec": {"module": "SessionTrace", "cfg": "SessionTrace"},
        "need": {"class:recs-2": 200, "class:views-3": 1500, "class:views-5": 150, "class:views-8": 30},
    },
    "C34": {
        "crate": "maps", "specs": ["MapPull"], "reps": (2, 20),
        "need": {"class:pulled-along": 30000, "class:pulled-back": 10000, "class:resized": 2000},
    },
}

NOT_APPLICABLE = {}
