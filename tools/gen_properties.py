#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
S, G, D, O, L, C = ("gradslam/structures/", "gradslam/geometry/", "gradslam/datasets/",
                    "gradslam/odometry/", "gradslam/slam/", "gradslam/config/")

prop("C01", "Every view of a point cloud batch describes the same ragged data",
 "After any sequence of operations on a batch of point clouds (building it from lists or from padded tensors, reading any view, assigning points, normals, colours or features as lists or padded tensors, appending, transforming, scaling, projecting, indexing, cloning), the list view, the zero-padded view, the per-cloud point counts, the padding mask and the has-attribute flags all describe the same data. No view ever returns data from before the latest change, and no attribute that was present silently disappears.",
 ["histories", "inputs"], "every history of public operations on a batch, with the lazily computed views read at any moment in between, for ragged and equal-sized batches including clouds with no points, with every subset of normals, colours and features present",
 "The stable tests never import the class (it needs open3d); the repository's own tests read each view once after construction and never interleave reads, assignments and in-place operations, so a stale cache is invisible.",
 [S+"pointclouds.py"], [("list/padded dual representation with lazy conversion", S+"pointclouds.py: _compute_padded, _assert_set_*, *_list, *_padded"), ("lazily cached padding mask and counts", S+"pointclouds.py: nonpad_mask, num_points_per_pointcloud")],
 [("views", "list form, padded form, counts, mask, flags of each attribute")], "public properties of Pointclouds after each call")
prop("C02", "Point cloud arithmetic and rigid transforms touch exactly the real points",
 "Adding, subtracting, multiplying, dividing, scaling, offsetting, rotating, rigidly transforming or pinhole-projecting a batch of point clouds changes every real point of every cloud by exactly the documented formula with the operand row of that cloud, turns normals with rotations only, leaves colours and features alone and keeps padding zero. The in-place and out-of-place forms agree, and the out-of-place form leaves its operands unchanged.",
 ["inputs", "histories"], "every batch shape and attribute subset, every documented operand shape (scalar, per-axis, per-cloud, shared or per-cloud matrices), pre- or post-multiplication, whichever representation happens to be materialised when the operation is applied",
 "The stable tests never run this code, and the repository's tests use one random batch in one representation.",
 [S+"pointclouds.py"], [("operators and *_ methods", S+"pointclouds.py: __add__..__matmul__, offset_, scale_, rotate_, transform_, pinhole_projection_")])
prop("C03", "Appending merges point clouds one by one, in order, without loss or mix-up",
 "Appending one batch of point clouds to another gives, for every position in the batch, exactly the points of the receiver followed by the points of the appended batch, with each point keeping its own normal, colour and feature. Appending to an empty batch equals a copy, the appended batch is left unchanged and is not shared with the receiver, and an append refused because of mismatched batches or attributes leaves the receiver as it was.",
 ["histories", "inputs"], "every sequence of appends (including refused ones) to a map in any state of its cached representations, for ragged batches, empty clouds and every attribute subset",
 "Tests append once; maps built by SLAM are the result of long append/update histories on cached state.",
 [S+"pointclouds.py", L+"fusionutils.py"], [("append_points", S+"pointclouds.py: append_points"), ("update_map_aggregate", L+"fusionutils.py: update_map_aggregate")])
prop("C04", "Selecting, cloning, detaching or moving point clouds keeps everything",
 "Selecting clouds from a batch by integer, slice, list of integers or boolean mask gives exactly those clouds in that order with all of their attributes. A clone has the same contents in every view and no later operation on either object is visible in the other; detaching and moving between devices likewise preserve every attribute of every cloud.",
 ["inputs", "histories"], "every index form and every state of the cached representations at the moment of the copy, followed by any operation on either copy",
 "Needs the combination of a representation state, a copy and a later mutation; tests clone freshly built objects only.",
 [S+"pointclouds.py"], [("indexing and copying", S+"pointclouds.py: __getitem__, clone, detach, to")])
prop("C05", "Derived maps of RGB-D frames always reflect the current depth, camera and pose",
 "At every moment the vertex map, normal map, their world-frame counterparts and the valid-depth mask of a batch of RGB-D frames equal what the current depth, intrinsics, poses and channel layout define, whatever was read, assigned or converted before. Replacing depth, intrinsics or poses (in whichever layout) takes effect on all quantities that depend on them.",
 ["histories", "inputs"], "every interleaving of reads of any derived map with assignments of rgb, depth, intrinsics and poses and in-place layout conversions",
 "The maps are cached lazily; tests read each once after construction, one order out of exponentially many.",
 [S+"rgbdimages.py"], [("lazily cached maps", S+"rgbdimages.py: _compute_vertex_map, _compute_global_*, setters, to_channels_*_")])
prop("C06", "Slicing, layout conversion and copying of RGB-D frames commute and isolate",
 "Selecting batches or frames of an RGB-D sequence gives the same colour, depth, intrinsics, pose and derived maps as selecting from each of those separately, in either layout and whether or not maps were computed before; converting layout there and back changes nothing. Clones, device copies and out-of-place conversions never let a later change of one object show in another.",
 ["histories", "inputs"], "every supported index (integers, slices with steps, lists, tuples of two), layout, cached-map state, and subsequent assignment on either object",
 "Tests slice one fixed object with a handful of indices before and after computing maps, and never check isolation after copies.",
 [S+"rgbdimages.py"], [("selection and copies", S+"rgbdimages.py: __getitem__, to_channels_first/last(_), clone, detach, to")])
prop("C07", "Missing depth never becomes geometry",
 "A pixel without a depth reading has a zero vertex and zero normal in both the camera and the world frame and contributes no point when a frame is converted to a point cloud; every pixel with a reading contributes exactly one point, in row-major order, carrying that pixel's own world vertex, normal and colour, to the cloud of its own batch element. This holds for the first frame of a batch and for every frame appended later.",
 ["inputs"], "every pattern of valid and missing depth (including none or all valid, and different counts per batch element), pose, layout and image size",
 "Patterns of holes are exponentially many; the stable tests never convert frames to point clouds.",
 [S+"rgbdimages.py", S+"utils.py", L+"fusionutils.py"], [("valid-depth masking", S+"rgbdimages.py: _compute_vertex_map, _compute_normal_map, _compute_global_*"), ("pointclouds_from_rgbdimages", S+"utils.py")])
prop("C08", "Back-projection, projection and camera pose describe the same pinhole camera",
 "The vertex of a pixel is the point that the pinhole camera with the given intrinsics sees at that pixel at that depth, the world-frame vertex is that point moved by the frame's pose, normals turn with the pose's rotation only, and projecting a vertex with the same intrinsics returns the pixel it came from. Homogenisation and its inverse undo each other, including for points at infinity as documented.",
 ["inputs"], "every pixel, depth, intrinsics and pose, for single points, batches and sequences of frames",
 "Stable tests check isolated helpers with fixed numbers, never the agreement of the two directions through the frame class with poses.",
 [S+"rgbdimages.py", G+"projutils.py", G+"geometryutils.py"], [("unprojection", S+"rgbdimages.py: _compute_vertex_map"), ("projection", G+"projutils.py: project_points, unproject_points, inverse_intrinsics, homogenize_points, unhomogenize_points")])
prop("C09", "The active map is exactly the map points the live camera sees",
 "The active points of a map for a frame are exactly the real map points that lie in front of the live camera and project inside its image, each reported once together with its own batch and point number and the pixel nearest to its projection. Points behind the camera, outside the image or that are only padding never appear.",
 ["inputs"], "every map (ragged batches included), camera pose, intrinsics and image size, with points anywhere including behind the camera, on and beyond the image border",
 "The repository's tests use one sequence; the case analysis over position, border and padding is not enumerated, and the stable set does not import this code.",
 [L+"fusionutils.py"], [("find_active_map_points", L+"fusionutils.py")])
prop("C10", "Each live pixel fuses with at most one map point: the most reliable candidate",
 "A map point is a candidate for a pixel only if it is active there and both its distance to the pixel's vertex and its normal direction are strictly within the thresholds; among the candidates of a pixel the one with the highest confidence, then the smallest distance, then the lowest point number is chosen. Every pixel having a candidate gets exactly one, never two, and a map point never appears at a pixel it does not project to.",
 ["inputs"], "every set of map points competing for pixels, with ties in confidence and distance, across batches and all non-negative thresholds",
 "Conflicts and ties need crafted maps; tests only check shapes and a few hand-made cases and are not part of the stable set.",
 [L+"fusionutils.py"], [("find_similar_map_points, find_best_unique_correspondences, find_correspondences", L+"fusionutils.py")])
prop("C11", "Fusion is a confidence-weighted average and accounts for every measurement",
 "Fusing a frame into a map replaces the position, normal and colour of each matched map point by the average of its old value and the matched pixel's value weighted by the point's accumulated confidence and the pixel's confidence, and adds the pixel's confidence to the point's; unmatched map points are untouched. Every valid pixel without a match becomes one new point carrying its own confidence, so after each frame the number of points grows by valid minus matched pixels and total confidence grows by the sum of the valid pixels' confidences.",
 ["histories", "inputs"], "every sequence of frames and maps, including frames with no match, all matched, no valid depth for some batch elements, and ragged maps",
 "The invariant is about the accumulated history; existing tests compare one step with a re-implementation on one dataset.",
 [L+"fusionutils.py", L+"pointfusion.py"], [("fuse_with_map, update_map_fusion, get_alpha", L+"fusionutils.py")])
prop("C12", "Operations that are not in place leave their inputs unchanged",
 "A SLAM step, map update, fusion, odometry estimate or forward pass that was not asked to work in place leaves every observable quantity of the map, the frames and the tensors given to it exactly as they were. In place and out of place give the same result.",
 ["histories", "inputs"], "every state of cached representations of map and frames, for all SLAM and odometry variants and sequences of steps",
 "Tests look at return values and almost never at the arguments afterwards.",
 [L+"fusionutils.py", L+"icpslam.py", L+"pointfusion.py", O+"icp.py", O+"gradicp.py"], [("inplace flags", L+"icpslam.py: step, _localize, _map; "+L+"fusionutils.py: fuse_with_map, update_map_*")])
prop("C13", "Running SLAM on a sequence equals stepping frame by frame",
 "Running a SLAM system over a sequence gives the same map and poses as stepping it frame by frame with the previous frame handed over; with ground-truth odometry the returned poses are exactly the given ones, otherwise each pose is the estimated motion composed with the previous frame's pose and a first frame without a pose starts at the identity. Every batch element evolves as if it had been run alone, and invalid or missing inputs are refused rather than silently used: frames or maps of the wrong type, mismatched batch sizes, estimating motion against an empty map; a previous frame that is missing or not used is announced by a warning.",
 ["histories", "inputs", "configurations"], "every sequence length, batch size, odometry variant, presence or absence of poses and of a previous frame, and starting map",
 "The end-to-end drivers are exercised only by examples; the stable tests do not import them.",
 [L+"icpslam.py", L+"pointfusion.py"], [("forward/step/_localize/_map", L+"icpslam.py")])
prop("C14", "ICP alignment accepts only improving steps and follows its damping schedule",
 "Damped least-squares ICP applies a candidate step exactly when it lowers the alignment error, halving the damping then and doubling it otherwise, so the error never increases over iterations and the returned transform is the product of the accepted steps applied to the initial estimate; it reports for each source point its nearest target. The differentiable variant applies every step scaled by its smooth gating law; correspondences farther than the distance limit never influence the result.",
 ["inputs", "configurations"], "every pair of point sets, initial transform, damping and iteration count, including runs with rejected steps",
 "Rejected steps, damping history and composition are internal to a loop; tests check only the final transform of one easy case and are not in the stable set.",
 [O+"icputils.py", O+"icp.py", O+"gradicp.py"], [("point_to_plane_ICP, point_to_plane_gradICP, solve_linear_system, gauss_newton_solve", O+"icputils.py")])
prop("C15", "Ground-truth odometry and relative transforms compose back to the poses",
 "The motion reported between two frames, composed with the first frame's pose, gives the second frame's pose for every batch element and frame, inverting a rigid transform gives its two-sided inverse, composing with the inverse or identity gives the expected transform, and relative transformations satisfy the chain rule. Frames that carry no pose or have mismatched shapes are refused.",
 ["inputs"], "all rigid transforms, single and batched, and all pairs of frames",
 "Tests use a few fixed transforms; the group laws quantify over all pairs and triples.",
 [O+"groundtruth.py", G+"geometryutils.py"], [("GroundTruthOdometryProvider.provide", O+"groundtruth.py"), ("inverse/compose/relative transforms", G+"geometryutils.py")])
prop("C16", "Rotation representations convert into each other without changing the rotation",
 "Quaternion, axis-angle, rotation-matrix and exponential-map forms of a rigid motion describe the same motion under conversion, conversions never modify the tensors given to them, and transforming points by a pose or its matrix form agrees for one point, a list or a batch. Normalising, rotating by composed quaternions and exponentials of collinear twists compose as the group they represent.",
 ["inputs"], "all rotations (including identity and half turns), translations and batch shapes",
 "Tests check a few fixed angles; agreement between independent conversion paths over the group is not tested.",
 [G+"geometryutils.py", G+"se3utils.py", D+"datautils.py"], [("conversions", G+"geometryutils.py; "+G+"se3utils.py; "+D+"datautils.py: pointquaternion_to_homogeneous")])
prop("C17", "Configuration merges change exactly the named, existing, type-compatible keys",
 "Merging a configuration, file or list of overrides sets exactly the keys it names to the (decoded) values given and leaves all others untouched; unknown keys are refused unless new keys are allowed where they occur, (an override list never adds keys), values of an incompatible type are refused (lists and tuples convert into each other), deprecated keys are ignored and renamed keys are refused with their new name. What was merged is a copy: later changes to either side do not show in the other.",
 ["histories", "inputs", "configurations"], "every tree of keys, sequence of merges by any of the three routes, value types, and sets of deprecated and renamed keys",
 "Tests check isolated merges of fixed trees; the combination of nesting, permissions, deprecations and partial failure is not enumerated.",
 [C+"cfgnode.py"], [("merge_from_other_cfg/file/list, _merge_a_into_b, type coercion", C+"cfgnode.py")])
prop("C18", "A frozen configuration cannot be changed until it is defrosted",
 "Once a configuration is frozen, attribute assignment and merging by any route at any depth are refused and leave every value as it was, until it is defrosted; freezing and defrosting reach every nested configuration. A clone has equal contents and state and shares nothing mutable with the original, and dumping a configuration and loading it back gives an equal one (YAML has no tuples: they come back as lists).",
 ["histories"], "every history of freeze, defrost, clone, assignment and merge operations on any node of the tree",
 "Tests freeze one node and try one attribute assignment.",
 [C+"cfgnode.py"], [("freeze/defrost/__setattr__/clone/dump", C+"cfgnode.py")])
prop("C19", "Timestamp association is one-to-one, within tolerance and best-first",
 "Associating two timestamped lists pairs entries whose times, after the offset, differ by less than the allowed difference, uses every entry at most once, prefers the closest pair when entries compete, leaves no acceptable pair unmatched when both sides are free, and returns pairs in order of time. Reading a timestamped file or trajectory ignores comment lines and the kind of separators and keeps every data line's values; trajectory lines with a NaN or a zero quaternion are skipped, and a range selects frames, not lines.",
 ["inputs"], "every pair of lists of timestamps, offset and tolerance, including competing candidates and timestamps of different magnitude",
 "No stable test runs this code; competition between candidates needs enumeration.",
 [D+"tumutils.py", D+"tum.py"], [("associate, read_file_list, read_trajectory, transform44", D+"tumutils.py")])
prop("C20", "Dataset windows return aligned colour, depth, pose and time",
 "Each item of the TUM and ICL datasets is a window of the requested number of frames spaced by the dilation, windows start one stride apart within the requested frame range and never run past it, and every combination of sequence, range, length, dilation and stride either works or is refused. Within an item the colour image, depth image, pose, name and timestamp at one position all belong to the same frame.",
 ["configurations", "inputs"], "all combinations of sequences, start, end, sequence length, dilation and stride, and all trajectories including missing frames",
 "Needs the datasets (absent), so their tests are skipped; off-by-one errors depend on parameter combinations.",
 [D+"tum.py", D+"icl.py", D+"datautils.py"], [("window construction", D+"tum.py: __init__, __getitem__; "+D+"icl.py: __init__, __getitem__")])
prop("C21", "ScanNet items are aligned and labels survive remapping and colouring",
 "Each ScanNet item returns the colour, depth, pose, intrinsics and label images of the same frames of the requested scenes and window, whatever mix of scene lengths is present. Remapping label images changes every pixel exactly by the class table, and colouring a label image gives each class its own palette colour.",
 ["configurations", "inputs"], "all combinations of scenes, window parameters and label choices, and all label images",
 "The dataset is absent so its tests are skipped; scenes of different length are not tested.",
 [D+"scannet.py", D+"datautils.py"], [("Scannet.__getitem__ and sequence files", D+"scannet.py"), ("create_label_image", D+"datautils.py")])
prop("C22", "Dataset images, poses and transforms are consistently scaled and chained",
 "The first pose of every item is the identity and later poses are relative to it, the returned frame-to-frame transforms start with the identity and multiply up to those poses, depth is returned in metres, and images, intrinsics and layout are resized and ordered consistently with the requested size. Requested outputs appear in the documented order and switching one output off changes none of the others (only when neither poses nor transforms are wanted does TUM also serve frames without ground truth); what is done to an item does not show in items read later.",
 ["configurations", "inputs"], "all trajectories, image sizes, channel layouts and output selections",
 "Requires real datasets; consistency across outputs is never asserted.",
 [D+"tum.py", D+"icl.py", D+"scannet.py", D+"datautils.py"], [("pose/transform preprocessing and intrinsics scaling", D+"tum.py, icl.py, scannet.py: _preprocess_*; "+D+"datautils.py")])
prop("C23", "Maps, point clouds and fused maps are differentiable in every measurement",
 "Everything a map is made of depends differentiably on what it was computed from: local and world vertex and normal maps on depth, intrinsics and pose, clouds on the points they were made of and on the operands, rotations, transforms and intrinsics applied to them, fused points, normals, colours and confidences on the map before and on the live frame, and poses on the given poses or on the estimated motion. The derivatives are those of the documented formulas, are finite, involve nothing else (missing pixels, other frames, batch elements and points, replaced values), survive copying, slicing, layout conversion and running a whole sequence, and detached copies have none.",
 ["inputs", "histories"], "every camera, pose, depth image with missing values, history of reads, assignments, conversions and cloud operations, and sequence of SLAM steps",
 "Tests compare values; a detached or in-place overwritten tensor changes no value, so no test can notice. Derivatives must hold for every pixel, point and input.",
 [S+"rgbdimages.py", S+"pointclouds.py", S+"utils.py", L+"fusionutils.py", L+"icpslam.py"], [("derived maps", S+"rgbdimages.py: _compute_*"), ("cloud operations, clone, detach, append", S+"pointclouds.py"), ("fuse_with_map, get_alpha", L+"fusionutils.py"), ("forward, _localize", L+"icpslam.py")])
prop("C24", "Rotations, motions and projections differentiate like the motions they represent",
 "Exponential maps, quaternion conversions, inversion, composition and relative motions, transformation of points and normals, projection, back-projection, homogeneous and normalised coordinates have the derivatives of the maps they represent with respect to every argument, including at the identity, for tiny and for half-turn rotations and for points at infinity, where the derivative is finite and depends on nothing else in the batch.",
 ["inputs"], "all twists from zero to half a turn, quaternions, motions, points, cameras and batch shapes",
 "Tests use gradcheck on random inputs at most, never on the singular points (identity rotation, points at infinity) nor tiny rotations in single precision.",
 [G+"se3utils.py", G+"geometryutils.py", G+"projutils.py"], [("so3_exp, se3_exp", G+"se3utils.py"), ("quaternion and transform functions", G+"geometryutils.py"), ("projection functions", G+"projutils.py")])

prop("C25", "Alignment and odometry are differentiable in everything they are given",
 "The motion returned by ICP and gradient ICP has the derivative of the documented computation with respect to every source point, target point, normal and the initial estimate: the linear system and its damped solution differentiate exactly, a step that is rejected leaves no trace in the derivative, the gates and the damping of gradient ICP contribute their own derivative, several iterations obey the chain rule, an odometry provider gives each batch element the derivative of its own alignment and none of the others', and a SLAM step's pose has the derivative of the estimated motion applied to the previous pose.",
 ["inputs", "histories"], "all clouds, normals, initial estimates, thresholds, dampings, gate parameters, iteration counts and batch sizes, away from ties",
 "Tests check at most that a gradient exists; its value depends on accept / reject history, on gates and on correspondences in combinations no test samples.",
 [O+"icputils.py", O+"icp.py", O+"gradicp.py", L+"icpslam.py"], [("gauss_newton_solve, solve_linear_system, point_to_plane_ICP, point_to_plane_gradICP", O+"icputils.py"), ("provide", O+"icp.py"), ("provide", O+"gradicp.py"), ("_localize", L+"icpslam.py")])

prop("C26", "Ragged and padded forms convert without loss, and downsampling keeps exactly the grid",
 "Padding a list of matrices puts every item's values in the leading corner of its slot and the pad value everywhere else, at the size asked for or the smallest that fits, and splitting a padded tensor by row counts or shapes gives back exactly those corners, so nothing is lost, moved or shared between items and the element type is kept. Downsampling by a ratio keeps exactly the points whose image row and column are both multiples of the ratio: the active map points of the lookup table, cloud by cloud and in table order, or the pixels of a frame that have depth, in row-major order, each with its own normal and colour. Arguments of the wrong type, rank or size are refused and the inputs are not changed.",
 ["inputs"], "all lists of matrices (some empty), sizes, pad values, element types and memory layouts; all lookup tables, ratios, batches, layouts and depth masks",
 "Tests use one or two fixed shapes and ratios; which values land where has to hold for every combination of sizes, masks and batch elements.",
 [S+"structutils.py", O+"icputils.py"], [("list_to_padded, padded_to_list", S+"structutils.py"), ("downsample_pointclouds, downsample_rgbdimages", O+"icputils.py")])
prop("C27", "Visual exports show exactly the selected data",
 "Exporting one cloud of a batch to open3d or plotly shows that cloud's points (all of them in order, or as many different ones as the limit allows), each with its own colour and normal when asked for, colours scaled the same way whether or not points are left out, also when there are no points. Exporting a sequence of RGB-D frames to plotly gives one named frame per time step, in order, with that frame's colour image and, if wanted, its depth image scaled by the power of ten that is announced, in either channel layout and when all depth is missing; the figure starts at the first frame and its slider and play button address these frames. The object shown is not changed and an index that is not an integer is refused.",
 ["inputs"], "all clouds, limits, colour ranges and option combinations; all sequences, layouts, depth ranges and option combinations",
 "Tests compare one fixed cloud without a limit; subsampling is random, and frames are never compared at all.",
 [S+"pointclouds.py", S+"rgbdimages.py", S+"structutils.py"], [("open3d, plotly", S+"pointclouds.py"), ("plotly", S+"rgbdimages.py"), ("numpy_to_plotly_image, img_to_b64str", S+"structutils.py")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
