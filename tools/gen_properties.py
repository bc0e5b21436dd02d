#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text lives here so that it stays reviewable)."""
import json, os
S = "src/gggears/"
W, CORE, B, CV, CB, M, T, FG, D, N = (S+"gggears_wrapper.py", S+"gggears_core.py", S+"gggears_base_classes.py",
    S+"curve.py", S+"gggears_build123d.py", S+"gearmath.py", S+"gearteeth.py", S+"function_generators.py", S+"defs.py", S+"gggears_convert.py")
P = []
def p(id, title, statement, over, text, why, files, mech, observe, na=False):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
        observe_at=observe, hook_needed=None)))

p("P01", "Queries, builds and conversions never change their inputs",
  "Computing anything from a gear, rack, profile or curve - a reported dimension, centre, cone, reference or base circle, line of action, boundary wire, CAD part, curve point, length, derivative, intersection, NURBS conversion or CAD edge - leaves every parameter, placement and shape of that object and of every other existing gear or curve exactly as it was. Only the cached CAD part of the object being built may be replaced. Asking the same question again therefore gives the same answer.",
  ["inputs", "histories"], "every gear class and configuration, every query, every order of queries",
  "the tests call each query on fresh objects and look at its result, not at what else it changed; an in-place update shows only when the object is used again",
  [W, CORE, B, CV, CB, N, M], [("reports", W+": GearInfoMixin, LineOfAction"), ("profile generation", CORE+": generate_reference_profile"), ("CAD build", CB+": GearBuilder, generate_boundary_edges, curve_to_edges"), ("NURBS conversion", N+": GearToNurbs, gearprofile_to_nurb")],
  ["attribute values of the queried object, its partner and unrelated objects, before and after the query"])
p("P02", "Meshing moves only the gear it is called on",
  "Meshing a gear or rack to a partner changes nothing but the position, orientation and rotation (for racks also the offset) of the object it is called on. The partner, the given direction vector, the tooth shape, the number of slices and all parameters of both objects are untouched.",
  ["inputs", "histories"], "every pair of gear or rack classes, every direction, backlash and prior placement",
  "the tests check where the moved gear ends up for a handful of pairs, never that nothing else moved",
  [W, CORE, M], [("mesh_to of every class", W+", "+CORE), ("placement helpers", M)], ["parameters and placement of both gears before and after meshing"])
p("P03", "Placement storage is never shared between objects or with constants",
  "Two gears or racks never share the storage of their position or orientation with each other, with a caller's array that is later placed elsewhere, or with the library's direction and origin constants. Moving or rotating one of them by any public means, including in-place arithmetic on its centre, never moves another one and never alters a constant.",
  ["inputs", "histories"], "every sequence of constructing, meshing, resetting, copying and moving gears and racks",
  "aliasing needs two objects and an in-place update; the tests never combine them",
  [W, CORE, B, D, M], [("default placements", B+": TransformData"), ("placement assignment", W+": mesh_to, reset_location, center")], ["values of the constants and of other gears' placement after an in-place move"])
p("P04", "Copies are fully independent of their original",
  "A copy of a gear or of any curve equals its original when it is made and shares no changeable state with it. Changing any parameter or placement of one, or trimming or reversing it, never changes a point, dimension or placement of the other.",
  ["inputs", "histories"], "every curve class, every gear class, every later change to either object",
  "a copy looks right until the original is changed afterwards; tests do not do that",
  [CV, CORE, W, B], [("copying", CV+": Curve.copy; "+CORE+": Gear.copy; "+W+": copy"), ("stored shape functions", CV+" constructors; "+W+": calc_params")], ["points and dimensions of the copy after the original was changed"])
p("P05", "Each constructor parameter controls its documented feature, and only that",
  "For every gear and rack class, each constructor parameter influences the feature documented for it and no unrelated feature: tooth count, height, placement, module, fillets, truncation, profile shift, addendum, dedendum, ring thickness, pressure angle, helix, cone angle, backlash, crowning and anchor are never dropped, swapped, or replaced by a default on the way from the constructor to the shape.",
  ["inputs", "configurations"], "every class, every combination of optional parameters, every value",
  "the tests vary few parameters at a time with loose assertions; a parameter lost in one tooth form or one class passes them",
  [W, T, CORE], [("parameter forwarding", W+": constructors, calc_params"), ("tooth forms", T), ("profile recipe", CORE+": GearProfileRecipe")], ["which reported dimensions and shape recipe entries respond to which parameter"])
p("P06", "Placement never influences shape",
  "The tooth profile, reference circles in the gear's own frame, slice heights, pitch, base radius, twist and every other shape quantity are the same wherever the gear is placed and however it is oriented or rotated. Moving or meshing a gear never changes its shape, and the untransformed solid does not depend on placement.",
  ["inputs", "histories"], "every gear class and every placement reached by any sequence of moves",
  "the tests build gears at one placement only and cannot compare all placements",
  [W, CORE, CB, T, N], [("profile generation", CORE), ("solid generation", CB+": GearBuilder")], ["shape quantities of equally parameterised gears at different placements"])
p("P07", "Scaling all lengths scales every result",
  "If module, height, placement and every other input length of all gears involved are multiplied by one factor, every reported length, radius, point and built part scales by exactly that factor, and every angle, count and dimensionless ratio is unchanged. No result mixes quantities in absolute units with quantities in module units.",
  ["inputs", "configurations"], "every gear and rack class, every parameter set, every positive factor",
  "most tests use module 1, where absolute and module-relative units coincide",
  [W, CORE, B, M, CB, CV], [("unit conversion at the gear boundary", W+": calc_params; "+B+": apply_gear_transform"), ("mesh distances", M)], ["reports, meshing results and parts of scaled inputs"])
p("P08", "Reported geometry moves rigidly with the gear",
  "Moving and rotating a gear as a rigid body moves every reported point and location, reference circle, axis, cone, line of action and built part by exactly the same rigid motion and leaves every reported length, radius and angle unchanged.",
  ["inputs", "histories"], "every gear class, every rigid motion, every report",
  "tests place gears at the origin or in the XY plane; a missing or doubled translation or a rotation about the world axis is invisible there",
  [W, CORE, B, CB], [("reports", W+": GearInfoMixin, LineOfAction"), ("transform application", B+": apply_gear_transform, ConicData")], ["reports of the same gear at two placements"])
p("P09", "Meshing commutes with rigid motion of the partner",
  "If the partner gear and the target direction are moved together by a rigid motion, the meshed gear or rack ends at the same place relative to the partner: its position and orientation move along and its rotation angle is unchanged.",
  ["inputs"], "every pair of gear or rack classes, every placement of the partner, every direction",
  "tests mesh gears lying in the XY plane; using a world axis where the partner's axis is meant passes",
  [W, CORE, M], [("mesh_to of every class", W+", "+CORE), ("placement helpers", M)], ["relative placement of meshed pairs at different partner placements"])
p("P10", "Angles are radians everywhere, degrees only inside CAD kernel calls",
  "Every angle accepted or returned by the library is in radians, and every angle handed to the CAD kernel is in degrees, converted exactly once. No trigonometric function ever receives degrees and no kernel call ever receives radians.",
  ["inputs", "configurations"], "every angle parameter and every code path that reaches the CAD kernel",
  "a missing or doubled conversion on a path that the tests run with angle zero, or whose result they do not measure, passes",
  [CB, W, CV, CORE, M], [("kernel boundary", CB+": transform2Location, gen_side_surfaces, gen_ref_solid, arc_to_b123d"), ("rack placement", W+": InvoluteRack.build_part")], ["orientation of built parts, edges and locations"])
p("P11", "The axial range is honoured: anchor, height, slices and ratios",
  "For every height and anchor the gear's slices span exactly the requested height, with the reference level at the anchored fraction of it, whatever number of intermediate slices there are. Ratio 0 means the bottom slice, ratio 1 the top slice, and 'bottom', 'middle' and 'top' reports refer to the first slice, the mean of first and last, and the last slice, also for herringbone and strongly twisted gears.",
  ["inputs", "configurations"], "every gear class, height, module, anchor, helix and herringbone setting",
  "most tests have two slices, for which the second slice and the last one coincide, and anchor 0",
  [W, CORE], [("slice heights", W+": calc_params, HelicalGear, HelicalRingGear"), ("ratio reports", W+": proportion_to_z, circle_involute_base, build_boundary_wire, center_point_*")], ["slice heights, ratio and top/middle/bottom reports"])
p("P12", "A failed build leaves the gear as it was",
  "If building the CAD part of a gear fails at any point - in curve fitting, in the geometry kernel or in a final plausibility check - the gear keeps its parameters, slice heights, placement, tooth shape and previously built part, so a later build or query behaves as if the failed one had not happened.",
  ["fault_sequences", "histories"], "every kernel, solver or internal failure point of every build",
  "no test makes a build fail",
  [CB, N, W], [("builder", CB+": GearBuilder"), ("build entry points", W+": build_part, update_part")], ["gear state after a build that raised"])
p("P13", "Curve length and parametrisation are never stale",
  "After any change to a curve through its methods and settable properties - trimming start or end, reversing, appending, inserting or removing pieces, changing a radius, fitting - its reported length is that of the changed curve, and parameter 0 and 1 are the ends of the changed curve. Trimming at a parameter makes the point formerly at that parameter the new end, and reversing swaps the ends.",
  ["inputs", "histories"], "every curve class and every sequence of edits",
  "tests check lengths of freshly made curves and a few trims of chains",
  [CV], [("length cache", CV+": Curve.update_lengths and overrides"), ("edits", CV+": set_start_on, set_end_on, reverse, CurveChain edits")], ["length and end points after each edit"])
p("P14", "Conversions of a curve describe the curve as it currently is",
  "Transforming, mirroring, rotating, combining, NURBS-converting a curve or turning it into CAD edges uses the curve's current extent and all of its current geometry: the result starts and ends where the current curve starts and ends, after the requested motion is applied exactly once. No geometric attribute is dropped on the way.",
  ["inputs", "histories"], "every curve class, every trim and reversal beforehand, every transform",
  "tests convert untrimmed curves or do not compare the ends",
  [CV, CB, N], [("transforms", CV+": LineCurve.transform, ArcCurve.transform, TransformedCurve"), ("conversion", CV+": convert_curve_nurbezier; "+CB+": curve_to_edges, line_to_b123d, arc_to_b123d")], ["end points of the converted curve"])
p("P15", "Profile conversions keep every segment's role",
  "Converting or extending a tooth profile keeps each segment in its role: the addendum, dedendum, outer, tooth, mirrored tooth and connector segment of the result are computed from the segment of the same role, placed with the profile's own transform exactly once, and for a continuous profile that is symmetric about its tooth the closed outlines visit the segments in an order in which each begins where the previous one ends.",
  ["inputs", "configurations"], "every tooth form, every profile, every slice",
  "tests look at the final solid's validity for a few gears and never at individual segments",
  [CORE, N], [("profile extension", CORE+": generate_profile_extensions, GearRefProfileExtended"), ("profile conversion", N+": gearprofile_to_nurb")], ["segments of converted and extended profiles"])
p("P16", "Transforms form a group and act consistently",
  "For every pair of transforms, applying their product equals applying one after the other, applying the inverse undoes the transform, and the affine matrix describes the same map as applying the transform. This holds for plain transforms and for gear transforms with rotation angle, any scale and any orientation.",
  ["inputs"], "all centres, orientations, scales, angles and points",
  "there is no test of composition or inversion with non-commuting rotations and scale",
  [B], [("composition, inversion, application", B+": TransformData, Transform, GearTransformData, GearTransform, apply_transform, apply_gear_transform")], ["mapped points"])
p("P17", "Evaluating a shape recipe at a height evaluates everything there, once",
  "Evaluating a shape recipe, or any of its parts, at a height gives an object of the same kind in which every height-dependent entry, at any nesting depth, is replaced by its value at exactly that height and every constant entry is carried over unchanged. The recipe itself is not altered.",
  ["inputs", "programs"], "every recipe class, every mix of constant and height-dependent entries, every height",
  "tests use recipes whose entries are mostly constant",
  [B, CORE, T], [("evaluation", B+": ZFunctionMixin, eval_callables"), ("recipe classes and tooth generators", CORE+", "+T)], ["entries of the evaluated recipe"])
p("P18", "No code path refers to something that does not exist",
  "Every name, attribute, parameter and call in the library, its examples and its GUI resolves: no branch, however rarely taken, ends in an undefined name, a missing attribute or module member, or a call whose arguments the callee cannot accept.",
  ["inputs", "programs", "configurations"], "every branch of every function",
  "branches that no test takes are not executed at all",
  [FG, CV, CORE, B, T, M, N, CB, W, D, "gui/gggui.py", "examples/examples.py"], [("all functions", "whole repository")], ["NameError, AttributeError and TypeError on any path"])
p("P19", "Every specialised class can be used wherever its base class can",
  "Every method and property that a specialised gear, rack, curve, tooth or transform class redefines accepts every call its base class accepts, with the same meaning of the arguments, and methods that return their object for chaining do so in every class.",
  ["programs"], "every class pair, every call shape accepted by the base",
  "tests call each class with the arguments its own signature has",
  [CV, W, B, T, CORE, CB], [("redefined methods", "all class hierarchies")], ["calls through a base-class reference"])
p("P20", "Assigning a documented attribute takes effect everywhere",
  "Assigning a settable attribute of a gear, profile or curve either fails or takes effect: reading it back gives the new value, every report that is defined in terms of it follows, and the placement is otherwise kept. An assignment is never silently lost.",
  ["inputs", "histories"], "every settable attribute, every class",
  "tests do not assign attributes after construction",
  [W, CORE, B, CV], [("property setters", W+": module, cone_angle, center, angle; "+CV+": ArcCurve setters; "+B+": center setters")], ["value read back and dependent reports"])
p("P21", "Equivalent requests give equal gears and equal reports",
  "Different documented ways to ask for the same thing agree for all parameter values: the spur, bevel and ring classes equal the generic class with the corresponding arguments, a negative tooth count equals the positive count with inside teeth, a helical gear without helix equals the spur gear, and shorthand, top, bottom, middle and per-height reports equal the long form.",
  ["inputs", "configurations"], "all parameter values, all pairs of equivalent requests",
  "tests check one spelling each and never compare two for all values",
  [W, CORE, B], [("class constructors", W), ("shorthands", W+": GearInfoMixin; "+B+": ConicData")], ["shape recipe, slice heights, placement and reports of both"])
p("P22", "Nominal dimensions follow the standard gear relations",
  "For all parameters the model obeys the defining relations of gearing: pitch diameter is module times tooth count, pitch angle is a full turn over the tooth count, addendum and dedendum depths and tooth thickness follow the coefficients, profile shift and backlash, normal values convert to transverse ones by the helix angle, twist is proportional to height, slices of a cone shrink linearly along it, the nominal centre distance adds radii and profile shifts with the signs of external and ring pairs, the cone angles of a bevel pair add up to the axis angle in the ratio of the tooth counts, and adapting two cycloid gears gives the flanks that touch each other rolling circles of equal size.",
  ["inputs", "configurations"], "all real parameter values of every gear class",
  "tests sample a few parameter sets at loose tolerance, mostly with zero shift, backlash and helix",
  [W, CORE, B], [("nominal model", W+": calc_params, HelicalGear, HelicalRack"), ("reports", W+": pitch_radius, pitch_angle")], ["recipe entries and reported nominal values"])
p("P23", "Centre distance and backlash of involute pairs match each other",
  "For all base radii, tooth thicknesses and backlash values, of external and ring pairs, the centre distance computed for a backlash is the one at which the involute mesh equation leaves exactly this backlash, computing the backlash from a distance is the inverse of it, exchanging the two gears changes nothing but the sign for ring pairs, and meshing two cylindrical involute gears places them at this distance with the phase shifted by the biased half of the backlash; the lines of action of two cylindrical involute gears lie in the plane of the gears and touch both base circles, crossing between the centres for external pairs only.",
  ["inputs", "configurations"], "all real base radii, base angles, backlash and bias values, every pair of cylindrical involute gear classes",
  "tests compare one numeric pair of external gears",
  [M, W], [("mesh distance equation", M+": calc_involute_mesh_distance, backlash_from_ax_distance"), ("meshing", W+": InvoluteGear.mesh_to")], ["centre distance, backlash and phase"])
p("P24", "Meshed gears are tangent, aligned and in phase",
  "For every pair of compatible gears, every placement of the partner and every target direction perpendicular to its axis, after meshing the centres lie on a line along the target direction, the axes of cylindrical gears are parallel (crossed helical gears: their tooth directions agree at the pitch point), bevel pitch cones share their apex and touch along the generatrix on the target side, the pitch circles of core and cycloid gears and the pitch line of a rack touch, and without angle bias a tooth of one gear faces a tooth space of the other (ring pairs: the teeth are in phase).",
  ["inputs", "configurations"], "all placements, target directions, tooth counts, cone and helix angles, every pair of compatible gear classes",
  "tests mesh a few pairs, mostly at the origin and along x",
  [M, W], [("mesh angle and orientation", M+": calc_mesh_angle, calc_mesh_orientation, calc_bevel_gear_placement_vector"), ("meshing", W+": mesh_to of every gear and rack class")], ["placement, orientation and phase after meshing"])
p("P25", "Curve formulas and vector helpers satisfy their defining geometry",
  "For all parameters the tooth curves are what their names say: the involute of a circle is the end of a string of the unwound length tangent to the base circle, the spherical involute lies on its sphere on a great circle touching the base circle at the unwound arc length, cycloids are traced by a circle rolling without slip on the base circle (on the sphere for cones), the octoid lies on its sphere and starts on the pitch circle, arcs keep their distance from the centre and connect their ends, and the vector helpers project, normalise, rotate, measure and interpolate as named.",
  ["inputs"], "all real radii, curvatures, angles, offsets and curve parameters",
  "tests evaluate curves at a few parameters, or only through the finished gear",
  [FG], [("curve formulas", FG+": involute_circle, involute_sphere, cycloid_circle, cycloid_cone, octoid, arc_from_2_point_center"), ("helpers", FG+": project_vector_to_plane, angle_between_vectors, rotate_vector, interpolate, calc_nurbezier_arc")], ["points computed by the curve formulas"])
p("P26", "The built body consists of all of its pieces, each at its place",
  "For every tooth count, slice layout and placement a build hands the CAD kernel the complete gear: for each tooth and each pair of neighbouring slices every flank, root and tip piece of the profile exactly once, turned by the tooth index times the pitch angle; one cover of the first and one of the last slice with one outline copy per tooth; for ring gears an outer ring of the specified radius, the same on both covers, from the first to the last slice; for bevel gears a blank bounded by the spheres and reference circles of the first and last slice, with flanks reaching both ends. The boundary wire has one copy of the outline per tooth, a rack as many teeth as requested, one pitch apart with one at its origin, and the part contains that body and nothing else.",
  ["inputs", "configurations"], "all tooth counts, numbers of slices, heights, helix and cone angles, external and ring gears, racks",
  "tests build gears with two slices and look at volumes; a body with a misplaced cover, a missing patch or a wrong slice still has a volume",
  [CB, W], [("assembly", CB+": GearBuilder.__init__, gen_side_surfaces, gen_outside_ring, generate_cover, gen_ref_solid"), ("outline", CB+": generate_boundary_edges"), ("racks", W+": InvoluteRack.build_part, HelicalRack.build_part")], ["arguments and composition of every CAD kernel call of a build"])
# not claimed -------------------------------------------------------------
p("P30", "Meshed gears touch without interpenetrating",
  "After meshing, the built solids of the two gears do not interpenetrate by more than the fitting tolerance, with zero backlash their flanks touch, and a requested backlash is the measured gap between them.",
  ["inputs"], "every pair of compatible gears and every phase", "tests check a few pairs",
  [W, M], [("mesh distance and phase", M)], ["intersection volume of built parts"])
p("P31", "Built parts are valid closed solids",
  "Every successful build returns a valid, closed solid with positive volume and the requested number of teeth.",
  ["inputs"], "every parameter set for which building succeeds", "tests build a few hundred parameter sets",
  [CB], [("solid construction", CB+": GearBuilder")], ["validity and volume of built parts"])
p("P32", "Fitted NURBS surfaces follow the exact tooth flanks",
  "The distance between the fitted NURBS flanks and the exact tooth curves stays below a fixed fraction of the module.",
  ["inputs"], "every gear and sampling setting", "tests measure a few profiles",
  [CV, N], [("fitting", CV+": fit_nurb_points; "+N+": solve_surface")], ["distance between fitted and exact curves"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
