#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the list stays readable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    a={"files":["iOverlay/src/"+f for f in files],"mechanism":[{"name":mech,"where":"iOverlay/src/"+files[0]}]}
    if state: a["state"]=state
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Parallel execution gives exactly the sequential result",
 "With multithreading enabled every operation (overlay, simplify, clip, slice, vector extraction) returns exactly - same shapes, contours, points, order - what the same call returns with multithreading disabled. This holds for any number of workers, any interleaving and stealing of the parallel tasks, any stall of a worker, and any parallel-sort threshold.",
 ["schedules","fault_sequences","configurations"],
 "Every schedule of the parallel sort and the per-column split tasks, on any worker count, for every solver strategy and any par_sort_min_size including 0.",
 "Unit tests run whatever schedule the machine produces, their inputs rarely pass the 32768-segment sort threshold, and none compares the parallel with the sequential path.",
 ["util/sort.rs","split/solver_fragment.rs","split/solver.rs","core/solver.rs","bind/solver.rs"],
 "Parallel unstable sorts use total orders (ties are merged or identical), per-column split tasks return their marks in column order, and marks are sorted and deduplicated before they are applied.")

p("C02","Boolean operations compute the set operation of the filled regions",
 "For every rule (subject, clip, union, intersect, difference, inverse difference, xor) and every fill rule (even-odd, non-zero, positive, negative) the returned shapes cover exactly the points whose subject and clip winding numbers satisfy the rule. When all edge crossings are integer points the result is exact; otherwise it may differ only within a small snapping distance of the input edges. This holds under any schedule, solver configuration and way of supplying the input.",
 ["inputs","schedules","configurations"],
 "All integer contours (any slope, overlapping, self-intersecting, duplicated, degenerate) with |coordinate| < 2^30, under any schedule and configuration.",
 "The tests compare a few hundred fixed inputs with stored outputs; they do not compare with winding numbers, and mostly use small coordinates and the default solver.",
 ["segm/build.rs","segm/merge.rs","segm/winding_count.rs","split/cross_solver.rs","split/solver.rs","split/solver_list.rs","split/solver_tree.rs","split/solver_fragment.rs","split/grid_layout.rs","fill/solver.rs","core/filter.rs","core/extract.rs","core/nearest_vector.rs","core/graph.rs"],
 "Segments are split at all crossings, overlapping ones are merged by winding count, a sweep assigns fill flags to both sides of each edge, and edges are filtered by rule and chained into contours.")

p("C03","Solver strategy and tuning never change the resulting region",
 "List, Tree, Frag and Auto strategies, every precision preset and every multithreading threshold give results covering the same region; the regions are identical when all crossings are integer points and differ only within the snapping distance otherwise. In particular crossing an internal size threshold does not change the answer.",
 ["configurations","schedules","inputs"],
 "Every strategy x precision x multithreading combination, for inputs below and above the automatic strategy thresholds (4000, 8000, 16000 segments, 32 shapes).",
 "Tests exercise strategies on fixed inputs far below the thresholds and check counts of points, not regions across strategies.",
 ["core/solver.rs","split/solver.rs","split/solver_list.rs","split/solver_tree.rs","split/solver_fragment.rs","split/grid_layout.rs","split/snap_radius.rs","fill/solver.rs","bind/solver.rs"],
 "All split solvers must find every crossing and overlap (the fragment solver through per-column rectangles and the column border pass), and both fill solvers perform the same sweep.")

p("C04","Extraction from a graph is pure, repeatable and safe to share",
 "Extracting from an overlay or string graph does not change it: any number of extractions, with any rules, options and order, from any number of threads at once, each returns what a single extraction from a freshly built identical graph returns.",
 ["histories","schedules"],
 "Every sequence and every concurrent interleaving of extraction calls (all rules, directions, min_area, simplify, vector extraction) on one shared graph.",
 "Tests extract once from each graph, on one thread.",
 ["core/graph.rs","core/extract.rs","core/filter.rs","string/graph.rs","string/extract.rs","string/filter.rs","vector/extract_vectors.rs","float/graph.rs","float/string_graph.rs"],
 "Extraction takes &self and keeps its visited/fill state in a buffer private to the call; graphs are Sync.")

p("C05","Concurrent operations never affect each other",
 "When several threads run independent operations on a shared worker pool - including when one operation's worker picks up another operation's task while waiting - every operation returns exactly what it returns when it runs alone.",
 ["schedules","fault_sequences"],
 "Every interleaving of any mix of concurrent operations on one pool with work stealing, nested stealing, preemption and stalled workers.",
 "Tests never run two operations whose interleaving they control; the test runner's own parallelism samples few schedules and most inputs never reach parallel code.",
 ["split/solver_fragment.rs","util/sort.rs","core/overlay.rs","string/overlay.rs","float/overlay.rs"],
 "No operation uses process-global or thread-local mutable state; parallel tasks only touch data owned by their own call.")

p("C06","Results are reproducible: no dependence on hash seeds, memory or run",
 "The same call on the same input returns the identical value in every process and every run, whatever the hash-map seeds, the contents of freshly allocated memory, the thread it runs on and the schedule.",
 ["schedules","configurations","histories"],
 "Every random hash key, heap content, thread and schedule, for every operation including slicing (hash map of points), fragment splitting (hash map of columns), clipping, strokes and outlines.",
 "A test run sees one hash seed per thread and one heap layout; a dependence on iteration order shows up only as a rare flake.",
 ["split/grid_layout.rs","split/solver_fragment.rs","split/solver.rs","string/split.rs","util/sort.rs"],
 "Hash maps are only used for look-ups, or their iteration output is put into a total order before it is used; unsafe buffers are fully written before they are read.")

p("C07","A panic in caller-supplied code stays contained",
 "If a caller-supplied iterator, point type or resource panics inside an operation, the panic reaches that caller and nothing else changes: graphs built earlier, other objects, concurrent operations and later operations on any thread give the results they would give without the panic.",
 ["fault_sequences","schedules"],
 "A panic at any element of any caller-supplied iterator or at any point-accessor call, during building, conversion or extraction, alone or while other operations run.",
 "No test injects a panic.",
 ["core/overlay.rs","segm/build.rs","float/overlay.rs","float/string_overlay.rs","float/source/resource.rs","float/graph.rs","mesh/stroke/offset.rs","mesh/outline/offset.rs"],
 "Operations keep their state in values owned by the call; unwinding drops them and leaves no global, lock or pool in a broken state.")

p("C08","Extracted shapes are well formed",
 "Every returned contour has at least three points, no two equal neighbours, the requested direction (outer contours follow main_direction, holes the opposite), with simplification no collinear neighbours, and no contour below min_area, while a minimum area removes nothing else than the smaller contours (and the holes of removed ones); contours do not cross themselves or each other. Each shape is one outer contour followed by holes that lie inside it, shapes do not overlap, and points inside a hole are not covered by their shape.",
 ["inputs","schedules","configurations"],
 "Every extraction with any rule, fill rule, direction, simplify flag, min_area, strategy and schedule, including hundreds of shapes and holes (list and tree hole binding).",
 "Tests check stored outputs or counts of contours for fixed inputs; hole binding beyond 32 shapes and touching contours are sampled by a few cases.",
 ["core/extract.rs","core/nearest_vector.rs","bind/solver.rs","bind/segment.rs","core/graph.rs","geom/v_segment.rs","geom/x_segment.rs"],
 "Contours are walked from the left-top edge taking the nearest vector at each node, direction follows the fill of the start edge, and holes are bound to the contour directly below their left-bottom segment.")

p("C09","Line clipping returns exactly the parts of the lines in the region",
 "Clipping open or closed lines by a filled region returns every part of the lines inside it (or outside when inverted), with parts on the boundary kept or dropped as requested, each with its own direction and multiplicity of direction, and nothing else. Inside, outside and boundary parts together make up the whole input, under any schedule and configuration.",
 ["inputs","schedules","configurations"],
 "Every set of lines and paths (overlapping the boundary, each other, or themselves) and every region, fill rule, clip rule, strategy and schedule.",
 "A dozen fixed string tests; none checks coverage of the whole line.",
 ["string/clip.rs","string/overlay.rs","string/graph.rs","fill/solver.rs","core/filter.rs","segm/winding_count.rs","float/clip.rs","float/string_overlay.rs"],
 "Lines are split with the region's edges, filtered by the fill on both sides, and walked along direction flags that are consumed edge by edge.")

p("C10","Slicing by lines partitions the region",
 "Slicing a filled region by lines returns pieces that do not overlap, together cover exactly the region, and are exactly the parts into which the lines divide it: two points are in the same piece if and only if they can be connected inside the region without crossing a line. A minimum area removes only pieces or holes smaller than it; all this under any schedule and configuration.",
 ["inputs","schedules","configurations"],
 "Every region and set of cutting lines, paths and closed contours (dangling, overlapping edges, touching at points, closed windows), any strategy and schedule.",
 "Two dozen fixed slice tests that check counts; no piece-by-piece comparison with connectivity, and min_area is always 0.",
 ["string/extract.rs","string/split.rs","string/filter.rs","string/slice.rs","string/graph.rs","string/overlay.rs","bind/solver.rs","float/slice.rs","float/string_graph.rs"],
 "Both sides of each line inside the region are walked as contours, repeated points split off loops, and holes are re-bound to the contour below them.")

p("C11","The floating-point API matches the integer engine on any container",
 "Overlay, simplify, clip and slice through the floating-point API give the same regions as the set operation on the same points, to within the stated coordinate resolution, and give identical results whether points come as arrays, slices or vectors, as one contour, contours or shapes, and through single-call or builder style. The minimum-area and clean-up options are applied in the caller's units.",
 ["inputs","configurations","schedules"],
 "Every container form, f32/f64, scale and offset of the coordinates, option and schedule.",
 "Float tests use fixed inputs in one container form with hand-written expected counts.",
 ["float/overlay.rs","float/graph.rs","float/simplify.rs","float/single.rs","float/clip.rs","float/slice.rs","float/string_overlay.rs","float/string_graph.rs","float/filter.rs","float/source/resource.rs","float/source/single.rs","float/source/double.rs","float/source/triple.rs"],
 "A bounding-box adapter scales points to integers by a power of two and back; resource iterators enumerate every path once and in order.")

p("C12","Strokes and outlines cover the offset region",
 "A stroke covers the rectangle around every segment of the path, the corner fill of its join (triangle, miter or arc) and its caps, and no point farther from the path than those join and cap styles reach; the same for the band an outline adds to or removes from a shape, whose outer contours move by the outer offset and whose holes by the inner offset. Nothing is promised at corners whose segments are shorter than the width or offset requires. Angles outside the supported range act as the nearest supported one, a negative width gives nothing, min_area drops only smaller contours, and results are the same under any schedule.",
 ["inputs","configurations","schedules"],
 "Every path, closed or open, shape with holes, width, offset, join and cap style, and schedule of the underlying overlay.",
 "Tests check point or contour counts of a few strokes and outlines; none measures distances.",
 ["mesh/stroke/offset.rs","mesh/stroke/builder.rs","mesh/stroke/builder_join.rs","mesh/stroke/builder_cap.rs","mesh/stroke/section.rs","mesh/outline/offset.rs","mesh/outline/builder.rs","mesh/outline/builder_join.rs","mesh/outline/section.rs","mesh/boolean.rs","mesh/math.rs","mesh/rotator.rs","mesh/miter.rs","mesh/style.rs","mesh/subject.rs"],
 "Each section contributes a rectangle, joins fill the corners, caps the ends, and the union by winding count gives the shape.")

p("C13","The result depends on what was added, not on how or in which order",
 "Splitting the same contours over different add calls, adding them in another order, starting a contour at another point, interleaving subject and clip, repeating a closing point, adding points on an edge, cloning, or using the one-shot instead of the builder call covers the same region; exactly the same value when only the calls and their order differ.",
 ["histories","configurations"],
 "Every history of add calls (contour, contours, shape, shapes, path iterator, with_* constructors) that supplies the same multiset of contours, in any order.",
 "Tests build each overlay in one way only.",
 ["core/overlay.rs","segm/build.rs","segm/merge.rs","string/overlay.rs","float/overlay.rs","core/simplify.rs"],
 "Segments are sorted by a total order and equal ones merged before anything else happens.")

p("C14","Every operation finishes and never leaves its arrays, on any input",
 "Every operation on any well-typed input with |coordinate| < 2^30 returns normally - no panic, no memory error, no endless loop - within a number of steps bounded by the size of the input and the length of its edges, whatever the schedule, stalled workers, configuration, or precision.",
 ["inputs","schedules","configurations","fault_sequences"],
 "Every input including empty, degenerate, near-parallel and huge-coordinate ones, every configuration, and every schedule in which stalled workers eventually run.",
 "Tests sample small inputs; the split loop's termination depends on how snapping cascades, and unchecked indexing is only exercised where the test inputs go.",
 ["split/solver.rs","split/solver_list.rs","split/solver_tree.rs","split/solver_fragment.rs","split/snap_radius.rs","split/grid_layout.rs","split/cross_solver.rs","core/extract.rs","core/graph.rs","string/extract.rs","string/clip.rs","segm/build.rs","mesh/stroke/builder.rs"],
 "The split loop repeats while a crossing was rounded, with a growing snapping radius; walks only follow edges that are still unvisited and every node has a way out.")

p("C15","Vector extraction describes the same region as shape extraction",
 "The separate vectors of an overlay are the edges of the divided plane, each once, with side flags telling exactly whether the region left and right of it belongs to subject and clip. The vector shapes of a rule consist of the same directed boundary edges as the shape extraction of that rule, closed into contours, each shape one outer contour with the holes that lie inside it; where contours touch at a point they may be traced in another way.",
 ["inputs","schedules","configurations","histories"],
 "Every input, fill rule, overlay rule, strategy and schedule, before and after other extractions from the same graph.",
 "Two fixed vector tests.",
 ["vector/extract_vectors.rs","vector/edge.rs","core/overlay.rs","core/link.rs","core/graph.rs"],
 "Links of the overlay graph are exported with their side fills; shape vectors follow the same walk as shape extraction, reversing fills with direction.")

p("C16","Results of different rules on one graph are mutually consistent",
 "For the results extracted from one graph, areas and coverage add up exactly: union = intersection + xor, subject = intersection + difference, clip = intersection + inverse difference, xor = both differences. This holds exactly even when crossings had to be rounded, under any schedule and configuration.",
 ["inputs","configurations","schedules","histories"],
 "Every graph (any input, including ones that need rounding), solver configuration and schedule, extracting all rules in any order or concurrently.",
 "Tests look at one rule's output at a time.",
 ["core/extract.rs","core/filter.rs","core/overlay_rule.rs","core/nearest_vector.rs","core/graph.rs","bind/solver.rs"],
 "All rules select edges of the same planar subdivision by predicates on the same fill flags.")

p("C17","Decomposing a contour keeps its edges and leaves no repeated points",
 "Decomposing a contour with repeated points returns closed contours none of which repeats a point and whose directed edges, taken together, are exactly the directed edges of the input (so the area is kept as well), and nothing when the contour repeats no point. This holds for contours written down by hand and for contours produced by earlier operations, whatever else runs at the same time.",
 ["inputs","histories","schedules"],
 "Every integer contour, any number of repeated points nested or interleaved in any way, alone or as a step in a history of operations, under every schedule.",
 "A handful of fixed contours.",
 ["core/divide.rs"],
 "One pass over the contour, sub-paths kept on a stack and cut off where a point returns.")

p("C18","Results of operations are valid inputs of further operations",
 "A history in which the result of one operation is fed as subject, clip or lines into the next behaves, at every step, as if its materialised input had been written down afresh: each result describes exactly the region (or the lines, or the pieces) that the rules say for that input. Simplifying a simplified result again with the same fill rule changes nothing but start points, except that contours that touch themselves may be cut differently.",
 ["histories","inputs","configurations","schedules"],
 "Every sequence of operations (overlay, simplify, slice, clip, decompose), each with its own rules, directions, solver and thread options, in one client or several at once.",
 "Tests run one operation on hand-written input; errors that only show in the library's own output (touching holes, shared points, direction) need chains.",
 ["core/overlay.rs","core/extract.rs","core/simplify.rs","core/divide.rs","string/clip.rs","string/slice.rs","bind/solver.rs"],
 "Results are plain contours in the main direction with holes reversed, so every fill rule reads them back as the region they stand for.")

p("C19","Moving or rescaling the input moves or rescales the result, nothing else",
 "Translating all integer input by a vector translates every result by that vector, point for point. Multiplying all float input (and widths, radii and minimum areas with it) by a power of two multiplies every result by it, bit for bit, for overlays, simplification, lines, strokes and outlines. Solver, schedule and thread options may differ only where they do not matter otherwise.",
 ["inputs","configurations","schedules"],
 "Every input inside the promised range, every operation and option, before and after the move, under any schedule.",
 "Tests have fixed coordinates; a decision that depends on absolute position (column layout, sign of coordinates, magnitude) is invisible to them.",
 ["segm/segment.rs","split/grid_layout.rs","split/solver_fragment.rs","split/cross_solver.rs","core/nearest_vector.rs","float/overlay.rs","mesh/stroke/offset.rs","mesh/outline/offset.rs"],
 "All decisions are made on differences of coordinates; the adapter derives its scale as a power of two of the extent.")

p("C20","Exchanging subject and clip, or reversing contours, mirrors the rules",
 "Overlays with subject and clip exchanged give the same shapes when the rule is exchanged too (difference with inverse difference, subject with clip). Reversing every input contour gives the same shapes when positive and negative fill are exchanged, and changes nothing for even-odd and non-zero; contours that touch themselves, and boundaries given partly twice along a straight run, may be traced from another start.",
 ["inputs","configurations","schedules"],
 "Every pair of inputs, all rules, fill rules, directions, filters and solvers, under any schedule.",
 "Tests fix one order of the operands and one direction of the contours.",
 ["core/overlay_rule.rs","core/filter.rs","core/nearest_vector.rs","core/extract.rs","fill/solver.rs","segm/winding_count.rs","segm/merge.rs"],
 "Fill flags of the two operands are kept in disjoint bits and handled alike; winding counts change sign with direction.")

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
