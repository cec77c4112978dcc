"""writes /verif/properties.jsonl"""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c}
                                    for a, b, c in state],
                          "mechanism": [{"name": a, "where": b}
                                        for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})


IX, CK = "lib/indexing.cpp", "lib/indexing_checks.cpp"
DG, LP = "lib/disparity_graph.cpp", "lib/lowest_penalties.cpp"
CG, LF = "lib/constraint_graph.cpp", "lib/labeling_finder.cpp"
PG, IM, MA = "lib/pgm_io.cpp", "lib/image.cpp", "lib/main.cpp"

p("C01", "Image validation accepts exactly the well-formed images",
  "For every image whose data array has width*height elements, validation "
  "answers true exactly when width, height and the maximal value are all "
  "positive and no pixel exceeds the maximal value. It never changes the "
  "image and reads nothing outside the data.",
  ["inputs"], "every image: all dimensions, maximal values and contents, "
  "an offending pixel at any position",
  "The tests validate a handful of 3x2 images; an exception at one "
  "position, size or value is outside what they sample.",
  [IM, "include/image.hpp"], [("image_valid", IM)],
  ["return value of image_valid"])

p("C02", "Written PGM files read back to the same image",
  "Writing a valid image with a maximal value of at most 65536 produces a "
  "plain PGM text (P2, dimensions, maximal value, intensities in row-major "
  "order, no line longer than 70 characters), and reading that text gives an "
  "image with the same width, height, maximal value and pixels. Writing an "
  "absent or invalid image produces no output at all.",
  ["inputs"], "every valid image: all widths (in particular around the "
  "wrapping column), heights and values; every invalid image",
  "The tests write one or two fixed images and compare text; line wrapping "
  "and separators depend on width and position.",
  [PG, "include/pgm_io.hpp"], [("operator<<", PG), ("operator>>", PG)],
  ["text produced by operator<<", "image obtained by operator>> from it"])

p("C03", "The PGM reader accepts well-formed files and rejects malformed ones",
  "Reading a stream that holds the magic word P2, width, height, a maximal "
  "value of at most 65536 and exactly width*height intensities, separated by "
  "whitespace and with comment lines (starting with #) anywhere between them "
  "or after the last one, succeeds and yields exactly that image. A wrong "
  "magic word, a missing number, a token that does not start with a number, a "
  "number that is out of range of unsigned long, a dimension "
  "product that cannot be stored, a larger maximal value or anything but "
  "whitespace and comments after the last intensity makes the stream fail. A "
  "failed read lets no exception escape (exhausted memory aside) and leaves "
  "the image held before untouched.",
  ["inputs", "histories"], "every stream content (tokens, comments, "
  "whitespace, truncation at any point), on fresh and on reused readers",
  "The tests feed about ten hand-written files; truncation points, comment "
  "placement, overflowing numbers and reader reuse are not enumerated.",
  [PG, "include/pgm_io.hpp"],
  [("read_pgm_instruction", PG), ("check_file_end", PG), ("operator>>", PG)],
  ["stream state after operator>>", "image held by the reader"],
  [("image", "the image last read successfully", "include/pgm_io.hpp")])

p("C04", "Table positions are in range and never shared",
  "For every problem whose tables fit the address space, the positions of "
  "pixels, nodes, neighborhoods (pixel and neighbor number) and "
  "reparametrization elements (node and neighbor number) lie inside the table "
  "they address, and different elements of one kind never share a position. "
  "All variants that compute the position or the value of the same element "
  "agree, and reading a pixel or a reparametrization value returns the element "
  "stored at its position.",
  ["inputs", "configurations"], "every width, height, number of disparity "
  "levels and every element, including sizes where 32-bit arithmetic would "
  "overflow",
  "The tests look at a few indices of tiny graphs; collisions and range "
  "violations at other shapes are invisible to them.",
  [IX, "include/indexing.hpp"],
  [("pixel_index, node_index, neighborhood_index*, reparametrization_index*",
    IX), ("pixel_value, reparametrization_value*", IX)],
  ["values returned by the indexing functions"])

p("C05", "Neighbor numbering is consistent with pixel positions",
  "The four neighbors of a pixel are numbered 0 (right), 1 (left), 2 (below) "
  "and 3 (above): the pixel obtained from a pixel and a neighbor number is "
  "exactly that neighbor, and the number computed for two adjacent pixels is "
  "the number under which the second is the neighbor of the first. Hence the "
  "two mappings are inverse to each other for every pixel that has such a "
  "neighbor.",
  ["inputs"], "every pixel position and every neighbor number",
  "The tests check fixed pixels near the origin only.",
  [IX], [("neighbor_index, neighbor_by_index", IX)],
  ["values returned by neighbor_index and neighbor_by_index"])

p("C06", "Existence of nodes, neighborhoods and edges",
  "For every valid problem a node (x, y, d) exists exactly when the pixel is "
  "inside the image, d is one of the disparity levels and x+d is inside the "
  "image; a neighborhood exists exactly when both pixels are inside the image "
  "and horizontally or vertically adjacent. An edge exists exactly when both "
  "nodes exist, their pixels are neighbors and, for pixels of one row, the "
  "disparity of the left one exceeds that of the right one by at most one; "
  "existence does not depend on the direction in which an edge is given.",
  ["inputs", "configurations"], "every graph shape, every pixel, node and "
  "edge, including arguments outside the graph",
  "The tests probe single nodes and edges of 3x2 graphs, mostly in one "
  "direction.",
  [CK, "include/indexing_checks.hpp"],
  [("node_exists, neighborhood_exists, edge_exists", CK)],
  ["values returned by the existence checks"])

p("C07", "Only consistent stereo problems can be constructed",
  "Constructing a stereo problem succeeds exactly when both images are valid, "
  "have the same width, height and maximal value, the number of disparity "
  "levels is at least two and at most the width, both weights are "
  "non-negative and at least one of them is positive (not below machine "
  "epsilon); otherwise it throws an invalid-argument error. A constructed "
  "problem holds copies of the given images and parameters and a "
  "reparametrization of width*height*4*levels zeros.",
  ["inputs", "configurations"], "every pair of images, every number of "
  "levels and every pair of weights",
  "The tests try about ten combinations; the acceptance condition has nine "
  "independent parts.",
  [DG, "include/disparity_graph.hpp"], [("DisparityGraph constructor", DG)],
  ["exception or fields of the constructed problem"])

p("C08", "Penalties follow the documented formulas",
  "For every problem and every reparametrization, the penalty of an existing "
  "node is the cleanness weight times the squared difference of the right "
  "pixel at x and the left pixel at x+d, plus the four reparametrization "
  "elements of the node. The penalty of an edge is the smoothness weight "
  "times the squared difference of the disparities, minus the "
  "reparametrization elements of both directions, and is the same for both "
  "directions (both up to the rounding of doubles); no intermediate result "
  "wraps around.",
  ["inputs", "configurations"], "all images, weights, reparametrizations, "
  "nodes and edges, both orders of unequal operands",
  "The tests evaluate a few nodes and edges of small images, mostly with a "
  "zero reparametrization.",
  [DG, IX], [("node_penalty, edge_penalty", DG)],
  ["values returned by the penalty functions"])

p("C09", "Lowest penalties are true minima",
  "For every problem and every reparametrization the lowest penalty computed "
  "for a pixel is the minimum penalty over its existing nodes, and the one "
  "computed for two neighboring pixels is the minimum penalty over the "
  "existing edges between them. The table of lowest penalties holds exactly "
  "these minima for every pixel and every existing neighborhood, and looking "
  "them up returns them, also when all penalties are large or negative.",
  ["inputs", "configurations"], "all problems, all pixels and neighborhoods, "
  "all signs and magnitudes of penalties",
  "The tests compare a handful of entries in graphs with zero or "
  "hand-written reparametrization.",
  [LP, "include/lowest_penalties.hpp"],
  [("calculate_lowest_*", LP), ("LowestPenalties constructor", LP),
   ("lowest_*_penalty*", LP)],
  ["returned minima", "tables of LowestPenalties"])

p("C10", "Initial availability and its accessors",
  "For every problem and threshold, the constraint graph starts with exactly "
  "those existing nodes available whose penalty exceeds the lowest penalty of "
  "their pixel by at most the threshold. Making a node available or "
  "unavailable changes that node only, making all nodes unavailable leaves "
  "none, and an edge is available exactly when it exists, both its nodes are "
  "available and its penalty exceeds the lowest one of the neighborhood by at "
  "most the threshold.",
  ["inputs", "histories"], "all problems and thresholds (also exact ties and "
  "negative thresholds), all nodes and edges, all sequences of updates",
  "The tests inspect single nodes of 3x2 graphs after one or two updates.",
  [CG, "include/constraint_graph.hpp"],
  [("ConstraintGraph constructor", CG),
   ("make_node_*, make_all_nodes_unavailable", CG),
   ("is_node_available, is_edge_available", CG)],
  ["availability of nodes and edges"],
  [("nodes_availability", "which nodes are available", CG)])

p("C11", "Constraint propagation never removes a supported node",
  "For every problem, threshold and initial set of available existing nodes, "
  "constraint propagation only removes nodes. A node that belongs to some "
  "subset of the initial nodes in which every node has an available edge "
  "within the subset to each of its neighboring pixels is never removed, so "
  "no node of any consistent labeling is lost.",
  ["inputs", "configurations"], "all problems, thresholds and initial "
  "availabilities, and all closed subsets of nodes",
  "The tests run propagation on three small graphs and look at single nodes.",
  [CG], [("should_remove_node, csp_process_pixel, csp_solution_iteration",
          CG), ("solve_csp", CG)],
  ["availability of nodes after solving"],
  [("nodes_availability", "which nodes are available", CG)])

p("C12", "Constraint propagation reaches a fixpoint and a correct verdict",
  "For every problem, threshold and initial set of available existing nodes, "
  "constraint propagation terminates, and if any node is left then every "
  "pixel has an available node and every available node has an available "
  "edge to each of its neighboring pixels. Its answer is true exactly when "
  "nodes are left, which is the case exactly when the initial nodes contain a "
  "non-empty subset closed under such edges; otherwise no node is left.",
  ["inputs", "configurations"], "all problems, thresholds and initial "
  "availabilities; any number of passes",
  "The tests run small problems that settle in one or two passes; a missed "
  "or premature fixpoint needs longer chains of removals.",
  [CG], [("csp_solution_iteration", CG), ("solve_csp", CG),
         ("check_nodes_left", CG)],
  ["answer of solve_csp", "availability of nodes after solving"],
  [("nodes_availability", "which nodes are available", CG)])

p("C13", "The list of candidate thresholds is complete and sorted",
  "For every problem the list of candidate thresholds contains exactly the "
  "differences between the penalty of an existing node and the lowest penalty "
  "of its pixel and between the penalty of an existing edge and the lowest "
  "penalty of its neighborhood, for all pixels and all neighborhoods. The "
  "list is strictly increasing, so no value occurs twice. The lists computed "
  "for a single pixel or a single neighborhood obey the same rule with the "
  "given minimum.",
  ["inputs", "configurations"], "all problems and reparametrizations, all "
  "pixels and neighborhoods in all four directions",
  "The tests compare lists of two or three tiny graphs.",
  [LF, "include/labeling_finder.hpp"],
  [("fetch_pixel_available_penalties, fetch_edge_available_penalties", LF),
   ("fetch_available_penalties", LF)],
  ["returned lists"])

p("C14", "The minimal consistent threshold is really minimal",
  "For every problem and every strictly increasing list of candidates whose "
  "last one makes the problem solvable, the computed threshold is the "
  "smallest candidate for which constraint propagation on a fresh constraint "
  "graph leaves nodes. For the full list of candidates of a problem the last "
  "one always does, so a threshold is always found.",
  ["inputs", "configurations"], "all problems, all lists of candidates of "
  "any length, any position of the smallest solvable candidate",
  "The tests compute the threshold of two small problems.",
  [LF, CG], [("calculate_minimal_consistent_threshold", LF)],
  ["returned threshold"])

p("C15", "Choosing the best node of a pixel",
  "For every constraint graph and pixel with an available node, choosing the "
  "best node leaves exactly one node of the pixel available: an available one "
  "with the lowest penalty among those that were available, whatever the "
  "sign of the penalties. Nodes of other pixels keep their availability, and "
  "a pixel without available nodes stays as it is.",
  ["inputs", "configurations"], "all graphs, all availabilities, all "
  "pixels, all penalties including ties, zero and negative values",
  "The tests choose a node in two fixed situations.",
  [LF], [("choose_best_node", LF)], ["availability of nodes afterwards"],
  [("nodes_availability", "which nodes are available", CG)])

p("C16", "A found labeling is a consistent labeling",
  "For every problem and threshold, searching a labeling only removes nodes, "
  "terminates, and returns either nothing or the given graph. If it returns "
  "the graph, exactly one node is available in every pixel and the edge "
  "between the chosen nodes of any two neighboring pixels is available. If "
  "constraint propagation alone leaves no node, it returns nothing.",
  ["inputs", "configurations"], "all problems, thresholds and initial "
  "availabilities",
  "The tests label one or two small graphs.",
  [LF, CG], [("find_labeling", LF), ("choose_best_node", LF),
             ("solve_csp", CG)],
  ["returned pointer", "availability of nodes afterwards"],
  [("nodes_availability", "which nodes are available", CG)])

p("C17", "The disparity map shows the labeling",
  "For every constraint graph in which every pixel has exactly one available "
  "node, the disparity map has the width and height of the images, the number "
  "of disparity levels as its maximal value, and at every pixel the disparity "
  "of the available node. If some pixel has no available node or more than "
  "one, a logic error is thrown instead; the constraint graph is not changed.",
  ["inputs", "configurations"], "all graphs and all availabilities, the "
  "offending pixel and its nodes at any position",
  "The tests build one map and one failing case.",
  [LF], [("build_disparity_map", LF)],
  ["returned image or exception"])

p("C18", "Memory safety and termination of the solver",
  "For every valid problem that fits the address space, every operation of the "
  "solver terminates, accesses its tables only inside their bounds, dereferences "
  "no null pointer, throws nothing but the documented errors, and changes "
  "nothing but the objects it is meant to change.",
  ["inputs", "configurations"], "all valid problems of any size and shape, "
  "all functions of the library that work on them",
  "The tests run a few 3x2 to 5x5 problems without sanitizers.",
  [IX, CK, DG, LP, CG, LF, IM],
  [("loop bounds and index computations", IX), ("loops", CG), ("loops", LF)],
  ["sanitizer reports, exceptions and contents of objects not involved"])

p("C19", "The command-line tool computes the optimal-threshold disparity map",
  "For every pair of readable plain PGM images and parameters that form a valid "
  "problem, the tool writes to the output file, if it writes one, a plain PGM "
  "image of the same size with the number of disparity levels as maximal value "
  "whose pixels are disparities of existing nodes, and all nodes and "
  "neighboring pairs of this labeling are within the minimal consistent "
  "threshold of the problem. Omitted levels default to the image width, omitted "
  "weights to one; wrong files or parameters produce an error message and no "
  "disparity map.",
  ["inputs", "configurations"], "all pairs of images and all combinations of "
  "command-line parameters",
  "No test runs the executable.",
  [MA, LF, PG], [("main", MA), ("read_image", MA)],
  ["output file, standard error and exit status of the executable"])

p("C20", "Splitting constraint propagation among jobs does not change its "
  "result",
  "For every problem, threshold, initial set of available existing nodes and "
  "number of jobs J, of any size compared with the height, where job j of a "
  "pass handles the rows j, j + J, j + 2 J, ... and jobs do not overlap in "
  "time: a job only removes nodes, never one of a closed set of available "
  "nodes, and removes nodes of other rows only together with all nodes. A job "
  "that reports a change has removed a node; a job that reports none has "
  "changed nothing or left no node at all, and if nodes are left, its rows "
  "have an available node in every pixel and every available node there has an "
  "available edge to each of its neighboring pixels. Passes over all jobs "
  "come to a pass without a report after finitely many steps, and the "
  "available nodes and the verdict are then the same as with a single job. In "
  "particular propagation with any number of threads gives the verdict and "
  "the nodes of propagation with one thread.",
  ["inputs", "configurations", "schedules"], "all problems, thresholds, "
  "initial availabilities and numbers of jobs",
  "The tests run propagation with a single job only.",
  [CG], [("csp_solution_iteration", CG), ("solve_csp", CG)],
  ["return value of csp_solution_iteration and solve_csp",
   "availability of nodes after every job"],
  [("nodes_availability", "which nodes are available", CG)])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
