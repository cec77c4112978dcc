"""Which contracts state which property.

own   the functions whose contracts state the property
only  failed obligations of these functions that bear on it (default: all)
drop  failed obligations that belong to another property
"""
IX = "sp::indexing::"
CK = "sp::indexing::checks::"
DG = "sp::graph::disparity::"
LP = "sp::graph::lowest_penalties::"
CG = "sp::graph::constraint::"
LF = "sp::labeling::finder::"
IM = "sp::image::"

INDEXING = [IX + n for n in (
    "pixel_index", "pixel_value", "node_index", "neighborhood_index_fast",
    "neighborhood_index", "neighborhood_index_slow",
    "reparametrization_index_fast", "reparametrization_index",
    "reparametrization_index_slow", "reparametrization_value",
    "reparametrization_value_slow", "reparametrization_value_fast")]
LOWEST = [LP + n for n in (
    "calculate_lowest_pixel_penalty",
    "calculate_lowest_neighborhood_penalty_fast",
    "calculate_lowest_neighborhood_penalty",
    "calculate_lowest_neighborhood_penalty_slow", "lowest_pixel_penalty",
    "lowest_neighborhood_penalty_fast", "lowest_neighborhood_penalty",
    "LowestPenalties::LowestPenalties")]
ACCESS = [CG + n for n in (
    "ConstraintGraph::ConstraintGraph", "make_node_available",
    "make_node_unavailable", "make_all_nodes_unavailable",
    "is_node_available", "is_edge_available")]
CSP = [CG + n for n in ("should_remove_node", "csp_process_pixel",
                        "csp_solution_iteration", "solve_csp")]
FETCH = [LF + n for n in (
    "fetch_pixel_available_penalties", "fetch_edge_available_penalties",
    "fetch_available_penalties")]
SOLVER = ([IX + n for n in ("neighbor_index", "neighbor_by_index")] +
          INDEXING + [CK + n for n in (
              "neighborhood_exists_fast", "neighborhood_exists",
              "node_exists", "edge_exists")] +
          [DG + "node_penalty", DG + "edge_penalty",
           DG + "DisparityGraph::DisparityGraph"] + LOWEST + ACCESS + CSP +
          [CG + "check_nodes_left"] + FETCH +
          [LF + n for n in ("calculate_minimal_consistent_threshold",
                            "choose_best_node", "find_labeling",
                            "build_disparity_map")] + [IM + "image_valid"])

# obligations about what constraint propagation must remove or report
ONLY_FIXPOINT = (r"post: (a reported change|no change reported|true exactly"
                 r"|a solved problem|reports whether|some node is left)"
                 r"|^termination")
ONLY_SUPPORT = r"post: nodes of a closed set stay"
SAFETY = (r"^(bounds|precondition|alloc|div|termination|throw|no-throw|frame"
          r"|invariant)")

STREAMS = [
    "the models of std::string, of istream >> string, ignore, get, eof, fail, "
    "good, setstate and clear, of ostream << and endl, and of std::stoul "
    "(dv/pgmlib.py): whitespace as in the C locale, a stream without "
    "exception mask, output that never fails, text shorter than 2^62",
    "std::stoul reads back the number that ostream << prints (lemma "
    "round-trip)",
]

TOOL = [
    "the model of boost::program_options (dv/pgmlib.py): parsing either "
    "throws a program_options::error or leaves, for every declared option, "
    "whether it was given and its text; 'help' carries no value",
    "the model of the file system: a file's content is a function of its "
    "name and does not change during a run; opening may fail; output that is "
    "written reaches the file",
    "the models of std::transform with ::tolower (the C locale), "
    "std::boolalpha-free console output and std::exception::what",
]

PROPS = {
    "C01": dict(title="image validation", own=[IM + "image_valid"]),
    "C02": dict(title="PGM writer and round trip", own=[IM + "operator<<"],
                also=[IM + "operator>>"], search=20, trusted=STREAMS,
                note="Assumes also: the models of std::string and of the "
                "stream operations (dv/pgmlib.py), output that never fails, "
                "a number that is printed is read back."),
    "C03": dict(title="PGM reader", own=[IM + n for n in (
        "PGM_IO::read_pgm_instruction", "PGM_IO::check_file_end",
        "operator>>")], search=20, trusted=STREAMS,
                note="Assumes also: the models of std::string, of the stream "
                "operations and of std::stoul (dv/pgmlib.py), a stream "
                "without exception mask."),
    "C04": dict(title="table positions", own=INDEXING),
    "C05": dict(title="neighbor numbering", own=[
        IX + "neighbor_index", IX + "neighbor_by_index"]),
    "C06": dict(title="existence", own=[CK + n for n in (
        "neighborhood_exists_fast", "neighborhood_exists", "node_exists",
        "edge_exists")]),
    "C07": dict(title="construction of problems",
                own=[DG + "DisparityGraph::DisparityGraph"]),
    "C08": dict(title="penalties", own=[DG + "node_penalty",
                                        DG + "edge_penalty"]),
    "C09": dict(title="lowest penalties", own=LOWEST),
    "C10": dict(title="availability", own=ACCESS),
    "C11": dict(title="propagation keeps supported nodes", own=CSP,
                drop=ONLY_FIXPOINT),
    "C12": dict(title="propagation reaches a fixpoint",
                own=CSP + [CG + "check_nodes_left"], drop=ONLY_SUPPORT),
    "C13": dict(title="candidate thresholds", own=FETCH),
    "C14": dict(title="minimal threshold",
                own=[LF + "calculate_minimal_consistent_threshold"]),
    "C15": dict(title="best node", own=[LF + "choose_best_node"]),
    "C16": dict(title="labelings", own=[LF + "find_labeling"]),
    "C17": dict(title="disparity map", own=[LF + "build_disparity_map"]),
    "C18": dict(title="safety and termination", own=SOLVER, only=SAFETY),
    "C20": dict(title="parallel propagation",
                own=[CG + "csp_solution_iteration", CG + "solve_csp"],
                note="Assumes also: iterations of the work-sharing loop do "
                "not overlap and run in the order of the job numbers (the "
                "OpenMP pragmas are dropped; lemma any-order covers the other "
                "orders), omp_get_num_threads() is "
                "positive and does not change within a call."),
    "C19": dict(title="command-line tool", own=["main", "read_image"],
                search=30, trusted=STREAMS + TOOL, note="Assumes also: the "
                "models of the streams, of boost::program_options and of the "
                "file system (dv/pgmlib.py), that input files are not changed "
                "during a run."),
}

TRUSTED = [
    "clang 18's parser and its typed AST of the current sources",
    "the verification condition generator dv/interp.py and its models of "
    "std::vector, std::array, std::shared_ptr, std::sort, std::unique, "
    "std::merge, std::fill and the like (dv/lib.py)",
    "z3 4 and cvc5 1.1.2 (python bindings)",
    "induction over natural numbers (the lemmas discharge base and step) and "
    "definitional extensions",
]
ASSUMPTIONS = [
    "doubles are finite numbers; differences are rounded in an arbitrary "
    "way, sums and products are exact (they occur in the two penalty formulas "
    "only, and only C08 depends on their values), comparisons are exact; "
    "infinities and NaN are outside the proofs",
    "unsigned integers wrap at 2^64 as in the code; their absence of "
    "wrap-around is an obligation where the contract says so",
    "memory allocation succeeds; tables fit the address space",
    "the default build: one thread, no OpenMP, no GPU; the OpenMP, OpenCL and "
    "CUDA variants are not covered",
    "objects passed in do not alias (the contracts build separate objects)",
]
