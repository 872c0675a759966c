import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, nng, batchhier, checkstats, faults, pure, sessions, internals, ann
R = {}
for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"):
    R[p] = ("model_checking", getattr(nng, p))
for p in ("C09", "C10", "C11", "C12"):
    R[p] = ("model_checking", getattr(batchhier, p))
for p in ("C18", "C19"):
    R[p] = ("model_checking", getattr(checkstats, p))
for p in ("C14", "C15"):
    R[p] = ("fault_enumeration", getattr(faults, p))
R["C16"] = ("model_checking", faults.C16)
for p in ("C13", "C17", "C21", "C22"):
    R[p] = ("model_checking", getattr(sessions, p))
R["C20"] = ("model_checking", internals.C20)
R["C24"] = ("model_checking", internals.C24)
R["C25"] = ("model_checking", ann.C25)
R["C23"] = ("model_checking", pure.C23)

_nng = "Exhaustive TLC check of the state machine Nng on all small instances, plus TLC validation of executions of the real library (built from /repo with ASAN, five integer configurations) against the same operators. Holds for everything explored; larger inputs by the small-scope argument. Trusts TLC, the generator's distance matrices and the driver."
_lib = "Exhaustive TLC check of the public-API state machine Lib (two clusterings, one array, one data set), plus sessions generated by TLC from the same specification, replayed into the real library (ASAN, five integer configurations) and validated step by step by TLC. Sessions are sampled (random walks of the specification)."
_int = "Exhaustive TLC check of the specification (set-level promise against the algorithm, on all small inputs), plus TLC validation of recorded sessions with the functions of the library (built from /repo with ASAN, five integer configurations). Sessions are sampled; all pairs of small graphs are covered by the thorough tier. Calls the library's internal functions directly."
NOTES = {
 "C20": ("TLA+ state machine of the built-in provider (TLC) + step-by-step trace validation of recorded sessions", _int),
 "C25": ("TLA+ state machine of nearest-neighbour search (TLC) + trace validation of recorded search sessions and clusterings with the ANN back end", "Exhaustive TLC check of the specification (set-level promise against the algorithm, on all small inputs), plus TLC validation of executions of the real library with the search functions of examples/ann installed (linked against the installed libann): search sessions step by step, and whole clusterings against the seeding machine."),
 "C24": ("TLA+ state machine of the graph store (TLC) + step-by-step trace validation of recorded sessions, with memory faults and memory limits", _int),
 "C13": ("TLA+ state machine of the public interface (TLC) + specification-generated sessions replayed into the library and validated step by step", _lib),
 "C17": ("TLA+ state machine of the public interface (TLC) + specification-generated sessions replayed into the library and validated step by step", _lib),
 "C21": ("TLA+ state machine of the public interface (TLC) + specification-generated sessions replayed into the library and validated step by step", _lib),
 "C22": ("TLA+ state machine of the public interface (TLC) + specification-generated sessions replayed into the library and validated step by step", _lib),
 "C01": ("TLA+ model checking (TLC) + trace validation of recorded outcomes", _nng),
 "C02": ("TLA+ model checking (TLC) + trace validation of recorded outcomes", _nng),
 "C03": ("TLA+ model checking (TLC) + trace validation of recorded outcomes", _nng),
 "C04": ("TLA+ model checking (TLC) + trace validation: seeds inferred, leftovers judged by CoverageOK", _nng),
 "C05": ("TLA+ model checking (TLC) + trace validation: seeds inferred, leftovers judged by RadiusOK", _nng),
 "C06": ("TLA+ model checking (TLC) + trace validation against the order-free seeding machine", _nng),
 "C07": ("TLA+ model checking (TLC) + trace validation against the seed-order machine", _nng),
 "C09": ("TLA+ model checking (TLC) of the batched machine + trace validation against the one-by-one machine", _nng),
 "C10": ("TLA+ model checking (TLC) of the splitting machine + trace validation of outcomes", _nng),
 "C11": ("TLA+ model checking (TLC) of the splitting machine + trace validation of outcomes", _nng),
 "C12": ("TLA+ model checking (TLC) + trace validation: TLC searches a splitting behaviour ending in the recorded clusters", _nng),
 "C18": ("TLA+ model checking (TLC) of the acceptance predicate + trace validation of recorded verdicts", _nng),
 "C19": ("TLA+ definition of the statistics + trace validation of recorded reports", _nng),
 "C14": ("TLA+ resource machine (TLC) + trace validation of every single and persistent allocation fault", "Every allocation index of each generated scenario is failed once (and persistently); TLC validates the recorded resource events and results. Scenarios are sampled, faults within a scenario are exhaustive."),
 "C15": ("TLA+ resource machine (TLC) + trace validation of every provider fault", "Every provider call of each generated scenario is failed once; TLC validates the recorded resource events and results. Scenarios are sampled, faults within a scenario are exhaustive."),
 "C16": ("TLA+ provider-contract machine (TLC) + trace validation of recorded provider-call logs", _nng),
 "C23": ("TLA+ memo machine (TLC) + trace validation of call histories across processes and configurations", _nng),
 "C08": ("TLA+ model checking (TLC) + trace validation: seeds inferred, leftovers judged by ClosestOK", _nng),
}
if __name__ == "__main__":
    core.main(R)
