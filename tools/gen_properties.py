#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os, sys
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
L = "src/libkiter/"
prop("P01", "Consistency verdict and minimal repetition vector",
 "For every SDF/CSDF graph the tool declares the graph consistent exactly when the balance equations have a positive integer solution. When it does, the reported repetition vector solves every balance equation over whole phase cycles and has no common factor, so that on a connected graph it is the smallest positive integer solution; when it does not, the analysis is refused and no vector is reported.",
 ["inputs"], "all (C)SDF graphs: any topology (disconnected, parallel channels, self-loops), any phase counts, zero-rate phases, coprime and large rates",
 "Unit tests compute the vector for a couple of fixed benchmark graphs; consistency is a relation over every cycle of every graph and minimality over every rate combination.",
 [L+"models/repetition_vector.cpp", L+"models/Dataflow.h"],
 [("rate propagation along channels and lcm/gcd scaling", L+"models/repetition_vector.cpp computeRepetitionVector"), ("consistency query", L+"models/Dataflow.h is_consistent")])
prop("P02", "K-periodic throughput analysis is exact",
 "For every consistent live (C)SDF graph whose maximal throughput is finite, the throughput reported by the K-periodic analysis (KPeriodicThroughput, and its full-expansion variant NKPeriodicThroughput) equals the maximum throughput reachable by any valid execution of the graph, that is the inverse of the maximum cycle ratio of its firing-level expansion, and the reported period is its inverse. When tasks have initial phases the reported throughput never exceeds the maximum reachable after these phases, and equals it when they consume nothing.",
 ["inputs"], "all consistent live (C)SDF graphs with task reentrancy 1 or unlimited, multi-phase rates including zero-rate phases, self-loops, parallel channels",
 "The suite checks one value (period 23 of sample.xml) and otherwise only exit codes on benchmarks; exactness over all graphs needs an independent reference.",
 [L+"algorithms/throughput/kperiodic.cpp", L+"models/EventGraph.cpp", L+"models/EventGraph.h", L+"commons/howard_cycle_ratio.hpp"],
 [("K-periodic constraint generation", L+"algorithms/throughput/kperiodic.cpp generateKPeriodicConstraint/generateKperiodicSelfloop"),
  ("incremental K refinement along the critical circuit", L+"algorithms/throughput/kperiodic.cpp updateEventGraph/updateVectorWithLocalNi/compute_Kperiodic_throughput"),
  ("min cycle ratio", L+"commons/howard_cycle_ratio.hpp")])
prop("P03", "Independent throughput methods agree and restricted ones only under-estimate",
 "On every graph in their common domain the exact methods (K-periodic, N-periodic, symbolic self-timed execution, de Groote expansion, N-periodic event-graph scheduling) report the same throughput; the 1-periodic, 2-periodic and user-chosen K-periodic analyses report exactly the best throughput of their schedule class, and the strictly periodic ones report a feasible throughput; hence strictly-periodic <= 1-periodic <= exact always holds.",
 ["inputs"], "all consistent live (C)SDF graphs accepted by the methods compared, and all periodicity vectors K",
 "Each method is only smoke-tested (exit code) and never compared with another on the same graph.",
 [L+"algorithms/throughput/kperiodic.cpp", L+"algorithms/throughput/symbolic_execution.cpp", L+"algorithms/throughput/degroote.cpp", L+"algorithms/throughput/csdf_strictly_periodic.cpp", L+"algorithms/scheduling/CSDF_KPeriodicScheduling.cpp"],
 [("self-timed state space", L+"algorithms/throughput/symbolic_execution.cpp compute_asap_throughput"), ("deGroote event graph", L+"algorithms/throughput/degroote.cpp"), ("strictly periodic event graph", L+"algorithms/throughput/csdf_strictly_periodic.cpp"), ("fixed-K analysis", L+"algorithms/throughput/kperiodic.cpp KSchedule")])
prop("P04", "Deadlock is detected exactly",
 "A consistent (C)SDF graph is reported with zero (no positive) throughput by the exact throughput analyses if and only if its initial tokens do not allow every task to complete one full iteration; a live graph always gets a positive throughput and a deadlocking graph never does.",
 ["inputs"], "all consistent (C)SDF graphs and initial token distributions, on either side of the deadlock boundary",
 "No test contains a deadlocking graph; the boundary (one token more or less on one channel) is a property of every marking.",
 [L+"algorithms/throughput/kperiodic.cpp", L+"algorithms/throughput/symbolic_execution.cpp", L+"commons/howard_cycle_ratio.hpp"],
 [("non-positive cycles in the event graph", L+"commons/howard_cycle_ratio.hpp"), ("deadlock detection during execution", L+"algorithms/throughput/symbolic_execution.cpp")])
prop("P05", "Every emitted schedule is executable and attains its announced period",
 "For every consistent live graph, the start times and periods emitted by the periodic schedulers (1-periodic, N-periodic, strictly periodic and K-periodic) never let a task start before the tokens it consumes have been produced, never overlap executions of a task with reentrancy 1, and repeat with exactly the graph period that is announced.",
 ["inputs", "schedules"], "all consistent live (C)SDF graphs; all firings of the infinite schedule described by the emitted start times",
 "Scheduling tests only check that a schedule object is produced; feasibility quantifies over all firings of an infinite schedule.",
 [L+"algorithms/scheduling/CSDF_KPeriodicScheduling.cpp", L+"algorithms/scheduling/CSDF_SPeriodicScheduling.cpp", L+"algorithms/throughput/kperiodic.cpp", L+"models/EventGraph.cpp", L+"models/Scheduling.cpp"],
 [("start times from the event graph", L+"models/EventGraph.cpp computeStartingTimeWithOmega"), ("period2scheduling", L+"algorithms/throughput/kperiodic.cpp"), ("scheduling container", L+"models/Scheduling.cpp")])
prop("P06", "Self-timed (ASAP) execution is eager, causal and complete",
 "For every consistent live graph, the ASAP schedule printed by the tool starts each execution exactly at the earliest instant at which its tokens are available and its task is idle, covers the firings of whole iterations in phase order, and never violates a token dependency.",
 ["inputs", "histories"], "all consistent live strongly-connected (C)SDF graphs and all firings of the printed prefix",
 "Tests only run ASAPScheduling on benchmarks and look at the exit code.",
 [L+"algorithms/throughput/symbolic_execution.cpp", L+"algorithms/throughput/actor.cpp", L+"algorithms/throughput/state.cpp", L+"models/Scheduling.cpp"],
 [("self-timed engine", L+"algorithms/throughput/symbolic_execution.cpp"), ("actor firing rules", L+"algorithms/throughput/actor.cpp")])
prop("P07", "Cycle-ratio solver returns the true optimum and a circuit that attains it",
 "For every event graph in which each circuit has a positive number of tokens and a positive duration, the reported minimum cycle ratio equals the minimum over all circuits of tokens/duration (and the maximum cycle ratio the maximum), and the critical circuit returned is a real closed walk of the graph with exactly that ratio.",
 ["inputs"], "all weighted event graphs: any number of strongly connected components, parallel arcs, self-arcs, zero-weight arcs, negative partial weights",
 "No unit test compares the solver with an enumeration of circuits; iteration caps and tolerances only show on particular weight patterns.",
 [L+"commons/howard_cycle_ratio.hpp", L+"models/EventGraph.h", L+"models/EventGraph.cpp"],
 [("Howard policy iteration per strongly connected component", L+"commons/howard_cycle_ratio.hpp"), ("MinCycleRatio/MaxCycleRatio wrappers", L+"models/EventGraph.cpp")])
prop("P08", "Start-time computation satisfies every precedence constraint",
 "For every event graph and every period at which it is feasible, the computed starting times satisfy every timed precedence constraint of the graph at that period.",
 ["inputs"], "all event graphs and all feasible periods (from the tightest one upwards)",
 "Never asserted by a test; depends on constraint ordering and on the number of relaxation rounds.",
 [L+"models/EventGraph.cpp", L+"models/EventGraph.h"],
 [("Bellman-Ford style propagation", L+"models/EventGraph.cpp computeStartingTimeWithOmega")])
prop("P09", "SDF3 XML output reads back as the same graph",
 "For every graph the tool can represent, printing it as SDF3 XML and reading the result back yields an equivalent graph: same tasks, phases, durations, reentrancy, channels with their rates, initial tokens, endpoints and names, and printing again gives the same document.",
 ["inputs"], "all (C)SDF graphs with any rates, phase counts, initial phases, markings, durations and reentrancy",
 "Tests print XML but never read it back, and only on benchmark files.",
 [L+"printers/SDF3Wrapper.cpp", L+"models/Dataflow.h"],
 [("XML writer", L+"printers/SDF3Wrapper.cpp"), ("XML reader", L+"printers/SDF3Wrapper.cpp readSDF3File")])
prop("P10", "SDF3 reading depends only on the document's meaning",
 "Equivalent SDF3 documents (whitespace, attribute and element order, compact n*v rate lists versus expanded ones, properties before or after the definitions of other actors) are read as the same graph, and that graph is exactly what the document states; a document that lacks the graph or its properties, or refers to a task it does not define, is refused rather than analysed.",
 ["inputs"], "all documents that denote a given graph, and documents with missing sections or dangling references",
 "Tests only read a fixed set of benchmark files written in one style.",
 [L+"printers/SDF3Wrapper.cpp", L+"commons/commons.cpp"],
 [("element and attribute handling", L+"printers/SDF3Wrapper.cpp"), ("rate list splitting", L+"commons/commons.cpp splitSDF3List")])
prop("P11", "The graph container behaves like a labelled multigraph under any edit history",
 "After any sequence of additions, removals and updates of tasks and channels through the public graph interface, every query (lookup by id or name, incident channels, rates, totals, phase counts, durations, markings, endpoints) answers what the sequence of edits implies; ids and names stay unique, removing a task removes exactly its channels, and derived results are never served stale after an edit.",
 ["histories"], "all finite sequences of graph edits interleaved with queries and analyses",
 "Unit tests build one or two fixed graphs and never remove or edit after analysis.",
 [L+"models/Dataflow.h", L+"models/Dataflow.cpp", L+"models/repetition_vector.cpp"],
 [("boost graph wrapper", L+"models/Dataflow.h"), ("derived state invalidation", L+"models/Dataflow.h reset_computation")])
prop("P12", "Numeric and text helpers obey their mathematical definitions",
 "Rounding down or up to a multiple returns the mathematically defined value for every sign of the operand; fractions compute and compare exactly; and Bezout coefficients solve their equation. Splitting inverts joining, whole numbers written as text read back as the same number, rate lists in expanded or compact n*v form decode to exactly the values they denote, and merging groups loses no value.",
 ["inputs"], "all integer operands that do not overflow, all lists and separators",
 "Unit tests check a few hand-picked values; sign combinations, empty items and multiplicities are not sampled.",
 [L+"commons/commons.h", L+"commons/commons.cpp"],
 [("floor/ceil/gcd/split/join", L+"commons/commons.h")])
prop("P13", "Normalisation preserves the graph and balances every channel",
 "For every consistent graph with channels, normalisation yields positive integer task weights and positive channel factors such that on every channel the scaled total production equals the producer's weight and the scaled total consumption equals the consumer's weight, without changing rates, markings or any later throughput result.",
 ["inputs"], "all consistent connected (C)SDF graphs",
 "One smoke test on a fixed graph; the defining equations quantify over all channels of all graphs.",
 [L+"algorithms/normalization.cpp", L+"models/Dataflow.h"],
 [("normalize / rationalNormalize", L+"algorithms/normalization.cpp"), ("normalised accessors", L+"models/Dataflow.h")])
prop("P14", "Buffer sizes computed for a period sustain that period",
 "Whenever the periodic buffer-sizing analyses (PeriodicSizing, SPeriodicSizing, FixedOffsetBufferSizing, AddVBuffers) return sizes for a requested period at which a periodic schedule exists, bounding every channel of the graph to those sizes leaves a live graph whose throughput still reaches that period, and the announced total is the sum of the sizes. Without a requested period the fastest periodic one is used; a period no periodic schedule reaches is refused, never answered with sizes. For single-rate-phase (SDF) graphs the integer (ILP) total is minimal.",
 ["inputs"], "all consistent live (C)SDF graphs and all feasible requested periods",
 "Buffer sizing tests only check that the command ends; sufficiency needs re-analysis of the bounded graph for each input.",
 [L+"algorithms/buffersizing/periodic.cpp", L+"algorithms/buffersizing/periodic_fixed.cpp", L+"algorithms/buffersizing/backpressure.cpp", L+"lp/glpsol.cpp"],
 [("periodic sizing (ILP)", L+"algorithms/buffersizing/periodic.cpp"), ("strictly periodic sizing", L+"algorithms/buffersizing/periodic_fixed.cpp"), ("back-pressure model", L+"algorithms/buffersizing/backpressure.cpp")])
prop("P15", "Throughput-buffering exploration returns the exact Pareto front",
 "For every graph it accepts, the throughput/buffer-size exploration (K-periodic and corrected symbolic-execution modes) reports exactly the Pareto-optimal trade-offs: each reported storage distribution reaches its announced throughput, no smaller total size reaches it, and no Pareto point between deadlock and maximal (or requested) throughput is missing, the exploration ending at the first point that reaches a requested throughput. The faster approximate modes and the periodic exploration only announce pairs of size and throughput that the graph really achieves.",
 ["inputs", "configurations"], "all consistent strongly connected or bounded (C)SDF graphs of explorable size and all search modes",
 "DSE tests only run the command on a few benchmarks; exactness of the front needs exhaustive enumeration of storage distributions.",
 [L+"algorithms/dse/dse.cpp", L+"algorithms/dse/buffer_sizing.cpp", L+"algorithms/dse/base_monotonic_optimisation.cpp", L+"algorithms/dse/monotonic_optimisation.cpp", L+"algorithms/dse/abstract_dep_graph.cpp", L+"algorithms/throughput/symbolic_execution.cpp"],
 [("dependency-guided exploration", L+"algorithms/dse/dse.cpp"), ("storage distribution set", L+"algorithms/dse/buffer_sizing.cpp"), ("knee-set pruning", L+"algorithms/dse/base_monotonic_optimisation.cpp")])
prop("P16", "Graph transformations do exactly what they announce",
 "Removing reentrancy, removing tasks, merging tasks and forcing single outputs change only what they name: untouched tasks and channels keep all their attributes, a removed task takes exactly its own channels with it, removing reentrancy makes exactly the selected tasks unbounded, a task of a single-rate graph with several outputs ends with one, every original reader being fed through the same initial tokens, and merging tasks of a live graph gives a consistent live graph in which the merged task performs the firings of its tasks in an admissible order, with a throughput that does not exceed the original.",
 ["inputs", "programs"], "all (C)SDF graphs and all parameter choices of the transformations",
 "Transformation tests only look at exit codes on single benchmark graphs.",
 [L+"algorithms/transformation/singleOutput.cpp", L+"algorithms/transformation/remove_reentrancy.cpp", L+"algorithms/transformation/merging.cpp", L+"algorithms/transformation/bug_explorer.cpp"],
 [("transformations", L+"algorithms/transformation/")])
prop("P17", "Cycle and component analyses are exact",
 "For every graph, the strongly connected components reported are exactly the mutual-reachability classes of its tasks, cycle detection answers yes exactly when some circuit through at least two tasks exists, and the enumerated elementary circuits are exactly those between two or more tasks of the graph, each listed once per combination of parallel channels, with the announced count, however often and after whatever removals the analysis runs.",
 ["inputs"], "all directed graphs",
 "Tests run cycle analysis on few graphs and compare at most a count.",
 [L+"algorithms/scc.cpp", L+"algorithms/analysis/cycle_detection.cpp", L+"models/EventGraph.cpp"],
 [("Kosaraju SCC", L+"algorithms/scc.cpp"), ("Johnson enumeration", L+"algorithms/analysis/cycle_detection.cpp")])
prop("P18", "NoC topology, mapping and routing are well-formed",
 "Every mesh built by the tool has one core per router and bidirectional links exactly between neighbouring routers with unique link ids; every mapping places each task on an existing core (the requested one if any); and every route assigned to a channel is a shortest connected path of existing links from the producer's core to the consumer's core, XY routes moving along x before y. Path searches return a shortest path, the least loaded of them, or none above the load limit, as each announces.",
 ["inputs", "configurations"], "all mesh sizes, all task placements and all channels",
 "NoC tests use one fixed size and only check that calls return.",
 [L+"models/NoC.cpp", L+"models/NoC.h", L+"models/NoCGraph.cpp", L+"algorithms/mapping/xyRouting.cpp", L+"algorithms/mapping/randomRouting.cpp", L+"algorithms/mapping/randomMapping.cpp", L+"algorithms/mapping/moduloMapping.cpp", L+"algorithms/mapping/createNoC.cpp", L+"algorithms/mapping/BufferlessNoCMapAndRoute.cpp"],
 [("mesh construction", L+"models/NoC.cpp"), ("routing", L+"algorithms/mapping/xyRouting.cpp"), ("shortest paths", L+"models/NoCGraph.cpp")])
prop("P19", "The random generator honours its configuration and is reproducible",
 "For every seed and admissible configuration the generated graph is consistent and has numbers of tasks, channels, phases, rates and durations within the configured limits, respects the no-self-loop and no-reentrancy options, and the same seed and configuration always give the same graph. Without initial phases the graph is also live.",
 ["configurations", "inputs"], "all seeds and admissible configurations",
 "Tests generate a couple of graphs with default settings.",
 [L+"generators/RandomGenerator.cpp", L+"generators/RandomGenerator.h"],
 [("generation and initial marking", L+"generators/RandomGenerator.cpp")])
prop("P20", "The linear-programming layer solves the problem it was given",
 "For every bounded linear or integer program stated through the LP interface, the solver status and the values read back per variable are those of the stated problem: all rows, bounds and integrality are respected, the objective value is optimal, infeasible problems are reported as such, and problems built at the same time do not affect each other.",
 ["inputs"], "all small LPs/ILPs: any row sense, bounds, free and integer variables, maximisation or minimisation",
 "One unit test solves one LP; row senses, bounds, integrality and naming are not covered.",
 [L+"lp/glpsol.cpp", L+"lp/glpsol.h"],
 [("problem construction and result mapping", L+"lp/glpsol.cpp")])
prop("P21", "Throughput obeys its structural laws",
 "Reported throughput is independent of the names, ids and declaration order of tasks and channels; multiplying all durations by an integer divides it by that integer; multiplying all rates and the marking of a channel by the same integer leaves it unchanged; adding initial tokens or shortening a task never decreases it; and adding a channel never increases it. Writing the phases of every task twice halves it, and the tasks of a disjoint union of graphs run as fast as its slowest part allows.",
 ["inputs", "programs"], "all consistent graphs including ones far too large for enumeration oracles, and all such edits",
 "Metamorphic relations between pairs of runs are never exercised by single-graph tests.",
 [L+"algorithms/throughput/kperiodic.cpp", L+"algorithms/throughput/symbolic_execution.cpp", L+"models/EventGraph.cpp", L+"commons/howard_cycle_ratio.hpp"],
 [("whole throughput pipeline", L+"algorithms/throughput/")])
prop("P22", "Analyses are repeatable and leave the graph intact",
 "Running any analysis leaves the tasks, rates, durations and markings of the graph as they were, and any later analysis in the same session reports the same result it reports on a freshly loaded graph, whatever analyses ran before it.",
 ["histories"], "all sequences of analyses on one loaded graph",
 "Each test runs one analysis per process; order dependence needs sequences.",
 ["src/kiter/main.cpp", L+"algorithms/", L+"models/Dataflow.h"],
 [("analysis pipeline over one shared graph", "src/kiter/main.cpp"), ("derived-state flags and caches", L+"models/Dataflow.h")])
prop("P23", "The command line runs what was asked, in order, with its own parameters",
 "Every -a algorithm of a command line runs exactly once, in the order given, on the graph loaded from -f or generated by -g, with the -p parameters written before it (a parameter value may contain any character) plus those written after the last -a/-g, and prints what it prints when it is requested alone, whatever the verbosity (-v). A missing or unreadable file, an unknown generator or no input at all ends with a non-zero status before anything runs, and an unknown algorithm ends the run with a non-zero status at its place.",
 ["inputs", "configurations"], "all command lines combining an input or generator, algorithms and parameters",
 "Command-line tests run one fixed command each and look at the exit status.",
 ["src/kiter/main.cpp", L+"commons/KiterRegistry.h", L+"printers/SDF3Wrapper.cpp"],
 [("option parsing and dispatch", "src/kiter/main.cpp"), ("registry lookup", L+"commons/KiterRegistry.h")])
prop("P24", "Printed views of a graph state exactly what the graph contains",
 "The C++ script printed for a graph builds and returns that same graph (ids, names, phases, durations, reentrancy, channels, rates, markings); the DOT drawing has exactly its tasks and channels with their rates and markings; the summary lists every task and channel once with its true degrees, totals, repetition factor, mapping and route; the DOT of a mapping shows every node and link of the NoC, every task on its core and every link with the channels routed over it. Sending a view to a file writes there what it prints, and printing changes nothing.",
 ["inputs", "configurations"], "all graphs, consistent or not, mapped or not, and all printing options",
 "Printer tests print one or two graphs and only check that the text is not empty.",
 [L+"printers/stdout.cpp", L+"printers/stdout.h"],
 [("kiter script", L+"printers/stdout.cpp"), ("DOT and summary", L+"printers/stdout.cpp")])
prop("P25", "The NoC communication model replaces each routed channel by its chain",
 "For every single-rate-per-task (SDF) graph mapped on a NoC, modelling the communications keeps every original task (duration, reentrancy, mapping) and every self-loop, and replaces each other channel by one chain of unit-duration link tasks and instantaneous router tasks, in the order of its route, carrying the original production rate at its start and the original consumption rate and initial tokens at its end. A channel without a route stays a channel with its own rates and tokens. The model is consistent, original tasks fire as often as before, and its reported throughput is that of the graph with unit-time links, hence never above that of the original.",
 ["inputs", "configurations"], "all SDF graphs, meshes, placements and routes",
 "The one NoC test models a single mapped graph and compares nothing.",
 [L+"algorithms/mapping/modelCommunications.cpp", L+"algorithms/mapping/xyRouting.cpp", L+"algorithms/mapping/randomRouting.cpp"],
 [("path expansion", L+"algorithms/mapping/modelCommunications.cpp")])
prop("P26", "Untimed execution terminates with the right verdict and a causal trace",
 "On every consistent graph the untimed symbolic execution ends, says whether the graph can complete an iteration (it fails exactly on the graphs that deadlock) and leaves the graph as it was. The packet trace printed for a live graph lists, for the requested number of iterations, each task's computations (and data packets of the requested size to each of its consumers) with increasing ids, in an order the tokens admit, and every computation depends, through the listed dependencies, on the previous computation of its task and on those that produced the tokens it consumes.",
 ["inputs", "configurations", "histories"], "all consistent graphs, live or not, multi-phase for the verdict, and all packet sizes and iteration counts",
 "Tests execute two live single-phase graphs and only check that the commands return.",
 [L+"algorithms/symbolic_execution.cpp", L+"algorithms/symbolic_execution.h"],
 [("untimed execution", L+"algorithms/symbolic_execution.cpp"), ("packet trace", L+"algorithms/symbolic_execution.cpp")])
prop("P27", "Time-division schedules of packet traces respect dependencies and slots",
 "For every packet trace, slot table and placement, the schedule printed lets each packet start computing when its last dependency is delivered, lasts its duration, then leaves in the first slot instance owned by its pair of cores that no other packet of this pair uses, and arrives after the distance between its cores; packets between tasks of one core take no time on the network. The average throughput and execution time announced are those of the printed schedule.",
 ["inputs", "schedules", "configurations"], "all traces with backward dependencies, mesh sizes, slot tables and one-to-one placements",
 "No test runs the time-division scheduler on anything but one fixed trace.",
 [L+"algorithms/scheduling/TDMAScheduler.cpp"],
 [("slot allocation", L+"algorithms/scheduling/TDMAScheduler.cpp")])
prop("P28", "The LTE generator builds the layered application that was asked for",
 "For every choice of the numbers of tasks of the four stages miwf, cwac, ifft and dd (64, 75, 24 and 75 when not given), the generated graph has exactly that many sequential single-phase tasks per stage with the duration of their stage, and exactly one empty channel from every task of a stage to every task of the next, whose production and consumption rates are the packets of the sending stage. The throughput reported for it is that of its slowest task.",
 ["configurations"], "all numbers of tasks per stage",
 "No test uses the LTE generator.",
 [L+"generators/LTEGeneator.cpp", L+"generators/LTEGenerator.h"],
 [("LTE generation", L+"generators/LTEGeneator.cpp")])
prop("P29", "Every printed form of a schedule shows that schedule",
 "Put any schedule in the schedule container: its text, its character chart of any width, its verbose listing and its DOT drawing show exactly the executions of that schedule, with the durations of their phases, whatever the start times (fractional, overlapping, zero durations). The schedules printed by the scheduling commands and the TikZ drawing of a K-periodic schedule can be executed for ever, have the period of the best schedule of their class, and chart and text agree.",
 ["configurations"], "all live graphs, periodicity vectors, chart widths and schedules",
 "The tests look at the chart of a few graphs with small integer times, by eye.",
 [L+"models/Scheduling.cpp", L+"printers/stdout.cpp", L+"algorithms/throughput/kperiodic.cpp", L+"algorithms/scheduling/CSDF_KPeriodicScheduling.cpp"],
 [("schedule container", L+"models/Scheduling.cpp"), ("scheduling commands", L+"algorithms/scheduling/CSDF_KPeriodicScheduling.cpp"), ("TikZ drawing", L+"algorithms/throughput/kperiodic.cpp")])
prop("P30", "Printed constraint graphs decide the throughput of their schedule class",
 "For every consistent graph and every periodicity vector, the event graph printed by PrintKPeriodicScheduling (as XML and as TikZ) and the partial expansion printed by PartialExpansion (as DOT and as tables) have one event per execution, durations of the task they stand for, and as optimum of their circuits exactly the best throughput of K-periodic schedules. The different printed forms list the same constraints.",
 ["configurations"], "all consistent graphs and periodicity vectors",
 "No test reads the printed constraint graphs.",
 [L+"models/EventGraph.cpp", L+"algorithms/throughput/kperiodic.cpp", L+"algorithms/experiments/ExpansionGraph.cpp"],
 [("event graph printing", L+"models/EventGraph.cpp"), ("partial expansion", L+"algorithms/experiments/ExpansionGraph.cpp")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P))
