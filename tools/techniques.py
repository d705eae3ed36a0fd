DEFAULT = "sampled inputs of bounded size (see DESIGN.md); no proof beyond the generated cases"
NOTE = {}
NA = {}
T = {
 "P01": "property-based testing: random graphs with one mutated rate, exact balance-equation solver as oracle, tape shrinking",
 "P02": "property-based testing: random live (C)SDF graphs, exact rational maximum cycle ratio of the firing-level expansion as reference model",
 "P03": "differential property-based testing between throughput methods plus exact K-periodic reference model",
 "P04": "property-based testing: random markings around the liveness boundary, untimed execution as reference model",
 "P05": "property-based testing: emitted schedules simulated by an independent token simulator (invariant over the history)",
 "P06": "property-based testing: printed ASAP schedule compared with an independent discrete-event simulator",
 "P07": "property-based testing: random event graphs, exact rational cycle-ratio oracle and circuit certificate",
 "P08": "property-based testing: random event graphs and feasible periods, every constraint re-checked",
 "P09": "property-based round-trip testing: write, read back, compare, write again",
 "P10": "metamorphic property-based testing: equivalent documents from an independent writer, plus corrupted documents",
 "P11": "stateful model-based property testing: random edit histories against a reference multigraph",
 "P12": "property-based testing of helper functions against mathematical definitions",
 "P13": "property-based testing: defining equations of normalisation checked on random graphs",
 "P14": "property-based testing: bounded graph re-analysed with the exact throughput oracle, exhaustive/metamorphic optimality checks",
 "P15": "property-based testing: exhaustive enumeration of storage distributions as reference model",
 "P16": "property-based testing: transformed graph compared with a reference transformation, throughput oracle",
 "P17": "property-based testing: reachability closure and brute-force circuit enumeration as reference models",
 "P18": "property-based testing: path validity, minimality (BFS oracle) and mapping invariants on random NoCs",
 "P19": "property-based testing: random generator configurations, invariants on each generated graph",
 "P20": "property-based testing: random small LPs/ILPs against exhaustive/vertex enumeration",
 "P21": "metamorphic property-based testing of throughput under graph edits",
 "P23": "property-based testing of generated command lines run through the real main function; expected output composed from each algorithm run alone",
 "P24": "property-based testing: printed views parsed back (generated C++ interpreted) and compared with the graph",
 "P25": "property-based testing: random mapped graphs, chains read back and compared with the routes, exact throughput of an independently built model",
 "P26": "property-based testing: untimed liveness as reference model, printed packet traces replayed against the token flow",
 "P27": "property-based testing: random packet traces and slot tables, printed schedules checked against the time-division rules",
 "P28": "property-based testing of generator configurations: the graph read back and compared with the documented structure",
 "P22": "stateful property testing: random sequences of analyses on one loaded graph against fresh runs",
 "P29": "property-based testing of schedules and of the scheduling commands: every printed form read back, compared and checked as a schedule",
 "P30": "property-based testing with an independent minimum circuit ratio computation on the printed constraint graphs against the reference throughput of the class",
}
