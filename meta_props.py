TW = "The end-to-end tests run a few fixed problems with random seeds and never look at "
prop("G01", "Selection restores the configured population size",
     "After every selection step of the single-objective genetic solver the population holds exactly the configured "
     "number of individuals, whenever it held at least that many before. This is so for every selection method, every "
     "fitness distribution (ties, flat fitness, any sign) and every random draw.",
     ["inputs", "configurations", "histories"], "all populations of at least the configured size, all fitness values, all random draws, "
     "all selection methods except the size clause of tournament selection",
     TW + "the population between generations; a wrong size shows only for particular fitness patterns or sizes.",
     [G + "SOGA.hpp", G + "SOGASelecters.hpp"],
     [("per-method elimination loops", G + "SOGASelecters.hpp"), ("erasing the eliminated", G + "SOGA.hpp")],
     observe=["population().size() after each generation"])
prop("G02", "Reported best is the best surviving individual",
     "After every selection step the reported best fitness is at least as good, in the configured optimisation "
     "direction, as the fitness of every individual that survived.",
     ["inputs", "configurations", "histories"], "every survivor of every population, both directions, every selection method but tournament",
     TW + "whether some survivor beats the reported best; convergence hides it.",
     [G + "SOGA.hpp", G + "SOGASelecters.hpp"],
     [("search for the current best", G + "SOGA.hpp"), ("per-method best update", G + "SOGASelecters.hpp")],
     observe=["bestFitness()", "population()"])
prop("G03", "Stagnation counter counts exactly the generations without improvement",
     "A selection step resets the stagnation counter to zero exactly when the best fitness strictly improved in the "
     "configured direction, and otherwise increases it by one.",
     ["inputs", "configurations", "histories"], "all populations, previous bests, counter values, directions and selection methods",
     TW + "the counter against the history of bests; an off-by-one or a wrong comparison only shifts when a run stops.",
     [G + "SOGA.hpp", G + "SOGASelecters.hpp"],
     [("best/stagnation update", G + "SOGA.hpp")], observe=["failTimes()", "bestFitness()"])
prop("G04", "Selection never touches an eliminated individual and the best stays valid",
     "Selection reads no individual after eliminating it, reads no uninitialised value and indexes nothing out of "
     "range, and the best individual exposed afterwards is a live member of the population.",
     ["inputs", "configurations", "histories"], "all populations, fitness values and random draws, all selection methods",
     "Freed list nodes usually still hold plausible values, so a dangling best survives ordinary tests; no test runs under a sanitizer.",
     [G + "SOGA.hpp", G + "SOGASelecters.hpp"],
     [("per-method elimination loops", G + "SOGASelecters.hpp"), ("best individual handle", G + "SOGA.hpp")],
     technique=AI + " with erased-element, initialisation and bounds tracking", observe=["result()", "bestGene()"])
prop("G05", "Genetic fitness is computed once per individual and never goes stale",
     "The fitness phase calls the user's function exactly once for each individual without a valid fitness and not at "
     "all for the others, stores the value with the individual it was computed from, and leaves every individual "
     "valid. This holds with and without OpenMP, for functions fixed at compile time or set at run time.",
     ["inputs", "configurations", "histories"], "every individual of every population, serial and OpenMP builds, static and runtime functions",
     TW + "how often or for which individual the fitness function is called.",
     [G + "GABase.hpp", G + "DefaultGeneType.hpp"],
     [("fitness phase", G + "GABase.hpp"), ("validity flag", G + "DefaultGeneType.hpp")])
prop("G06", "Crossover and mutation only add children and mark them for evaluation",
     "Crossover adds two children per mated pair and mutation one per mutated individual; both leave every existing "
     "individual, its fitness and its validity unchanged, pass the user's operator two distinct parents (or one) from "
     "the population and fresh children, and leave every child marked as not evaluated.",
     ["inputs", "configurations", "histories"], "every individual and child of every population, all rates and draws",
     TW + "parents after breeding or the flags of children; stale child fitness only degrades convergence.",
     [G + "GABase.hpp"], [("breeding phases", G + "GABase.hpp")])
prop("G07", "Genetic run loop: phase order, limits, generation count and record",
     "A run evaluates then selects in every generation, breeds only when it will go on, and returns right after a "
     "selection. It stops exactly when the generation limit is reached or, if a stagnation limit is set, the counter "
     "exceeds it; the reported generation number and, when recording, one record entry per generation equal to the best agree with "
     "that.",
     ["configurations", "histories"], "all limits, all stagnation histories, all starting counter values",
     TW + "generation counts or record lengths, and each uses one pair of limits.",
     [G + "GABase.hpp"], [("generic run loop", G + "GABase.hpp"), ("record", G + "GABase.hpp")],
     observe=["generation()", "failTimes()", "record()"])
prop("G08", "Initialising the genetic solver creates a full, unevaluated population",
     "Initialisation yields exactly the configured number of individuals, each produced by one call of the user's "
     "initialiser and marked as not evaluated, whatever the solver held before.",
     ["inputs", "configurations", "histories"], "all sizes, all individuals", TW + "the initial population.",
     [G + "GABase.hpp", G + "SOGA.hpp"], [("initialisation", G + "GABase.hpp")])
prop("G09", "Selection prefers better individuals as its method promises",
     "Truncation keeps exactly the best individuals; EliteReserved always keeps the configured number of elites; the "
     "T-1 worst (of distinct fitness) never survive Tournament of size T; RouletteWheel, "
     "StochasticUniversal, LinearRank, ExponentialRank and Boltzmann (strength of the documented sign) favour the better "
     "individual for the share of random draws its weight promises. In both optimisation directions, wherever the "
     "individuals stand in the population, and every survivor keeps its own fitness.",
     ["inputs", "configurations", "schedules"], "every fitness of populations of two to five, every random draw", TW + "who survives.",
     [G + "SOGASelecters.hpp", G + "SOGA.hpp"], [("selection", G + "SOGASelecters.hpp")])
# ---- particle swarm
PF = [PSO + "PSOAbstrcat.hpp", PSO + "PSO4std.hpp", PSO + "PSO4Eigen.hpp", PSO + "BoxWithVelocity.hpp"]
PBOTH = PSO + "PSO4std.hpp, PSO4Eigen.hpp"
prop("P01", "Particles stay inside the box and within the velocity limit",
     "After initialisation and after every move of the swarm, each component of each particle's position lies in the "
     "configured box and each component of its velocity lies within plus or minus the configured maximum, and no "
     "particle is gained or lost by moving.",
     ["inputs", "configurations", "histories"],
     "every particle and component, any bounds, factors, bests and draws; square and rectangular boxes; array, vector and Eigen positions",
     TW + "particles; only the final best is read, and a particle escapes only for extreme factors or at a corner.",
     PF, [("move phase", PBOTH), ("initial position and velocity", PSO + "PSOAbstrcat.hpp")], observe=["population()"])
prop("P02", "A particle moves by inertia plus attraction, limited by velocity and box",
     "The new velocity is inertia times the old velocity plus non-negative random pulls towards the particle's own best "
     "and the global best, cut at the velocity limit it crosses; the new position is the old one plus the new velocity, "
     "cut at the box side it crosses.",
     ["inputs", "configurations"], "every particle and component in each regime of the update, any bounds and draws",
     TW + "a single move; a wrong sign or a mismatched limit still converges on the problems tried.",
     PF, [("move phase", PBOTH)], observe=["population()"])
prop("P03", "The swarm's best is the best position ever seen, with its own fitness",
     "After best tracking the global best is never worse than before nor than any particle's best, each particle's best "
     "is the better of its old best and its current point, every best's fitness belongs to its own position, and "
     "neither tracking nor moving alters anything else of a particle or a best.",
     ["inputs", "configurations", "histories"], "every particle of every swarm, both optimisation directions, all position types",
     TW + "particle bests, or the pairing of a best fitness with its position.",
     PF, [("best tracking", PBOTH)], observe=["bestFitness()", "globalBest()", "population()"])
prop("P04", "The swarm's stagnation counter counts generations without improvement",
     "Best tracking resets the stagnation counter to zero exactly when the global best strictly improved in the "
     "configured direction, and otherwise increases it by one.",
     ["inputs", "configurations", "histories"], "all swarms, previous bests, counter values and directions",
     TW + "the counter; an off-by-one or wrong comparison only shifts when a run stops.",
     PF, [("best tracking", PBOTH)], observe=["failTimes()"])
prop("P05", "Swarm fitness is computed once per particle from its own position",
     "The fitness phase calls the user's function exactly once per particle and stores the result with that particle, "
     "with and without OpenMP, whatever the number of particles and threads.",
     ["inputs", "configurations", "schedules"], "every particle, every swarm size, serial and OpenMP builds, static and runtime functions",
     TW + "how often or for which particle the function is called, or with fewer particles than threads.",
     PF + [GL + "Threading.hpp"], [("fitness phase", PSO + "PSOAbstrcat.hpp")])
prop("P06", "Initialising the swarm creates a complete, consistent swarm",
     "Initialisation yields exactly the configured number of particles with positions and velocities of the configured "
     "dimension, each particle's own best equal to its start, a global best whose fitness belongs to its position, and "
     "zeroed generation and stagnation counters.",
     ["inputs", "configurations"], "all sizes, dimensions, boxes and position types", TW + "the initial swarm.",
     PF, [("initialisation", PSO + "PSOAbstrcat.hpp"), ("initial position and velocity", PSO + "PSOAbstrcat.hpp")])
prop("P07", "Swarm run loop: phase order, limits, generation count and record",
     "A run evaluates then tracks the best in every generation, moves only when it will go on, and returns right after "
     "tracking. It stops exactly when the generation limit is reached or, if a stagnation limit is set, the counter "
     "exceeds it; the generation number and, when recording, one record entry per generation equal to the best agree with that.",
     ["configurations", "histories"], "all limits, all stagnation histories, all starting counter values",
     TW + "generation counts or record lengths.", PF, [("run loop", PSO + "PSOAbstrcat.hpp")],
     observe=["generation()", "failTimes()", "record()"])
prop("P08", "A swarm's box reports exactly the range, velocity limit and size that were set",
     "After setting a square or rectangular range, a velocity limit and, for dynamic sizes, the dimension, every "
     "accessor (whole or per component) returns exactly the values set.",
     ["inputs", "configurations"], "all bounds, dimensions and components; square and rectangular, fixed and dynamic boxes",
     "The tests never read the per-component accessors; one returned the wrong bound at the pinned commit.",
     [PSO + "BoxWithVelocity.hpp"], [("box of the swarm", PSO + "BoxWithVelocity.hpp")],
     observe=["posMin()", "posMax()", "maxVelocity()", "dimensions()"])
BXF = [EA + "BoxConstraint.hpp", EA + "SizeBody4BoxConstraint.hpp"]
prop("B01", "Initialising through a box yields a full-sized variable inside the box",
     "A box's initialize gives the variable the box's dimension (rows and columns for matrices) and puts every component "
     "between that component's lower and upper bound.",
     ["inputs", "configurations"], "all bounds, dimensions, components and random draws; discrete, continuous, boolean and fixed boxes, "
     "square and rectangular, over std::array, std::vector and Eigen vectors and matrices",
     TW + "a drawn variable against its bounds; one box shape with one container is exercised.",
     BXF, [("initialize of each box", EA + "BoxConstraint.hpp")], observe=["initialize()"])
prop("B02", "Applying a box constraint moves outside components to the nearest bound only",
     "applyConstraint, on the whole variable or one component, leaves a component inside the box as it is and sets one "
     "outside to the bound it exceeded; the variable's size never changes. An unbounded (Gaussian) box changes nothing.",
     ["inputs", "configurations"], "all variables, bounds, dimensions and components, every box family and container",
     TW + "what a constraint does to each component; clamping to the wrong side or only the first component goes unseen.",
     BXF, [("applyConstraint of each box", EA + "BoxConstraint.hpp")], observe=["applyConstraint()"])
prop("B03", "Mutating a variable stays in the box and within one step",
     "applyDelta keeps every component of a variable inside its box and changes it by at most the configured step "
     "(one for discrete boxes), whatever the random draw.",
     ["inputs", "configurations"], "all variables inside the box, bounds, steps, dimensions and draws; every box family and container",
     TW + "a mutated variable; fixed continuous boxes stepped by one at the pinned commit.",
     BXF, [("applyDelta of each box", EA + "BoxConstraint.hpp")], observe=["applyDelta()"])
prop("B04", "A box reports exactly the bounds, step and dimensions that were set",
     "After its setters every box returns exactly the bounds, step and dimensions set, per component and whole; setting "
     "the dimensions again replaces the former ones and resizes the per-component bounds.",
     ["inputs", "configurations", "histories"], "all bounds, steps and dimensions, every box family and container",
     TW + "the accessors; setDelta of a matrix box and setDimensions of a rectangular box were wrong at the pinned commit.",
     BXF, [("setters and accessors", EA + "BoxConstraint.hpp"), ("dimension bookkeeping", EA + "SizeBody4BoxConstraint.hpp")],
     observe=["min()", "max()", "delta()", "dimensions()"])
prop("M01", "Pareto dominance is no worse in every objective and better in one",
     "One fitness vector dominates another exactly when it is at least as good in every objective and strictly better in "
     "at least one, in the configured direction; so no vector dominates itself or one that dominates it.",
     ["inputs", "configurations"], "all fitness values; every better/equal/worse combination for 2 to 4 objectives, both directions; "
     "for 7 and for run-time many objectives, no vector that is worse in some objective dominates",
     TW + "the relation itself; ties in some objectives are rare in random runs.",
     [EA + "Pareto.hpp"], [("dominance test", EA + "Pareto.hpp")], observe=["isStrongDominate()"])
AF = [AOS + x for x in ("AOS.hpp", "AOSBase.hpp", "AOS4EigenAndStd.hpp", "AOSBoxed.hpp")]
prop("A01", "Every electron's state stays inside the configured box",
     "Every state the atomic orbital search creates, at initialisation and as the child of any electron by either way "
     "(with or without photon), has the box's dimension and lies in the box, whatever the random draws.",
     ["inputs", "configurations", "histories"], "all bounds, dimensions, parents, layers, components and draws; square and rectangular "
     "boxes; std::array, std::vector and Eigen states",
     TW + "an electron's state against its bounds.",
     AF + BXF, [("initialisation", AOS + "AOSBase.hpp"), ("effects that make a child", AOS + "AOS4EigenAndStd.hpp")])
prop("A02", "Electrons' energies are computed once, from their own states",
     "The fitness phase calls the user's function exactly once for every electron not yet computed and never for one "
     "that is, stores the energy with that electron and marks it, with and without OpenMP.",
     ["inputs", "configurations", "schedules"], "every electron, every population size, serial and OpenMP builds",
     TW + "how often or for which electron the function is called; the serial branch did not compile at the pinned commit.",
     AF + [GL + "Threading.hpp"], [("fitness phase", AOS + "AOSBoxed.hpp")])
prop("A03", "Atom best, stagnation counter and binding state are exact",
     "After a generation is evaluated the reported best electron is an electron no other one beats, the early-stop "
     "counter grows by one exactly when the best energy did not change, and the binding energy and state are the means "
     "over all electrons.",
     ["inputs", "configurations", "histories"], "all populations and energies, both directions, every container",
     TW + "the reported best against the population, or the means (checked on populations of equal electrons).",
     AF, [("best and binding values of the atom", AOS + "AOS4EigenAndStd.hpp")],
     observe=["bestElectron()", "bindingEnergy()", "bindingState()", "earlyStopCounter()"])
prop("A04", "Selection keeps the configured number of best electrons, all in layers",
     "Selection reduces the population to exactly the configured number of electrons, keeps the best one, leaves the "
     "survivors' states and energies alone, reports a best electron that is alive and unbeaten, and makes between one "
     "and the configured number of layers.",
     ["inputs", "configurations"], "all populations at least as large as configured, all energies including ties, all layer counts",
     TW + "who survives; ties left the reported best dangling at the pinned commit.",
     AF, [("selection and layering", AOS + "AOS.hpp")], observe=["electrons()", "layers()", "bestElectron()"])
prop("A05", "Each layer's best and binding values belong to that layer",
     "A layer's best index is valid and points at an electron no other electron of the layer beats; its binding energy "
     "and state are the means over that layer.",
     ["inputs", "configurations"], "all layers of any size, all energies, both directions, every container",
     TW + "layers at all; Eigen states compared the wrong electrons at the pinned commit.",
     AF, [("best and binding values of a layer", AOS + "AOS4EigenAndStd.hpp")], observe=["layers()"])
prop("A06", "AOS run loop: phase order, limits, generation count and record",
     "A run evaluates, tracks the best, records and selects in every generation, updates only when it will go on, and "
     "returns right after selection. It stops exactly when the generation limit is reached or the early-stop counter "
     "reaches its limit; when recording, each generation adds one entry, the best energy.",
     ["configurations", "histories"], "all limits and all stagnation histories of a freshly initialised solver",
     TW + "generation counts or record lengths.", AF, [("run loop", AOS + "AOSBase.hpp")],
     observe=["generation()", "earlyStopCounter()", "record()"])
prop("A07", "Each update makes one uncomputed child per electron, towards the better",
     "The update phase adds exactly one child per electron of every layer, marked as not computed, and leaves parents "
     "alone. Without photon a child is within the configured step of its parent; with photon it moves towards the "
     "layer's best if the parent beats the layer's mean, else towards the atom's best; the photon rate 0 never skips it.",
     ["inputs", "configurations"], "all parents, layers, components and draws; every container",
     TW + "children against their parents.",
     AF, [("update phase", AOS + "AOSBase.hpp"), ("effects that make a child", AOS + "AOS4EigenAndStd.hpp")])
ALLF = [G + "GABase.hpp", PSO + "PSOBase.hpp", PSO + "PSO.hpp", AOS + "AOSBoxed.hpp", GL + "Threading.hpp"]
prop("C01", "Parallel evaluation is free of data races in every solver",
     "In an OpenMP build, no two iterations of a parallel loop of any solver touch the same memory location unless both only "
     "read, provided the user's function itself is free of races; so the result does not depend on the schedule or the number of "
     "threads. The loop's chunk size is never zero.",
     ["schedules", "configurations"], "all thread counts, interleavings and population sizes; every parallel region of the genetic, particle and orbital "
     "solvers, compile-time and run-time functions and arguments",
     "A race needs one particular interleaving, and the tests compare no result with a sequential one and run under no race detector.",
     ALLF, [("parallel fitness phases", G + "GABase.hpp"), ("chunk size", GL + "Threading.hpp")],
     technique="effect analysis of the typed syntax tree: every read and write of every OpenMP region, through all calls, as access paths",
     note="Private to an iteration: its locals, elements selected by the loop index itself, and targets of pointers held in them. "
          "The user's function is assumed race free. Trusts that the population holds distinct pointers (built so just before the loop).")
prop("C02", "The documented interface type-checks for every supported configuration",
     "Every class, option combination, operator and accessor the documentation offers can be used from a program as documented: it compiles "
     "with C++17, with and without OpenMP, each module header works on its own, and including headers in several source "
     "files of one program defines nothing twice.",
     ["configurations"], "the documented solvers with every combination of objective count, direction, recording, argument and box options, and every "
     "member they document, as enumerated in the witness programs",
     "A template member that nobody instantiates is never compiled; the tests instantiate about a dozen configurations. More than ten "
     "documented uses did not compile at the pinned commit.",
     [G + "SOGA.hpp", G + "NSGABase.hpp", G + "NSGA3.hpp", G + "Miscellaneous4GA.hpp", PSO + "BoxWithVelocity.hpp", AOS + "AOS.hpp", EA + "BoxConstraint.hpp"],
     [("option-dependent base classes", G + "GABase.hpp"), ("operator defaults", G + "Miscellaneous4GA.hpp")],
     technique="type checking of generated instantiation witnesses and linkage query over the compiler's IR",
     note="Decides that the enumerated uses compile, not what they do. The enumeration is written by hand from the documentation.")
prop("D01", "Default crossovers build children only from their two parents",
     "Each default crossover gives both children the parents' size and leaves the parents alone. Swap takes each component of one "
     "child from one parent and of the other child from the other, with one cut. Random selection gives each child its own "
     "parent's component with the configured probability, else the other's. Arithmetic crossover mixes with the configured ratio.",
     ["inputs", "configurations"], "all parents, sizes, components and draws; std::array, std::vector and Eigen genes of reals and integers, with and without a box",
     TW + "children against parents; the run-time-size random selection ignored its probability at the pinned commit.",
     [G + "Miscellaneous4GA.hpp"], [("default crossovers", G + "Miscellaneous4GA.hpp")])
prop("D02", "Default initialisation and mutation keep genes inside their range",
     "Genes made by the default initialisers lie in the box or the range encoded in the template, with the box's dimension; genes made by the default "
     "mutations from a parent in the box lie in the box and leave the parent alone; symbolic mutation changes at most one component.",
     ["inputs", "configurations"], "all boxes, parents, components and draws; square and rectangular, real and integer boxes on std::array, std::vector and Eigen genes",
     TW + "genes against their ranges; a wrong bound on one side shows only for rare draws.",
     [G + "Miscellaneous4GA.hpp", EA + "BoxConstraint.hpp"], [("default initialisation and mutation", G + "Miscellaneous4GA.hpp")])
prop("D03", "Random helpers stay inside their documented ranges and cover them evenly",
     "randD() and randF() lie in [0,1), randD(min,max) in [min,max), randIdx(n) in [0,n) and randIdx(min,max) in [min,max); the filling "
     "forms write exactly the requested elements, each in range. Equal shares of the underlying draw give equal shares of the range.",
     ["inputs"], "all bounds up to a million and every value of the underlying uniform draw; int, unsigned, long and size_t",
     "A sampled test sees a boundary draw with negligible probability.",
     [GL + "Randoms.hpp"], [("random helpers", GL + "Randoms.hpp")])
NF = [G + "NSGABase.hpp", G + "NSGA2.hpp", G + "NSGA3.hpp", EA + "Pareto.hpp"]
prop("N01", "Non-dominated sorting counts exactly the dominating solutions",
     "For every solution of the population the domination count NSGA-II and NSGA-III sort by is computed afresh: it is zero when no other solution "
     "dominates it (worse in some objective or equal in all), it is the number of others when all dominate it, and "
     "never more than that. The solution itself is never counted.",
     ["inputs", "configurations"], "all populations and fitness values, two and three objectives, both directions, serial and OpenMP builds",
     TW + "domination counts; a wrong one only reorders survivors and still converges on easy problems.",
     NF, [("domination count", G + "NSGABase.hpp")])
SYM = AI + " (symbolic normal forms of the computed terms)"
prop("N02", "NSGA-III reference points are complete and lie on the unit simplex",
     "After setting a precision p for M objectives, NSGA-III holds exactly C(M+p-1, p) reference points: pairwise different, "
     "every coordinate a non-negative multiple of 1/p, the coordinates of each point summing to one. With two layers each "
     "layer has all points of its own precision, the inner ones shrunk by the square root of one half. The announced number of points is the number generated.",
     ["configurations"], "precisions 1 to 20 and 2 to 8 objectives as listed in the check (compile-time and run-time numbers of objectives), one and two layers; "
     "for 2 and 3 objectives every point lies on the simplex at any precision",
     "The tests use one or two precisions and never look at the points; a missing or doubled direction only thins the front.",
     NF + [G + "NSGA3Abstract.hpp", G + "NSGA3Base.hpp", GL + "HeuMaths.hpp"],
     [("simplex-lattice enumeration", G + "NSGA3Abstract.hpp"), ("number of points", GL + "HeuMaths.hpp")],
     observe=["referencePoints()", "referencePointCount()"])
TFN = "Coefficient comparison is up to rounding of constants (1e-11)."
prop("T01", "Single-objective test functions compute their published formulas",
     "Each built-in single-objective test function returns, for every decision vector, the value of its published "
     "formula, whatever the container of the variables (std::array, std::vector, fixed or run-time sized Eigen array), "
     "reading nothing outside the vector.",
     ["inputs", "configurations"], "all decision vectors; two variables, or three or four for functions of any dimension; four container types",
     "The tests minimise a few of them in one container and look only at the optimum, which most wrong formulas share.",
     [EA + "SOFunctions.hpp", EA + "TestFunctions.hpp"],
     [("function bodies", EA + "SOFunctions.hpp")], technique=SYM, note=TFN)
prop("T02", "Multi-objective test problems compute their published formulas",
     "Each built-in multi-objective problem (Schaffer 1-2, Binh-Korn, Chankong-Haimes, Poloni, Viennet, Fonseca-Fleming, "
     "Kursawe, DTLZ1-4 and 7) stores, for every decision vector, the value of its published formula in every objective, "
     "whatever the containers; DTLZ5, 6, 8 and 9 write every objective. None reads or writes outside its arrays.",
     ["inputs", "configurations"], "all decision vectors; listed numbers of variables and objectives; seven or eight container combinations",
     "The tests plot fronts of three of them in one container and check nothing.",
     [EA + "MOFunctions.hpp", EA + "TestFunctions.hpp"],
     [("problem bodies", EA + "MOFunctions.hpp")], technique=SYM, note=TFN)
prop("N03", "NSGA survivor selection keeps better layers whole and the configured size",
     "After a selection of NSGA-II or NSGA-III the population has exactly the configured size; every solution of a better "
     "non-dominated layer survives before any of a worse one; the reported Pareto front is the first layer, or the survivors "
     "when that layer is larger than the population. NSGA-II keeps the ends of the layer it splits and drops its most crowded members.",
     ["inputs", "configurations"], "populations of four and five solutions, all fitness values with the listed orders of domination, two and three "
     "objectives, both directions, compile-time and run-time numbers of objectives",
     TW + "the survivors of one selection.",
     NF + [G + "NSGA2.hpp", G + "NSGA3Abstract.hpp", G + "MOGAAbstract.hpp"],
     [("survivor selection", G + "NSGA2.hpp"), ("layers", G + "NSGABase.hpp")], observe=["population()", "pfGenes()"])
prop("N04", "NSGA-III normalises fitness and associates it with the nearest reference line",
     "When NSGA-III splits a layer, every solution is moved so that the best value of each objective becomes zero, and scaled so "
     "that the solutions worst in each objective lie on the unit plane (or, if they do not span one, by those worst values); "
     "each solution is then associated with the reference line at the least perpendicular distance, and that distance.",
     ["inputs"], "all fitness values and reference points; three or four solutions with the listed orders of values, two or three reference points, two and three objectives",
     TW + "the normalised values or the association.",
     NF + [G + "NSGA3Abstract.hpp"], [("normalisation and association", G + "NSGA3Abstract.hpp")], technique=SYM, observe=["translatedFitness", "closestRefPoint", "distance"])
prop("N05", "NSGA-III niche preservation takes from the least crowded reference line",
     "While NSGA-III fills the population from the layer it splits, each solution taken belongs to a reference line that has "
     "the fewest chosen solutions among the lines that still have candidates; a line without any chosen solution gives its nearest "
     "candidate. Solutions chosen before stay chosen, each is taken once, and the configured size is reached exactly.",
     ["inputs", "schedules"], "two or three reference lines, four to six solutions with the listed associations, all distances and all random draws",
     TW + "which candidates are taken.",
     [G + "NSGA3Abstract.hpp"], [("niche preservation", G + "NSGA3Abstract.hpp")], observe=["nichePreservation", "population()"])

prop("M02", "A multi-objective solver reports its whole front and the exact ideal point",
     "Both forms of the Pareto front list every current front member exactly once, with its own variable and fitness, and nobody else, "
     "whatever the list held before; the ideal point is, in each objective, the best value in the population, a value some individual has.",
     ["inputs", "configurations"], "populations of one to three individuals with all fitness values, fronts of none, one, some and all of them, NSGA-II and NSGA-III, "
     "both directions, compile-time and run-time numbers of objectives",
     TW + "what the accessors return.",
     [G + "MOGAAbstract.hpp"], [("front and ideal point accessors", G + "MOGAAbstract.hpp")], observe=["paretoFront", "pfGenes()", "bestFitness()"])
prop("U01", "A chaos device yields exactly the logistic sequence through every interface",
     "Starting from its seed, a chaos device follows x -> 4x(1-x): one call returns the next value, iterating n times advances by n, "
     "a sequence of length L receives the next L values and nothing beyond, and the device then continues where the sequence ended. A random seed lies in [0,1].",
     ["inputs", "histories"], "every seed in (0,1), up to four steps or values per call and one more after it",
     "No test uses the device; the agreement of its interfaces is an identity between polynomials of the seed.",
     ["HeuristicFlow/src/Global/LogisticChaos.hpp"], [("logistic map", "HeuristicFlow/src/Global/LogisticChaos.hpp")], technique=SYM, observe=["value()", "makeSequence"])
prop("U02", "Arithmetic helpers return the extremes, signs, factorials and combinations",
     "heu::min and heu::max of two to four values return the smallest and the largest of them; square and sign are exact; "
     "fractorial(n) is n! and NchooseK(n,k) the number of k-element subsets of n elements, for every pair of a range.",
     ["inputs"], "all values for extremes, square and sign; n up to 20 for factorials; n up to 12, and 24 to 26, with every k for combinations",
     "The tests call each helper with a few constants.",
     ["HeuristicFlow/src/Global/HeuMaths.hpp"], [("arithmetic helpers", "HeuristicFlow/src/Global/HeuMaths.hpp")],
     note="Integers are mathematical in the analysis: an intermediate value that overflows is not seen.", observe=["heu::min", "NchooseK"])
prop("E01", "Reals encoded as integers at compile time decode to the same number",
     "A binCode is the IEEE code of its number: decode(c) is the number with code c, encode(x) the code of x, infinities keep their sign and "
     "NaN stays NaN. DivDecode gives back numerator, denominator and quotient of a DivEncode, and each named DivCode its constant. "
     "PowDecode gives back a PowEncode's number (16 digits), and trailing zeros of the coefficient change nothing.",
     ["inputs"], "every exponent range and boundary mantissa, sign, quotient and coefficient listed in drivers/codes",
     "The values are template arguments and constant expressions: a wrong one is baked into a box or solver type at compile time. "
     "At the pinned commit PowEncode turned every coefficient from 1.8 on into another, negative number.",
     ["HeuristicFlow/src/Global/TemplateFloat.hpp", "HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp"],
     [("DivCode and PowCode", "HeuristicFlow/src/Global/TemplateFloat.hpp"), ("binCode", "HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp")],
     technique="type-level witnesses: static_assert over the constant expressions, decided by the type checker",
     note="Decides the enumerated codes, not all 2^64 of them.", observe=["DivDecode", "PowDecode", "encode", "decode"])

prop("S01", "A simple matrix keeps every element in its own column-major place",
     "In matrices of fixed size, of run-time size and mapped onto memory, element (r,c) is element r+rows*c of the storage, through every accessor and "
     "iteration; writing one element changes no other; a copy has the source's shape and elements and is independent of it, a move takes them "
     "over, reserve keeps them, resize gives the new shape with usable elements; a map writes only the memory it was given.",
     ["inputs", "histories"], "all element values, of a plain type and of one with constructor, assignment and destructor; the listed shapes and sequences of operations",
     "The test prints two elements of one matrix. At the pinned commit copying, move assignment, reserve, and resize of a run-time sized "
     "matrix were undefined or did not compile.",
     [SMX + "MatrixDynamicSize.hpp", SMX + "MatrixFixedSize.hpp", SMX + "MatrixMap.hpp", SMX + "MatrixBase.hpp"],
     [("storage of run-time sized matrices", SMX + "MatrixDynamicSize.hpp"), ("assignment between kinds", SMX + "MatrixBase.hpp")], observe=["operator()", "data()", "resize", "reserve"])
na("S02", "A packed set returns each element as it was last set",
   "In a multiBitSet of n-bit elements, setting one element makes it read back as the value modulo 2^n and leaves every other element as it was, "
   "also when it straddles two blocks, and growing keeps the elements.",
   ["inputs", "histories"], "all element widths, indexes and values",
   "An element's place is a shift and mask that depend on its index; a test sets a few.",
   [SMX + "MultiBitSet.hpp"], [("element access", SMX + "MultiBitSet.hpp")],
   "The property is about single bits of machine words under shifts and masks by run-time amounts. The analyses here are linear arithmetic and rational "
   "functions over the reals; deciding it needs bit-vector reasoning, which in practice is a solver over paths, another family.")
