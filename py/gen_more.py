TKH = "tools/CGMFtk/histories.py"
TKY = "tools/CGMFtk/yields.py"
prop("P17", "The toolkit reads back exactly the events of a history or yields file",
     "CGMFtk reads a complete history or yields file written by CGMF (serial, or the rank files of a parallel run joined in order) event by event: every getter returns exactly the values in the file, in file order, of the first k events when a number of events is given, and every average, distribution and spectrum it computes equals the direct computation from those events. A file that is cut short, fails to read or lacks its header is refused with an error, or gives exactly its leading complete events; never an altered, partial or invented one.",
     ["inputs", "fault_sequences", "crash_points"], "for every file a run can leave (any reaction, window, count, kill point, cut position) and every split or failure of the reads",
     "the toolkit tests read three fixed complete files and compare averages",
     [TKH, TKY, DRV], [("history reader", TKH + " _readHistoriesFromCGMFOutput"), ("yields reader", TKY + " _readYieldFileFromCGMF"), ("averages and distributions", TKH)],
     "seeded runs of the real driver (killed or whole), then the real toolkit over simulated raw reads that are short or fail; oracle: independent parser and direct computation",
     (), ["toolkit getters, averages and distributions", "errors"])

prop("P18", "Nuclear data come only from the selected data directory",
     "A run takes its nuclear data only from the selected directory: the one given with -d (or setdatapath), else the one named by CGMFDATA, else the installed one if it exists, else the source one, however the path is written (relative, with or without trailing slash); a data file of the same name in the current directory takes precedence over the selected directory's. Results otherwise depend on the content of that directory only, not on its location nor on other data directories present; if it is unusable the run fails and never falls back to another one.",
     ["inputs", "fault_sequences"], "for every combination of given, missing, blank and failing data directories, every spelling of the path, every mode and interface",
     "tests use one data directory",
     [EV, DRV, FF, LV, "libcgmf/src/kcksyst.cpp"], [("choice of the directory", EV + " setdatapath"), ("-d and CGMFDATA", DRV + " readUserInput"), ("readers prepend the selected directory", "libcgmf/src/*.cpp")],
     "seeded layouts of data directories with distinguishable, blank or failing contents on the simulated disk; oracle: the same run with a copy of the selected data at another place, and the list of files read",
     (), ["output files", "files opened", "exit status"])

prop("P19", "A run changes no file but its own output",
     "A run creates, changes or removes no file except the output file it names (one per rank); library calls that generate events touch no file at all. This holds also when the run is refused, killed or meets a full or failing disk. Several runs side by side in one directory with different output names give exactly the results each of them gives alone.",
     ["schedules", "fault_sequences", "crash_points", "inputs"], "for every set of concurrent runs, interleaving, fault, kill point and set of files already there",
     "tests run one process at a time and look at its output file only",
     [DRV, EV, FF, MC], [("output file name", DRV + " readUserInput"), ("yields file", EV + " cgmfYields"), ("no other output streams", "libcgmf/src/*.cpp")],
     "seeded sets of processes under a seeded scheduler in a simulated directory of bystander files, with kills and disk faults; oracle: bystanders and data unchanged, files touched per process, twin run alone",
     (), ["all files", "files opened for writing, renamed or removed", "results"])

prop("P20", "A single-nucleus decay reports only lines its energy allows",
     "The decay of a single excited nucleus (cgm, cgmEvent) completes and reports photon and neutron lines that are finite, positive, distinct and in increasing order, at most 30 each, whose energies together with the separation energies of the neutrons do not exceed the excitation energy (or that of the closest discrete level, from which a cold nucleus starts) by more than the energy bins; an excited nucleus reports some line. The same nucleus, energy and random numbers give the same lines through C and C++, whatever the process did before.",
     ["inputs", "histories"], "for every nucleus of the fission-fragment region, excitation energy, level scheme, random stream and history of calls",
     "no test calls the single-nucleus interface",
     [EV, CAPI, MC, "libcgmf/src/output.cpp", "libcgmf/src/popinit.cpp"], [("single-nucleus driver", MC + " specMCMain"), ("line lists from the spectra", "libcgmf/src/output.cpp cgmGetSpectra"), ("C entry", CAPI + " cgm")],
     "seeded search over nuclei, energies, call histories and injected random streams; oracle: energy budget from the mass table and the same decay in a fresh process",
     [("mcl_glines, mcl_elinesn", "process-wide line lists")], ["line lists of both interfaces", "number of random draws"])

prop("P21", "Different event numbers give different events from disjoint random streams",
     "Event number n of a run (starting number plus position, continuing over the ranks of a parallel run) is generated from a random stream chosen by n alone: the same number gives the same event in every run of the same reaction, and no two numbers, however far apart and in whichever runs, give the same event or share random numbers. Likewise yields samples with different starting numbers differ.",
     ["inputs", "histories", "schedules"], "for every set of starting numbers (up to the largest integer), counts, ranks and interleavings",
     "tests start every run at event 1 with at most a few dozen events",
     [DRV, "libcgmf/include/rngcgm.h"], [("seed = index + rank * count + starting number", DRV + " main"), ("generator seeding", "libcgmf/include/rngcgm.h UniformRNG::set_seed"), ("stream installed per event", EV + " set_rng")],
     "seeded sets of runs (serial and simulated MPI jobs with stalls) whose numbers are at small, round, power-of-two or overlapping distances; oracle: equality exactly for equal numbers, disjointness of the first random numbers",
     (), ["history and yields files", "random numbers drawn"])
prop("P22", "Random choices follow the level data and directions are isotropic",
     "Over many events the decays follow the level data: a fragment that reaches a discrete level leaves it by the listed transitions with the listed branching ratios, a transition with conversion coefficient a appears without photon with probability a/(1+a), and the delay is exponentially distributed with the listed half-life (none for prompt levels); the ground state emits nothing. Neutron and photon directions in the fragment frame, the fission axis of spontaneous fission and all azimuths are isotropic, successive emissions independent, and both initial parities equally likely.",
     ["inputs", "histories"], "for every supported reaction, level scheme and seed, over ensembles of events",
     "tests compare a few dozen fixed histories; a biased choice shows only in large ensembles and on levels with several branches, conversion or half-lives",
     [MC, "libcgmf/src/ripl2levels.cpp", "libcgmf/src/kinematics.cpp", FF], [("cascade from level to level", MC + " mcGammaCascade"), ("normalisation of the branches", "libcgmf/src/ripl2levels.cpp readDiscreteLevelData"), ("directions", "libcgmf/src/kinematics.cpp"), ("initial parity", FF + " computeFragmentInitialConditions")],
     "ensembles of seeded events over synthesised level schemes with many branches; transitions recognised by energy, each choice counted against the level data and judged with Bernstein bounds (false-alarm probability below 1e-10 per test)",
     (), ["photon energies, ages and directions, neutron directions, fragment momenta and parities"])

prop("P23", "Fragments and pre-fission neutrons follow the tabulated fission models",
     "Over many events the initial fragments and the neutrons emitted before fission follow the model tables of the selected data directory, at the nucleus and energy of the request: fragment masses as yamodel.dat gives them at the fissioning nucleus' equivalent incident energy, mean and width of the total kinetic energy as tkemodel.dat, number of pre-fission neutrons as multichancefission.dat, the fission axis relative to the beam as anisotropy.dat, initial spins as spinscalingmodel.dat with the level-density temperatures and deformations, and each pair shares its excitation energy by the temperature ratio of rta.dat.",
     ["inputs", "histories"], "for every supported reaction, energy, model table and seed, over ensembles of events",
     "tests compare stored yields for eleven reactions with a coarse tolerance; a wrong column, target or chance fission shows only in large ensembles or with altered tables",
     ["libcgmf/src/Yields.cpp", FF], [("mass and kinetic-energy models", "libcgmf/src/Yields.cpp setFissioningSystem"), ("multi-chance fission", FF + " readMultichanceFissionData"), ("anisotropy", FF + " computeFragmentAngularDistribution"), ("initial spin and energy sharing", FF + " computeFragmentInitialConditions")],
     "ensembles of seeded pairs and events, half of them on a simulated data directory whose model tables were altered; each pair compared with the distribution the tables give for its own request, deviations summed and judged with Bernstein bounds (false-alarm probability below 1e-10 per test); the energy sharing checked exactly per pair",
     (), ["fragment masses, kinetic and excitation energies, spins, directions, numbers of pre-fission neutrons, model tables"])
