#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EV = "libcgmf/src/cgmfEvents.cpp"
FF = "libcgmf/src/FissionFragments.cpp"
MC = "libcgmf/src/specmc.cpp"
KI = "libcgmf/src/kinematics.cpp"
CAPI = "libcgmf/src/cgmfEvents_capi.cpp"
DRV = "utils/cgmf/cgmf.cpp"
LV = "libcgmf/src/ripl2levels.cpp"
SETUP = "libcgmf/src/setup.cpp"

P = []


def prop(id, title, statement, over, qtext, why, files, mech, note, state=(), observe=()):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)
    if state:
        a["state"] = [dict(name=n, meaning=m) for n, m in state]
    if observe:
        a["observe_at"] = list(observe)
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a), note))


prop("P01", "A fission event depends only on its request and its own random numbers",
     "Generating a fission event with the same target, incident energy, emission time, time-coincidence window and random-number stream gives bit-for-bit the same event record and consumes the same number of random numbers, whatever the process did before (other fission events with other targets, energies or windows, single-nucleus decays, yields samples, clean-ups), whatever the memory allocator returns and whatever other processes run beside it.",
     ["histories", "inputs", "schedules"], "for every history of library calls before the event, every allocator content, every reaction, window and stream",
     "tests run one reaction per fresh process; a leak of state from one event into the next appears only for particular pairs of events in one process",
     [EV, FF, MC, "libcgmf/src/specmain.cpp", LV, SETUP],
     [("first-call initialisation of shared tables", EV + " cgmfEvent::cgmfEvent"), ("shared work arrays reset per event", SETUP), ("per-event window", MC + " set_time_coincidence_window"), ("reseeding per event", DRV + " main")],
     "seeded search over call histories, allocator contents and schedules; oracle: the same event alone in a fresh simulated process, compared bit for bit",
     [("firstcalc, ncl, spc, ctl", "process-wide work state shared by all events"), ("static tables in the event generators", "data read once")], ["every public getter of the event", "number of random draws"])

prop("P02", "A parallel run produces exactly the events of the serial run, split by rank",
     "A parallel (MPI) run of R ranks with N events per rank writes, in the file of rank r, exactly events r*N+1 to (r+1)*N of the serial run of R*N events with the same arguments (header in the file of rank 0 only), whatever order the ranks run in or however long they stall. Rank 0 alone prints the summary, which equals that of the serial run; a job in which some rank dies leaves prefixes of those files and never a finished summary that differs.",
     ["schedules", "fault_sequences", "inputs"], "for every number of ranks, interleaving of ranks, delays, rank deaths and request",
     "no test runs the MPI build at all",
     [DRV], [("event numbering and seeding by rank", DRV + " main"), ("reductions of every sum to rank 0", DRV + " printSummaryEvents"), ("file name suffix by rank", DRV + " readUserInput")],
     "simulated MPI job under a seeded scheduler with stalls and rank crashes; oracle: serial run of the real driver",
     [("sum*", "per-rank accumulators reduced to rank 0")], ["history files of all ranks", "standard output of all ranks", "exit statuses"])

prop("P03", "Killed runs can be rerun or resumed and event ranges split, with equal results",
     "A run killed at any moment leaves an output file that is a prefix of the file of the uninterrupted run; running the same command again over whatever was left produces exactly the uninterrupted file and printout. Continuing with a starting event number after the last complete event, or splitting the events of a run into consecutive pieces by starting number and count, yields the same events as one run.",
     ["crash_points", "histories", "inputs"], "for every crash point (including torn writes), leftover file, starting number and split",
     "tests only run to completion into new files",
     [DRV, EV], [("output file truncated and rewritten from the start", DRV + " main"), ("seed = starting event + index", DRV + " main"), ("yields written in one pass", EV + " cgmfYields")],
     "seeded crash and torn-write injection at every system-call seam, rerun, resume and split; oracle: uninterrupted run",
     (), ["output files after each phase", "standard output"])

prop("P04", "Success is reported only for complete output",
     "A run (history or yields mode, serial or parallel) exits with status 0 only if every output file has been completely written; when opening, writing or closing an output file fails (no space, quota, I/O error, missing directory, permission) at any point the run ends promptly with a failure status and does not crash or hang. Writes that the system only delays or splits do not make a run fail or change its output.",
     ["fault_sequences", "inputs"], "for every position and kind of output error in every mode",
     "tests write to a healthy disk",
     [DRV, EV], [("stream error and close status checked before the summary", DRV + " main/outputError"), ("yields stream checked after close", EV + " cgmfYields")],
     "seeded output-fault injection (open/write/close errors, full disk, short writes) on a simulated disk; oracle: fault-free twin run",
     (), ["exit status", "output files"])

prop("P05", "Unreadable nuclear data stop the run; results never silently use other data",
     "If any nuclear-data file a calculation needs is missing, cannot be opened or fails while being read, the run ends with a failure status; it never finishes successfully with results that differ from those of a run with all data readable. Reads that the system only delays or splits change nothing.",
     ["fault_sequences", "inputs"], "for every data file, every position of the fault, every mode and interface",
     "tests have no failing data files",
     [EV, FF, LV, SETUP, MC, KI, "libcgmf/src/kcksyst.cpp", "libcgmf/src/masstable.cpp"],
     [("open check and read-error check in every table reader", "libcgmf/src/*.cpp read*"), ("failure exit", "libcgmf/src/terminate.cpp")],
     "seeded open/read faults on every data file; oracle: fault-free twin run",
     (), ["exit status", "event records", "output files"])

prop("P06", "Charge and nucleon number are conserved in every event",
     "In every generated event the charges of the two fragments add up to that of the fissioning nucleus, and the initial fragment masses plus the pre-fission neutrons to its mass number (target plus the incident neutron for induced fission). Total neutron and photon counts equal the sums over both fragments, every residual nucleus is a real nucleus with known mass, spontaneous fission has no pre-fission neutrons, and the light fragment is never the heavier one.",
     ["inputs", "histories"], "for every supported reaction, window and random stream, including streams with extreme values",
     "tests compare a few dozen fixed histories of three reactions",
     [FF, EV, MC], [("complementary fragment sampling", FF + " generateInitialFissionFragmentHistories"), ("decay chain bookkeeping", MC + " specMCMainFission")],
     "seeded search over reactions, histories and injected random streams (extreme values and bursts); oracle: conservation laws over the event record",
     (), ["fragment and multiplicity getters"])

prop("P07", "Momentum is conserved and particle kinematics are consistent in every event",
     "In every generated event the momenta of the initial fragments and pre-fission neutrons add up to that of the incident neutron; each fragment's final momentum is its initial one minus the laboratory momenta of the neutrons it emitted; and each neutron's laboratory velocity is its centre-of-mass velocity plus the velocity of the fragment that emitted it. Fragment kinetic energies are consistent with these momenta and shared in inverse proportion to the masses.",
     ["inputs", "histories"], "for every supported reaction, window and random stream, including streams with extreme values",
     "tests compare a few dozen fixed histories of three reactions, rounded to three digits",
     [FF, KI, MC, EV], [("sampling of back-to-back fragment momenta and pre-fission recoil", FF), ("frame transformation and recoil of each neutron", MC + " / " + KI)],
     "seeded search over reactions, histories and injected random streams; oracle: momentum balance recomputed from the record and the mass table",
     (), ["momentum, energy and direction getters"])

prop("P08", "Energy is conserved in every event",
     "In every generated event total kinetic plus total excitation energy equals the Q-value of the split plus the excitation energy of the fissioning nucleus (incident energy plus binding, less what pre-fission neutrons carry off). For each fragment the excitation energy is exactly used up by the separation and centre-of-mass energies of its neutrons and by its photons, except for what remains in a level that outlives the time window or goes into conversion electrons.",
     ["inputs", "histories"], "for every supported reaction, window, level scheme and random stream, including streams with extreme values",
     "tests compare a few dozen fixed histories of three reactions",
     [FF, MC, "libcgmf/src/specmain.cpp", LV, "libcgmf/src/masstable.cpp"], [("TXE from Q and TKE", FF + " computeFragmentInitialConditions"), ("decay from bin to bin with exact energies", MC + " specMCMainFission")],
     "seeded search over reactions, level schemes, histories and injected random streams; oracle: energy ledgers recomputed from the record, the mass table and the level scheme",
     (), ["energy getters"])

prop("P09", "Every event record is well formed",
     "Every value an event reports is finite; energies are positive and bounded; directions are unit vectors; parities are +1 or -1; fragment spins are non-negative and integer or half-integer according to the mass number; neutron ages equal the requested emission time and photon ages are not earlier; and asking for a particle number outside the range returns -1.",
     ["inputs", "histories"], "for every supported reaction, window, emission time and random stream, including streams with extreme values",
     "tests compare a few dozen fixed histories; a NaN or an invalid spin needs a rare random value",
     [EV, "libcgmf/include/cgmfEvents.h", FF, MC], [("range-checked getters", "libcgmf/include/cgmfEvents.h"), ("spin sampling", FF + " getInitialSpin"), ("isotropic directions", MC)],
     "seeded search over reactions, histories and injected random streams; oracle: type and range of every public value",
     (), ["every public getter"])

prop("P10", "The time window keeps exactly the photons emitted within it",
     "An event generated with a finite time-coincidence window reports, for each fragment, exactly those photons of the same event generated with an unlimited window whose age since fission does not exceed the window, with the same ages and fragment-frame energies, and the same neutrons and initial fragments. Photon ages within a fragment never decrease and never precede the fission time; a non-positive window is unlimited, and the window of one event never affects another.",
     ["inputs", "histories"], "for every reaction, window, emission time, level scheme, random stream and order of events with different windows in one process",
     "tests use one window per process and look at averages",
     [MC, EV], [("stop of the discrete cascade when the sampled lifetime exceeds the window", MC), ("window set per event", EV)],
     "seeded search over event orders, windows and level schemes with lifetimes from ps to ms; oracle: the unlimited twin of the same event",
     [("timeCoincidenceWindow", "process-wide window of the current event")], ["photon counts, ages and energies"])

prop("P11", "The history file and summary report the generated events faithfully",
     "The history file contains a header with target, incident energy and window, followed by exactly the requested events in order, each with every fragment property, momentum, neutron (centre-of-mass and laboratory), photon (with ages when the window is unlimited) and pre-fission neutron of the generated event, rounded to the documented digits. The printed summary names the reaction and gives the averages over exactly these events.",
     ["inputs", "fault_sequences"], "for every request, event content (including empty and extreme multiplicities), event count and split of the writes",
     "tests compare three fixed reactions against reference files",
     [DRV], [("event writer", DRV + " printEventToFile"), ("accumulation", DRV + " recordEvent"), ("averages", DRV + " printSummaryEvents")],
     "seeded runs of the real driver over the real and a stand-in event engine (extreme contents), with split writes; oracle: reference formatter and averages over the events themselves",
     (), ["history file", "standard output"])

prop("P12", "Yields samples conserve nucleons, energy, momentum and extend reproducibly",
     "A yields run of N pairs writes exactly N light/heavy lines, each pair conserving charge, nucleons, energy and momentum with valid spins and parities. The first N pairs do not depend on how many more are requested, on prior activity of the process or on whether the driver or the library wrote them, and the first pair equals the initial fragments of the event with the same seed.",
     ["inputs", "histories", "fault_sequences"], "for every reaction, seed, count, prior history and split of the writes",
     "tests compare three fixed yields files",
     [EV, FF, DRV], [("yields writer", EV + " cgmfYields"), ("pair sampling", FF + " generateInitialFissionFragmentHistories")],
     "seeded runs of driver and library with prior histories and split writes; oracle: conservation laws, prefix relation and the event of the same seed",
     (), ["yields file"])

prop("P13", "Unsupported requests are refused with a failure status, supported ones accepted",
     "A request outside the supported reactions (spontaneous fission of the listed nuclides at zero energy, neutron-induced fission of the listed nuclides with 0 < E <= 20 MeV), with a not-a-number or infinite energy, a negative window other than -1 on the command line, no events or an unusable data directory ends with a failure status and an error message, without results, on every rank and in every interface, also after valid requests in the same process. Every supported request is accepted.",
     ["inputs", "histories"], "for every target, energy, window and count through every interface after every history of valid requests",
     "tests only make valid requests",
     [EV, DRV, CAPI], [("request check", EV + " checkInput"), ("argument check", DRV + " readUserInput"), ("data directory check", EV + " setdatapath")],
     "seeded requests through the driver, MPI jobs under a random schedule, and both library interfaces after random histories; oracle: the documented table of supported requests",
     (), ["exit status", "error stream", "output files"])

prop("P14", "Running out of memory never yields wrong results reported as success",
     "When memory allocation fails at any point of a run (driver or library, serial or parallel), the run ends with a failure status or abort and neither crashes on an invalid memory access nor hangs, or it recovers and produces exactly the results of an undisturbed run; it never reports success with different results.",
     ["fault_sequences", "inputs"], "for every allocation that can fail, alone, in bursts or for good, in every mode",
     "tests never run out of memory",
     [EV, FF, SETUP, LV, "libcgmf/src/specmain.cpp"], [("allocation of the work arrays with failure exit", SETUP + " cgmAllocateMemory"), ("throwing allocation elsewhere", EV)],
     "seeded allocation-failure injection; oracle: fault-free twin run and process outcome",
     (), ["exit status", "event records", "output files"])

prop("P15", "Any order of creating, reading, releasing events is memory-safe and leak-free",
     "For any sequence of library calls (several live events, releases in any order, C and C++ interfaces, single-nucleus decays, yields, clean-ups and further use) no call writes outside or frees twice or uses freed memory, a live event keeps its values until it is released, and repeating a balanced sequence does not grow memory. The C and C++ interfaces report the same values for the same event.",
     ["programs", "histories"], "for every program of library calls",
     "tests only run the driver, which keeps one event alive at a time",
     [EV, CAPI, SETUP, FF, LV, MC], [("reference-counted shared work arrays", SETUP), ("event-owned particle arrays", EV + " allocateMemory/destructors"), ("single current event of the C interface", CAPI)],
     "seeded search over call programs under a simulated allocator with guard zones, poison and write-after-free detection; oracle: allocator invariants, first reading of each event, live-heap growth",
     [("cgmf_fevent", "current event of the C interface"), ("ncl, spc", "shared work arrays")], ["allocator", "event getters"])

prop("P16", "Every supported request finishes within a bounded number of random draws",
     "Every supported event, single-nucleus decay and yields request completes after a bounded number of random draws and steps once the random numbers are ordinary again, even if for a while they all take extreme or constant values inside (0,1); it does not loop forever, crash or stop with an error.",
     ["inputs", "fault_sequences"], "for every reaction and every finite burst of extreme random numbers at any position",
     "tests use three fixed seeds; a rejection loop that cannot exit needs a rare random value",
     [FF, MC, KI, "libcgmf/include/rngcgm.h"], [("bounded rejection loops", FF), ("cascade selection", MC)],
     "seeded injection of random-number bursts with draw and step budgets as the liveness bound",
     (), ["completion", "draw count"])

exec(open(os.path.join(VERIF, "py", "gen_more.py")).read()) if os.path.exists(os.path.join(VERIF, "py", "gen_more.py")) else None

COMMON = ("Sampling, not proof: every seed is one exactly repeatable simulated execution of the unmodified sources of /repo's working tree; what is not sampled is not covered. "
          "Trusted: the simulator (system-call, allocator, clock, randomness and MPI seams bound at link time), the compiler, the oracle, and a synthesised discrete-level file in place of the one the repository does not ship. Oracle and search: ")

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p, n in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="python3 py/check.py --setup",
         hooks=dict(guard="none", enable="no hooks are needed: the checks compile the unmodified sources and bind them to the simulator at link time (--wrap, a stand-in mpi.h and a private C++ runtime)", source_commits=[]),
         checks=[dict(property=p["id"], quick_cmd="python3 py/check.py " + p["id"], thorough_cmd="python3 py/check.py %s --thorough" % p["id"],
                      technique="deterministic simulation with fault injection: seeded search over simulated runs", level="exploration", level_note=COMMON + n + ".",
                      evidence_file="evidence/%s.json" % p["id"]) for p, n in P],
         not_applicable=[], notes="DESIGN.md describes the simulator, the oracles, the findings and which checks catch which planted changes. Replay: python3 py/check.py --replay <file>.")
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
