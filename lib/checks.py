"""What each check runs and how its coverage is counted."""

SYN = "evolution tables are synthetic (the repository does not ship its data files)"
REF = "reference formulas and reference integrator of harness/src/phys.rs, written from the published equations"
ONE = "online monitors on the accelerations, torques and derived quantities of the real force code, against independent reference formulas"
NOTE = "Every random case is run through the real library and judged by the monitors; nothing is claimed about inputs outside the generated ranges. "


RUNS = "; whole runs with every integrator: what the effect changes in orbits and spins (run with the effect minus run without) against the reference solution"


def force(rule, extra="", **k):
    d = dict(quick_s=60, thorough_s=750, assumptions=[REF], technique=ONE, note=NOTE + extra,
             rule="random systems with several random states each (any body order, any host, distant massive companions, special spins and orbits): " + rule)
    d.update(k)
    return d


CHECKS = {
    "C01": dict(quick_s=60, thorough_s=750, assumptions=[REF], technique="trajectory monitors against a reference integrator (extrapolation method), closed-form two-body motion and convergence order",
                note=NOTE + "Trusts the reference integrator's own error estimate.",
                rule="random hierarchical systems (2-10 bodies, any body order, shifted frames): one-evaluation force monitors, two-body runs with steps up to several periods, convergence runs at two step sizes with every integrator; distinct = different (workload kind, number of bodies, position of the star, eccentricity/mass class)"),
    "C02": dict(quick_s=60, thorough_s=750, assumptions=[], technique="online conservation-law monitors after every step of real runs", note=NOTE,
                rule="one random system per case integrated for thousands of steps, all invariants evaluated after every step; distinct = different (integrator, number of bodies, position of the star, step size)"),
    "C03": force("mass-weighted sum of the accelerations of every effect, and silence of bodies that take no part; distinct = different (number of bodies, star, host, effects, model family)", workloads=['C03', 'C03T'], technique=ONE + "; barycentre watched after every step of whole runs"),
    "C04": force("constant-time-lag force, torque and heat rate; distinct = different (number of bodies, host, star, kind of state, evolution, ignored terms)", assumptions=[REF, SYN], workloads=['C04', 'C04T'], technique=ONE + RUNS),
    "C05": force("balance of torques and moments, sign of the power of tides; distinct = different (number of bodies, host, star, kind of state, effects)", workloads=['C05', 'C05T'], technique=ONE + "; total angular momentum watched after every step of whole runs"),
    "C06": force("oblate spheroid force and torque, and numerical gradient of the J2 potential; distinct = different (number of bodies, host, star, kind of state, evolution)", workloads=['C06', 'C06T'], technique=ONE + RUNS),
    "C07": force("creep shape, force, torque; distinct = different (number of bodies, host, companion, effects)", workloads=['C07', 'C07T'], technique=ONE + RUNS),
    "C08": force("Kaula sums in the equatorial plane, linearity in the table, reaction; distinct = different (number of bodies, host, companion, eccentricity bound, obliquity)", workloads=['C08', 'C08T'], technique=ONE + RUNS),
    "C09": force("the three relativistic prescriptions; distinct = different (prescription, number of bodies, star, ignored terms, spins)", workloads=['C09', 'C09T'], technique=ONE + RUNS),
    "C10": force("wind torque on both sides of saturation with and without other effects; distinct = different (number of bodies, star, other effects)", workloads=['C10', 'C10T'], technique=ONE + RUNS),
    "C11": force("disk acceleration and migration time; distinct = different (number of bodies, star, host, inner edge, disk age)", workloads=['C11', 'C11T'], technique=ONE + RUNS),
    "C12": force("60 query times per case in any order on every table; distinct = different (table, evolving body, star)", assumptions=[REF, SYN], workloads=['C12', 'C12T'], technique=ONE + "; every history record of whole runs against the table"),
    "C13": dict(quick_s=60, thorough_s=750, assumptions=[REF, SYN], technique="monitors after every step of whole runs on spins, moments of inertia and history records; spin changes of whole runs against the reference solution",
                note=NOTE, workloads=["C13", "C10T", "C04T", "C06T"],
                rule="random systems (compact with strong effects, evolving bodies, creep, Kaula, any mixture) run with every integrator, recording every step; distinct = different (kind of system, integrator, number of bodies, star, effects)"),
    "C16": dict(quick_s=60, thorough_s=750, assumptions=[REF, SYN], technique="offline checker of the recorded history against the states observed at every step, and against a model of the cadence",
                note=NOTE, workloads=["C16", "C16L"],
                rule="random systems run with every integrator with recording periods shorter, equal, multiple and incommensurate to the step and longer than the run; distinct = different (kind of system, integrator, number of bodies, star, effects)"),
    "C14": dict(quick_s=80, thorough_s=750, assumptions=[REF, SYN], binary=True, technique="differential monitors: interrupted and resumed runs against the run never interrupted, byte for byte, in process and with the executable killed at recorded file operations",
                note=NOTE, workloads=["C14", "C14B"],
                rule="random systems with every integrator and random effects: interruption at random steps, several in a row, restored from the binary snapshot in process; the executable killed at one to four random file operations, resumed from the newest whole snapshot, and resumed again after the end; distinct = different (kind of system, integrator, number of bodies, effects, where interrupted)"),
    "C15": dict(quick_s=80, thorough_s=750, assumptions=[REF, SYN, "a killed process loses nothing it has passed to the operating system (no power failure)"], binary=True,
                technique="fault injection: the executable is killed before, inside and after every one of its file operations, and every one of them is made to fail; an offline checker judges what is on disk and resumes it",
                note=NOTE + "File operations are intercepted at the C library (LD_PRELOAD). ", workloads=["C15"],
                rule="random systems with every integrator and several recovery snapshots: every file operation of the run is a kill point (before, half written, after) and a failure point (error, disk full from then on, short write); distinct = different (kind of fault, operation letter, integrator, outcome)"),
    "C17": dict(quick_s=80, thorough_s=750, assumptions=[REF, SYN], binary=True, technique="monitors on exit code, files and history of the real executable under every option and pre-existing file state, against a model of the options and the dense record of the same simulation",
                note=NOTE, workloads=["C17", "C17L"],
                rule="random cases with every integrator: start, resume, new limits, new periods, refused starts and resumes, execution time limits; distinct = different (option, integrator, kind of system)"),
    "C18": dict(quick_s=90, thorough_s=750, assumptions=[REF, SYN], technique="metamorphic monitors: forces, torques, derived quantities and whole runs of a system against those of the same system permuted, rotated, shifted and boosted",
                note=NOTE + "Prescriptions tied to the reference plane (disk, creep, Kaula) are turned only about its normal, those written in Jacobi coordinates (WHFast Jacobi, Anderson relativity) keep the order of the planets; tolerance of runs from measured amplification of 1e-12 perturbations. ",
                workloads=["C18", "C18T"],
                rule="random systems with random subsets of effects: single evaluations, and runs with every integrator; distinct = different (number of bodies, star, host, effects, model family, integrator)"),
    "C19": dict(quick_s=60, thorough_s=750, assumptions=[REF, SYN], technique="differential monitors: runs with an effect off, absent, set on no body, set on the central body only, set on orbiting bodies only or of zero strength, bit for bit; sums of single-effect evaluations",
                note=NOTE, workloads=["C19"],
                rule="random systems with a random subset of the effects on, every other effect varied in each silent way, with every integrator; distinct = different (integrator, number of bodies, star, effects)"),
    "C20": dict(quick_s=60, thorough_s=750, assumptions=[REF], technique="monitors on the gravity loop at pair distances on both sides of each limit, and on runs that cross or just miss them",
                note=NOTE, workloads=["C20", "C20T"],
                rule="2 to 10 bodies of random masses and radii in random order, every pair put just inside and just outside of its Roche limit, of contact (also by growth of a radius) and of 100 AU, with each gravity exclusion; plunging, meeting and escaping bodies with every integrator; distinct = different (kind, number of bodies, pair, most massive, outcome)"),
    "C21": dict(quick_s=60, thorough_s=750, assumptions=[SYN], technique="monitors on the building of simulations: valid random configurations must be accepted and make a step, each with one inconsistency put in must be refused",
                note=NOTE, workloads=["C21"],
                rule="random valid systems with random effects, then one inconsistency of each kind at a random place; distinct = different (inconsistency, integrator, number of bodies)"),
    "C22": dict(quick_s=60, thorough_s=750, assumptions=[REF], technique="oracle over the element conversions: own conic solution by bracketed Newton, two-body invariants of the returned state, and the way back",
                note=NOTE, workloads=["C22"],
                rule="random conics incl. circles, near-parabolas, hyperbolas, flat and retrograde orbits, angles in every quadrant and next to the axes, mean anomalies of any sign and turn; distinct = different (conic class, octants of inclination, node, argument and anomaly)"),
    "C26": dict(quick_s=70, thorough_s=750, assumptions=[REF, SYN], technique="round-trip monitors on snapshots of states met during runs, and on damaged and foreign files",
                note=NOTE + "JSON is compared for finite states. ", workloads=["C26"],
                rule="random systems with every integrator at random points of a run: written, restored, compared field by field, continued; files cut at every kind of length, extended, foreign; distinct = different (kind of system, integrator, effects, kind of damage)"),
    "C25": dict(quick_s=60, thorough_s=750, assumptions=[REF, SYN], binary=True, module="safe",
                technique="runs repeated in process and by the executable, compared byte by byte; monitors on every recorded number and on internal failures; overflow and bounds checks, AddressSanitizer and the Miri interpreter watching the same runs",
                note=NOTE, workloads=["C25", "C25B"],
                rule="random systems with random subsets of effects, every integrator, and special geometries (on the axes, retrograde, polar, without spin, synchronous, far from the origin); distinct = different (kind of system, geometry, integrator, number of bodies)"),
    "C23": dict(quick_s=60, thorough_s=750, assumptions=[SYN, "pandas, six and matplotlib are replaced by stand-ins (not installed here)"], module="pyside", workloads=[],
                technique="differential monitors: the same random system built by the Python package and by the Rust library, compared field by field and by the histories the executable makes of both; helpers of both halves on the same arguments",
                note=NOTE + "Case files and runs of the examples of the repository are watched as well. ",
                rule="random systems with random effects, evolution models and every integrator, in the layouts of the repository and of an installation; functions over random conics, spins and tables; distinct = different (kind of system, integrator, number of bodies, effects), refusals and examples"),
    "C24": dict(quick_s=60, thorough_s=750, assumptions=[SYN, "pandas, six and matplotlib are replaced by stand-ins (not installed here)"], module="pyside", workloads=[],
                technique="offline checker: histories of real runs and of arbitrary values, cut anywhere, read by the Python analysis and by an own decoder bit by bit; derived quantities against own formulas; the analysis programs run on them",
                note=NOTE + "Figures are not looked at, only what is written into them and the text files. ",
                rule="histories of random systems run by the executable with every integrator, histories of arbitrary values, histories of exact resonances; distinct = different (kind of system, integrator, number of bodies), (bodies, records left over), (resonance, length)"),
}
