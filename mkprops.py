import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
U="src/particles/universe.rs"; W="src/integrator/whfast.rs"; I="src/integrator/ias15.rs"; L="src/integrator/leapfrog.rs"; O="src/integrator/output.rs"; M="src/main.rs"; T="src/tools.rs"
p("C01","Newtonian trajectories follow the true N-body solution",
 "For point masses with no extra effect switched on, every integrator (LeapFrog, IAS15, WHFast in Jacobi, democratic-heliocentric and WHDS coordinates) produces the positions and velocities of the exact Newtonian N-body problem, at the exact recorded times, up to the discretisation error of its order: second order in the time step for LeapFrog and WHFast (with WHFast exact for two bodies up to its documented softening), close to rounding error for IAS15. This holds whatever the number of bodies (2 to 10) and whatever position the most massive body has in the list.",
 ["inputs","configurations"],"every bound hierarchical system of 2-10 bodies, masses, eccentricities, inclinations, body order, integrator, coordinate choice and reasonable time step",
 "The only stable test converts one orbit to Cartesian coordinates; the golden integration tests cannot run here and fix one five-body system with one step size.",
 [U,W,I,L],[("pairwise Newtonian acceleration and ignored terms",U),("Kepler solver, drift/kick splitting, coordinate transforms",W),("predictor-corrector, adaptive step",I),("drift-kick-drift",L)],obs=["particle positions, velocities after every step"])
p("C02","Closed conservative systems conserve energy, momentum and angular momentum",
 "Along every run of a purely Newtonian system the total angular momentum vector and the barycentre position and velocity stay constant to rounding error, and the total energy shows only a bounded oscillation without secular drift; the barycentre is at rest at the origin from the first recorded state on. This holds for each integrator, coordinate choice, body order and number of bodies.",
 ["inputs","configurations","histories"],"all Newtonian systems and all step counts","A single conversion test runs no step at all.",
 [U,W,I,L],[("re-centring on the barycentre",U+" Universe::new"),("symplectic splitting with centre-of-mass drift",W),("compensated summation",I)])
p("C03","Every extra force obeys action and reaction",
 "The mass-weighted sum of the extra accelerations given to all bodies by tides (every model), rotational flattening (every model), the disk and the Kidder (1995) relativistic correction is zero, so these effects never accelerate the barycentre; a body that does not take part in an effect receives no acceleration and no torque from it. This holds for every configuration of host and orbiting bodies, including a host that is not the most massive body or not the first of the list.",
 ["inputs","configurations"],"all systems, all effect combinations, all body orders and host choices","No test observes forces.",
 ["src/effects/tides/common.rs","src/effects/rotational_flattening/common.rs","src/effects/general_relativity.rs",U],[("host acceleration is the negative mass-weighted sum of the orbiting accelerations","src/effects/*")])
p("C04","Constant-time-lag tides apply the published equilibrium-tide law",
 "With constant-time-lag tides, every orbiting body and the host feel exactly the radial (conservative plus dissipative) and orthogonal tidal force and the spin torque of Bolmont et al. 2015, from the current state, both bodies' radii, Love numbers and (scaled) dissipation factors, and the torque changes the spin angular momentum with the sign and size that balances the orbital one. The recorded tidal heat rate of a planet is the energy that its tide removes from its orbit and spin, and a planet synchronised on a circular orbit without obliquity dissipates nothing.",
 ["inputs","configurations"],"all masses, radii, spins (any direction), orbits, dissipation scales, body orders, host choice","Tests contain no force oracle; the golden tide cases do not run and sample one system.",
 ["src/effects/tides/constant_time_lag.rs","src/effects/tides/common.rs",U],[("orthogonal/radial components, torque, denergy_dt","src/effects/tides/constant_time_lag.rs")],obs=["accelerations, torques, spin, denergy_dt"])
p("C05","Tides and oblateness exchange angular momentum without creating any",
 "For systems with constant-time-lag tides and/or oblate-spheroid rotational flattening, the sum of orbital angular momentum and of all spin angular momenta is conserved: instantaneously the torques on spins cancel the moment of the extra forces, and along integrated runs the total stays constant to the integrator's accuracy. Tides never increase the total mechanical (orbital + rotational) energy.",
 ["inputs","configurations","histories"],"all spin vectors, inclinations, hosts and integrators","Needs long histories over random spin/orbit geometries; tests look at none.",
 ["src/effects/tides/common.rs","src/effects/rotational_flattening/common.rs",W,I,L,U],[("torque application and spin integration",W+", "+I+", "+L)])
p("C06","Rotational flattening applies the oblate-spheroid force and torque",
 "With oblate-spheroid flattening each pair of host and orbiting body feels the quadrupole force and the torque of two spin-flattened bodies (Murray & Dermott; Correia & Laskar) computed from their current spin, radius, Love number and separation; the force derives from the J2 potential of both bodies, vanishes for a body that does not spin, and points correctly for every inclination of the spin axis. Particles for which the effect is disabled neither feel nor cause it.",
 ["inputs","configurations"],"all spins, geometries, host choices, orders","No force oracle in the tests.",
 ["src/effects/rotational_flattening/oblate_spheroid.rs","src/effects/rotational_flattening/common.rs",U],[("oblate spheroid force and torque","src/effects/rotational_flattening/oblate_spheroid.rs")])
p("C07","Creep tides apply the published coplanar creep response",
 "With the coplanar creep model, the shape (equatorial prolateness, polar oblateness, lag) of every viscous body and the resulting force and spin torque follow Ferraz-Mello/Gomes et al. for the current orbit and spin on both the sub-synchronous and super-synchronous side; a body with null viscosity parameter does not respond at all, forces stay in the orbital plane with the torque along its normal, and the spin torque of an orbiting body balances the moment of the force that its own tide causes.",
 ["inputs","configurations"],"viscosities over ten decades, eccentricities, spin rates on both sides of synchronism","Golden creep case cannot run and has one configuration.",
 ["src/effects/tides/creep_coplanar.rs","src/effects/rotational_flattening/creep_coplanar.rs"],[("particle shape and forces","src/effects/tides/creep_coplanar.rs")])
p("C08","Kaula tides follow the frequency-dependent Love-number table",
 "With Kaula tides in an orbiting body, the tidal force depends on the interior only through the supplied complex Love number table, linearly interpolated at the tidal excitation frequencies (2-2p+q)n - m*Omega (real part even, imaginary part odd in frequency, end values beyond the table): the force is linear in the table, a zero table gives none, and the host feels the exact reaction. For an orbit in the equatorial plane (spin normal to the orbit) that is also the reference plane the radial and orthoradial force are Kaula's double sum over eccentricity functions G_2pq(e), truncated at the documented order in e, and the spin torque is minus the moment of the secular part of the force: it vanishes for a purely real table and drives the spin towards synchronism for positive dissipation.",
 ["inputs","configurations"],"tables, spins, eccentricities, obliquities, orders","The Kaula golden tests cannot run; one configuration only.",
 ["src/effects/tides/kaula.rs","src/effects/tides/common.rs"],[("frequency lookup and summation over (m,p,q) modes","src/effects/tides/kaula.rs")])
p("C09","General-relativity corrections match post-Newtonian theory",
 "Each relativistic prescription (Kidder 1995, Anderson 1975, Newhall 1983) adds the first-order post-Newtonian acceleration it is named after, so the pericentre of an orbit around the central body precesses by 6*pi*G*M/(c^2 a (1-e^2)) per revolution in every integrator and coordinate choice that accepts it; bodies that do not take part are not accelerated by it, whatever the order of the bodies.",
 ["inputs","configurations"],"all masses, eccentricities, orders, integrators, coordinate choices","Three golden runs of 200 steps cannot distinguish precession and do not run here.",
 ["src/effects/general_relativity.rs",U],[("three PN implementations","src/effects/general_relativity.rs")])
p("C10","Magnetised wind braking follows the saturated torque law",
 "A body with wind interaction loses spin angular momentum at rate -K*Omega*min(|Omega|, Omega_sat)^2*sqrt((R/R_sun)/(M/M_sun)) along its spin axis, with its current spin and radius, whichever other effects are on, no other body is affected, and the braking is actually applied to the spin by every integrator.",
 ["inputs","configurations"],"all spins either side of saturation, integrators, effect combinations","No test enables wind by itself or checks the spin.",
 ["src/effects/wind.rs",U,W,I,L],[("wind factor","src/effects/wind.rs"),("spin integration",W+", "+I+", "+L)])
p("C11","Disk interaction damps orbits with the prescribed timescales",
 "Each planet that interacts with a gaseous disk feels the acceleration -v/t_mig - 2(r.v)r/(r^2 t_e) - 2 v_z/t_i relative to the disk's central body, with t_e = t_i = 0.1 t_mig and t_mig = a/|v_gas|/min(1, 2*Sigma*a^2/m) where v_gas = 3 nu/(2a), nu = alpha c_s^2/Omega_K, T = 280 K r^-1/2 M and Sigma = Sigma0/r exp(-r/r_out)(1-sqrt(r_in/r)) exp(-t/lifetime) outside the inner edge; inside the inner edge, or for a body that does not interact, nothing acts. The force decays with the age of the disk, the central body feels the reaction, and the recorded migration timescale is the one applied.",
 ["inputs","configurations","histories"],"all planets, disk profiles, times, positions relative to the edges","Two golden runs, not runnable here.",
 ["src/effects/disk.rs",U],[("migration timescale and acceleration","src/effects/disk.rs")])
p("C12","Body evolution follows the tabulated model at every time",
 "For an evolving body the radius, radius of gyration, Love number and dissipation at simulation time t equal the linear interpolation of its table at age initial_time + t, for every sequence of query times (forward, repeated, backward), and a simulation whose time span leaves the table is refused. Evolution conserves spin angular momentum: when the moment of inertia changes, the spin changes inversely.",
 ["inputs","histories"],"all tables, query sequences, initial ages, integrators","Golden evolution runs need absent data and advance monotonically for 16 days.",
 ["src/effects/evolution.rs",T,U],[("evolver with remembered left index","src/effects/evolution.rs"),("linear interpolation",T)])
p("C13","Spin state is consistent and only changes through applied torques",
 "At every recorded state, spin times moment of inertia equals the spin angular momentum, moment of inertia equals mass times gyration radius squared times radius squared, and a body on which no torque acts keeps its spin angular momentum exactly; the integrated spin follows the applied torque over time in every integrator to its accuracy.",
 ["inputs","configurations","histories"],"all systems, effects, integrators","Golden tests compare only positions, velocities and accelerations, never spins.",
 ["src/particles/common.rs",U,W,I,L],[("spin from angular momentum","src/particles/common.rs"),("spin integration",W+", "+I+", "+L)])
p("C14","Resuming an interrupted run reproduces the uninterrupted run exactly",
 "Interrupting a simulation at any recovery snapshot and resuming it from the binary snapshot yields, bit for bit, the same remaining history and final state as a run that was never interrupted, for every integrator and effect; history written after the snapshot is discarded and rewritten without gap or duplicate.",
 ["configurations","histories","crash_points"],"every step at which a snapshot is taken, every integrator/effect/coordinate choice, repeated interruptions","No existing test runs the binary, writes a snapshot or resumes.",
 [O,M,W,I,L],[("serialisation of the complete integrator state",O),("history truncation to the snapshot",O)],obs=["history file bytes, recovery snapshot"])
p("C15","A crash at any moment leaves a resumable simulation",
 "Once the first recovery snapshot has been written, killing the program at any instant (between or inside file operations) leaves on disk a complete recovery snapshot - the current one or its backup - together with a history file holding at least the records that snapshot counts, from which resume succeeds and continues to the same results; a complete snapshot on disk, the first one included, never counts records that are not yet in the history file. When a file operation fails (full disk, write error) the program ends with an error, never with success and incomplete files, and what is on disk stays resumable in the same way.",
 ["crash_points","fault_sequences"],"every system call at which the process can be killed, or can fail, during a run with several snapshots","Tests never kill the program.",
 [O,M],[("rename of the previous snapshot to a backup before writing",O),("history flushed before the snapshot",L+", "+W+", "+I)])
p("C16","History records are complete, ordered, timely and correctly encoded",
 "The history file is a sequence of snapshots, each with one fixed-size little-endian record per body in list order, the first at time zero and then one at the beginning of the first step at or after each multiple of the requested period (IAS15: at least one period after the previous record) until the time limit; every record holds the body's actual barycentric position, velocity, spin, mass, radius, gyration radius and Love number at that very time, and from the second record on the tidal heat rate and migration time of the force evaluations of the step just done. Output settings never change the simulated physics, and the run ends at the last full step not exceeding the time limit.",
 ["inputs","configurations","histories"],"all periods (shorter, equal, incommensurate with the step), limits, integrators, numbers of bodies","No test reads a history file.",
 [O,W,I,L,M],[("historic snapshot trigger",W+", "+I+", "+L),("record writer",O)])
p("C17","The command line never destroys results and honours its options",
 "Starting never overwrites an existing snapshot or history file; resuming refuses a history file shorter than its snapshot requires; options that change the time limit, the snapshot periods or the execution time limit take effect exactly as documented, and a run stopped by the execution time limit, or resumed with a larger time limit, continues to the same results as a single run.",
 ["inputs","configurations","histories"],"all option combinations, pre-existing file states and integrators","No test runs the executable.",
 [M,O,W,I,L],[("argument handling",M),("set_time_limit/set_snapshot_periods",L)])
p("C18","Results do not depend on body order or reference-frame orientation",
 "Permuting the list of bodies permutes the results, rotating all initial positions, velocities and spins rotates them, and shifting the whole system in position or velocity changes nothing, up to rounding (and, for frame-dependent prescriptions such as WHFast Jacobi ordering, up to integration error). This holds with any set of effects; prescriptions written for the reference plane (disk, creep, Kaula tides) follow rotations about its normal only, and those written in Jacobi coordinates (WHFast Jacobi, Anderson 1975 relativity) keep the relative order of the orbiting bodies.",
 ["inputs","configurations"],"all permutations, rotations, boosts, effects, integrators","The order tests sample one permutation of one system and cannot run here.",
 [U,W,I,L,"src/effects"],[("host lookup and split of the body list",U)])
p("C19","Effects that are switched off or absent have no influence",
 "An effect disabled globally, or set on no body, or with zero strength leaves trajectories and spins exactly as if it were never configured; with several effects on, accelerations and torques are the sum of the individual ones; simulating with the switch on changes only bodies that take part.",
 ["configurations","inputs"],"all subsets of effects","Tests enable fixed subsets and do not compare.",
 [U,"src/effects"],[("disable_unnecessary_effects, initialisation and summation of outputs",U)])
p("C20","Close encounters, collisions and ejections stop the run",
 "A run stops with an explicit message at the first force evaluation at which any two bodies are closer than the Roche limit of the pair (from their masses and the radii they start with) or than the sum of their radii, or any body is farther than 100 AU from the most massive one, whatever their positions in the list; otherwise it never stops for these reasons. It never goes on past such a state.",
 ["inputs","histories","configurations"],"all pairs and orders, hyperbolic and plunging orbits, integrators","No test has an encounter.",
 [U],[("checks in the gravity loop",U)])
p("C21","Inconsistent configurations are rejected before any step",
 "Configurations that the model cannot represent (more than ten bodies, two central bodies for one effect, different hosts for tides and flattening, a relativity host that is not the most massive, mixed creep and non-creep models or different viscosities, masses or ages outside an evolution table) are refused with an error when the simulation is built, and every valid combination is accepted.",
 ["configurations","inputs"],"all combinations of effect roles on up to eleven bodies","Tests build a dozen valid configurations only.",
 [U,"src/particles/particle.rs","src/effects/evolution.rs"],[("find_indices, check_uniform_viscosity_coefficient, Evolver::new",U)])
p("C22","Orbital elements and Cartesian states convert losslessly",
 "Converting orbital elements to position and velocity satisfies the two-body relations (vis-viva energy, angular momentum, eccentricity vector, Kepler's equation) for elliptic, near-parabolic and hyperbolic orbits in every quadrant, and converting back returns the same elements; the numeric Kepler solver satisfies its equation for all eccentricities and anomalies.",
 ["inputs"],"all (a or q, e, i, omega, Omega, M) incl. e=0, i=0, retrograde, hyperbolic","The one stable test checks one orbit with zero angles.",
 [T],[("calculate_cartesian_coordinates, calculate_keplerian_orbital_elements, kepler solvers",T)])
p("C23","The Python case builder and the Rust library describe the same system",
 "A case written by the Python package is accepted by the executable and contains the same initial state, units, derived quantities and options as the same case built with the Rust library, so that simulating either gives the same results; Python's orbital-element, spin and evolution helpers agree with Rust's.",
 ["inputs","configurations"],"all bodies, effects, evolution models, integrators","Python tests cannot run here and compare a fixed set of files.",
 ["posidonius/particles","posidonius/effects","posidonius/integrator","posidonius/tools.py",T],[("JSON case writer","posidonius/particles/universe.py")])
p("C24","The Python analysis reads back exactly what was simulated",
 "Reading a history file in Python returns every complete snapshot with bit-identical values and drops a torn trailing one, and the derived heliocentric orbital elements and quantities (semi-major axis, eccentricity, inclination, angular momenta, tidal heat) are those of the recorded states.",
 ["inputs","crash_points","histories"],"all history files, truncation lengths, numbers of bodies","No analysis test can run here.",
 ["posidonius/analysis/history.py","posidonius/analysis/computation.py","posidonius/tools.py"],[("record decoding","posidonius/analysis/history.py")])
p("C25","Valid simulations are deterministic, finite and free of undefined behaviour",
 "For every valid configuration, repeating the run gives byte-identical history, all recorded numbers are finite (except the migration time of a planet inside the inner edge of its disk, which is infinite), every step terminates, and no arithmetic overflow, out-of-bounds access, stack overflow, use of invalid memory or internal panic occurs in any model.",
 ["inputs","configurations"],"all valid combinations of effects, models, integrators, evolution, numbers of bodies","Existing test runs no simulation and no instrumentation.",
 ["src"],[("bounded arrays split by number of bodies",U)])
p("C26","Snapshots preserve the complete simulation state",
 "Writing a simulation to a binary snapshot and restoring it gives back the identical state for every integrator and effect, the file's integrator type is recognised, JSON case files describe the same state up to decimal rounding, and a truncated, extended or foreign file is refused instead of being taken for a simulation.",
 ["inputs","configurations","fault_sequences"],"all integrators, effects, points in a run, truncated/corrupted snapshots","Golden tests only read hand-checked JSON cases.",
 [O,W,I,L],[("serde derive on integrator types",O)])
open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
