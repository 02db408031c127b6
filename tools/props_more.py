NA={}
p("C06","Interactions generate the documented coupling in every picture of their parts",
  "For every interaction element (Jaynes-Cummings with qubit, spin or multi-level atom, coupled modes, generalised Dicke, particle along or across a cavity mode, particle between two modes), the interaction-picture Hamiltonian transformed back to the Schrödinger picture is the documented coupling with the documented coefficients, Hermitian, and independent of the pictures in which the constituents are described.",
  ["inputs","configurations"],"all couplings, frequencies, times and states; cutoffs up to 4; all mode functions",
  "a wrong phase, sign, conjugation or picture-dependent frequency changes the dynamics only for complex couplings or for non-trivial pictures, which the tests sample at single parameter values if at all",
  [I+"JaynesCummings_.h",I+"CoupledModes.cc",I+"GeneralDicke.cc",I+"MLJC.h",I+"ParticleCavity.cc",I+"ParticleTwoModes.cc"],
  [("Jaynes-Cummings coupling",I+"JaynesCummings_.h"),("mode-mode couplings",I+"CoupledModes.cc"),("particle-cavity couplings",I+"ParticleCavity.cc"),("two-mode scattering",I+"ParticleTwoModes.cc")])
p("C07","A composite system is the sum of what its parts do on their own subsystems",
  "For binary and general composite systems made of arbitrary parts, the Hamiltonian is the sum and the exact propagation the product of those of the parts, each acting on its own subsystems in the declared order; jumps, jump rates, superoperators and expectation values of the parts are concatenated with consistent numbering, also in post-processing, streaming and keys. A capability is present exactly if some part has it, parts that lack it contribute nothing, the highest frequency is that of the fastest part, and inconsistent assignments of subsystems are refused.",
  ["inputs","configurations"],"all states, times and dynamics of the parts; every combination of capabilities for two parts and their interaction, a representative family for three subsystems with permuted interactions",
  "the tests use a few concrete composites whose parts have all capabilities or symmetrical dimensions; misnumbered jumps or averages show only for uneven combinations",
  [K+"BinarySystem.cc",K+"BinarySystem.h",K+"Composite.h",K+"Composite.tcc",K+"Act.h",K+"SubSystem.h",S+"Structure.h"],
  [("binary system",K+"BinarySystem.cc"),("composite dispatch over parts",K+"Composite.tcc")])
p("C08","Expectation values are those of the documented operators in any state",
  "For every element that calculates averages, and for the generic averaging tools, each streamed quantity equals, after post-processing, the expectation value (or variance, correlation or density-matrix element) of the operator its key names, linear in the density operator before post-processing, and the same for a pure state and for its dyad; the number of quantities, the keys and the post-processing are consistent when averages are collected, transferred or extended.",
  ["inputs","configurations"],"all pure states and Hermitian density operators, normalised or not; all raw averages; cutoffs up to 4, spins up to 2S=4, particle grids up to 8 points",
  "tests look at one state evolved numerically; a wrong weight in a rarely populated level, a real part for an imaginary one or a misaligned index in post-processing is invisible there",
  ["CPPQEDelements/utils/AveragingUtils.h",F+"Mode.cc",F+"Qbit.cc",F+"Spin.cc",F+"Particle.cc",S+"ElementAveraged.h",S+"ElementAveraged.cc",I+"ModeCorrelations.cc",I+"QbitModeCorrelations.cc"],
  [("averages of the mode",F+"Mode.cc"),("reduced density operators, collections","CPPQEDelements/utils/AveragingUtils.h"),("processing by keys",S+"ElementAveraged.cc")])
p("C09","Master-equation evolution integrates the Lindblad equation of the system",
  "For every system, whatever combination of exact, Hamiltonian and dissipative parts it has, the equation handed to the ODE stepper at any time and density operator is the sum of the two-sided Hamiltonian term and of the jump terms, taken from the superoperators where they exist and otherwise from the jump operators. After each step the exact part has been applied on both sides for precisely the interval covered, and the density operator is Hermitian with unit trace; the interaction picture restarts from the time reached. Systems or initial states that do not fit are refused.",
  ["inputs","configurations","histories"],"all dynamics, density operators, times, step sizes and behaviours of the stepper; systems of up to three levels or two subsystems",
  "the test suite integrates one system; an error in one side of the exact part, in the reference time or in the fallback from superoperators to jumps needs a system with that particular combination of parts",
  [T+"Master.h",T+"DensityOperatorStreamer.h",U+"VectorFromMatrixSliceIterator.h",S+"Structure.h",U+"ComplexArrayExtensions.h"],
  [("right-hand side and step",T+"Master.h"),("iteration over the columns",U+"VectorFromMatrixSliceIterator.h")])
p("C10","Quantum trajectories jump with the right probability into the right state",
  "In each step of a quantum trajectory the state evolves by the Hamiltonian and the exact part over the interval covered and is renormalised; then a single random number decides: jump number k occurs with probability its rate times the step, the outcomes filling consecutive intervals, and replaces the state by the jumped state normalised, while otherwise the state stays as it is. Channels announcing their rate as negative are given the rate obtained from the jumped state. Without dissipation no random number is drawn.",
  ["inputs","schedules","configurations"],"all dynamics, states, rates, step sizes and random numbers (except on the boundary between outcomes); up to three channels, two consecutive steps",
  "statistics over random trajectories cannot resolve an exchange of channels, a jump taken at the wrong time or a normalisation lost in a rare channel",
  [T+"MCWF_Trajectory.h",T+"MCWF_TrajectoryLogger.h",S+"Liouvillean.h",S+"Structure.h"],
  [("step",T+"MCWF_Trajectory.h"),("jump",T+"MCWF_Trajectory.h")])
p("C11","Jump probability per step stays within its limit; rejected tries leave no trace",
  "A step of a quantum trajectory whose total jump probability exceeds the tolerance is retried from precisely the same state, time, step-size history and picture with the size allowed by the limit; an accepted step is never beyond the tolerance, only tries beyond it are rejected, exactly one random number is used per accepted step, and the next step (also the very first one) is not attempted with a size beyond the limit or beyond what the ODE stepper proposed.",
  ["inputs","schedules","histories"],"all rates, limits, tolerances, proposed and performed step sizes; up to three tries within a step",
  "rejections are rare and depend on the sequence of step sizes; what a rejected try leaves behind distorts later evolution without any visible failure",
  [T+"MCWF_Trajectory.h",T+"MCWF_TrajectoryLogger.cc"],
  [("time-step management",T+"MCWF_Trajectory.h")])
p("C12","ODE steps advance state and time together, never beyond the interval",
  "A step of the ODE engine covers an interval in the direction asked for and not longer than asked for; state and time are advanced by the same accepted step, tries rejected by the error control leave both untouched and are repeated with the reduced size, the step done and the one to try next are reported and used for the next step (a step shortened to meet the end of the interval does not spoil the proposal), and the numbers of derivative evaluations, steps and failures are logged. For real and complex arrays of any rank the derivative is evaluated on the whole array and the error control accepts exactly the steps within the tolerance; errors of the underlying library are reported, not ignored.",
  ["inputs","schedules","histories"],"all step sizes, states, right-hand sides and decisions of the error control; three consecutive steps with up to two rejections, both directions",
  "rejections, shortened steps and changes of direction combine in ways that tests with smooth problems never produce",
  [U+"ODE.h",U+"ODE_GSL.h",U+"ArrayTraits.h",U+"BlitzArray.h"],
  [("engine driving a stepper",U+"ODE.h"),("GSL stepper",U+"ODE_GSL.h")])
p("C13","Runs visit every streaming instant, stop when they should, and resume seamlessly",
  "A run streams at the beginning (if asked for) and then at every multiple of the interval, or after every given number of steps, up to exactly the end time, without overshooting it; everything streamed is returned, in order, together with time and step size; states are saved at the frequency asked for and at the end; a run continued from its output file proceeds from the state saved last without streaming the first state again; a run that has already arrived does nothing; automatic stopping occurs exactly when the streamed values have stayed within the given precision for the given number of streamings.",
  ["inputs","histories","configurations","crash_points"],"all intervals, end times, step sizes taken by the trajectory and streamed values; runs of up to five streamings or steps, interrupted and continued",
  "the tests run a few fixed combinations of options; off-by-one errors at the end of the run, on continuation or in the stopping criterion appear for particular ratios of the times only",
  [U+"Trajectory.h",U+"Trajectory.cc"],
  [("run loop",U+"Trajectory.h"),("reading and writing of states",U+"Trajectory.cc")])
p("C14","A trajectory restored from its saved state continues as if never interrupted",
  "Saving the state of a trajectory (classical simulation, master equation, quantum trajectory) and restoring it into another trajectory of the same kind restores state, time, step sizes, statistics, history of jumps and random-number generator, so that the next step is attempted from the same state, at the same time, in the same picture and with the same size; archives of a different kind, element type or rank are refused and leave the trajectory untouched; archives containing only an array set the state alone.",
  ["inputs","histories","crash_points"],"all states, times, step sizes, rates and random numbers; one step before saving and one after restoring; every pair of seven kinds of trajectories",
  "what is forgotten in an archive only shows as a slightly different continuation, which tests that restart from deterministic states cannot distinguish",
  [U+"Trajectory.h",U+"Trajectory.cc",U+"ODE.h",U+"Simulated_.h",T+"MCWF_Trajectory.h",T+"MCWF_TrajectoryLogger.h",T+"Master.h"],
  [("reading of archives",U+"Trajectory.h"),("state of a quantum trajectory",T+"MCWF_Trajectory.h"),("state of the ODE engine",U+"ODE.h")])
p("C15","Ensembles average their trajectories, each an independent run of its own stream",
  "An ensemble of quantum trajectories advances every element to the same instants, each with a random-number generator of its own and all of them distinct, and its averaged density operator is the mean of the dyads of the elements' states, whatever steps or jumps these took; expectation values streamed by the ensemble are those of the averaged state. The archive of an ensemble restores every element. The evolution driver runs the kind of trajectory its parameters ask for, on the system and initial state given, leaving in the initial state the final one of a single run.",
  ["inputs","schedules","histories","configurations"],"all initial states, dynamics, step sizes and random numbers; ensembles of up to three elements over up to two advances; every mode of the evolution driver",
  "an element left behind, advanced twice or sharing its random numbers with another shifts averages by less than the statistical error that tests must tolerate",
  [T+"MCWF_Trajectory.h",T+"Evolution_.h",U+"StochasticTrajectory.h",U+"Random.h",T+"DensityOperatorStreamer.h"],
  [("ensembles",U+"StochasticTrajectory.h"),("ensembles of quantum trajectories",T+"MCWF_Trajectory.h"),("generators of the elements",U+"Random.h"),("evolution driver",T+"Evolution_.h")])
p("C16","Entanglement measures are calculated from the right matrix and eigenvalues",
  "The negativity is the sum of the moduli of the negative eigenvalues of the partial transpose with respect to exactly the subsystems asked for, the entropy is that of the eigenvalues of the density operator, the mutual information that of the subsystem plus that of the rest less that of the whole, and the purity of the partial trace is the trace of its square; the density operator is left untouched. When streamed along a trajectory, the measures switched on, and only those, follow the expectation values in the order of their keys, and where the negativity is appended to density-matrix elements these are kept.",
  ["inputs","configurations"],"all Hermitian density operators of two or three subsystems up to dimension 8, all partitions of them tried, all eigenvalues of either sign",
  "tests compare the measures for a few known states, symmetric under the exchange of subsystems, where transposing the wrong part goes unnoticed",
  [Q+"EntanglementMeasures.h",T+"DensityOperatorStreamer.h","CPPQEDelements/utils/AveragingUtils.h"],
  [("measures",Q+"EntanglementMeasures.h"),("streaming of the measures",T+"DensityOperatorStreamer.h"),("negativity with averages","CPPQEDelements/utils/AveragingUtils.h")])
p("C17","Fourier transformation is the unitary change between position and momentum",
  "The discrete Fourier transformation of arrays, state vectors and density operators is the unitary matrix that connects the position and momentum coordinates of the particle (both centred on zero), applied to exactly the subsystems asked for, on both sides for a density operator and whatever the memory layout; the reverse direction undoes it, inner products are preserved, the transform of a pure state seen as a density operator is that of its dyad, the source is left untouched, and sizes that are not powers of two are refused.",
  ["inputs","configurations"],"all amplitudes and matrix elements; sizes up to 8, up to three subsystems, every choice of transformed subsystems tried, both directions",
  "the tests transform single wave packets; a shift by one point, a missing conjugation on one side or the wrong axis of a non-square array is invisible for symmetric or single-subsystem states",
  [Q+"LazyDensityOperatorFFT.h",Q+"LazyDensityOperatorFFT.cc",U+"FFT.h",U+"FFT.cc",F+"Particle.cc"],
  [("transformation of lazy density operators",Q+"LazyDensityOperatorFFT.cc"),("transformation with shifts",U+"FFT.cc")])
p("C18","Initial states are the normalised states their parameters describe",
  "Coherent and Fock states of a mode, states of a qubit, wave packets and oscillator eigenstates of a particle are the documented amplitudes for all parameters, normalised, in either representation (which are Fourier transforms of each other); states requested through parameter tables are those with these parameters, with the phase, the representation and the width following the documented defaults, and invalid level numbers are refused.",
  ["inputs","configurations"],"all amplitudes, phases, positions, momenta and widths; up to 5 levels, grids of up to 4 points, oscillator states up to n=3",
  "a test starts from one or two initial states; a width off by a factor, a momentum of the wrong sign or a wrong Hermite polynomial distorts every later result quietly",
  [F+"Mode.cc",F+"Qbit.cc",F+"Particle.cc",U+"MathExtensions.cc","CPPQEDelements/utils/ParticleInitialCondition.h"],
  [("states of the mode",F+"Mode.cc"),("wave packets and oscillator states",F+"Particle.cc"),("elements of coherent states",U+"MathExtensions.cc")])
p("C19","Phase-space distributions are those of the state at every point",
  "The Wigner and the Q function calculated from a density operator equal their definition at every point of phase space for every (pure or mixed) state within the cutoff, also with truncation; a scan covers precisely the region asked for, row by row with the given number of points, with every value at its own coordinates.",
  ["inputs","configurations"],"all density operators of up to 5 levels, all points of phase space; scans of up to 4x6 points",
  "comparison at a few points for coherent or Fock states does not exercise coherences between levels, where a wrong sign, conjugation or Laguerre index would show",
  [Q+"DistributionFunctions.h",Q+"DistributionFunctions.cc",U+"MathExtensions.cc"],
  [("Wigner and Q functions",Q+"DistributionFunctions.h"),("scan",Q+"DistributionFunctions.h")])
p("C20","The first time step is small on every timescale of the system",
  "The highest frequency a system reports is the largest modulus of all its frequency-like parameters, complex ones included, each times its multiplier; every free element and interaction, in any picture, reports one not below any parameter that occurs in its equations of motion, nor, for a particle, below the frequencies its kinetic energy causes in its picture (of any momentum of the grid in the Schroedinger picture, of a step between neighbouring momenta in the interaction picture); a binary or composite system reports the highest among those of its parts; and the first time step of a trajectory is a tenth of the inverse of it.",
  ["inputs","configurations"],"all parameters of all elements in every picture, lists of up to five frequencies; small cutoffs",
  "a parameter missing from the list is noticed only when it dominates all others; then the first step is too long for the error control to judge",
  [S+"DynamicsBase.h",S+"DynamicsBase.cc",F+"Mode.cc",F+"Qbit.cc",F+"Spin.cc",F+"Particle.cc",F+"MultiLevel.h",I+"CoupledModes.cc","CPPQEDcore/composites/BinarySystem.cc","CPPQEDcore/composites/Composite.tcc",T+"QuantumTrajectory.h",U+"Trajectory.h"],
  [("highest frequency",S+"DynamicsBase.cc"),("first time step",T+"QuantumTrajectory.h")])
p("C21","Parameters given on the command line reach the run, and nothing else does",
  "Every parameter of every parameter table can be set by its name on the command line and keeps its default otherwise, values are taken over precisely and for that parameter only, unknown names, malformed values and missing parameters are refused, and the names of tables combined with a modifier do not collide.",
  ["inputs","configurations"],"all command lines",
  "tests pass a handful of fixed command lines",
  [U+"Pars.h",U+"Pars.cc"],
  [("parsing of the command line",U+"Pars.cc")])
NA["C21"]="parsing of text: names and values are sequences of characters interpreted by the C++ stream library (locale-dependent library code outside the repository); the encoding keeps text concrete, so that only an enumeration of concrete command lines would be possible, which is another technique"
