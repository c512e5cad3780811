import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["observe_at"]=observe or []
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","A run of mps computes exactly the documented MPS scheme",
 "Running the mps executable on any valid settings file and particle file, every recorded state follows from the previous one by the documented scheme: explicit viscosity and gravity prediction, pairwise collision, number density, implicit or explicit pressure, pressure-gradient correction, all with the parameters of the settings file (dimension, radii, viscosity, gravity vector or norm/angle, thresholds, compressibility, relaxation, sound speed, restitution, domain, default density). The recorded position, velocity, pressure, number density, number density ratio, boundary condition, type and fluid type of every particle agree with an independent evaluation of those equations up to rounding.",
 ["inputs","configurations","histories"],"all valid settings (2D and 3D, Implicit and Explicit, both surface detectors), particle arrangements and numbers of steps",
 "No test links the solver (mps.cpp, pressure_calculator, surface_detector, simulation, loader, saver, main have no test at all); the only full run in CI uploads a picture and asserts nothing.",
 ["src/main.cpp","src/simulation.cpp","src/mps_factory.cpp","src/mps.cpp","src/loader.cpp","src/saver.cpp"],
 [("order of the phases of one time step","src/mps.cpp MPS::stepForward"),("parameters handed to each component","src/mps_factory.cpp MPSFactory::create"),("time loop","src/simulation.cpp Simulation::run")],
 observe=["vtu/csv/prof files written by the mps executable"])

p("C02","Neighbour search returns exactly the particles within the radius",
 "After a neighbour search over any particles and domain, the list of each non-ghost particle inside the domain contains every other non-ghost in-domain particle strictly closer than the search radius exactly once, with its true Euclidean distance, and nothing else. This holds wherever the particles lie (domain edges and corners included), in 2D and 3D, for any radius, domain size and position, and however often and with whatever positions the same searcher was used before.",
 ["inputs","histories"],"all domains, radii, particle counts, positions and types; all sequences of moves and repeated searches on one searcher",
 "The single test is one 2D layout of 100 fluid particles in a domain with its corner at the origin, searched once; 3D, ghosts, boundaries, shifted domains and reuse are never exercised.",
 ["src/neighbor_searcher.cpp","src/bucket.cpp"],
 [("cell grid with one guard layer on each side","src/bucket.cpp Bucket::Bucket, storeParticles"),("27-cell scan","src/neighbor_searcher.cpp NeighborSearcher::setNeighbors")],
 [("first/last/next","linked lists of particles per cell, rebuilt on every search","src/bucket.hpp")],["Particle::neighbors after setNeighbors"])

p("C03","A particle outside the domain becomes an inert ghost and disturbs nothing",
 "A particle whose position is outside the closed domain box, or is not a finite number, becomes a ghost with a warning on standard error at the next neighbour search; a particle exactly on the boundary does not. From then on it stays a ghost with its position and velocity frozen, has zero pressure and number density and influences no other particle, and the run continues: no position value makes the program crash, hang or touch memory out of bounds.",
 ["inputs","histories"],"all particle positions including boundary, huge, infinite and NaN values; all steps of a run in which particles leave the domain",
 "No test moves a particle, uses a ghost or a particle outside the domain, or looks at a non-finite value.",
 ["src/bucket.cpp","src/mps.cpp","src/neighbor_searcher.cpp"],
 [("domain test that turns a particle into a ghost","src/bucket.cpp Bucket::storeParticles"),("ghost tests in every phase","src/mps.cpp")],
 [("Particle::type","Ghost means excluded from the computation","src/particle.hpp")],["types, positions and neighbours after each step","standard error","exit status"])

p("C04","Only fluid moves; particles are never lost, created, reordered or altered",
 "Over any run the number and order of the particles, their ids, densities and fluid types never change, and a type changes only from non-ghost to ghost. The position and velocity of wall and dummy wall particles stay bit-for-bit at their initial values, whatever the fluid does to them and whatever velocity they were given.",
 ["inputs","histories","configurations"],"all particle sets mixing all four types, all numbers of steps, all settings",
 "No test runs a time step.",
 ["src/mps.cpp","src/particle.cpp","src/particles.cpp","src/bucket.cpp"],
 [("type test in the move phases","src/mps.cpp moveParticle, moveParticleUsingPressureGradient"),("infinite mass of non-fluid particles in collisions","src/particle.cpp Particle::inverseDensity")],
 [("Particle::id","equals the index in the container","src/particles.cpp")],["particles after each step","rows of the output files"])

p("C05","Weight function and reference values equal their lattice definitions",
 "The weight is re/r - 1 for 0 < r < re and exactly 0 for r >= re. For every dimension (2 or 3), particle distance and effective radius larger than it, the reference number density is the sum of the weight over all other points of the infinite square or cubic lattice with that spacing, and the reference lambda is the weight-averaged squared distance over the same points.",
 ["inputs","configurations"],"all particle distances, all effective radii larger than the particle distance, both dimensions",
 "Two tests fix re = 1.5 l0 (only first and second neighbours) and one weight test has three points.",
 ["src/weight.cpp","src/refvalues.cpp"],
 [("weight function","src/weight.cpp weight"),("lattice summation","src/refvalues.cpp RefValues::RefValues")],
 None,["weight()","RefValues::n0, lambda"])

p("C06","Number density is the sum of weights over real neighbours",
 "In every time step the number density of each non-ghost particle is the sum of the weight function, with the number-density radius, over all other non-ghost particles at the positions reached after prediction and collision; walls and dummy walls count as neighbours and also get a value, and a ghost has number density 0. Neighbours beyond the number-density radius contribute nothing even when another effective radius is larger.",
 ["inputs","histories","configurations"],"all arrangements, all radius combinations, all steps",
 "Number density is computed in mps.cpp, which no test links.",
 ["src/mps.cpp","src/weight.cpp"],
 [("summation over the neighbour list","src/mps.cpp MPS::calNumberDensity"),("re-search of neighbours after the collision phase","src/mps.cpp MPS::stepForward")],
 None,["Particle::numberDensity","Number Density array of the vtu output"])

p("C07","Free fluid particles integrate gravity semi-implicitly and exactly",
 "A fluid particle with no neighbour within any effective radius or the collision distance is advanced in each step by v += g dt, then x += v dt, with g the configured gravity vector: given directly, or as norm and angle, (norm sin a, -norm cos a, 0), the angle counter-clockwise in degrees from -y. No acceleration, pressure or other state carries over from one step into the next, so after any number of steps its trajectory is the closed-form sum of these increments.",
 ["inputs","histories","configurations"],"all initial states, gravity vectors or norm/angle pairs, time steps and step counts",
 "No test runs a time step or builds the gravity vector.",
 ["src/mps.cpp","src/mps_factory.cpp"],
 [("gravity acceleration","src/mps.cpp MPS::calGravity"),("prediction and reset of the acceleration","src/mps.cpp MPS::moveParticle"),("gravity from norm and angle","src/mps_factory.cpp")],
 [("Particle::acceleration","zero at the start and end of each step","src/particle.hpp")],["positions and velocities after each step"])

p("C08","Viscosity is the MPS Laplacian of velocity and conserves momentum",
 "In the prediction each fluid particle receives the acceleration nu * 2d/(n0 lambda0) * sum_j (u_j - u_i) w(r_ij) over all its non-ghost neighbours within the Laplacian radius, with n0 and lambda0 the reference values for that radius, evaluated on the positions and velocities at the start of the step. Hence, among fluid particles alone, viscosity leaves the total momentum unchanged, never increases the spread of velocities (for time steps within the explicit stability limit), and has no effect when all velocities are equal.",
 ["inputs","configurations"],"all arrangements, velocities, viscosities, radii and both dimensions",
 "The viscosity term lives in mps.cpp, which no test links.",
 ["src/mps.cpp"],
 [("viscosity term","src/mps.cpp MPS::calViscosity"),("reference values for the Laplacian radius","src/mps.cpp MPS::MPS")],
 None,["velocities after the prediction phase"])

p("C09","Collisions conserve momentum, never add energy, and only push pairs apart",
 "In the collision phase each pair of a fluid particle with another non-ghost particle closer than the collision distance is treated exactly once: an approaching pair leaves with its normal relative velocity reversed and multiplied by the coefficient of restitution, a separating pair keeps its velocities, and either pair is moved apart along its line to the collision distance. Fluid pairs share impulse and displacement in inverse proportion to density, so density-weighted momentum and centre of mass are conserved and kinetic energy never grows (restitution at most 1); walls act as infinitely heavy, and pairs at or beyond the collision distance are untouched.",
 ["inputs","configurations"],"all overlapping pairs and clusters, densities, velocities, restitution coefficients and collision distances",
 "The collision model lives in mps.cpp, which no test links.",
 ["src/mps.cpp","src/particle.cpp"],
 [("pairwise impulse and position correction","src/mps.cpp MPS::collision"),("inverse mass","src/particle.cpp Particle::inverseDensity")],
 None,["velocities and positions after the collision phase"])

p("C10","Free-surface classification follows the selected detector",
 "Ghost and dummy wall particles are classified as ignored; every other particle is a free-surface particle exactly when its number density is below threshold * n0 and, if the particle-distribution detector is selected, additionally it has no neighbours or some component of the sum of its relative neighbour positions exceeds in absolute value the distribution threshold times the particle distance; otherwise it is inner. The Dirichlet condition produced for the pressure equation is pressure 0 on exactly the particles that are not inner, and nothing is left over from a previous step.",
 ["inputs","configurations","histories"],"all particle states (types, number densities, neighbour sets), thresholds and both detectors; repeated evaluation on one object",
 "surface_detector and the boundary condition generator are not linked by any test.",
 ["src/surface_detector/number_density.cpp","src/surface_detector/distribution.cpp","src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp","src/pressure_calculator/dirichlet_boundary_condition.cpp","src/mps_factory.cpp"],
 [("detectors","src/surface_detector/*.cpp isFreeSurface"),("classification and Dirichlet set","free_surface.cpp FreeSurface::generate"),("detector selection","src/mps_factory.cpp")],
 [("Particle::boundaryCondition","state read by the pressure equation and the output","src/particle.hpp")],["boundaryCondition, Dirichlet set, Boundary Condition array of the vtu output"])

p("C11","Implicit pressure solves the documented Poisson system, clipped at zero",
 "The implicit pressure of an inner particle solves sum_j a w(r_ij)/rho_i (p_i - p_j) + compressibility/dt^2 p_i = relaxation/dt^2 (n_i - n0)/n0 over its neighbours within the Laplacian radius that are not ignored, with a = 2d/(n0 lambda0) and every other particle held at pressure 0, and negative solution values are replaced by 0. One value per particle is returned, in particle order; particles that are ignored or on the free surface get exactly 0, no pressure is negative or non-finite, and the result depends only on the current particles, not on earlier calls.",
 ["inputs","configurations","histories"],"all particle states with a solvable system, all coefficients, repeated calls with changing particle numbers and states",
 "pressure_calculator is not linked by any test.",
 ["src/pressure_calculator/implicit.cpp","src/pressure_calculator/pressure_poisson_equation.cpp"],
 [("source term and matrix assembly","pressure_poisson_equation.cpp setSourceTerm, setMatrixTriplets"),("reset between calls","pressure_poisson_equation.cpp resetEquation"),("clipping","implicit.cpp removeNegativePressure")],
 [("matrixTriplets, sourceTerm","must be rebuilt for every call","pressure_poisson_equation.hpp")],["vector returned by the pressure calculator","Pressure array of the vtu output"])

p("C12","Explicit pressure is the equation of state of the number density",
 "With the explicit method the pressure of every fluid and wall particle is c^2 rho_i (n_i - n0)/n0 when its number density n_i exceeds n0 and exactly 0 otherwise, with c the configured sound speed, rho_i the particle's own density and n0 the reference value for the number-density radius; a ghost has pressure 0. It is therefore never negative, depends on nothing but the particle's own current state, and the recorded pressure always matches the recorded number density.",
 ["inputs","configurations","histories"],"all particle states, densities, sound speeds, radii and dimensions; all steps",
 "pressure_calculator is not linked by any test.",
 ["src/pressure_calculator/explicit.cpp","src/mps.cpp","src/mps_factory.cpp"],
 [("equation of state","src/pressure_calculator/explicit.cpp Explicit::calc"),("second evaluation at the end of a step","src/mps.cpp MPS::stepForward")],
 None,["vector returned by the pressure calculator","Pressure array of the vtu output"])

p("C13","Pressure correction applies the minimum-pressure MPS gradient",
 "For whatever pressures the pressure calculator returns, each fluid particle is corrected by a = -(1/rho_i) d/n0 sum_j (p_j - pmin_i) (x_j - x_i)/|x_ij|^2 w(r_ij) over its fluid and wall neighbours within the gradient radius, where pmin_i is the smallest pressure among itself and those neighbours and n0 is the reference value for the gradient radius; velocity changes by a dt and position by a dt^2. Dummy walls and ghosts contribute nothing, equal pressures everywhere produce no motion, and particles are never pulled towards a neighbour by pressure.",
 ["inputs","configurations"],"all post-collision arrangements and pressure fields, radii, densities, both dimensions",
 "The gradient term lives in mps.cpp, which no test links.",
 ["src/mps.cpp"],
 [("minimum pressure","src/mps.cpp MPS::setMinimumPressure"),("gradient","src/mps.cpp MPS::calPressureGradient"),("correction","src/mps.cpp MPS::moveParticleUsingPressureGradient")],
 [("Particle::minimumPressure","minimum over itself and its neighbours","src/particle.hpp")],["positions and velocities at the end of the step","pressures stored in the particles"])

p("C14","The reported Courant number is the true maximum and excess is announced",
 "After every step the Courant number is the maximum over fluid particles only of |v| dt / particleDistance for the velocities at the end of that step (0 when there is no fluid), independent of earlier steps. An error is written to standard error in exactly the steps in which it exceeds the configured CFL limit.",
 ["inputs","histories","configurations"],"all velocity fields, particle types, time steps, particle distances, CFL limits and step sequences",
 "The Courant number is computed in mps.cpp, which no test links.",
 ["src/mps.cpp","src/simulation.cpp"],
 [("maximum over fluid particles","src/mps.cpp MPS::calCourant")],
 [("MPS::courant","recomputed from 0 each step","src/mps.hpp")],["MPS::courant","standard error","console line of the step"])

p("C15","Time loop and output schedule follow start, end, dt and output period",
 "A run starts at the time given in the particle file, takes steps of dt until the end time is reached (none if it already is), and then ends with success. It writes the initial state as output 0000 and output k at the first step where the elapsed time has reached k output periods (at most one output per step), numbered consecutively without gaps as output_NNNN in the prof, vtu and csv directories, all three holding the same state and the time of that state.",
 ["inputs","configurations"],"all start and end times, time steps and output periods, including periods that are not multiples of dt or shorter than dt",
 "simulation.cpp and saver.cpp are not linked by any test.",
 ["src/simulation.cpp","src/saver.cpp"],
 [("time loop","src/simulation.cpp Simulation::run"),("output condition","src/simulation.cpp Simulation::saveCondition"),("numbering","src/saver.cpp Saver::save")],
 [("Simulation::time, Saver::fileNumber","current time and next output index","src/simulation.hpp, src/saver.hpp")],["files in the output directory","console lines","exit status"])

p("C16","Profile files round-trip through export and load",
 "Exporting any particles and time to a profile and loading it returns the same number of particles in the same order with the same types, the time, and every position and velocity component equal to the printed precision (6 significant digits). Density is the default density given to the loader, fluid type is 0, and ids are consecutive from 0; a profile is also read correctly with any whitespace layout and number notation, and further data after the declared number of particles is ignored.",
 ["inputs"],"all particle sets including empty, all finite values (tiny, huge, negative, integer), all layouts of the file",
 "The only profile test checks that a file of 100 identical zero particles exists; the loader is not linked by any test.",
 ["src/particles_exporter.cpp","src/particles_loader/prof.cpp"],
 [("writer","src/particles_exporter.cpp toProf"),("reader","src/particles_loader/prof.cpp Prof::load")],
 None,["file contents and loaded particles"])

p("C17","CSV files load by column name and round-trip through export",
 "A CSV particle file is read by its header: columns may be in any order, fluidType (default 0) and density may be absent, and each row yields one particle, in order, with exactly the values of its own row; a density that is absent or negative in a row becomes the default density for that row only. Exporting any particles and time to CSV and loading the file returns the same number of particles in the same order with the same types and fluid types, the time, and positions and velocities equal to the printed precision.",
 ["inputs"],"all particle sets, all column orders and subsets of optional columns, all mixes of given and negative densities",
 "Neither the CSV loader nor the CSV exporter is exercised by any test.",
 ["src/particles_loader/csv.cpp","src/particles_exporter.cpp"],
 [("header-driven reader","src/particles_loader/csv.cpp Csv::load"),("writer","src/particles_exporter.cpp toCsv")],
 None,["loaded particles"])

p("C18","ASCII VTU files are well formed and round-trip through export and load",
 "An ASCII VTU export is well-formed VTK XML holding for every particle, in order, position, type, velocity, pressure, number density, number density ratio to the given reference, boundary condition and fluid type, one vertex cell per particle, and the time. Loading it returns the same number, order, types, fluid types, positions and velocities (to the printed precision) and time, and a particle's density is taken from a Density array when the file has one with a non-negative value and is otherwise the default density, never a value of some other array.",
 ["inputs"],"all particle sets including empty, all values of every field, files with and without optional arrays, arrays in any order",
 "The tests write 100 identical particles and check that the file exists, and round-trip two particles without looking at density, pressure, number density, boundary condition or fluid type.",
 ["src/particles_exporter.cpp","src/particles_loader/vtu.cpp"],
 [("writer","src/particles_exporter.cpp toVtuAscii"),("reader by array name","src/particles_loader/vtu.cpp Vtu::load")],
 None,["file contents and loaded particles"])

p("C19","Binary VTU output is structurally valid and bit-exact",
 "A binary VTU export is a valid VTK appended-raw file: every array's declared offset points at its own block, whose length header equals the number of particles times components times element size in the declared byte order, blocks do not overlap or leave gaps, and the cell arrays describe one vertex per particle. Reading it back by the VTK rules yields every position, velocity, pressure, number density, ratio, boundary condition, type, fluid type and the time bit for bit, and the loader refuses such a file instead of misreading it.",
 ["inputs"],"all particle sets including empty, all field values including values whose bytes look like markup, newlines or zero",
 "No test writes a binary VTU file.",
 ["src/particles_exporter.cpp","src/particles_loader/vtu.cpp"],
 [("writer","src/particles_exporter.cpp toVtuBinary"),("refusal of binary files","src/particles_loader/vtu.cpp Vtu::load")],
 None,["bytes of the file"])

p("C20","Every setting in the YAML file takes effect exactly as written",
 "Loading a settings file yields for every documented key exactly the value written, whatever the order, number notation, comments and quoting of the keys: radii and collision distance are the given ratios times particleDistance, the maximum radius is the largest of the three, domain extents are max minus min, and the particle path is resolved relative to the directory of the settings file as named on the command line (absolute paths as they are). The optional keys default to direct gravity input, zero norm and angle, and ASCII VTU output; a missing required key, a value of the wrong type, or an unknown pressure method or particle file extension, makes the program fail before it writes any result.",
 ["inputs","configurations"],"all settings files with all keys varied independently, all path forms, all single-key omissions",
 "loader.cpp is not linked by any test.",
 ["src/loader.cpp","src/settings.hpp","src/mps_factory.cpp"],
 [("key to field mapping","src/loader.cpp Loader::loadSettingYaml"),("path resolution","src/loader.cpp"),("method selection","src/mps_factory.cpp")],
 None,["Input returned by the loader","exit status and output directory of mps"])

p("C21","A run never overwrites inputs and records them next to its results",
 "A successful run leaves byte-identical copies of the settings file and the particle file in the output directory and never modifies or removes the originals or unrelated files there. If the output directory already holds a file with either name, or the settings file, particle file or output directory does not exist, or a required option is missing, the program exits with a non-zero status and a message on standard error, leaves every existing file untouched and writes no result.",
 ["inputs","configurations","fault_sequences"],"all combinations of existing, missing and colliding files and directories, file contents and path forms",
 "main.cpp, loader.cpp and saver.cpp are not linked by any test.",
 ["src/main.cpp","src/loader.cpp","src/saver.cpp"],
 [("option checks","src/main.cpp"),("copy that refuses to overwrite","src/loader.cpp Loader::copyInputFileToOutputDirectory")],
 None,["exit status, messages and directory contents around a run of mps"])

p("C22","Broken particle files are rejected, never silently turned into other data",
 "Loading a profile that ends before all declared particles are complete or has a non-number in place of a value, a CSV file without one of the columns type, x, y, z, vx, vy, vz or with a malformed or missing value, an ASCII VTU file with a malformed line in an array it reads, or a missing or unreadable file, ends in an error instead of a particle set. Whatever the bytes of the file, a loader neither crashes on memory nor hangs, and every value it does return is a value of the file or a documented default.",
 ["inputs"],"all byte strings; in particular truncations, token edits and column removals of valid files",
 "No test gives any loader a malformed file.",
 ["src/particles_loader/prof.cpp","src/particles_loader/csv.cpp","src/particles_loader/vtu.cpp","src/loader.cpp"],
 [("stream checks","src/particles_loader/*.cpp load")],
 None,["return value, exception or exit of the loaders; exit status of mps"])

p("C23","A write failure is reported, never passed off as a complete result",
 "If any byte of an output file cannot be written (disk full, size limit, file cannot be created) the run ends with a non-zero status and a message on standard error. Equivalently, when mps or an export reports success, every output file it was to write exists and is complete.",
 ["fault_sequences","inputs"],"all output files of a run and all positions in them at which writing starts to fail",
 "No test makes a write fail.",
 ["src/particles_exporter.cpp","src/saver.cpp"],
 [("open check and write check of the exporters","src/particles_exporter.cpp toProf, toVtuAscii, toVtuBinary, toCsv")],
 None,["exit status of mps, contents of the output files"])

p("C24","Generators overwrite nothing without consent and emit the documented case",
 "When an input file with the generator's name exists, the particle generators keep every existing file byte-identical unless the answer y or Y is given, asking again after any other answer except n or N, which cancel; with any content or end of standard input they terminate. When they do write, the prof and vtu files hold the same particles: the documented tank (fluid column, two wall layers, two dummy layers) on a regular lattice without duplicates, inside the domain of the matching sample settings, accepted by the loaders.",
 ["inputs","fault_sequences"],"all contents of standard input including end of file, all combinations of pre-existing files",
 "No test runs a generator or its dialogue.",
 ["generator/generator_src/generator_dialogue.cpp","generator/generate_dambreak.cpp","generator/generate_hydrostatic.cpp"],
 [("dialogue","generator/generator_src/generator_dialogue.cpp GeneratorDialogue::generatorDialogue")],
 None,["directory contents, prompt and exit of the generators"])

p("C25","prof_to_csv.sh converts every particle of a profile",
 "For any valid profile, scripts/prof_to_csv.sh produces a CSV file that the CSV loader reads as the same time and the same particles in the same order (type, position, velocity) as the profile loader reads from the profile, with or without a final newline and with blank lines between particles. With a wrong number of arguments it fails and writes nothing.",
 ["inputs"],"all valid profiles: particle counts, number notations, final newline present or absent, blank lines",
 "No test runs the script.",
 ["scripts/prof_to_csv.sh","src/particles_loader/csv.cpp","src/particles_loader/prof.cpp"],
 [("line conversion","scripts/prof_to_csv.sh")],
 None,["output of the script, loaded particles"])

p("C26","Results do not depend on the number of threads",
 "Built with OpenMP, a step gives bit-identical particle states and Courant number for every number of threads and every interleaving of their iterations as the serial build gives. No two threads access the same memory location without ordering when at least one of them writes it.",
 ["schedules","inputs"],"all thread counts and schedules of the parallel loops, all particle states and settings",
 "The tests run serially; the reference build has OpenMP switched off altogether.",
 ["src/mps.cpp","src/neighbor_searcher.cpp","src/bucket.cpp","src/pressure_calculator/implicit.cpp","src/pressure_calculator/explicit.cpp","src/pressure_calculator/pressure_poisson_equation.cpp","src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp"],
 [("parallel loops write only their own particle","#pragma omp parallel for in src"),("serial collision and minimum-pressure loops","src/mps.cpp collision, setMinimumPressure")],
 None,["particle states after steps under different thread counts and loop orders"])

p("C27","Runs are deterministic and a state alone determines its future",
 "Two runs of mps on the same input write byte-identical result files. The step from a state depends only on the settings and on each particle's type, position, velocity, density and fluid type: continuing from any intermediate state in a freshly constructed simulation gives bit-identical later states to the uninterrupted run, so no hidden state (acceleration, pressure, neighbour lists, matrices, classification) leaks from earlier steps.",
 ["histories","inputs","configurations"],"all inputs and settings, all steps at which the run is interrupted and resumed",
 "No test runs a time step.",
 ["src/mps.cpp","src/pressure_calculator/pressure_poisson_equation.cpp","src/neighbor_searcher.cpp","src/bucket.cpp","src/simulation.cpp"],
 [("per-step reset of derived state","src/mps.cpp, src/bucket.cpp, pressure_poisson_equation.cpp resetEquation")],
 [("derived per-particle and per-solver fields","recomputed every step","src/particle.hpp, src/pressure_calculator")],["particle states of the two runs","output files"])

p("C28","The physics is independent of frame, orientation and particle numbering",
 "Translating particles and domain together, mirroring or rotating them with velocities and gravity by multiples of 90 degrees about coordinate axes, adding a common velocity, or renumbering the particles, changes the result of a step only by that same transformation, up to rounding. In particular a 2D case stays exactly in its plane.",
 ["inputs","configurations"],"all settings and all states in which no particle has several simultaneous collisions (those are resolved in the order of the neighbour lists; common velocity: fluid-only states without gravity), all such transformations of them",
 "No test runs a time step or compares two related cases.",
 ["src/mps.cpp","src/bucket.cpp","src/neighbor_searcher.cpp","src/surface_detector/distribution.cpp","src/pressure_calculator/pressure_poisson_equation.cpp"],
 [("pair formulas in relative coordinates","src/mps.cpp, pressure_poisson_equation.cpp"),("cell index relative to the domain corner","src/bucket.cpp, src/neighbor_searcher.cpp")],
 None,["states of the original and the transformed case"])

p("C29","A regular lattice at rest without gravity stays at rest",
 "Fluid and wall particles placed on the regular lattice of the configured particle distance, at rest and without gravity, stay where they are: over any number of steps no position, velocity or pressure departs from its initial zero-load value by more than rounding, in 2D and 3D, with either pressure method and surface detector, for any block shape, wall layout, radii and density.",
 ["inputs","histories","configurations"],"all lattice blocks and wall layouts, spacings, radii, time steps, step counts",
 "No test runs a time step.",
 ["src/mps.cpp","src/refvalues.cpp","src/pressure_calculator/pressure_poisson_equation.cpp","src/pressure_calculator/explicit.cpp"],
 [("number density equal to the reference value inside the lattice","src/refvalues.cpp, src/mps.cpp calNumberDensity")],
 None,["particles after each step"])

p("C30","Runner scripts run the named case, keep its logs and touch nothing else",
 "scripts/runner.sh (case dambreak, results in result/dambreak) and scripts/safe_runner.sh (given project and optional note, results in a new directory result/<timestamp>-<project>-<note>, stamped with the second of the call), called from any directory and wherever the repository lies, run build/mps with the settings file of the case and that output directory, show its standard output and keep it in console.log and its standard error in error.log there, and end with success only if mps does. runner.sh removes the former content of result/dambreak first and changes nothing else; safe_runner.sh never removes or changes an existing file, also when called twice within a second, and without a project name it fails and makes nothing.",
 ["inputs","histories","configurations","fault_sequences"],"all locations of the repository and working directories, project names and notes (also with spaces or characters special to the shell), former contents of result, outputs and exit statuses of mps, sequences of calls",
 "No test runs a script.",
 ["scripts/runner.sh","scripts/safe_runner.sh"],
 [("change to the root directory and removal of old output","scripts/runner.sh"),("time-stamped output directory","scripts/safe_runner.sh")],
 None,["arguments, directory and output of the mps that is run","file tree before and after","exit status of the script"])

p("C31","The console log tells the true progress of the run",
 "For each completed time step mps prints one line on standard output with the number of the step counted from 1, the time step, the time reached, the end time, the number of outputs written before it and the Courant number of that step, each correct to the printed precision, and one line with the step and the time on standard error. START SIMULATION is printed once before the first step; END SIMULATION is printed once, after the last step, and only by a run that completes.",
 ["inputs","histories","configurations"],"all settings, particle sets, numbers of steps and output periods; runs that fail at any point",
 "No test runs the program or looks at its output.",
 ["src/simulation.cpp","src/simulation.hpp","src/saver.cpp"],
 [("report of a time step","src/simulation.cpp Simulation::timeStepReport"),("messages at the start and the end","src/simulation.cpp startSimulation, endSimulation")],
 [("timeStep, time","steps done and time reached","src/simulation.hpp"),("fileNumber","outputs written","src/saver.hpp")],["standard output","standard error"])

with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
import sys
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for d in P: jsonschema.validate(d,s)
    print(len(P),"ok")
except ImportError: print("no jsonschema")
for d in P:
    import re
    n=len(re.findall(r"[.!?](?:\s|$)",d["statement"].replace("e.g.","eg").replace("i.e.","ie")))
    if n>3: print(d["id"],n)
