# Properties of the settings, of the files, of the mesh, of the solvers (executed by gen_properties.py).
NA = {}

prop("C09", "Settings layers: the last definition of each key wins, the rest is inherited",
     "The settings a run uses are the built-in defaults, overridden key by key by the user's defaults file ($XDG_CONFIG_HOME/feellgood/default.yml, or ~/.config/feellgood/default.yml when that variable is unset or empty), overridden key by key by the given settings file or standard input. A key absent from a layer, or null there, keeps the value of the layers below, whatever other keys of the same section or region the layer defines; volume and surface regions take what they do not define from __default__. --verify reports, and a run uses, exactly these values.",
     ["configurations", "inputs"], "every distribution of every key over the three layers, every environment, every combination of regions",
     "The unit tests build the settings from one hard-coded document; no test has two layers, the environment or the command line.", ["src/settings.cpp", "src/main.cpp", "src/default-settings.yml"],
     [("layered reading", "settings.cpp: Settings::read"), ("user defaults", "main.cpp: get_user_defaults_filename")], [], ["--verify output", "verbose output of a run"])
prop("C10", "The report of --verify is a settings file defining the same settings",
     "Given any well-formed settings, the output of --verify is itself a well-formed settings file; giving it back to the program, without the user's defaults, defines the same value for every key that has an effect on the run: all digits of the numbers, strings with any characters, scripts, metadata, regions and their parameters, columns. The output depends only on the settings.",
     ["inputs", "configurations"], "every well-formed settings file",
     "No test runs --verify.", ["src/settings.cpp"], [("YAML writer", "settings.cpp: Settings::toYaml, str")], [], ["--verify output"])
prop("C11", "Malformed settings are refused before anything is computed or written",
     "Settings that are not valid (a value that cannot be converted to the type of its key, a vector that does not have three components, a section or region of the wrong kind, an unknown direction, an empty list of columns, a non-positive length unit, a mag_config_every that is neither an integer nor false, a script that does not compile, contradictory parameters, no settings at all) make both --verify and a run stop with a non-zero status, whichever layer they come from. No output file or directory is created.",
     ["inputs", "configurations"], "every malformed value of every key in either of the two upper layers",
     "No test gives malformed settings.", ["src/settings.cpp", "src/main.cpp", "src/expression_parser.cpp"],
     [("validation", "settings.cpp: Settings::read, assign, error")], [], ["exit status", "working directory"])
prop("C06", "Each row of the .evol file describes the state of the system at its time",
     "Each row has one value per configured column, in the configured order. The time, applied field, averages of the magnetization and of its time derivative over the magnetic volume or the named region, exchange, anisotropy, demagnetizing and Zeeman energies, their total, largest angle between adjacent nodes, Thiele length, time step and largest motion in it are those of the configuration saved at that time and of the step that led to it. A column name that is not defined, or that names an unknown region, makes the run fail.",
     ["inputs", "configurations", "histories"], "every mesh, magnetization, set of regions and parameters, applied field and list of columns, every row",
     "No test reads a .evol file; the tests of the energies evaluate one element at a time.", ["src/save.cpp", "src/energy.cpp", "src/tetra.cpp", "src/triangle.cpp", "src/mesh.cpp"],
     [("row", "save.cpp: Fem::saver"), ("energies", "energy.cpp: Fem::energy"), ("averages", "mesh.cpp: avg, thiele; mesh.h: max_angle")], [], [".evol rows", ".sol files"])
prop("C12", "A mesh is accepted if and only if it is a consistent tetrahedral mesh",
     "A run starts only if the mesh file has three-dimensional tetrahedral elements, triangles as only surface elements, every region of the settings, no flat element, no face shared by more than two tetrahedra, no surface triangle that is duplicated, belongs to no tetrahedron or lies inside one region. Any other mesh makes the program fail before it writes an output file; every mesh that fulfils this is accepted. Elements of groups that the settings do not name are ignored.",
     ["inputs"], "every mesh file and set of region names",
     "The tests load two valid meshes.", ["src/mesh.cpp", "src/read.cpp", "src/tetra.cpp", "src/meshUtils.h"],
     [("file checks", "read.cpp: checkMeshFile"), ("faces", "mesh.cpp: controlTriangles, assertNoErrInTriangle")], [], ["exit status", "output directory"])
prop("C13", "Missing boundary and interface surfaces are completed with default parameters",
     "Every face of a tetrahedron on the boundary of the mesh or between two regions that no triangle of the mesh file covers gets exactly one surface element, with the parameters of the default surface region, in a region named after the volume region or the pair of regions it bounds; the given triangles are kept as they are. So the magnetic charges and the surface energies do not depend on whether these faces are listed in the file, nor on the orientation of the triangles.",
     ["inputs"], "every valid mesh, partially or not at all covered with surface triangles, in any orientation",
     "One test counts the triangles of one mesh.", ["src/mesh.cpp"], [("completion", "mesh.cpp: controlTriangles, diffTriHandler")], [], ["verbose output", ".evol energies"])
prop("C15", "The geometry is that of the mesh file in the configured length unit",
     "Positions are the coordinates of the mesh file multiplied by the length unit. Numbers of nodes and elements, the total and per-region volumes, and all reported quantities follow from them: they do not depend on the order of the nodes of an element, or on where the mesh is in space, and scale as their physical dimension when the length unit changes.",
     ["inputs", "configurations"], "every mesh, position and length unit",
     "The tests use one mesh in one unit.", ["src/read.cpp", "src/mesh.h", "src/tetra.cpp", "src/triangle.cpp", "src/element.h"],
     [("nodes", "read.cpp: readNodes"), ("elements", "tetra.h: Tet, triangle.h: Tri"), ("volumes", "mesh.h: mesh::mesh")], [], ["verbose output", ".evol row 0"])
prop("C16", "The initial magnetization is the configured function, normalized, at every node",
     "Each node of a magnetic region starts with the direction given by the settings for it: the constant vector, the three expressions, or the function of its position in metres and, if it takes a fourth argument, of the names of all the regions the node belongs to. The value at a node does not depend on the other nodes, the numbering, or the order of the regions.",
     ["inputs", "configurations"], "every mesh, set of regions and initial magnetization",
     "The tests evaluate the expressions at one point, without a mesh.", ["src/mesh.h", "src/settings.h", "src/expression_parser.cpp"],
     [("distribution", "mesh.h: init_distrib"), ("evaluation", "settings.h: getMagnetization")], [], ["_iter0.sol"])
prop("C17", "A field varying in space and time acts everywhere with its local value",
     "When the applied field is the product of a function of space and a function of time, the Zeeman energy and the motion at every place are those of the local field at that time, with the same meaning and unit as a field given as a function of time only. Writing the same field in another way, for instance a constant function of space, changes nothing.",
     ["inputs", "configurations", "histories"], "every mesh, field, and time",
     "No test uses a field that varies in space with a mesh.", ["src/mesh.cpp", "src/energy.cpp", "src/linear_algebra.cpp", "src/settings.h", "src/tetra.cpp"],
     [("space part", "mesh.cpp: setExtSpaceField"), ("dynamics", "linear_algebra.cpp: prepareElements"), ("energy", "tetra.cpp: zeemanEnergy")], [], [".evol E_zeeman", ".sol files"])
prop("C28", "The magnetization is a unit vector on magnetic nodes and undefined elsewhere",
     "In every saved configuration, at any time of any run, the magnetization of every node that belongs to a magnetic region has unit norm, and that of every other node is reported as nan.",
     ["inputs", "configurations", "histories"], "every mesh with magnetic and non-magnetic regions, initial magnetization, number of steps",
     "The tests check the norm after one step of one node.", ["src/node.h", "src/mesh.h", "src/solver.h", "src/linear_algebra.cpp"],
     [("update", "node.h: make_evol"), ("initial state", "mesh.h: init_distrib")], [], [".sol files"])
prop("C07", "A saved configuration loads back as it was saved, and a damaged one is refused",
     "Giving a .sol file as the initial magnetization starts the run from the magnetization saved in it: each node of the mesh, in the numbering of the mesh file, gets the value of its row, so saving at once gives the same rows (to the digits saved, nan on the nodes that are not magnetic) and the same magnetic potential. A file that is not a header with the time followed by exactly one complete row per node in increasing order makes the run fail before any output file is written.",
     ["inputs", "histories"], "every configuration saved by a run on every mesh, and every file",
     "The tests read one valid file.", ["src/read.cpp", "src/save.cpp", "src/mesh.cpp", "src/mesh.h"],
     [("load", "mesh.cpp: readSol"), ("save", "mesh.cpp: savesol")], [], [".sol files", "exit status"])
prop("C08", "A run starts at the configured time or at the time of the loaded configuration",
     "The first row and first saved configuration of a run carry its start time: initial_time when it is given; otherwise the time in the header of the loaded .sol file; otherwise zero. A run resumed from a saved configuration continues the evolution: it reports the same times, and, to the accuracy of the time steps and of the saved digits, the same magnetization as the uninterrupted run.",
     ["configurations", "histories"], "every start time, loaded file, point of resumption, time-dependent field",
     "No test starts from a file or resumes.", ["src/main.cpp", "src/read.cpp", "src/time_integration.cpp", "src/mesh.cpp"],
     [("start time", "main.cpp: main; mesh.cpp: readSol")], [], [".evol rows", ".sol headers"])
prop("C14", "The results do not depend on how the system is described",
     "Describing the same physical system in another way gives the same results: another numbering of the nodes, order of the nodes, elements or regions in the files, orientation of the surface triangles, number of threads, division of a region into several with the same parameters, position of the mesh in space, or a rotation of the mesh together with all its directions (fields, axes, magnetization). Rows and saved configurations agree node by node at every saved time, vectors being rotated and .sol rows following the numbering of the mesh file, within the accuracy of the solvers.",
     ["inputs", "configurations", "schedules", "histories"], "every system and every such transformation of its description, at every time of a run",
     "Tests never run the same system twice.", ["src/mesh.cpp", "src/mesh.h", "src/read.cpp", "src/save.cpp", "src/linear_algebra.cpp", "src/fmm_demag.h", "src/tetra.cpp", "src/triangle.cpp"],
     [("node order", "mesh.h: sortNodes, node_index"), ("assembly", "linear_algebra.cpp: prepareElements, solve"), ("charges", "fmm_demag.h")], [], [".evol rows", ".sol files"])
prop("C27", "The demagnetizing field obeys magnetostatics",
     "The magnetic potential is that of the volume and surface charges of the magnetization: it is linear in the sources (the potentials of systems whose charges cancel, cancel: over regions, surfaces with suppressed charges, directions of magnetization); far away it tends to the potential of the dipole moment; the demagnetizing factors of a body are positive and sum to one as the mesh is refined; its energy is the same for a rotated, translated, renumbered or divided body, and scales with the volume and Ms squared.",
     ["inputs", "configurations"], "every mesh, magnetization, regions and surfaces",
     "The tests compute the potential of no mesh.", ["src/fmm_demag.h", "src/tetra.cpp", "src/triangle.cpp", "src/mesh.cpp", "src/energy.cpp"],
     [("charges", "tetra.cpp: Tet::charges; triangle.cpp: Tri::charges, potential"), ("sum", "fmm_demag.h: calc_demag"), ("surfaces", "mesh.cpp: controlTriangles")], [], [".sol potential", ".evol E_demag"])
prop("C29", "The magnetization moves according to the Landau-Lifshitz-Gilbert equation",
     "In a time step, every magnetic node moves with the velocity given by the Landau-Lifshitz-Gilbert equation with the damping of its region and an effective field that is the derivative of the energies reported: exchange, uniaxial, cubic and surface anisotropy, demagnetizing and applied field. At nodes shared by several regions each contributes with its volume. This holds for each term alone and together, in any units.",
     ["inputs", "configurations", "histories"], "every mesh, set of regions and parameters, magnetization and applied field",
     "The tests evaluate the matrices of one element against a copy of the formulas.", ["src/tetra.cpp", "src/triangle.cpp", "src/linear_algebra.cpp", "src/solver.h", "src/node.h", "src/mesh.cpp"],
     [("volume terms", "tetra.cpp: Tet::integrales"), ("surface term", "triangle.cpp: Tri::integrales"), ("assembly", "linear_algebra.cpp: solve; solver.h: buildMat, buildVect"), ("update", "node.h: make_evol")], [], [".sol files"])
prop("C30", "Damping dissipates the energy, and the motion converges with the time step",
     "In a field constant in time the total energy decreases from row to row, by the amount that the damping dissipates in the motion between them. The configuration reached at a given time converges when the time step decreases; for a uniform magnetization in a uniform material and damping not small, the error is of second order in the time step.",
     ["inputs", "configurations", "histories"], "every system, damping and sequence of time steps",
     "The tests integrate no trajectory.", ["src/tetra.cpp", "src/time_integration.cpp", "src/time_integration.h", "src/linear_algebra.cpp", "src/energy.cpp"],
     [("scheme", "tetra.cpp: Tet::integrales, calc_alpha_eff"), ("steps", "time_integration.cpp: time_integration")], [], [".evol E_tot", ".sol files"])
prop("C21", "The electric potential conserves the current",
     "When the spin accumulation is enabled, the potential saved in _V.sol takes the given value on every node of the surface of given potential, and at every other node the current flowing out through the tetrahedra (conductivity of their region times the gradient) is the current injected by the surface of given normal current density: nothing is lost between regions of different conductivities, at edges, corners or partly covered faces. Such a run with correct conditions completes.",
     ["inputs", "configurations"], "every mesh, set of regions, conductivities, surfaces and scales",
     "The test of the solver uses one mesh and compares with a formula in one dimension.", ["src/electrostatSolver.h", "src/electrostatSolver.cpp", "src/solver.h", "src/algebra/cg.h", "src/save.cpp"],
     [("equation", "electrostatSolver.cpp: integrales, solve"), ("given values", "electrostatSolver: boundary conditions"), ("save", "electrostatSolver: save")], [], ["_V.sol", "exit status"])
prop("C22", "The spin accumulation obeys the diffusion equation and acts as a field",
     "At t=0 and in every later saved configuration, the spin accumulation saved with the magnetization is the solution, for that magnetization, of the diffusion equation (diffusion, spin-flip relaxation, precession around the magnetization, source P sigma grad V m in the magnetic regions) with the given values on the two surfaces that set it. It acts on the magnetization as a field D s / (l_sd^2 gamma0 Ms), without making the integration unstable. Boundary conditions other than one surface of given current, one of given potential and one of given spin accumulation, or invalid P or density of states, are refused before any row is written.",
     ["inputs", "configurations", "histories"], "every mesh, set of regions, parameters, boundary conditions, magnetization and number of steps",
     "No test runs the spin accumulation with a moving magnetization.", ["src/spinAccumulationSolver.cpp", "src/spinAccumulationSolver.h", "src/tetra.cpp", "src/fem.h", "src/algebra/bicg.h"],
     [("equation", "spinAccumulationSolver.cpp: integrales, solve"), ("given values", "spinAccumulationSolver.cpp: boundaryConditions, checkBoundaryConditions"), ("field", "tetra.cpp: calc_Hst, Tet::integrales"), ("when", "fem.h: compute_all")], [], [".sol spin columns", "motion", "exit status"])
prop("C23", "Recentering translates the wall to the middle, and does nothing otherwise",
     "With recentering enabled, whenever after a time step the average magnetization along the given direction reaches the threshold in absolute value, the state from which the next step starts is the magnetization translated along that direction by half the length of the mesh times that average, towards the middle: each magnetic node has the magnetization of the magnetic node nearest to where the translation comes from, and nodes beyond an end that of the end. Below the threshold, or when disabled, it changes nothing. If the two ends have the same sign the run fails.",
     ["inputs", "configurations", "histories"], "every mesh of a wire, wall, direction, threshold, regions (also non-magnetic ones)",
     "No test recenters.", ["src/recentering.cpp", "src/fem.h", "src/mesh.h", "src/time_integration.cpp", "src/settings.cpp"],
     [("translation", "recentering.cpp: recenter"), ("nodes", "fem.h: Fem"), ("when", "time_integration.cpp: time_integration")], [], [".sol files", "exit status"])
prop("C25", "The command line does what it announces, and nothing else",
     "Options come first, then one settings file, or - for the standard input. Help, version, print-defaults and print-template, in that order of precedence, print and exit with status 0 whatever else is given; --verify prints the settings and exits, with a non-zero status if they are refused; a wrong command line, missing, empty or refused settings, or an output directory that is a file or cannot be made give a non-zero status and a message. None of these creates or changes any file. Otherwise the simulation runs with the settings, completed by the personal defaults (in XDG_CONFIG_HOME, or HOME/.config when that is unset or empty), creates the directory if needed and changes only its own files there. The seed, the verbosity and the way the settings are given do not change the results.",
     ["inputs", "configurations"], "every command line, settings, personal defaults and state of the output directory",
     "No test runs the program.", ["src/main.cpp", "src/settings.cpp"],
     [("options", "main.cpp: parseOptions"), ("directory", "main.cpp: create_dir_if_needed"), ("personal defaults", "main.cpp: get_user_defaults_filename; settings.cpp: read")], [], ["exit status", "standard output", "files"])
