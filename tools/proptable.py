prop('P03', 'Contact constraints have the correct geometry',
     'For any two particles closer than their contact buffers a contact constraint is produced, and for any two farther apart none. Its separation is the distance between the surfaces, its two normals are opposite unit vectors along the shortest line between the centre lines, its contact points lie on the centre lines and are also given relative to the particle centres, and it carries the ids of the pair in the order asked for.',
     ['inputs'], 'all positions, directions, sizes and buffers of two particles, each a sphere or a rod',
     'the near test compares a few random rods with a reference distance and never inspects normals, points or sphere cases',
     [NEAR], [('sphere-sphere', NEAR + ' sp_sp'), ('sphere-rod', NEAR + ' sp_sy'), ('rod-rod', NEAR + ' sy_sy')])
prop('P04', 'Every close pair is examined exactly once',
     'Among the neighbours offered by the spatial search each unordered pair of distinct particles is turned into at most one contact constraint, by the query that fits the two shapes. The search radius covers every pair that can be in contact, and the data seen by the search are those of the particle. The sweep runs over the current particles and puts every contact into the pool the solver reads.',
     ['inputs', 'schedules'], 'all particle sets, all neighbour lists and thread counts',
     'no existing test enumerates pairs or checks the search radius', [NEAR],
     [('pair loop', NEAR + ' operator()'), ('search radius', NEAR + ' getRSearch'), ('essential particle', NEAR + ' copyFromFP')])
prop('P12', 'Mobility of a particle follows its shape and the viscosity',
     'The translational mobility is 1/zeta_par along and 1/zeta_perp across the axis with the slender rod drag for rods and the Stokes drag for spheres, the rotational mobility is 1/zeta_rot, and an immovable particle has zero mobility. The assembled mobility is symmetric block diagonal, one 6x6 block per particle.',
     ['inputs', 'configurations'], 'all sizes, orientations, viscosities and particle counts', 'no test builds the mobility',
     ['Sylinder/Sylinder.cpp', SYS], [('drag', 'Sylinder/Sylinder.cpp calcDragCoeff'), ('matrix', SYS + ' calcMobMatrix')])
prop('P13', 'Velocities and forces are the sum of their parts',
     'The velocity and force recorded for a particle are the sums of the given, thermal, contact and link parts, each stored on the particle it belongs to. The velocity before constraints is mobility times given force plus given velocity plus thermal velocity, and in a monolayer none of the parts moves a particle out of plane.',
     ['inputs', 'configurations', 'histories'], 'all particle data, given forces and velocities, with and without thermal noise and monolayer',
     'no test runs a step', [SYS, 'Sylinder/Sylinder.cpp'],
     [('sum', SYS + ' sumForceVelocity'), ('non constraint velocity', SYS + ' calcVelocityNonCon'), ('write back', SYS + ' saveForceVelocityConstraints')])
prop('P14', 'A time step runs its phases in order on consistent data',
     'Each step wraps positions, redistributes and re-indexes the particles, clears per-step state, applies collision sizes, rebuilds the lookup directory and mobility, then determines thermal, given and constraint velocities, sums them, writes a due snapshot before moving, moves, and counts the step. A snapshot is due every round(interval/dt) steps, at least one.',
     ['histories', 'configurations'], 'all step counts, snapshot intervals and switches', 'no test runs the step loop',
     [SYS], [('preparation', SYS + ' prepareStep'), ('step', SYS + ' runStep'), ('resolution', SYS + ' resolveConstraints')])
prop('P15', 'Particles move by their velocity and keep a unit orientation',
     'A step displaces every particle by velocity times the step length and rotates it about the angular velocity by |omega| times the step length, keeping the orientation a unit quaternion. When particles are held fixed nothing moves.',
     ['inputs', 'configurations'], 'all velocities, orientations and step lengths', 'no test moves a particle',
     ['Sylinder/Sylinder.cpp', 'Util/EquatnHelper.hpp', SYS], [('step', 'Sylinder/Sylinder.cpp stepEuler'), ('rotation', 'Util/EquatnHelper.hpp rotateEquatn')])
prop('P29', 'Collision stress is symmetric in the pair and matches the virial',
     'The stress of a contact per unit force is the virial of the two opposite unit forces at the particle centres plus the rotational contribution of the torques through the mass and inertia tensors of the two sphero-cylinders.',
     ['inputs'], 'all sizes, directions, positions and contact points', 'no test evaluates the stress', [NEAR],
     [('stress', NEAR + ' collideStress')])
prop('P06', 'Contacts with boundaries are complete and correctly oriented',
     'For every configured boundary and every particle, each collision end point (or the centre, for a sphere-like particle) outside the boundary or closer than its collision radius plus buffer gives exactly one one-sided contact, with gap = signed distance minus radius, normal along the projection direction and lever arm from the particle centre.',
     ['inputs', 'configurations'], 'all boundaries, particle shapes and buffers', 'no test collects boundary contacts', [SYS],
     [('contact', SYS + ' collectBoundaryCollision')])
prop('P20', 'Thermal velocities have the mobility-consistent covariance',
     'The thermal velocity of every particle is a Cholesky factor of its translational mobility (and the square root of its rotational mobility) times sqrt(2kT/dt) times independent unit normals drawn from the calling thread\'s own stream, plus the random-finite-difference drift of the mobility. An immovable particle gets none. Every rank and thread draws from its own sub-stream of one generator with the given seed, and no two of them share one; a draw is of the distribution its name says, from the engine of the thread asked for.',
     ['inputs', 'configurations'], 'all orientations, drag coefficients, temperatures and steps', 'no test evaluates thermal velocities', [SYS, 'Util/TRngPool.hpp'],
     [('velocity', SYS + ' calcVelocityBrown'), ('streams', 'Util/TRngPool.hpp TRngPool')])
prop('P25', 'Global statistics reduce the right local quantity over all ranks',
     'The bounding box is the extremes over both end points of every particle, locally and over all ranks; the largest id is taken over every particle, locally and over all ranks. The reported volume fraction is the summed sphero-cylinder volume over the box volume; the order parameter is the mean direction and the mean of pp - 1/3; the recorded collision stress is the sum over all constraints of all ranks divided by n kT.',
     ['inputs'], 'all particle sets', 'no test calls the statistics functions', [SYS],
     [('box', SYS + ' calcBoundingBox'), ('gid', SYS + ' getMaxGid'), ('statistics', SYS + ' calcVolFrac, calcOrderParameter, calcConStress')])
prop('P22', 'Added particles get unique ids and added links reach every rank',
     'New particles get ids that are exactly the numbers after the largest id in use anywhere, one per new particle over all ranks, and are appended with their own data; the ids are returned in order. A new link is added on every rank to the forward and the reverse map unless that pair is already linked.',
     ['inputs', 'histories'], 'all numbers of ranks, all additions', 'no test adds particles or links', [SYS],
     [('particles', SYS + ' addNewSylinder'), ('links', SYS + ' addNewLink')])
prop('P23', 'The domain and the initial configuration follow the settings',
     'The periodic directions and the box of the domain are those of the settings. The neighbour tree has room for twice the particles and is rebuilt when they outgrow it by half. Without a configuration file, rank 0 creates the requested number of particles, uniformly inside the initial box, with the configured or log-normal length (below half the shortest edge), radius, id in order, and fixed or random orientation; the circular option moves them into the inscribed circle. Every particle records its owner rank.',
     ['inputs', 'configurations'], 'all settings and random draws', 'no test creates an initial configuration', [SYS, 'Util/GeoUtil.hpp', 'Util/EquatnHelper.hpp'],
     [('domain', SYS + ' setDomainInfo'), ('tree', SYS + ' setTreeSylinder'), ('initial', SYS + ' setInitialFromConfig, getOrient, setInitialCircularCrossSection')])
prop('P05', 'Boundary projections return the nearest surface point and the allowed side',
     'For a wall, a tube and a spherical shell, the projection is the nearest point of the surface, the returned vector spans query and projection and points to the side where particles are allowed. Construction stores centre, axis and side, with unit normals.',
     ['inputs', 'configurations'], 'all queries and boundary parameters', 'the tests sample random points of fixed shapes', ['Boundary/Boundary.cpp'],
     [('wall', 'Boundary/Boundary.cpp Wall::project'), ('tube', 'Boundary/Boundary.cpp Tube::project'), ('sphere', 'Boundary/Boundary.cpp SphereShell::project')])
prop('P07', 'Every link becomes a spring between plus and minus ends of nearest images',
     'For every local particle and every link starting at it there is exactly one two-sided constraint between its plus end and the minus end of the nearest periodic image of the linked particle, with rest length = radii plus link gap, the configured stiffness, opposite unit normals, lever arms from the particle centres and the stress of that pair.',
     ['inputs', 'configurations'], 'all link maps, box shapes and positions', 'no test collects links', [SYS, 'Util/GeoUtil.hpp'],
     [('links', SYS + ' collectLinkBilateral'), ('images', 'Util/GeoUtil.hpp findPBCImage')])
prop('P19', 'Settings are read from the right keys, with documented defaults',
     'Each setting takes the value of its own key in the input file. A missing required key or a vector of the wrong length stops the program. A missing optional key gives the documented default. Every listed boundary of a known type is created with its own parameters, in order.',
     ['inputs', 'configurations'], 'all input files', 'the tests read one file', ['Sylinder/SylinderConfig.cpp', 'Util/YamlHelper.hpp', 'Boundary/Boundary.cpp'],
     [('settings', 'Sylinder/SylinderConfig.cpp SylinderConfig'), ('reader', 'Util/YamlHelper.hpp readConfig')])
CON = 'Constraint/ConstraintCollector.cpp'
prop('P08', 'The constraint matrix and vectors hold exactly the collected constraints',
     'Every collected constraint is one row of the transposed matrix, in queue order: 6 entries (direction and lever arm x direction) per body, one body for one-sided and two for two-sided constraints, in the columns of those bodies, with a column map covering the local and all used columns. Gap, guess, inverse stiffness and two-sided flag of a row belong to that constraint. Solved forces and stresses are written back to the constraint they belong to, and the stress sums count each contact once in the right class.',
     ['inputs', 'histories'], 'all queue contents, queue counts and map ranges', 'no test assembles constraints from several queues',
     [CON, 'Constraint/ConstraintCollector.hpp'],
     [('assembly', CON + ' buildConstraintMatrixVector'), ('offsets', CON + ' buildConIndex'), ('write back', CON + ' writeBackGamma'), ('stress', CON + ' sumLocalConstraintStress')])
OPR = 'Constraint/ConstraintOperator.cpp'
prop('P09', 'The constraint operator applies D^T M D plus the inverse stiffness',
     'Applying the operator to X yields beta Y + alpha (D^T M D + K^-1) X for every alpha and beta, leaving D X and M D X of that X available, where D is the transpose of the assembled matrix, M the mobility operator and K^-1 the scaled inverse stiffness. Domain and range are the map of the constraints.',
     ['inputs', 'histories'], 'all matrices, operators, vectors and scalars', 'no test applies the operator', [OPR],
     [('construction', OPR + ' ConstraintOperator'), ('application', OPR + ' apply')])
SOL = 'Constraint/ConstraintSolver.cpp'
prop('P11', 'The constraint problem and the split of its solution are consistent',
     'The problem solved is 1/2 g (D^T M D + K^-1/dt) g + (gap/dt + D^T v) g, bounded below by 0 for one-sided and -1e8 for two-sided constraints, by the configured solver, tolerance and iteration limit. The two-sided force and velocity are those of the two-sided part of the returned solution, the one-sided ones the rest of D g and M D g of that solution, and that solution is written back to the constraints.',
     ['inputs', 'configurations', 'histories'], 'all constraint sets, solver choices and steps', 'no test solves collected constraints',
     [SOL, 'Constraint/ConstraintSolver.hpp'],
     [('problem', SOL + ' setup'), ('solution', SOL + ' solveConstraints'), ('write back', SOL + ' writebackGamma')])
prop('P17', 'Snapshot pieces hold every field of every particle; headers announce the same',
     'Each snapshot piece is one line per local particle, from its minus to its plus end, and per constraint, with every recorded field of that particle or constraint in an array of its name, type and number of components. The parallel header lists the same arrays with the same types and components in the same order, and one piece per rank under the name that rank writes.',
     ['inputs', 'configurations'], 'all particle sets, constraint queues, names and rank counts', 'no test writes a snapshot',
     ['Sylinder/Sylinder.hpp', CON, 'Util/IOHelper.hpp'],
     [('particles', 'Sylinder/Sylinder.hpp writeVTP, writePVTP'), ('constraints', CON + ' writeVTP, writePVTP')])
prop('P16', 'A restart continues from the last complete snapshot',
     'The restart record (seed, step count, snapshot number, snapshot file name) is written by one rank only after every rank has finished the files of that snapshot, so it always names a complete one. A restart reads the record back, takes every particle field from the arrays of that snapshot and the links from its text file, performs the Euler step that was pending, continues the counters after the recorded ones and draws from a new seed. Reader and writer agree on the folder of a snapshot.',
     ['histories', 'crash points', 'configurations'], 'all snapshots, rank counts and points of interruption', 'no test restarts', [SYS],
     [('record', SYS + ' writeTimeStepInfo, writeResult'), ('restart', SYS + ' reinitialize, setInitialFromVTKFile'), ('folder', SYS + ' getResultFolderWithID')])
prop('P18', 'Particles and links survive the text files',
     'A particle is one line: type (S if immovable, else C), id, radius, minus end, plus end and group, with enough digits; a link is one line L with its two ids. The initial-configuration reader inverts it: length and direction are those of the two ends, the centre is their middle, link lines fill both link maps on every rank, other lines are skipped. The box file holds the box.',
     ['inputs'], 'all particle and link sets and all text files', 'no test reads or writes the text files',
     ['Sylinder/Sylinder.cpp', SYS],
     [('writer', 'Sylinder/Sylinder.cpp writeAscii'), ('files', SYS + ' writeAscii, writeBox'), ('reader', SYS + ' setInitialFromFile, setLinkMapFromFile')])
prop('P24', 'Closest points of segments are exact for every pair, degenerate ones included',
     'For a point and a segment, and for two segments in space, the returned distance is the minimum over the whole segments, the returned points and parameters (in [0,1]) attain it, and the points lie on their segments: for crossing, skew, touching, end-to-end, parallel and zero-length segments alike. Where the minimum is not unique (parallel segments) the middle of the candidates is returned.',
     ['inputs'], 'all end points', 'the tests sample random segments and accept any of several cases', ['Collision/DCPQuery.hpp'],
     [('point', 'Collision/DCPQuery.hpp DistPointSeg'), ('segments', 'Collision/DCPQuery.hpp DCPQuery::operator()')])
prop('P21', 'Data exchange delivers every item to its destination and nothing else',
     'The all-to-all exchange sorts items stably by destination, announces counts and displacements that agree on both sides, and returns all received items with their source ranks in rank order, moving whole items. The mixed target/source system holds every target, then every source, each with its own kind, data, radius and position inside the root domain; it is rebuilt, by a collective decision, when it outgrows its tree, and returns for each target, in order, its own result. The distributed directory registers every local id with its own data and fills the data of every requested id; a failed registration stops the program.',
     ['inputs', 'histories'], 'all item lists, destinations and rank counts', 'the tests use one or few ranks and trivial payloads',
     ['MPI/CommMPI.hpp', 'MPI/MixPairInteraction.hpp', 'Trilinos/ZDD.hpp'],
     [('exchange', 'MPI/CommMPI.hpp'), ('pair system', 'MPI/MixPairInteraction.hpp'), ('directory', 'Trilinos/ZDD.hpp')])
prop('P30', 'Sorting by tag keeps each item with its tag, in stable order',
     'After sorting a data list by a list of tags, both lists hold the same (tag, item) pairs as before, in non-decreasing order of tag, with pairs of equal tag in their original order.',
     ['inputs'], 'all lists and tags', 'the test sorts one list with unique tags', ['Util/SortUtil.hpp'],
     [('sorting', 'Util/SortUtil.hpp sortDataWithTag')])
prop('P26', 'Distributed maps and vectors hold what they are built from',
     'A map of a local size or of a list of indices has exactly these; a map of two contiguous blocks has on every rank the indices of the first, then those of the second shifted by the global size of the first, and refuses blocks that are not contiguous; a vector of two blocks holds the first and then the second; a vector of a local list holds that list, in order. Linear solvers apply an operator with the transposition they asked for.',
     ['inputs'], 'all sizes, index lists and vectors', 'the tests use a few sizes and ranks', ['Trilinos/TpetraUtil.cpp'],
     [('maps', 'Trilinos/TpetraUtil.cpp getTMAP*'), ('vectors', 'Trilinos/TpetraUtil.cpp getTVFrom*')])
prop('P31', 'Orientations stay unit quaternions turned as asked; random placement is uniform',
     'Turning an orientation by angular velocity w over dt multiplies it by the rotation of angle |w| dt about w and returns a unit quaternion; a vanishing turn rate leaves it unchanged. The rate and cross product matrices are those of quaternion and vector products. Three uniform numbers give a uniformly distributed orientation; two give a point uniformly in a disc of the radius or on a sphere.',
     ['inputs'], 'all orientations, rates, steps and uniform numbers', 'the tests sample a few rotations', ['Util/EquatnHelper.hpp', 'Util/GeoUtil.hpp'],
     [('orientation', 'Util/EquatnHelper.hpp'), ('placement', 'Util/GeoUtil.hpp getRandPoint*')])
prop('P32', 'Point lists are split over and gathered from the ranks without loss',
     'Splitting a list held by rank 0 gives every rank consecutive points, in rank order, that together are the list; gathering gives rank 0 all points in rank order and, where asked, every rank. Scaling maps every coordinate to scale * x + shift. A dump has one line per point with its coordinates and its values; a value list of the wrong size stops the program.',
     ['inputs', 'configurations'], 'all lists, dimensions and rank counts', 'no test uses these helpers', ['Util/PointDistribution.cpp'],
     [('exchange', 'Util/PointDistribution.cpp distributePts, collectPts, collectPtsAll'), ('points', 'Util/PointDistribution.cpp shiftAndScalePoints, fixedPoints, dumpPoints')])
prop('P27', 'Binary data arrays decode to exactly the bytes written',
     'Every byte sequence is written as its base64 text: groups of three bytes as four digits of the standard alphabet, a remainder of one or two bytes padded with =, nothing else appended but the optional end mark; the number of characters is returned. The decoding table inverts the alphabet, and four digits give back the bytes they encode. A data array is its length in bytes (32 bit) followed by all its bytes.',
     ['inputs'], 'all byte sequences and arrays', 'no test decodes what was written', ['Util/Base64.hpp', 'Util/Base64.cpp'],
     [('coding', 'Util/Base64.hpp kwsysBase64_Encode, kwsysBase64_Decode3'), ('tables', 'Util/Base64.cpp'), ('arrays', 'Util/Base64.hpp getBase64FromVector')])
prop('P01', 'Threads never touch the same data without ordering',
     'In every OpenMP region, and in the pair functor that the tree code runs on all threads, two threads never access the same location without ordering when one of them writes: what an iteration writes belongs to that iteration or thread, goes through a matching reduction, or is guarded by one lock. Results therefore do not depend on thread timing.',
     ['schedules', 'configurations'], 'every interleaving of the threads of every region, for all thread counts and inputs',
     'a race shows only under particular timings; the tests run few threads on small inputs',
     [SYS, 'Constraint/ConstraintCollector.cpp', 'Constraint/BCQPSolver.cpp', 'MPI/CommMPI.hpp', 'MPI/MixPairInteraction.hpp', 'Util/TRngPool.hpp'],
     [('system', SYS + ' omp regions'), ('collector', 'Constraint/ConstraintCollector.cpp omp regions'), ('pair functor', NEAR + ' operator()')],
     tech='interprocedural access analysis of the OpenMP regions with index ownership, locks, phases and reductions')
prop('P02', 'Every rank makes the same collective calls',
     'Each collective operation (reductions, barriers, gathers, exchanges, building distributed maps and matrices, norms, products, particle exchange and force calculation) is reached by every rank or by none, in the same order and number of times: no such call depends on the rank, on local particles or data, or on anything else that may differ between ranks. Hence no run hangs with some ranks waiting.',
     ['configurations', 'inputs', 'histories'], 'all rank counts, particle distributions (including ranks without particles) and histories',
     'the tests run on one rank, where nothing can hang',
     [SYS, 'Constraint/BCQPSolver.cpp', 'Collision/CPSolver.cpp', 'MPI/CommMPI.hpp', 'MPI/MixPairInteraction.hpp', 'Trilinos/ZDD.hpp', 'Util/PointDistribution.cpp'],
     [('system', SYS + ' reductions, barriers and output'), ('solver loops', 'Constraint/BCQPSolver.cpp solveBBPGD, solveAPGD'), ('point lists', 'Util/PointDistribution.cpp collectPts')],
     tech='interprocedural tracking of rank-dependent data into the control dependence of collective calls')

prop('P10', 'The constraint solver returns the feasible iterate whose residual it reports',
     'Projection puts every entry into [lower, upper]; the residual is the norm of the gradient A x + b restricted to directions that stay within the bounds, and is evaluated at an iterate with the gradient of that very iterate. Every iterate is the projection of y - t (A y + b), with t an inverse Rayleigh quotient of A (Barzilai-Borwein), 1/|projected gradient| at the start, or 1/L for an L that passed the sufficient decrease test. Success (0) before the iteration limit means a residual below the tolerance. Once an iteration was made, a successful return hands back a vector within the bounds whose residual is not above the last one recorded. Each record counts iterations and operator applications correctly. Bounds that were not set default to -+ the largest number / 10.',
     ['inputs', 'histories'], 'all operators, right sides, bounds, initial guesses, tolerances and iteration limits', 'no stable test runs this solver; a test would sample a few problems', ['Constraint/BCQPSolver.cpp', 'Constraint/BCQPSolver.hpp'],
     [('iterations', 'Constraint/BCQPSolver.cpp solveBBPGD, solveAPGD'), ('projection', 'Constraint/BCQPSolver.cpp boundProjection'), ('residual', 'Constraint/BCQPSolver.cpp checkProjectionResidual')],
     tech='abstract interpretation of the solver loops over linear relations between vectors (fixed point), and conformance by gated value numbering for the kernels')
prop('P28', 'The complementarity solver returns the iterate whose residual it reports',
     'For LCP_BBPGD and LCP_APGD: the residual is |min(x, A x + b)| evaluated at an iterate with the gradient of that very iterate; every iterate is max(0, y - t (A y + b)) with t an inverse Rayleigh quotient of A or 1/L for an L that passed the sufficient decrease test; the returned vector is not negative (unless it is the initial guess) and its residual is not above the last one recorded, which is below the tolerance unless the iteration limit was reached; no division by a norm or product that can be zero. Projection, minimum map and mask act entry by entry. The operator of the problem applies D, then the mobility, then D^T.',
     ['inputs', 'histories'], 'all operators, right sides, initial guesses, tolerances and iteration limits', 'the stable test runs one random problem and checks no result', ['Collision/CPSolver.cpp', 'Collision/CPSolver.hpp'],
     [('iterations', 'Collision/CPSolver.cpp LCP_BBPGD, LCP_APGD'), ('residual', 'Collision/CPSolver.cpp checkResiduePhi'), ('operator', 'Collision/CPSolver.hpp CPMatOp')],
     tech='abstract interpretation of the solver loops over linear relations between vectors (fixed point), and conformance by gated value numbering for the kernels')

prop('P33', 'Accessors and constructors hand over exactly the state they name',
     'A host program reads through every accessor of the simulation and of the constraint operator the vector, operator, map, container, counter or pool of that name; the particle library sees, and moves, the position and id of the particle. A new particle has the given id, radii, lengths, position and orientation (the origin, unturned, by default), is free to move, belongs to no group and carries no force or velocity. Making a system from a file or from settings is the same as initialising one with them.',
     ['inputs', 'histories'], 'all states and arguments', 'tests check no accessor of the simulation', [SYS, 'Sylinder/SylinderSystem.hpp', 'Sylinder/Sylinder.cpp', NEAR],
     [('accessors', 'Sylinder/SylinderSystem.hpp get*'), ('particle interface', 'Sylinder/Sylinder.hpp getPos, setPos, getGid'), ('new particle', 'Sylinder/Sylinder.cpp Sylinder::Sylinder')])
prop('P34', 'The program resumes an interrupted run and steps until the total time',
     'The main program starts MPI and the particle library before, and ends them after, everything else. It continues from the restart file when there is one, moving the stored configuration by one step first, and starts from the initial file otherwise, both with RunConfig.yaml. It then repeats prepare, run, order parameter and stress, in this order, exactly while steps made times dt is less than the total time, and returns 0.',
     ['inputs', 'histories', 'crash_points'], 'all settings, restart states and numbers of steps', 'no test runs the main program', ['Sylinder/SylinderSystem_main.cpp'],
     [('driver', 'Sylinder/SylinderSystem_main.cpp main')],
     tech='regular language of the calls and guards of the driver (helpers inlined), compared as automata with the reference driver')
