def na(i, title, statement, over, text, why, files, mech, reason):
    NA[i] = dict(id=i, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), reason=reason)


na('N01', 'Constraint solvers converge within the iteration limit',
   'For every symmetric positive semi definite constraint problem the iterative solvers reach the requested residual before the configured iteration limit.',
   ['inputs', 'configurations'], 'every problem matrix, right hand side and tolerance',
   'the tests solve a few small random problems', ['Constraint/BCQPSolver.cpp', 'Collision/CPSolver.cpp'],
   [('iteration loops', 'Constraint/BCQPSolver.cpp'), ('iteration loops', 'Collision/CPSolver.cpp')],
   'the number of iterations is a function of the spectrum of a runtime matrix; no argument on the shape of the code bounds it')
na('N02', 'No residual overlap after a resolved step',
   'After a time step without thermal noise, no two particles overlap by more than the solver tolerance.',
   ['inputs', 'histories'], 'every particle configuration and step history',
   'no test measures the overlap after a step', ['Sylinder/SylinderSystem.cpp', 'Constraint/ConstraintSolver.cpp'],
   [('linearised constraints', 'Constraint/ConstraintOperator.cpp')],
   'the constraints are linearised in the displacement; the remaining overlap is a numerical quantity of second order in the step that only runtime data determines')
na('N03', 'Statistical quality of the random numbers',
   'The thermal displacements are normally distributed and independent between threads, ranks and steps.',
   ['schedules', 'histories'], 'every number of ranks, threads and steps', 'no test of the distribution exists',
   ['Util/TRngPool.hpp'], [('leapfrog streams', 'Util/TRngPool.hpp')],
   'distribution and independence are statements about generated sequences and about the absent TRNG library; only the stream assignment and the use of the streams is in the shape of the code (claimed separately)')
na('N04', 'Bitwise independence of the number of ranks and threads',
   'The same input produces bitwise identical trajectories for every number of processes and threads.',
   ['schedules', 'configurations'], 'every rank and thread count', 'the tests run one configuration', ['Sylinder/SylinderSystem.cpp'],
   [('floating point reductions', 'Constraint/BCQPSolver.cpp')],
   'the code reduces in floating point in decomposition order and does not promise it; it is a rounding level runtime quantity')
na('N05', 'Durability of output across a machine crash',
   'A crash while a snapshot is written leaves a directory from which the last complete snapshot can be restarted.',
   ['crash_points'], 'every instant of a crash', 'no test interrupts a run', ['Sylinder/SylinderSystem.cpp'],
   [('restart file', 'Sylinder/SylinderSystem.cpp')],
   'depends on file system ordering; the code uses no durability primitive (no fsync, no atomic rename) to which a rule could be anchored')
