# The checks: property, harness, and what the result means.
check('C01', 'c01.cpp', technique='bounded exhaustive enumeration of exactly on-shell momenta on the real code',
      note='Every momentum, mass, spin and index of a finite alphabet is run on the compiled library and compared with relations computed independently; nothing is said about values between the grid points.',
      assumptions=['positive energy', 'relations are compared with an error of 1e-17 relative to the energy scale'])
check('C02', 'c01.cpp', technique='bounded exhaustive enumeration of exactly on-shell momenta on the real code',
      note='As C01, for the generators.',
      assumptions=['positive energy'])
check('C03', 'c03.cpp', technique='explicit-state exploration of all operation histories of a particle, with a freshly built particle as oracle',
      note='All histories up to the stated depth over the stated alphabet are executed on the real class; the real cache flags are reached, not modelled.',
      assumptions=['after a mass change the particle is judged again once a momentum has been accepted, as the headers prescribe'])
check('C04', 'c04.cpp', technique='exhaustive enumeration of bracket shapes on the real code against an independent evaluation',
      note='All constructor forms, particle choices, index positions and spins within the bound.',
      assumptions=['the spinors of a single particle are right (C01)'])
check('C05', 'c04.cpp', technique='explicit-state exploration of all histories of brackets sharing particles, with freshly built objects as oracle',
      note='All histories up to the stated depth are executed on the real classes.',
      assumptions=['the spinors of a single particle are right (C01)', 'a bracket is judged again once it has been updated after its particles changed, as the header prescribes'])
check('C06', 'c06.cpp', technique='explicit-state exploration of histories with a bounded number of misuses on the real code',
      note='Every misuse in every state reached by the histories, followed by every correct query.',
      assumptions=['a particle whose momentum was rejected, and a bracket whose update was rejected, are judged again once a valid momentum has been set'])
check('C07', 'c07.cpp', technique='exhaustive enumeration of all spin tuples and iterations on the real code',
      note='Complete for one to six particles; the list form up to the stated length.',
      assumptions=['spins of massive spin-1 particles are given doubled, as -2, 0 or 2'])
check('C08', 'c08.cpp', technique='exhaustive enumeration of operand tuples on the real code against exact integer arithmetic',
      note='All operand tuples over a small exact alphabet, all operators and overloads, all short sequences of compound assignments.',
      assumptions=['finite operands', 'equality is judged for equal operands and for differences of 1e-6 and more'])
check('C09', 'c09.cpp', technique='explicit-state exploration of all setter and evaluation histories on the real code',
      note='All histories up to the stated depth, all values of the alphabet.')
check('C19', 'c19.cpp', technique='exhaustive enumeration of component values on the real code, read back with a parser of the notation',
      note='All combinations of an alphabet of numbers; the parser is independent of the code.',
      assumptions=['finite values', 'six digits for vectors and matrices, the full precision for single numbers'])
check('C10', 'c10.cpp', technique='exhaustive enumeration of axes, angles, velocities and momenta on the real code against quadruple-precision transformations',
      note='All combinations of the alphabets; each also composed with further rotations or boosts.',
      assumptions=['axes are normalized, speeds below one'], ldflags=['-lquadmath'], flags=['-std=gnu++17'])
check('C11', 'c11.cpp', more=['rng_seam.cpp'], force_include=['rng_seam.h'], technique='stateless exploration of every outcome of the random engine (owned nondeterminism) on the real code',
      note='The engine is replaced at link level by the explorer, the distributions and the code above them are real. All sequences of engine words over the alphabet up to the bound.',
      assumptions=['a standard library engine is used'])
check('C12', 'c12.cpp', more=['rng_seam.cpp'], force_include=['rng_seam.h'], technique='exhaustive fault enumeration in the amplitude handed to the real validators, with the random engine owned',
      note='All positions and pairs of positions of all fault kinds; all frame streams of the alphabet.',
      assumptions=['disagreements of 1e-8 relative and more (1e-7 in boosted frames), rounding noise of 1e-12', 'values above the absolute floor of 1e-15 of the validators'])
SM = ['sm_reg%d.cpp' % i for i in range(6)]
check('C13', 'c13.cpp', link='sm', more=SM, technique='exhaustive enumeration of a product grid of parameters and kinematics on the real code against an independent Feynman-diagram evaluation',
      note='All classes, all points of the product of the parameter alphabets, energies, angles and beam directions; nothing is said about values between the grid points.',
      assumptions=['zero widths', 'points closer than 1e-6 (relative to s) to a pole are left out, and (thorough) energies above 1e5 MW, where the diagrams cancel completely', 'agreement to 1e-9 relative, or 1e-12 of the largest diagram where diagrams cancel'])
check('C16', 'c16.cpp', link='sm', more=SM, technique='exhaustive enumeration of helicities, entry points, parameters and kinematics on the real code against independent Feynman-diagram helicity amplitudes',
      note='Every helicity configuration and every squared-amplitude entry point of every class at every point of the grid.',
      assumptions=['zero widths', 'points closer than 1e-6 (relative to s) to a pole are left out, and (thorough) energies above 1e5 MW, where the diagrams cancel completely', 'the label of a particle is twice its helicity if incoming and minus twice if outgoing', 'where the gluon colour structures share one numerator, only the relative strengths of the helicities and the sums are judged'])
check('C15', 'c15.cpp', link='sm', more=SM, technique='explicit-state exploration of all operation histories of every process class, with a newly built process as oracle',
      note='All histories up to the stated depth over mass sets, momentum points, rejected momenta and evaluations are executed on the real classes.',
      assumptions=['after masses change, momenta are rejected, or amp2 is called with momenta of its own, a process is judged again once momenta have been set, as the headers prescribe'])
check('C17', 'c17.cpp', link='sm', more=SM, technique='exhaustive enumeration of widths, parameters and kinematics on the real code; the Breit-Wigner form is decided from the values of each helicity amplitude, the peak against Feynman diagrams',
      note='Every class with a width, every helicity amplitude, every point of the grid.',
      assumptions=['the width of the exchanged particle enters the denominator as the propagator class defines it', 'where the pole contributes less than 1e-8 of the amplitude its width need not be visible'])
check('C14', 'c14.cpp', link='sm', more=SM, technique='exhaustive enumeration of frames, parameters and kinematics on the real code; every frame is compared with the centre-of-mass frame',
      note='Every class and squared amplitude in every frame of the product of rotations, boosts and rest frames.',
      assumptions=['differences beyond rounding, which grows with the energy in the frame', 'rest frames of particles lighter than 0.3 are left out, where the others would need energies beyond the precision'])
check('C18', 'c18.cpp', link='sm', more=SM, plain=['c18_rt.cpp'], repo_flags=['-fsanitize=thread'], flags=['-fsanitize=thread'], ldflags=['-lpthread', '-ldl'],
      technique='exhaustive interleaving of operation sequences of two objects, and of the memory accesses of two real threads under an owned scheduler with partial-order reduction, on the real code',
      note='All interleavings of the operation sequences of the stated pairs. For threads every memory access of the instrumented library is seen; schedules that differ only in the order of accesses to different locations, or of reads, are one schedule; where locations conflict all schedules up to the stated number of preemptions at conflicting accesses are run.',
      assumptions=['sequentially consistent memory', 'functions of the C and C++ libraries that are not compiled with the code are taken as safe to use from two threads on different data', 'validators that draw random frames are not part of the sequences'])
check('C20', 'c20.cpp', link='sm', more=SM, repo_flags=['-UWITH_LONG_DOUBLE'], flags=['-UWITH_LONG_DOUBLE'], parts=['C01', 'C02', 'C04', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12'],
      technique='exhaustive enumeration of parameters and kinematics on the real code built in double precision, against a Feynman-diagram evaluation in long double; and the enumerations of C01, C02, C04, C07 to C12 on that build',
      note='The library and the process classes are compiled without WITH_LONG_DOUBLE. All classes at all points of the product grid of C13, and the complete quick enumerations of the other properties with errors scaled to double precision.',
      assumptions=['zero widths', 'points closer than 1e-4 (relative to s) to a pole are left out', 'agreement to 1e-7 relative, or 1e-9 of the largest diagram where diagrams cancel'])
check('C21', 'c21.cpp', link='sm', more=SM, technique='exhaustive enumeration of loops of spin flips, parameters and kinematics on the real code against independent Feynman-diagram helicity amplitudes',
      note='Every amplitude function of every class: every pair of spin configurations and every way to exchange part of their spins, at every point of the grid.',
      assumptions=['zero widths', 'one phase for each spin state of each particle is free', 'loops through amplitudes below 1e-6 of the largest are left out, where there is no phase to compare'])
check('C22', 'c22.cpp', link='sm', more=SM, technique='explicit-state exploration of all histories of a process and a copy of it, with newly built processes as oracle',
      note='All histories up to the stated depth over copying, assigning, mass and momentum settings, evaluation and destruction, on every class.',
      assumptions=['the original is not destroyed before the copy'])
SAN = ['-O1', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern', '-D_GLIBCXX_ASSERTIONS']
check('C23', 'c15.cpp', link='sm', more=SM, repo_flags=SAN, flags=SAN + ['-DMC_LIGHT'], ldflags=['-fsanitize=address,undefined'], parts=['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C19', 'C22'],
      technique='exhaustive enumeration of histories and inputs of the other properties on the real code, built so that each access outside an object, to a dead object and each undefined operation ends the execution',
      note='The library and the process classes are compiled with the address and undefined-behaviour sanitizers, checked standard library and patterned automatic variables. Complete enumerations of C01, C02, C04, C07 to C12 and C19, shorter histories of C03, C05, C06, C15 and C22; a wrong answer counts, too, as it shows a value taken from memory never written.',
      assumptions=['undefined behaviour the sanitizers of the compiler detect', 'memory that was never written holds a fixed pattern'])
check('C24', 'c24.cpp', link='sm', more=SM, technique='exhaustive enumeration of parameters, kinematics and changes of scale on the real code, each compared with the same process at the original scale',
      note='All classes, all amplitude functions, squared amplitudes and polarized forms. Scales are powers of two, for which binary arithmetic is exact; agreement to 1e-14.',
      assumptions=['exactly on a pole there is nothing to compare', 'the functions of gggg, gguu, ggdd, gugu, dggd and the like that return numerators have dimension four'])
check('C27', 'c27.cpp', link='sm', more=SM, technique='exhaustive enumeration of the points at which an allocation can fail, on the real code, with the undisturbed process as oracle',
      note='All classes, every operation, every request for memory in it refused once or for good; the number of live allocations after destruction.',
      assumptions=['memory is requested by operator new; what is kept for good after the first use (static tables) is not counted'])
check('C26', 'c24.cpp', link='sm', more=SM, technique='exhaustive enumeration of spin labels on the real code, with newly built processes as oracle for the right ones in between',
      note='All classes, every amplitude function, every assignment of labels with at least one a particle cannot have, one after another on one object with right ones in between.',
      assumptions=['odd labels of vector bosons are not asked: the code gives them no meaning'])
check('C25', 'c24.cpp', link='sm', more=SM, technique='exhaustive enumeration of wrong momenta on the real code, followed by right ones, with newly built processes as oracle',
      note='All classes, every leg, ten kinds of wrong momentum, with and without momenta already in force, as built, after set_masses and in amp2(momenta).',
      assumptions=['deviations of the invariant mass squared of more than 1e-6 of the energy squared (or of one unit squared, if the energy is less)'])
