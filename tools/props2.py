prop('C12', 'Settings come from the environment, typed like their defaults, and take effect',
     'Every setting read returns its documented default unless the process environment overrides it at that moment, in which case the override is returned with the type of the default; '
     'boolean settings can be switched both on and off, and unsetting one restores the default. '
     'Changing a numerical setting (quadrature order, sampling, switching factor, grid sizes, step formulation) changes the computation it documents and nothing else.',
     ['configurations', 'histories'],
     'any setting, any value of its type, any sequence of setting and unsetting in a process',
     TESTS + ' and always run with the default settings.',
     ['environment.py', 'common/utils.py', 'common/__init__.py', 'common/integrators/__init__.py'],
     [('typed lookup', 'environment.py:get'), ('boolean parsing', 'common/utils.py:getboolenv')],
     'model-based history monitor of settings (dictionary replica) and of their effect',
     'Replica dictionary compared after every operation; effects observed in fresh processes.')

prop('C13', 'Crossing yields every allowed process once, with its matrix element and charge',
     'From one interaction, crossing generates exactly one collision term for each kinematically allowed process of each participating species, with the crossed squared matrix element, '
     'and leaves out processes that energy conservation forbids or that start from an antiparticle. '
     'Every process of the particle library conserves electric charge and the parity of the number of fermions.',
     ['inputs', 'configurations'],
     'any two- or three-body final or initial state of any species, identical or not, self-conjugate or not, any set of matrix elements, and all interactions of the library for any heavy neutrino mass and mixing',
     TESTS + '; the generated process lists depend on masses and identities combinatorially.',
     ['interactions/__init__.py', 'interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py', 'library/SM.py', 'library/NuMSM.py'],
     [('crossing enumeration', 'interactions/__init__.py:CrossGeneratingInteraction'), ('matrix element reordering', 'interactions/four_particle/__init__.py:FourParticleM'),
      ('library', 'library/SM.py, library/NuMSM.py')],
     'differential monitor of generated process lists against brute-force enumeration',
     'Oracle: enumeration of all crossings, matrix elements compared as functions of random kinematics.')

prop('C14', 'Reduced angular kernels equal the angular integrals that define them',
     'The closed-form kernels to which the angular part of four-particle collision integrals is reduced equal the angular integrals of the squared matrix element over the directions of the four momenta, '
     'for every configuration the energy and momentum balance allows, every order of the matrix element and every assignment of particles to the two sides, and vanish where momentum conservation forbids the configuration. '
     'At vanishing first momentum they equal the corresponding limit.',
     ['inputs'],
     'any four momenta and masses in any ordering region, any matrix element order and any sides of the reaction',
     TESTS + '; the kernels are piecewise polynomials with a different formula in each ordering region.',
     ['interactions/four_particle/cpp/Ds.cpp', 'interactions/four_particle/cpp/integral.h'],
     [('kernels', 'interactions/four_particle/cpp/Ds.cpp:D1, D2, D3, D'), ('limits at zero momentum', 'interactions/four_particle/cpp/Ds.cpp:Db1, Db2, Db')],
     'differential monitor of native kernels against exact angular integrals',
     'Oracle: polynomial integral over the magnitude of the pair momentum, exact; regions enumerated by ordering.')

prop('C15', 'Collisions conserve particles and energy, vanish in equilibrium, raise entropy',
     'The collision terms of all participants of one process describe the same number of events and together change neither energy nor the conserved particle numbers, they vanish when all participants share one temperature '
     'with balanced chemical potentials, and otherwise drive the reaction downhill with increasing entropy. '
     'This holds for single processes and for every reaction of the active and heavy neutrinos as the library lists it for its participants (scatterings of heavy neutrinos off muons and taus excepted).',
     ['inputs', 'configurations'],
     'any scattering or decay with three or four participants, any masses, statistics, degrees of freedom, distributions, matrix elements, tabulated or thermal species',
     TESTS + '; conservation laws relate the collision terms of different species.',
     ['interactions/boltzmann.py', 'interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py', 'interactions/four_particle/cpp/integral.cpp', 'interactions/three_particle/cpp/integral.cpp'],
     [('collision integrals', 'interactions/*/__init__.py:integrate'), ('statistical factors', 'interactions/*/cpp/integral.cpp:F_A, F_B'), ('normalisation', 'interactions/*/__init__.py:constant')],
     'conservation-law and detailed-balance monitors over random processes',
     'No reference solution: balances of the real collision terms of all participants against each other; observed imbalance below 1e-3 of the gross rate (4 particles), tolerance 3 %.')

prop('C16', 'Collision integrals equal the Boltzmann phase-space integrals they stand for',
     'The collision term of a species at any momentum equals the relativistic phase-space integral of squared matrix element, statistical factors and energy-momentum balance over the other participants, divided by the '
     'expansion rate and normalised per degree of freedom, for scattering, decay and creation, at rest and in motion, and for every kind of term. Splitting into source and relaxation rate is exact, and '
     'decays into an empty universe proceed with the textbook width and time dilation.',
     ['inputs', 'configurations'],
     'any reaction of three or four species, masses, statistics, distributions, matrix elements, momenta, temperatures and scale factors',
     TESTS + '; the integrals are functions of whole distributions.',
     ['interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py', 'interactions/four_particle/cpp/integral.cpp', 'interactions/three_particle/cpp/integral.cpp', 'common/kinematics.py'],
     [('four-particle integral', 'interactions/four_particle/__init__.py:FourParticleIntegral'), ('three-particle integral', 'interactions/three_particle/__init__.py:ThreeParticleIntegral'),
      ('integration bounds', 'interactions/*/cpp/integral.cpp, common/kinematics.py')],
     'differential monitor against independent covariant phase-space integrals',
     'Oracle: deterministic quadrature in centre-of-mass variables written for the check; typical error below 0.6 %.')

prop('C17', 'Native kernels are memory safe, race free and independent of the thread count',
     'Evaluating distribution functions, kernels and collision integrals never reads or writes outside of its data or reads what was never written, never executes undefined operations, never races between threads, and keeps no memory once it is done. '
     'The result at a momentum has the same bits for any number of threads and does not depend on which other momenta are evaluated along with it; the inputs are left unchanged.',
     ['schedules', 'inputs', 'configurations'],
     'any reaction, grid, distribution (also with empty stretches), any set of momenta in any order, any number of threads and any interleaving',
     TESTS + ' and use neither native code nor threads.',
     ['interactions/four_particle/cpp/integral.cpp', 'interactions/three_particle/cpp/integral.cpp', 'interactions/four_particle/cpp/Ds.cpp'],
     [('parallel loop over momenta', 'interactions/*/cpp/integral.cpp:integration, integration_3')],
     'AddressSanitizer, UndefinedBehaviorSanitizer, valgrind memcheck, ThreadSanitizer on an instrumented OpenMP runtime, heap growth and bitwise schedule-independence monitor',
     'Sanitizer builds of the tree; delays injected into the team by the runtime stand-in; team sizes 1 to 13.')

prop('C18', 'Flavour oscillations only redistribute, by mixing angles and matter effects',
     'With oscillations switched on, a step mixes the changes of the neutrino flavours with the averaged transition probabilities of the mixing angles, in matter corrected for the electron density at each momentum. '
     'The probabilities form a doubly stochastic symmetric matrix between zero and one, so the sum of the changes over flavours is preserved at each momentum, and without mixing oscillations have no effect.',
     ['inputs', 'histories', 'configurations'],
     'any mixing angles, temperature, momentum grid, mass hierarchy, set of decoupled flavours, collision terms and step formulation',
     TESTS + '; oscillations are never exercised.',
     ['evolution.py', 'library/SM.py', 'particles/__init__.py'],
     [('pattern', 'library/SM.py:oscillations_map'), ('mixing of changes', 'evolution.py:Universe.oscillation_parameters, update_distributions')],
     'differential and conservation monitors of the mixing step',
     'Oracle: sums of products of squared elements of the mixing matrix and the two-flavour matter formula; above the resonance only the electron-muon channel is compared.')

prop('C19', 'Neutron-proton rates follow weak theory and are handed over row by row',
     'Each of the six neutron-proton conversion rates equals its phase-space integral over the actual electron and neutrino distributions, normalised to the free neutron decay, and obeys detailed balance in equilibrium. '
     'The table and settings handed to the nucleosynthesis program contain one row per recorded step with temperature, energy densities, time and rates of that very step in the documented units.',
     ['inputs', 'histories'],
     'any temperature, electron and neutrino distribution (thermal, distorted, tabulated), and any evolution recorded',
     TESTS + '; no rate is evaluated.',
     ['kawano.py', 'evolution.py'],
     [('rates', 'kawano.py:baryonic_rates'), ('recorded table', 'evolution.py:Universe.init_kawano, save, export'), ('external program', 'kawano.py:run')],
     'differential monitor of rates against independent quadrature and offline checker of the exchanged files',
     'Oracle: quadrature resolving the thresholds; a stand-in for the external program records what it is given.')

prop('C20', 'Semi-analytic estimates are taken once, at freeze-out and deuterium formation',
     'The semi-analytic monitor records neutron freeze-out at the first step at which forward and backward conversion rates differ by a factor of ten and deuterium formation at the first step below the threshold temperature. '
     'Once both have happened it reports, exactly once, the surviving neutron fraction and the helium abundance that follow from the temperatures and times of these two steps.',
     ['histories', 'inputs'],
     'any history of rates, temperatures and times, events in either order or in the same step, runs that end before an event',
     TESTS + '; event detection depends on the order of steps.',
     ['semianalytic.py', 'evolution.py'],
     [('event detection and estimate', 'semianalytic.py:step_monitor')],
     'online trace monitor with a replica of the event automaton',
     'Synthetic histories and real evolutions.')

prop('C21', 'Universes are isolated and reproducible; output holds the exact trace',
     'Several universes evolved in one process, in any interleaving, leave exactly the record each leaves alone, repeating a run reproduces it bit by bit, and running changes neither particle library nor settings. '
     'The output file contains, in documented units, exactly the recorded rows up to the last export, also in the middle of a run and after the process is killed, and files of an earlier run in the output folder are gone.',
     ['histories', 'crash_points', 'configurations'],
     'any set of universes and interleaving of their steps, any export interval, and interruption at any step',
     TESTS + '; isolation and crash survival relate several runs.',
     ['evolution.py', 'common/utils.py', 'common/kinematics.py', 'particles/__init__.py'],
     [('record and export', 'evolution.py:Universe.save, export'), ('log', 'common/utils.py:Logger'), ('state shared by collision terms', 'common/kinematics.py:grid cut-offs, neglected reactions')],
     'bitwise comparison of interleaved and lone traces; crash injection with offline check of the surviving files',
     'Whether heavy neutrinos decouple relativistically is kept for the whole process (known finding).')

prop('C24', 'Energy lost by decoupled species heats the plasma: the total budget closes',
     'When species out of equilibrium gain or lose energy through collisions, the temperature of the plasma responds such that the total energy in a comoving volume changes only by the work done against the total pressure. '
     'The imbalance is of the order of the step and shrinks with it, in every step formulation.',
     ['inputs', 'histories', 'configurations'],
     'any plasma, any decoupled species with any time and momentum dependent collision term, either direction of heat flow, logarithmic or linear steps, any quadrature setting',
     TESTS + '; the budget links the temperature equation with the collision terms of all species.',
     ['evolution.py', 'particles/NonEqParticle.py', 'particles/IntermediateParticle.py'],
     [('heat exchange term', 'particles/NonEqParticle.py:numerator, distribution_derivative'), ('temperature equation', 'evolution.py:Universe.integrand')],
     'conservation-law trace monitor with injected collision terms',
     'Energies and pressures from independent quadratures of the recorded state.')

prop('C22', 'Particle library: consistent quantum numbers, widths, couplings and products',
     'Every species of the library carries the mass, spin and colour states, statistics, charge, lifetime, branching ratios and decay constant of the literature. '
     'Every decay the library generates reproduces branching ratio over lifetime of its parent, heavy neutrinos decay and scatter with the textbook widths and matrix elements for any mass and mixing, and each decay product that itself decays or scatters receives all its reactions, once, in whatever order the species are listed. '
     'All participants of a reaction of neutrinos, heavy neutrinos, mesons or quarks are given that reaction, with the same strength at every configuration of the momenta (scatterings of heavy neutrinos off muons and taus excepted).',
     ['inputs', 'configurations'],
     'any species and process of the library, heavy-neutrino mass and mixing angle with any flavour, set of neutrino flavours present',
     TESTS + '; no library value or width is tested.',
     ['library/SM.py', 'library/NuMSM.py', 'particles/__init__.py', 'interactions/__init__.py'],
     [('standard model reactions', 'library/SM.py:WeakInteractions'), ('heavy neutrino reactions', 'library/NuMSM.py:interactions')],
     'differential monitor of generated reactions against textbook widths by phase-space quadrature',
     'Widths to 2-4 per cent; decays into neutral kaons are not compared.')

prop('C23', 'Units and constants are consistent; no result depends on the choice of units',
     'Conversions between energy, length, time, mass, temperature and density units agree with each other and with the literature, as do physical constants expressed in them. '
     'Computing in another unit of energy rescales every result by its dimension only: evolution, densities, distributions, rates, kinematic limits, widths and collision terms.',
     ['inputs', 'configurations'],
     'any rescaling of the unit of energy, any quantity computed, any state of the plasma',
     TESTS + '; unit independence compares runs in different units.',
     ['common/__init__.py', 'evolution.py', 'common/kinematics.py', 'kawano.py', 'library/SM.py', 'library/NuMSM.py'],
     [('units and constants', 'common/__init__.py:UNITS, CONST')],
     'metamorphic monitor: the same computation in rescaled units, and differential check of conversions',
     'Rescaling is done in a fresh process before the remaining modules are loaded; tolerance 3e-4.')

prop('C25', 'Momentum ranges, grids, decoupling and dropped reactions follow the kinematics',
     'The momenta at which collision terms are evaluated include every momentum that energy and momentum conservation allow a product, and the proposed grids reach the largest momentum and resolve the lines of two-body decays. '
     'A heavy neutrino decouples when its weak interaction rate drops below the expansion rate. '
     'Reactions and species are dropped only when a participant has decayed, has not been produced, or is diluted or cold beyond the documented threshold, and reactions with several identical particles count several times.',
     ['inputs', 'configurations', 'histories'],
     'any masses, momenta, grids, temperatures, scale factors and mixing angles, any composition of a reaction, any state of dilution of its participants',
     TESTS + '; these test a handful of masses of the limits only.',
     ['common/kinematics.py', 'interactions/three_particle/__init__.py', 'interactions/four_particle/__init__.py'],
     [('limits and cut-offs', 'common/kinematics.py:three_particle_bounds_*, four_particle_bounds_*, grid_cutoff_3p, grid_cutoff_4p'), ('grids', 'common/kinematics.py:grid_params_*'), ('dropped reactions', 'common/kinematics.py:Neglect3pInteraction, Neglect4pInteraction, has_decayed'), ('multiplicity', 'common/kinematics.py:CollisionMultiplier3p, CollisionMultiplier4p')],
     'oracle monitor: decays sampled over all parents and angles, truth table of the reasons to drop a reaction',
     'Upper limits of creation cut-offs with several parents are only claimed to be sufficient.')

prop('C26', 'Reactions and species are selected, removed and ordered exactly as asked',
     'Filtering interactions by species and kind of reaction removes the reactions that match the request and keeps every other one, in order; filtering species removes exactly the named ones. '
     'A universe keeps its species ordered by mass, heaviest first, however and whenever they are added, such that collision terms of unstable particles are always computed before those of their products.',
     ['inputs', 'histories'],
     'any list of interactions and species, any names and kinds to remove, any order of calls',
     TESTS + '; no selection is exercised.',
     ['common/utils.py', 'evolution.py'],
     [('filters', 'common/utils.py:interaction_filter, particle_filter'), ('order', 'common/utils.py:particle_orderer; evolution.py:Universe.add_particles')],
     'online monitor of recorded collision-term calls, set oracle on requests',
     'Library interactions and random synthetic ones.')

prop('C27', 'The QCD transition exchanges species and reactions and keeps the entropy',
     'Crossing the transition removes quarks and gluons and their reactions, adds the given hadrons and their reactions, and raises the temperature such that the entropy of the relativistic plasma is kept, with time and scale factor unchanged. '
     'The record made before is kept, and the evolution continues from the new state with the new species and reactions only.',
     ['inputs', 'histories'],
     'any content before and after, any species decoupled before, temperature of the transition, logarithmic or linear steps',
     TESTS + '; the transition relates two universes and the record.',
     ['evolution.py', 'common/utils.py', 'common/__init__.py'],
     [('transition', 'evolution.py:Universe.QCD_transition'), ('record', 'common/utils.py:DynamicRecArray.truncate')],
     'trace monitor across the transition with counting stand-in interactions',
     'Species count fully above their mass, not at all below it.')

prop('C28', 'Unstable particles hand everything on to their decay products within the step',
     'Of a particle that decays at once, the number produced in a step decays in the same step, each channel taking its branching ratio, and each product appears in the multiplicity of the channel, down the whole chain of decays. '
     'The energy goes to the products as the kinematics of the decay demand, particles that first lose their energy to the plasma have its temperature, what was left from thermal equilibrium disappears exponentially with the lifetime, and when nothing is produced nothing decays.',
     ['inputs', 'histories', 'configurations'],
     'any parent, channels, branching ratios, self-conjugate or not, spectrum at production, any chain of decays, with or without energy loss before the decay, logarithmic or linear steps',
     TESTS + '; conservation relates collision terms of several species.',
     ['common/kinematics.py', 'library/SM.py', 'particles/__init__.py', 'interactions/three_particle/__init__.py', 'interactions/four_particle/__init__.py'],
     [('fast decays', 'common/kinematics.py:Icoll_fast_decay'), ('normalisation of products', 'common/kinematics.py:scaling'), ('reset after the step', 'particles/__init__.py:update_distribution')],
     'conservation-law trace monitor (particle numbers and energy along decay chains) with injected sources',
     'Energies to 6 per cent: the grid resolves lines of two-body decays to this accuracy only.')

prop('C29', 'Interacting neutrinos thermalise with the plasma and decouple as known',
     'With the interactions of the library neutrinos of any initial distribution relax at high temperature towards the thermal distribution at the temperature of the plasma, keeping the total energy and '
     'producing entropy; flavours that interact alike and start alike stay alike. From equilibrium they decouple leaving the known heating: '
     'photons end at 1.399 of the comoving temperature, electron neutrinos keep about 0.94 per cent more energy and the other flavours about 0.4, that is 3.03 effective neutrinos.',
     ['inputs', 'histories', 'configurations'],
     'any initial distortion of any flavour, initial temperature at which neutrinos interact, step size and step formulation',
     TESTS + '; thermalisation needs every part of the code (library, crossing, native integrals, time stepping, temperature equation) to cooperate over a whole evolution.',
     ['library/SM.py', 'interactions/boltzmann.py', 'interactions/four_particle/__init__.py', 'interactions/four_particle/cpp/integral.cpp', 'particles/__init__.py', 'particles/NonEqParticle.py', 'evolution.py'],
     [('step of all parts', 'evolution.py:Universe.integrand, make_step'), ('reactions', 'library/SM.py:interactions.neutrino_interactions')],
     'conservation-law and relaxation monitors of whole evolutions with the real collision terms; end state against the literature',
     'Energy and entropy from independent moments of the recorded distributions; decoupling extrapolated in the step.')
