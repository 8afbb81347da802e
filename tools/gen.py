"""Writes properties.jsonl and MANIFEST.json from the table below (only properties whose check exists)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, observe=observe, hook=hook))


TESTS = 'The two reliable tests only evaluate the kinematic bounds of one three- and one four-particle reaction'

prop('C01', 'Comoving entropy of an equilibrium plasma is conserved',
     'While every species is in equilibrium, evolving a universe keeps the total comoving entropy (sum over species of entropy density '
     'times scale factor cubed) constant up to the discretisation error of the step, through every mass threshold and regime change. '
     'The plasma temperature therefore falls monotonically, and slower than the inverse scale factor exactly where a species annihilates. '
     'Halving the step shrinks the entropy drift.',
     ['inputs', 'histories', 'configurations'],
     'any set of equilibrium species (degrees of freedom, mass, statistics), any temperature interval, step size, step formulation and quadrature setting',
     TESTS + '; entropy conservation is a statement about whole evolutions of arbitrary particle contents.',
     ['evolution.py', 'particles/IntermediateParticle.py', 'particles/RadiationParticle.py', 'particles/DustParticle.py', 'common/__init__.py'],
     [('temperature equation: ratio of summed numerators and denominators', 'evolution.py:Universe.integrand'),
      ('explicit multi-step update of the comoving temperature', 'evolution.py:Universe.make_step')],
     'online trace monitor (conservation law) over random universes',
     'Entropy measured by an independent quadrature at every step of the real evolution; tolerance from step halving.')

prop('C02', 'The evolution record satisfies the expansion equations at every row',
     'Every consecutive pair of rows recorded by an evolution satisfies the Friedmann equation, the definition of the elapsed time, of the scale '
     'factor step and of the effective number of neutrinos, with the energy density equal to the sum over the species. '
     'Time and scale factor increase strictly, the run starts at the requested temperature and stops at the first step below the final one.',
     ['inputs', 'histories', 'configurations'],
     'any particle content (equilibrium, decoupled, decaying), any temperature interval, step size, and logarithmic or linear step formulation',
     TESTS + '; no test looks at the recorded evolution.',
     ['evolution.py', 'common/__init__.py'],
     [('state update', 'common/__init__.py:Params.update'), ('main loop and record', 'evolution.py:Universe.evolve, make_step, save')],
     'offline trace checker of the recorded evolution against the Friedmann equations',
     'Rows of the real record are recomputed from their predecessors and from independent thermodynamics.')

prop('C03', 'Equilibrium species obey ideal quantum gas thermodynamics in every regime',
     'The number density, energy density, pressure and entropy of a species in equilibrium equal the ideal Fermi/Bose gas integrals of its mass, '
     'temperature, statistics and degrees of freedom, to the accuracy of the regime in use. '
     'Switching between the ultra-relativistic, intermediate and non-relativistic descriptions is continuous, and the terms each species contributes '
     'to the temperature equation are the temperature derivatives implied by energy conservation.',
     ['inputs', 'configurations'],
     'any mass to temperature ratio, statistics, degrees of freedom, overall scale, quadrature setting and switching factor',
     TESTS + '; thermodynamic values are continuous functions of mass and temperature over many decades.',
     ['particles/IntermediateParticle.py', 'particles/RadiationParticle.py', 'particles/DustParticle.py', 'particles/__init__.py'],
     [('regime choice', 'particles/__init__.py:AbstractParticle.regime'), ('per-regime formulae', 'particles/*Particle.py')],
     'differential monitor against independent quadrature of the defining integrals',
     'Oracle: composite Gauss-Legendre quadrature written for the check.')

prop('C04', 'Decoupled species stream freely and carry the moments of their distribution',
     'The number density, energy density and pressure of a species out of equilibrium are the momentum moments of its current distribution function at the '
     'current scale factor. Without interactions its comoving number density and distribution do not change, its energy redshifts accordingly, and '
     'at the moment of decoupling none of its densities jumps; the history a species keeps of itself is that of the universe it follows.',
     ['inputs', 'histories', 'configurations'],
     'any distribution on any momentum grid, mass, scale factor, decoupling temperature and expansion history',
     TESTS + '; free streaming is a statement about histories.',
     ['particles/NonEqParticle.py', 'particles/__init__.py', 'common/integrators/__init__.py'],
     [('moments of the distribution', 'particles/NonEqParticle.py'), ('decoupling transition', 'particles/__init__.py:DistributionParticle.update')],
     'state monitor with conservation laws over expansion histories',
     'Moments recomputed independently after every step.')

prop('C05', 'Distribution functions follow their collision terms and never become negative',
     'In every step the distribution function of an interacting species out of equilibrium changes by its collision integral times the step size, is never '
     'negative or non-finite, and a species in equilibrium keeps its thermal distribution. With a collision term that is linear in the distribution the '
     'solution relaxes to its fixed point for any step size without overshooting, and agrees with the exact solution for small steps; a fast-decaying species '
     'follows its exponential decay law.',
     ['inputs', 'histories', 'configurations'],
     'any collision terms (including stiff and partly undefined ones), any history of previous steps and any step size',
     TESTS + '; stability and positivity must hold for every collision term and step size.',
     ['particles/__init__.py', 'common/integrators/__init__.py', 'common/kinematics.py'],
     [('collision step', 'particles/__init__.py:calculate_collision_integral'), ('update and clipping', 'particles/__init__.py:update_distribution')],
     'state monitor with injected collision terms (positivity, relaxation, decay law)',
     'Injected linear collision terms with known exact solutions.')

prop('C06', 'Distribution interpolation is exact on grid points and thermal shapes',
     'Evaluating a tabulated distribution function returns the tabulated value on grid points, reproduces a thermal distribution exactly between them, '
     'stays between the neighbouring values and never yields an undefined or negative value, and vanishes or follows the documented tail beyond the grid. '
     'The Python implementation and both native ones agree.',
     ['inputs', 'configurations'],
     'any ordered grid, any occupation numbers (also zeros), mass, temperature, statistics and momentum',
     TESTS + '; the collision integrals evaluate the interpolation at millions of points.',
     ['interactions/four_particle/cpp/integral.cpp', 'interactions/three_particle/cpp/integral.cpp', 'particles/__init__.py', 'particles/interpolation'],
     [('exponential interpolation', 'interactions/*/cpp/integral.cpp:distribution_interpolation'), ('index search', 'interactions/*/cpp/integral.cpp:binary_find')],
     'differential monitor of three implementations against the definition',
     'Native code built from the tree with the flags of the project and without fast-math.')

prop('C07', 'Table interpolation reproduces its nodes and polynomials of its order',
     'Linear and cubic table interpolation return the tabulated value at every node, reproduce straight lines (and, for the cubic one, cubic polynomials) exactly between any '
     'neighbouring nodes, use only the nodes around the point, and continue with the last value beyond the end. The step function is zero, one half or one.',
     ['inputs'],
     'any ordered grid with any spacing, any tabulated function, any point in any interval',
     TESTS + ' and tests of the interpolation sample a single grid.',
     ['common/__init__.py'],
     [('linear interpolation', 'common/__init__.py:linear_interpolation'), ('cubic interpolation', 'common/__init__.py:cubic_interpolation')],
     'differential monitor against the defining polynomial',
     'Oracle: Lagrange polynomials of the neighbouring nodes.')

prop('C08', 'Quadratures integrate exactly what their order promises',
     'One- and two-dimensional Gaussian integration, with constant or functional limits, is exact for polynomials up to the promised degree, converges for smooth integrands, is additive over '
     'adjoining intervals, changes sign with the orientation and vanishes on empty intervals. The same holds for the configured order and for the adaptive mode.',
     ['inputs', 'configurations'],
     'any integrand of the class, any interval or region, any configured quadrature order',
     TESTS + '; a quadrature is used for arbitrary bounds.',
     ['common/integrators/__init__.py', 'common/integrators/gauss_legendre.py', 'common/integrators/gauss_laguerre.py', 'common/orthopoly.py'],
     [('Gauss-Legendre rules', 'common/integrators/__init__.py:gaussian, double_gaussian'), ('orthogonal polynomial rules', 'common/orthopoly.py')],
     'differential monitor against exact antiderivatives',
     'Exact rational or closed-form integrals.')

prop('C09', 'Time steppers reach their order of accuracy on every problem and history',
     'Each explicit and implicit time stepper integrates polynomial derivatives up to its order exactly for any history length and step, reduces to Euler steps when the history is short, '
     'and converges to the exact solution with its order when the step shrinks. The implicit ones stay bounded on decaying problems for any step.',
     ['inputs', 'histories'],
     'any derivative history, order, step size and linear problem, for scalars and arrays',
     TESTS + '; the order of a stepper shows only over families of problems and histories.',
     ['common/integrators/__init__.py'],
     [('multi-step coefficients', 'common/integrators/__init__.py:ADAMS_*_COEFFICIENTS'), ('steppers', 'common/integrators/__init__.py')],
     'trace monitor against exact solutions, convergence-order measurement',
     'Exact polynomial and exponential solutions.')

prop('C10', 'Momentum grids are ordered, complete and follow their configuration',
     'Every momentum grid starts at zero, ends at the requested (or configured) largest momentum, has the requested number of strictly increasing points with the advertised spacing law, '
     'and species and their records use the grid they were given.',
     ['inputs', 'configurations'],
     'any number of points, momentum range, grid type, particle mass and lifetime, and configuration',
     TESTS + '; grids are built for arbitrary sizes.',
     ['common/__init__.py', 'particles/__init__.py'],
     [('grid constructors', 'common/__init__.py:LinearSpacedGrid, LogSpacedGrid, HeuristicGrid')],
     'state monitor of constructed grids against their definition',
     'Every grid point compared with the spacing law.')

prop('C11', 'Record tables keep every row and export exactly what they hold',
     'Tables of records and of distribution functions behave as lists of rows under any sequence of appending, extending, truncating and reading: no row is lost, duplicated or changed when storage grows, '
     'and rows beyond the end are refused. Exports and printed rows contain every row once, in order, divided by the declared units and headed by the column names.',
     ['histories', 'inputs'],
     'any interleaving of operations, any number of columns and rows, any units',
     TESTS + '; the tables are never tested past their initial capacity.',
     ['common/utils.py'],
     [('growing storage', 'common/utils.py:DynamicRecArray.append, Dynamic2DArray.append'), ('export', 'common/utils.py:savetxt, row_repr')],
     'model-based operation-sequence monitor (list replica)',
     'Plain list replica compared after every operation.')

exec(open(os.path.join(HERE, 'tools', 'props2.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'props2.py')) else None


def main():
    py = '/opt/venv/bin/python'
    lines, checks = [], []
    for p in P:
        f = 'checks/{}.py'.format(p['id'].lower())
        if not os.path.exists(os.path.join(HERE, f)):
            print('no check yet:', p['id'])
            continue
        anchors = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mechanism']])
        if p['observe']:
            anchors['observe_at'] = p['observe']
        anchors['hook_needed'] = p['hook']
        lines.append(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                     why_tests_cant=p['why'], anchors=anchors)))
        checks.append(dict(property=p['id'], quick_cmd='{} {} --tier quick'.format(py, f), thorough_cmd='{} {} --tier thorough'.format(py, f),
                           technique='runtime monitoring: ' + p['technique'], level='exploration', level_note=p['note']))
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    m = dict(version=1, setup_cmd=py + ' lib/native.py release', checks=checks,
             not_applicable=[], notes='No hooks in /repo: monitors attach from outside (the native kernels are built from the tree against stand-in headers).')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
