#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source: the table below)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

SIM='nannos/simulation.py'; LAY='nannos/layers.py'; LAT='nannos/lattice.py'
GEO='nannos/geometry.py'; FFT='nannos/formulations/fft.py'; TAN='nannos/formulations/tangent.py'
EXC='nannos/excitation.py'; INI='nannos/__init__.py'; OPT='nannos/optimize.py'; SAM='nannos/sample.py'
HEL='nannos/utils/helpers.py'; PAR='nannos/parallel.py'; JON='nannos/formulations/jones.py'

p('C01','The S-matrix is the exact composition of interfaces and layer propagation',
 'For every stack, number of harmonics and contiguous range of layers, the scattering matrix returned relates incoming to outgoing mode amplitudes exactly as the chain of interface-continuity relations and in-layer propagation factors between the first and the last layer of the range does: it starts from the identity and takes in each interface of the range once, in order, with the thickness of the layers on either side of it. No layer, block or propagation factor is dropped, swapped, transposed, repeated or given another sign.',
 ['inputs','configurations'],'all stacks (any number, order and thickness of layers), all harmonics counts, all sub-ranges',
 'Tests build three-layer stacks with a single patterned layer and compare R+T with 1 to 0.1; longer stacks, repeated layers and sub-ranges are never exercised, and most wrong compositions still conserve energy.',
 [SIM],[('S-matrix recursion', SIM+': Simulation.get_S_matrix'),('interface matrix',SIM+': _build_Imatrix')],['Simulation.get_S_matrix'])
p('C02','Stored intermediate S-matrices never change an answer',
 'Asking for the scattering matrix of any range, in any order and any number of times, on one solved problem gives the same matrix as computing that range from scratch. A matrix stored for one range is never returned for a range with another first or last layer, and the matrix kept as that of the whole stack is only ever that of the whole stack.',
 ['histories','inputs'],'all sequences of requests for sub-range and full-stack scattering matrices',
 'The tests make one fixed sequence of calls; a collision of stored entries needs a particular sequence of ranges on a stack of at least four layers.',
 [SIM],[('intermediate S store', SIM+': Simulation.get_S_matrix, Simulation._intermediate_S')],['Simulation.get_S_matrix','Simulation.diffraction_efficiencies'])
p('C03','Matching, field reconstruction and power use one and the same mode expansion',
 'Layers are joined by requiring the tangential electric and magnetic fields of the mode expansions on either side to be equal, and the tangential fields the user gets back from the mode amplitudes of a layer are those same expansions. Hence the reconstructed tangential fields are continuous across every interface, whatever the layers are made of.',
 ['inputs','configurations'],'all pairs of adjacent layers (uniform or patterned), all amplitudes, all depths',
 'No test looks at fields on two sides of an interface; the field tests only check that the call returns.',
 [SIM],[('interface matrix',SIM+': _build_Imatrix, _build_Mmatrix'),('field expansion',SIM+': Simulation.get_field_fourier')],['Simulation.get_field_fourier','Simulation.get_S_matrix'])
p('C04','Reconstructed fields obey Maxwell\'s equations in every layer',
 'For any layer and any depth, the six Fourier field components returned satisfy the z-components of the two curl equations (the longitudinal H from the transverse E, and the permittivity applied to the longitudinal E from the transverse H). The forward amplitudes advance with exp(i q z) from the top of the layer and the backward ones with exp(i q (d - z)) from its bottom, with the amplitudes of that very layer.',
 ['inputs','configurations'],'all layers, depths (scalar or list), incidences and harmonics',
 'Field tests only check that the calls return; the relations are never compared with anything.',
 [SIM],[('field reconstruction',SIM+': Simulation.get_field_fourier, _translate_amplitudes, Simulation._get_amplitudes')],['Simulation.get_field_fourier','Simulation.get_field_grid'])
p('C05','Efficiencies are the normalised Poynting fluxes of the right waves',
 'Reflection and transmission per order are the z-directed Poynting flux of the backward wave in the first layer and of the forward wave in the last layer, divided by the flux of the incident wave; forward and backward parts always add up to the flux of the total field. The totals are the sums over all orders, and the complex coefficients are the field amplitudes of the same first and last layers whatever these layers are called.',
 ['inputs','configurations'],'all stacks, layer names, incidences, harmonics and option combinations',
 'Tests use one layer naming scheme and check only R+T and sums of squares for one family of stacks.',
 [SIM],[('flux',SIM+': Simulation.get_z_poynting_flux'),('efficiencies',SIM+': Simulation.diffraction_efficiencies'),('complex orders',SIM+': Simulation._get_complex_orders')],['Simulation.diffraction_efficiencies','Simulation.get_z_poynting_flux'])
p('C06','The incident plane wave is the one that was asked for',
 'For every wavelength and triple of angles the plane wave has a wavevector of length 2 pi / wavelength in the direction of the given polar and azimuthal angles, a unit polarization vector orthogonal to it, rotated from p to s by the polarization angle, and mode amplitudes that reproduce exactly its transverse electric field. The simulation feeds these amplitudes to the zeroth diffraction order of the first layer only, with no wave entering from the last layer.',
 ['inputs'],'all wavelengths and angles, all harmonics sets',
 'Tests use two values per angle and only look at energy sums, which do not depend on direction or polarization conventions.',
 [EXC,SIM],[('plane wave',EXC+': PlaneWave.__init__'),('amplitude vectors',SIM+': Simulation.__init__')],['PlaneWave.wavevector','PlaneWave.amplitude','PlaneWave.a0','Simulation.a0'])
p('C07','The mode problem of a layer is the one Maxwell\'s equations dictate',
 'For every layer and formulation, the matrix whose eigenvalues are the squared propagation constants is the product of the two first-order transverse curl operators of that layer, and the operator used later for fields and power is the same one that entered the eigenproblem. Uniform layers get the closed-form solution of the same equations: squared propagation constant epsilon mu omega^2 - kx^2 - ky^2 for both polarizations and the identity as mode matrix.',
 ['inputs','configurations'],'all permittivity patterns, incidences, lattices and formulations',
 'Tests only check energy balance to 10 % for one pattern; an operator that is inconsistent with Maxwell but Hermitian passes.',
 [SIM,LAY],[('operator assembly',SIM+': Simulation.build_matrix, _build_Kmatrix'),('modes',LAY+': Layer.solve_uniform, Layer.solve_eigenproblem')],['Simulation.build_matrix','Simulation.solve'])
p('C08','One Fourier convention everywhere',
 'On every backend the forward transform divides by the number of grid points so that the zeroth coefficient is the mean, the inverse undoes it exactly, and both act on the axes they are told to. The matrix that multiplies by a material function has, for row order m and column order n, the coefficient of that function at m - n, and the Fourier synthesis of fields and permittivity puts each coefficient at its own order.',
 ['inputs','configurations'],'all grids, shapes, axes, harmonics sets and backends',
 'Tests use one square grid with a symmetric pattern, for which transposes, sign flips and conjugations are invisible.',
 [FFT,SIM,HEL],[('transforms',FFT+': fourier_transform, inverse_fourier_transform'),('convolution matrix',SIM+': Simulation._get_toeplitz_matrix'),('synthesis',SIM+': Simulation.get_ifft, Simulation.get_ifft_amplitudes, Simulation.get_epsilon')],['Simulation.get_epsilon','Simulation.get_ifft','Simulation.get_field_grid'])
p('C09','Diffraction orders keep their identity',
 'Each diffraction order has one position, used consistently: the lookup of an order returns the position at which that order stands in the list of harmonics, its wavevector is the incident one plus that combination of reciprocal vectors, and results returned as dictionaries hold under each order the reflection (respectively transmission) of that order. Asking for results in any form does not alter the lookup.',
 ['inputs','histories'],'all lattices, harmonics sets, orders, and sequences of result requests',
 'No test requests dictionaries or looks up an order; the harmonics tests check no values.',
 [SIM,LAT],[('order table',SIM+': Simulation.__init__, Simulation.get_order_index, Simulation.diffraction_efficiencies')],['Simulation.get_order','Simulation.get_order_index','Simulation.diffraction_efficiencies'])
p('C10','Queries do not change the answers of later queries',
 'Asking a simulation for scattering matrices, efficiencies, amplitudes, fields, stress, permittivity or plots leaves every user-supplied quantity and every previously returned result untouched: the only state a query may write is the solution it computes on first use. Arguments passed by the user are not modified.',
 ['histories'],'all sequences of queries on one simulation',
 'Each test issues one fixed short sequence of queries and never repeats one.',
 [SIM,LAY,HEL,'nannos/plot.py'],[('queries',SIM+': public methods of Simulation')],['Simulation'])
p('C11','No result is computed from missing or stale intermediate data',
 'A result that depends on the modes of the layers is never computed before the modes have been solved for. After a reset, everything that was derived from what was reset, directly or indirectly, is recomputed before it is used again: a full reset forgets modes, scattering matrix and all stored partial matrices, and resetting the modes also forgets the scattering matrices obtained from them.',
 ['histories'],'all sequences of queries, parameter changes and resets',
 'No test calls reset or changes a layer after solving.',
 [SIM,LAY],[('reset',SIM+': Simulation.reset'),('solve on demand',SIM+': is_solved guards')],['Simulation.reset','Simulation.diffraction_efficiencies'])
p('C12','A copied layer behaves like an independently built identical layer',
 'A stack that contains copies of a layer, uniform or patterned, wherever the copies stand relative to the original and whatever the original was used for before, gives the results of the stack in which each copy is replaced by a layer built anew with the same material. The copy keeps its own name and thickness.',
 ['inputs','histories','configurations'],'all stacks with copied layers, in any order, with any earlier use of the original',
 'The tests copy one solved layer and compare stored arrays; no simulation contains a copy.',
 [LAY,SIM],[('copy',LAY+': Layer.copy'),('reuse of the operator',SIM+': Simulation.build_matrix'),('reuse of the modes',LAY+': Layer.solve_eigenproblem')],['Layer.copy','Simulation.solve'])
p('C13','Switching backend, device or precision is complete and repeatable',
 'After any sequence of switches the reported backend, the numerical module and the number types are those of the last valid request, no matter what was selected before, and no function keeps using a module, type or function of the previous selection. A request for an unknown backend is refused and leaves the selection as it was.',
 ['histories','configurations'],'all sequences of backend, device and precision requests',
 'The tests walk through one fixed sequence of backends.',
 [INI],[('selection',INI+': set_backend, get_backend, use_gpu, use_32_bit, _reload_package')],['set_backend','get_backend','get_types'])
p('C14','All backends implement the same computation',
 'Wherever the code chooses between implementations by backend, every supported backend has a branch and all branches compute the same function of the same arguments. Every numerical function used without such a choice exists in all backends.',
 ['configurations','inputs'],'all five backends, all call sites that depend on the backend',
 'Tests run the same few inputs on each backend; a branch for one backend that differs for other shapes, axes or options goes unnoticed.',
 [INI,FFT,HEL,GEO,LAT,JON,LAY],[('dispatch sites','every test of the backend name'),('numerical API','every attribute of the numerical module')],['nannos.backend'])
p('C15','Gradients reach the permittivity and thickness unbroken',
 'On the backends with automatic differentiation, reflection and transmission (total or per order, with the default formulation) depend on the permittivity patterns and thicknesses of the layers through differentiable operations only: nowhere on the way is the value converted to a plain number, detached, copied into a plain array, handed to a non-differentiable library or written in place.',
 ['inputs','configurations'],'all permittivity patterns and stacks, both differentiating backends',
 'One gradient test on one three-layer stack with total reflection; transmission, per-order results and thickness are not covered.',
 [SIM,LAY,FFT,HEL,INI],[('forward computation',SIM+': from Layer.epsilon to diffraction_efficiencies')],['nannos.grad','Simulation.diffraction_efficiencies'])
p('C16','Physics depends only on ratios of lengths',
 'Multiplying the wavelength, the lattice vectors, the layer thicknesses and the depths asked for by one and the same factor leaves efficiencies, scattering matrices and field values unchanged. No step adds or compares quantities of different physical dimension, and arguments of transcendental functions are dimensionless.',
 ['inputs'],'all lengths and scale factors',
 'All tests use a unit period; no test compares two scales.',
 [SIM,LAY,LAT,EXC],[('wavevectors and operators',SIM+', '+LAY+', '+EXC+', '+LAT)],['Simulation.diffraction_efficiencies','Simulation.get_field_fourier'])
p('C17','Fields are linear and powers quadratic in the incident wave',
 'Every amplitude and field is a linear function of the incident mode amplitudes, and every flux, efficiency and stress is quadratic in them (bilinear in the amplitudes and their conjugates), with coefficients that depend on the structure only. Scattering matrices and modes do not depend on the incident amplitudes at all.',
 ['inputs'],'all incident amplitude vectors',
 'No test compares two excitations of one structure.',
 [SIM],[('amplitudes and fields',SIM+': _solve_ext, _solve_int, get_field_fourier, get_z_poynting_flux, get_z_stress_tensor_integral')],['Simulation'])
p('C18','No growing exponential enters the computation',
 'Every propagation factor has the form exp(i q L) with a non-negative length L (a layer thickness, or a distance inside a layer), and for passive media every propagation constant lies in the closed upper half plane, for uniform and patterned layers alike. Hence no propagation factor exceeds one in modulus, whatever the thickness and the number of evanescent orders.',
 ['inputs','configurations'],'all thicknesses, depths inside the layer, passive materials and harmonics counts',
 'The thickness in the tests is 2 wavelengths with 51 harmonics at most; overflow needs thick layers or many evanescent orders.',
 [SIM,LAY],[('propagation factors',SIM+': phasor call sites'),('branch choice',LAY+': Layer.solve_eigenproblem, Layer.solve_uniform')],['Simulation.get_S_matrix','Layer.solve_eigenproblem'])
p('C19','Shape masks are the shapes, in lattice coordinates',
 'Each shape helper builds the shape with the center, size, vertices and rotation it was given, maps it to the unit cell with the inverse of the lattice matrix, and samples it on the grid of the lattice with the first array index along the first lattice vector. Each sampled point is decided once, by the membership of that very point or of a block of points that contains it, and no argument is dropped on the way from the lattice method to the geometry.',
 ['inputs'],'all lattices, grids (including non-square), shapes, centers, sizes and rotations',
 'One test fills a mask and checks nothing about it.',
 [GEO,LAT],[('mask',GEO+': geometry_mask, shape_mask'),('shapes',GEO+': polygon, circle, ellipse, rectangle, square'),('methods',LAT+': Lattice.circle ...')],['Lattice.circle','Lattice.rectangle','Lattice.ellipse','Lattice.polygon','Lattice.square','Lattice.stripe','Lattice.geometry_mask'])
p('C20','The adaptive sampler returns matching points and values, and stops',
 'The sampled values returned are those of the function at the sampled points, in the same order, with the points strictly increasing and including all the starting points; a function value is never paired with another point. An interval is only divided when it is longer than the resolution limit, so that the refinement ends.',
 ['inputs','histories'],'all functions (scalar or several outputs), starting grids and refinement options',
 'One smooth function on one grid; the test compares the serial and the parallel result with each other only.',
 [SAM],[('merge and reorder',SAM+': adaptive_sampler'),('refinement',SAM+': get_new')],['adaptive_sampler'])
p('C21','The optimizer reports a point together with its own objective value',
 'Whatever ends the search, the returned objective value is that of the returned point, the gradient used is that of the same objective with the same extra arguments, variables stay in [0, 1], each stage starts from the result of the previous one, and the options and the stop value given by the user are the ones applied. The extra arguments given by the user are not modified.',
 ['inputs','histories'],'all objectives, starting points, stop values, stages and options, both optimizers',
 'The topology optimizer has no test at all.',
 [OPT],[('driver',OPT+': TopologyOptimizer.minimize'),('early stop',OPT+': StopFun')],['TopologyOptimizer.minimize'])
p('C22','Invalid input is refused before it can influence a result',
 'Unknown formulations, truncations, field or component names, backends, tangent-field types and plot components, duplicate layer names, unknown layers or orders, negative thicknesses, non-unit permeability at construction, non-integer harmonics counts, unsupported formulations or shapes for one-dimensional lattices, layers on different lattices and grids too coarse for the harmonics are all rejected with an exception, on every path, and valid values are accepted.',
 ['inputs'],'all invalid values of the listed arguments',
 'A handful of single invalid values are tried for two of the checks.',
 [SIM,LAT,LAY,INI,TAN,'nannos/log.py','nannos/plot.py'],[('argument checks','constructors and public methods')],['Simulation','Lattice','Layer'])
p('C23','The parallel loop returns what the serial loop would',
 'Decorating a function for parallel execution gives the list of its values for the items of the first argument, in their order, with all other positional and keyword arguments passed to every call, whatever the number of jobs. The decorated function keeps its name and documentation.',
 ['schedules','inputs'],'all functions, argument lists and job counts',
 'One test with one argument and no extra arguments.',
 [PAR],[('map',PAR+': parloop')],['parloop'])
p('C24','Truncation keeps complete shells around the zeroth order',
 'Every truncation of a lattice contains the zeroth order, never returns more harmonics than requested, and contains with each order its opposite. Circular truncation ranks the orders by the length of their reciprocal lattice vector, for any lattice, and never splits orders of equal length; parallelogrammic truncation is the centered odd square of indices and one-dimensional truncation the centered interval.',
 ['inputs'],'all lattices and harmonics counts',
 'Tests call the truncations and check no value.',
 [LAT],[('truncations',LAT+': _circular_truncation, _parallelogramic_truncation, _one_dim_truncation')],['Lattice.get_harmonics'])
p('C25','Material interpolation hits its end points',
 'Density interpolation maps density 0 to the first and 1 to the last material value and, for several materials, each of the equally spaced densities to its own material value, for every exponent. Projection maps 0 to 0, 1 to 1 and is increasing in between for every positive steepness and threshold in [0, 1]; the multi-level projection is the mean of the single ones.',
 ['inputs'],'all densities, material values, exponents, steepnesses and thresholds',
 'These functions have no test.',
 [OPT],[('maps',OPT+': simp, multi_simp, project, multi_project')],['nannos.optimize'])
p('C26','Double precision is kept on every backend',
 'Unless 32-bit mode was asked for, no number on the way from the user\'s input to efficiencies and fields is rounded to single precision, on any backend; array constructors whose default type is single precision on some backend are given the working type explicitly.',
 ['configurations','inputs'],'all inputs on all backends',
 'Tests compare with tolerances (1e-5 relative or coarser) at which a single-precision step is invisible.',
 [EXC,SIM,LAY,LAT,HEL],[('array constructors','calls of eye, zeros, ones, linspace, arange, array of the numerical module')],['Simulation.diffraction_efficiencies'])
p('C27','Partial field requests equal the parts of the full request',
 'Requesting only the electric or magnetic field, or only one component, in real space gives exactly the corresponding part of the full result for the same layer, depth and grid, for every combination of the options; the shorthand methods pass their arguments on unchanged. Without an explicit grid the result has the grid of the lattice pattern, for uniform layers too.',
 ['inputs','configurations'],'all combinations of field, component, layer, depth and grid options',
 'One test call with default options, no value checked.',
 [SIM],[('selection',SIM+': Simulation.get_field_grid, get_Efield_grid, get_Hfield_grid')],['Simulation.get_field_grid'])
p('C28','Simulations do not disturb one another',
 'The answers of a simulation do not depend on other simulations that were created or solved in the same process before or in between, even when they share layers, lattices or excitations.',
 ['histories'],'all interleavings of several simulations sharing layers',
 'No test keeps two simulations alive.',
 [SIM,LAY],[('solutions stored on the layers',SIM+': Simulation.solve; '+LAY+': Layer')],['Simulation.diffraction_efficiencies'])
p('C29','Factorization rules treat normal and tangential field components properly',
 'The vector formulations apply the direct rule to the field component along the tangent field and the inverse rule to the component along the normal, with complementary projectors, in the same component order as the rest of the operator; they reduce to the original formulation where the two rules agree. For one-dimensional gratings the inverse rule acts on the component across the grooves only.',
 ['inputs','configurations'],'all patterns, tangent fields and formulations',
 'Tests allow 10 % error in the energy balance, which the wrong factorization also meets.',
 [SIM],[('projection',SIM+': Simulation._get_Peps, Simulation.build_matrix')],['Simulation.build_matrix'])
p('C30','The stress tensor integral is Maxwell\'s stress of the reconstructed fields',
 'The three components returned are the integrals over the unit cell of the time-averaged z-row of Maxwell\'s stress tensor (in the normalization where the x component is Re(Ex Dz* + Hx Hz*)) of the fields reconstructed at that layer and depth, with D built from the same permittivity as the fields.',
 ['inputs','configurations'],'all layers, depths and incidences',
 'The only test checks that the call returns.',
 [SIM],[('stress',SIM+': Simulation.get_z_stress_tensor_integral')],['Simulation.get_z_stress_tensor_integral'])
p('C31','Tensor permittivities act on the field components they are given for',
 'For a patterned layer with a 3 x 3 permittivity tensor, the xx entry acts on the x component of the electric field, yy on y, xy and yx couple them the right way round, and zz acts on the z component; a tensor that is a multiple of the identity gives the operator of the scalar material.',
 ['inputs','configurations'],'all permittivity tensors and formulations',
 'Tests with tensors are commented out in the test suite.',
 [SIM],[('tensor assembly',SIM+': Simulation.build_matrix, Simulation._get_nu_hat_inv')],['Simulation.build_matrix'])
# not decidable by static analysis here
p('C40','Energy is conserved to rounding error for lossless structures',
 'For real permittivities the reflected and transmitted efficiencies add up to one within rounding error, for every stack and harmonics count.',
 ['inputs'],'all lossless stacks','Checked for a few structures to 0.1.',[SIM],[('whole solver',SIM)])
p('C41','Results converge with the number of harmonics',
 'Efficiencies approach a limit as the number of harmonics grows, and all formulations approach the same limit.',
 ['inputs','configurations'],'all structures','Not tested.',[SIM,TAN],[('formulations',SIM)])
p('C42','Automatic gradients equal the derivative of the computed function',
 'The gradient values returned agree with finite differences of the objective for every structure without degenerate modes.',
 ['inputs'],'all structures','One structure.',[INI,SIM],[('grad',INI)])
p('C43','Backends agree to rounding error',
 'All backends give the same efficiencies and fields up to rounding error of the working precision.',
 ['configurations','inputs'],'all structures','Tests do not compare backends.',[INI],[('backends',INI)])
p('C44','The tangent field follows the material boundaries',
 'The computed tangent field is smooth and parallel to every material boundary of the pattern.',
 ['inputs'],'all patterns','Only its norm is tested.',[TAN],[('tangent field',TAN)])
p('C45','Reciprocity holds for reciprocal structures',
 'Exchanging source and detection directions leaves the transmission of a reciprocal stack unchanged within rounding error.',
 ['inputs'],'all stacks','Not tested.',[SIM],[('whole solver',SIM)])
p('C46','Plots show the structure',
 'Layer and structure plots display the permittivity pattern at the right place, scale and periodicity.',
 ['inputs'],'all structures','Not tested.',['nannos/plot.py'],[('plots','nannos/plot.py')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P),'properties')
