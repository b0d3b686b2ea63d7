"""Writes properties.jsonl (kept as code so that the statements are easy to review)."""
import json, os
P=[]
WHERE=dict(
P01="simulation.py: build_matrix, get_S_matrix, get_z_poynting_flux, diffraction_efficiencies, incident_flux",
P02="simulation.py: _solve_int, _solve_ext, _translate_amplitudes, get_field_fourier, _build_Imatrix",
P03="simulation.py: build_matrix, _build_Kmatrix, get_field_fourier; layers.py: solve_uniform, solve_eigenproblem",
P04="simulation.py: get_S_matrix",
P05="simulation.py: solve, reset, is_solved, get_S_matrix, diffraction_efficiencies",
P06="simulation.py: diffraction_efficiencies, _get_complex_orders, get_order_index, harmidx_dict",
P07="simulation.py: get_z_poynting_flux, get_field_fourier",
P08="excitation.py: PlaneWave.__init__; simulation.py: Simulation.__init__",
P09="lattice.py: matrix, reciprocal, area, grid; simulation.py: kx, ky",
P10="lattice.py: _circular_truncation, _parallelogramic_truncation, _one_dim_truncation, get_harmonics",
P11="geometry.py: shape_mask, geometry_mask, circle, ellipse, rectangle, square",
P12="simulation.py: _get_toeplitz_matrix; formulations/fft.py",
P13="simulation.py: build_matrix, _get_Peps, _get_nu_hat_inv",
P14="layers.py: solve_eigenproblem, solve_uniform",
P15="layers.py: copy; simulation.py: build_matrix",
P16="__init__.py: set_backend, use_gpu, use_32_bit, get_backend, get_types",
P17="sample.py: adaptive_sampler",
P18="optimize.py: project, simp, multi_project, multi_simp, StopFun",
P19="parallel.py: parloop",
P20="simulation.py: get_z_stress_tensor_integral",
P21="simulation.py: get_ifft, get_ifft_amplitudes, get_field_grid, get_epsilon",
P22="simulation.py: Simulation.__init__; layers.py: Layer.__init__, _get_layer; lattice.py: Lattice.__init__",
P23="formulations/tangent.py, formulations/jones.py; layers.py: get_tangent_field",
P24="__init__.py: grad, _array; optimize.py: apply_filter, project, simp; simulation.py; layers.py; excitation.py",
P25="__init__.py; formulations/fft.py; simulation.py")
def add(id,title,statement,over,qtext,why,files,mechanism,**kw):
    assert len(title)<=80,(id,len(title))
    mechanism=[dict(name=m.strip(),where=WHERE[id]) for m in mechanism.split(",")]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
                  why_tests_cant=why,anchors=dict(files=files,mechanism=mechanism,**kw)))
SIM="nannos/simulation.py"; LAY="nannos/layers.py"; LAT="nannos/lattice.py"; EXC="nannos/excitation.py"
HLP="nannos/utils/helpers.py"; FFT="nannos/formulations/fft.py"; TAN="nannos/formulations/tangent.py"; JON="nannos/formulations/jones.py"
GEO="nannos/geometry.py"; SAM="nannos/sample.py"; PAR="nannos/parallel.py"; OPT="nannos/optimize.py"; INI="nannos/__init__.py"
add("P01","Energy conservation of lossless stacks",
 "For every stack whose permittivities are all real (or Hermitian tensors) with a lossless incidence medium, the total reflected and transmitted power returned for any plane wave sum to one with the direct factorization ('original', and 'tangent' for mono-periodic gratings), at any truncation order. The reflected and transmitted efficiencies of individual orders are never negative in lossless outer media, and evanescent orders carry exactly none.",
 ["inputs","configurations"],"all layer stacks (number, thickness, pattern, uniform/patterned), lattices, wavelengths, incidence and polarization angles, truncation orders",
 "The tests check R+T on a few stacks with three wavelengths/angles and tolerances up to 0.1; energy conservation is an identity over every stack and every incidence.",
 [SIM,LAY,EXC],"mode equations, S-matrix, Poynting flux and incident flux normalization")
add("P02","Tangential fields are continuous across every interface",
 "At every interface of the stack the transverse components of the electric and magnetic field reported at the exit face of one layer equal, order by order, those reported at the entrance face of the next layer. This holds for every pair of adjacent layers, whatever their type, thickness or position in the stack, for the plane wave that illuminates it.",
 ["inputs","configurations"],"all stacks of two or more layers, all interfaces, all incidences, formulations and truncation orders",
 "No test compares fields on two sides of an interface; only a handful of stacks are ever evaluated.",
 [SIM],"amplitudes of forward/backward modes recovered from partial S-matrices, interface matrices")
add("P03","Reported fields satisfy Maxwell's equations inside every layer",
 "In every layer and at every height z, the Fourier components of E and H returned by the simulation satisfy both curl equations of Maxwell with the permittivity of that layer (truncated by the chosen factorization rule) and the divergence relations giving the z components. In uniform layers this is the exact homogeneous equation for every diffraction order.",
 ["inputs","configurations"],"all layers, z positions, lattices, permittivities (complex, anisotropic in-plane), formulations, incidences",
 "Tests only check that fields can be computed (shapes); they never substitute them in Maxwell's equations.",
 [SIM,LAY,LAT],"P and Q operators, eigenmodes, translation of amplitudes, z-components")
add("P04","Scattering matrices compose and do not depend on how a stack is cut",
 "The scattering matrix of a part of the stack maps incoming to outgoing mode amplitudes of its two end layers, and the matrices of two adjacent parts compose (Redheffer star product) to the matrix of the whole. Cutting a layer in several layers of the same material with the same total thickness changes no diffraction efficiency, amplitude or field.",
 ["inputs","configurations","histories"],"all stacks, all layer ranges first<last, all ways of cutting layers, all orders in which partial matrices are requested",
 "Tests compute one full matrix and never a partial one next to a composed one; the cache of intermediate matrices makes the answer depend on the request history if it is wrong.",
 [SIM],"S-matrix recursion and cache of intermediate matrices")
add("P05","Results depend only on the inputs, not on the history of calls",
 "Any result of a simulation (efficiencies, amplitudes, fields, scattering matrices) equals the one a freshly built simulation would give, whatever was asked before, in whatever order, also after an explicit reset and when the same layers, lattice or wave are used by other simulations. Asking for results never modifies the user's permittivity arrays, layers' description, lattice or wave, nor values returned earlier.",
 ["histories","inputs"],"all sequences of public queries on one or several simulations sharing objects",
 "Tests build a new simulation each time and call one or two methods; the quantifier is over call histories.",
 [SIM,LAY,LAT],"solve/reset state, S-matrix cache, modes stored in layer objects")
add("P06","Per-order efficiencies, totals, amplitudes and dictionaries agree",
 "Summing the efficiencies over diffraction orders gives the totals, and the squared modulus of the complex amplitudes of each order (summed over components) equals the efficiency of that order, in reflection and in transmission, for every lossless outer medium and any layer names. Looking up an order by its indices, in the arrays, in the returned dictionaries or through the order accessor, always gives the entry of the diffraction order with those two integers.",
 ["inputs","configurations"],"all stacks, layer names, incidences, truncations, all orders of the truncation",
 "Tests check the identity on one geometry with layers named Superstrate/Substrate and never compare the dictionary entries.",
 [SIM],"complex orders, order index table, return_dict")
add("P07","Power flux is the Poynting vector of the reported fields",
 "The forward plus backward power flux per diffraction order reported for a layer equals the z component of the time-averaged Poynting vector computed from the transverse fields the simulation reports in that layer, for arbitrary (also complex) permittivity and arbitrary mode amplitudes. Swapping forward and backward amplitudes swaps the two fluxes and changes their sign.",
 ["inputs"],"all layers, amplitudes, orders, positions",
 "No test compares the flux routine with the field routine.",
 [SIM],"flux formula with cross terms")
add("P08","Plane waves are unit amplitude, transverse and on the dispersion relation",
 "For every wavelength and every triple of angles the incident wave has wavenumber 2*pi/wavelength, an electric field of unit norm orthogonal to its wave vector, in the direction given by the polar, azimuthal and polarization angles; s and p waves are orthogonal. The incident mode amplitudes used by a simulation reproduce the transverse components of that electric field in the zeroth order of a vacuum incidence medium and carry the reported incident flux.",
 ["inputs"],"all wavelengths > 0, all polar, azimuth and polarization angles (non grazing)",
 "Tests instantiate one or two waves; identities hold for all angles.",
 [EXC,SIM],"angles to wave vector/amplitude, conversion to mode amplitudes")
add("P09","Real and reciprocal lattice are dual",
 "For every non degenerate pair of basis vectors the reciprocal vectors satisfy K_i . L_j = 2 pi delta_ij, the reported area is |L_1 x L_2|, and the transverse wavevector of order (m,n) is k0 + m K_1 + n K_2. Grid points are the lattice-vector combinations of unit cell coordinates, and a scalar period is the mono-periodic lattice with that period along x.",
 ["inputs"],"all lattice vectors (rectangular, oblique, mono-periodic), all orders",
 "Tests use square lattices where transposes and index swaps are invisible.",
 [LAT,SIM],"matrix/reciprocal transposes, transverse wavevectors")
add("P10","The set of retained harmonics is a symmetric ball with the zeroth order",
 "For every lattice and requested number n >= 2 of harmonics, the returned harmonics are distinct integer pairs, contain (0,0), are closed under negation, are at most n, and the reported count is their number. With circular truncation no omitted harmonic has a shorter reciprocal vector than a retained one; with parallelogrammic truncation it is a centered square of indices of the largest odd side whose square is at most n; mono-periodic gratings keep consecutive orders.",
 ["inputs"],"all lattices (aspect ratios, angles), all n",
 "Tests sample few n on one lattice.",
 [LAT],"sorting by reciprocal norm, extents of search window, shell cut")
add("P11","Geometry masks are pointwise membership on the lattice grid",
 "The mask of any shape equals, at every grid point, the test whether the point of the unit cell with these lattice coordinates belongs to the interior of the shape (points exactly on its boundary may belong or not), for every lattice, resolution (also Nx != Ny) and shape; recursion and subdivision never change the answer. Square/rectangle, circle and ellipse helpers describe the shapes with the given center, sizes and rotation.",
 ["inputs"],"all shapes, lattices and discretizations",
 "Tests check a few shapes on square power-of-two grids without comparing pixels with a definition.",
 [GEO,LAT],"recursive subdivision, affine map to lattice coordinates")
add("P12","Permittivity operators are the convolution matrices of the profile",
 "The convolution matrix of a function on the grid has entry (m,n) equal to its Fourier coefficient of index G_m-G_n, hence is linear in the function, maps a constant to the constant times the identity, and is Hermitian for real functions. Fourier transform and inverse are inverse of each other with coefficients independent of the grid size, on any grid.",
 ["inputs"],"all profiles, grid sizes (rectangular, odd), harmonics sets",
 "Tests check shapes or one profile.",
 [SIM,FFT],"FFT normalization, index differences")
add("P13","All factorizations agree where they must",
 "A patterned layer whose array is constant gives, in every formulation, the same diffraction as the uniform layer of that permittivity. A mono-periodic profile gives the same result when described as a mono-periodic or a bi-periodic structure with the same orders, and the direct/inverse rules are applied to the field components tangent/normal to the interfaces.",
 ["inputs","configurations"],"all constants, lattices, formulations, stripes along either axis",
 "Tests use different formulations with tolerance 0.1 on R+T only.",
 [SIM,TAN,JON],"normal/tangent projection operators, inverse rule matrices")
add("P14","Modes are eigenmodes with the right branch and normal order",
 "The modes stored for each layer satisfy the eigenvalue equation of the layer operator; in layers without gain the propagation constants have non-negative imaginary part (up to rounding), so that no forward mode grows, and rounding does not reverse propagating modes. In a uniform layer they are the exact dispersion relation of each diffraction order.",
 ["inputs"],"all layers, frequencies and wavevectors",
 "Tests only check one random matrix.",
 [LAY,SIM],"square root branch, eigen solver wrappers")
add("P15","A copy of a layer behaves as an independent identical layer",
 "Replacing any layer of a stack by a copy of it (or a copy of a copy, uniform or patterned, with or without its original elsewhere in the stack, in any order) gives exactly the results of a separately built identical layer. Assigning another thickness or permittivity to a copy affects only this copy.",
 ["inputs","histories","configurations"],"all stacks with copies, positions, modifications",
 "Tests copy a layer once and check it exists.",
 [LAY,SIM],"sharing of matrices and modes between copy and original")
add("P16","Backend, device and precision selection is a consistent state machine",
 "After any sequence of backend, device and precision selections, the reported backend is the last one successfully selected, the numerical module, gradient support, array constructor and data types in use are those of the reported backend and precision, and an unknown backend is refused with an error leaving the selection unchanged. Environment variables choose the initial backend only and never override an explicit selection.",
 ["histories","configurations"],"all sequences of selections among the five backends, GPU on/off, 32/64 bits, environment settings",
 "Each test file selects one backend once.",
 [INI],"module-level flags and reload")
add("P17","Adaptive sampling returns the sampled function on a refined sorted grid",
 "For every deterministic function and every increasing initial grid, the returned abscissae are strictly increasing and contain all initial ones within the initial range, and the returned values are the function values at exactly these abscissae, for scalar and multi-output functions and any number of jobs.",
 ["inputs"],"all functions, initial grids, thresholds, job counts",
 "Tests sample one or two functions and check nothing about the values.",
 [SAM,PAR],"merge of new points, index reordering, loop until no refinement")
add("P18","Density projection and interpolation have their documented ranges",
 "Projection maps [0,1] to [0,1] monotonically with fixed endpoints 0 and 1 for every sharpness and threshold, material interpolation returns the minimum and maximum permittivity at densities 0 and 1, and the multi-material versions pass through every material at its equally spaced density.",
 ["inputs"],"all sharpness, thresholds, permittivities, exponents, numbers of materials",
 "Tests call these once without comparing values.",
 [OPT],"tanh projection, SIMP, Vandermonde interpolation")
add("P19","Parallel loops return what the serial loop returns, in order",
 "A function decorated for parallel looping, called with a list and further arguments, returns the list of values of the function at each element of the list in the same order, passing the other positional and keyword arguments unchanged, for any number of workers.",
 ["inputs","schedules"],"all functions, lists (also empty), extra arguments, worker counts and schedules",
 "Tests run one loop with one argument.",
 [PAR],"argument forwarding to joblib")
add("P20","Stress tensor integral is the Maxwell stress of the reported fields",
 "The integrated stress components reported for a layer equal the zz, xz, yz components of Maxwell's stress tensor formed with the reported Fourier components of E, H and D = eps E; in homogeneous lossless layers they do not depend on the position z.",
 ["inputs"],"all isotropic layers, positions, incidences",
 "The test only calls the function.",
 [SIM],"stress formula")
add("P21","Real-space fields are the Fourier synthesis of the reported harmonics",
 "Fields on a grid equal, at each pixel, the sum over orders of the Fourier components times the phase of that order, for every grid shape above Nyquist and every z or list of z; selecting a field or component returns the corresponding part of the full result. The permittivity reconstructed from the operator is the truncated Fourier series of the profile.",
 ["inputs","configurations"],"all layers, grid shapes (rectangular), z lists, selections",
 "Tests only call it on one grid with default arguments.",
 [SIM,FFT],"index placement, inverse transform axes, selection branches")
add("P22","Ill-posed set-ups are refused",
 "Constructing a simulation fails with an error for every stack with duplicated layer names or layers from different lattices, unknown formulation, formulation not available for mono-periodic gratings, or discretization below Nyquist for the retained harmonics; constructing a layer or lattice fails for negative thickness, magnetic materials or unknown truncation. Conversely well-posed set-ups are accepted, and layers are found by name, object or (negative) index, unknown ones being refused.",
 ["inputs","configurations"],"all stacks and set-ups",
 "Tests cover some errors with one instance each.",
 [SIM,LAY,LAT],"validation in constructors, layer lookup")
add("P23","Auxiliary vector fields are normalized and well defined",
 "The automatically generated tangent field is real, finite and of unit norm at every pixel when normalization is requested and of norm at most one otherwise; the Jones field built from a tangent field has unit norm and is the tangent direction itself where the field has unit norm. A user supplied tangent field is used unchanged and the requested generation method is honoured.",
 ["inputs"],"all profiles, grid shapes, tangent field types",
 "Tests only evaluate a circle.",
 [TAN,JON,LAY],"normalization, threshold handling, type selection")
add("P24","Gradients equal the derivative of the objective",
 "With a differentiable back end (autograd, torch; double precision) nn.grad of a real objective built from simulation results is the derivative of that objective at the given point, with the other arguments passed on: total, per-order and looked-up efficiencies with either back end; squared amplitudes, fields in real and Fourier space and the stress tensor with torch. This holds with respect to permittivity maps (real, complex, tensors), filtered, projected and interpolated densities, permittivities of uniform and outer layers, thicknesses, the wavelength and the angles, with direct factorization ('original', and 'tangent' for mono-periodic gratings) and, with torch, the bi-periodic factorizations with tangent fields of type 'fft', wherever the eigenvalues of the layers are simple and no order grazes a layer; arrays built by nn.array from lists of parameters keep the derivative of every element; no dependence on a parameter is silently dropped. The other back ends (numpy, scipy, jax) refuse a gradient with NotImplementedError. Not covered: amplitudes with respect to the wavelength and angles (square roots at zero), fields and generated tangent fields with autograd, tangent fields found by the optimiser (an error is raised).",
 ["inputs","configurations"],"all objectives, parameters, stacks, points and directions","Tests compare a few gradients of one objective.",[INI,OPT,SIM,LAY,EXC],"gradient wrapper and array constructor, differentiable operations along the computation")
add("P25","All numerical backends give the same results",
 "Whatever the set-up, each of the five numerical backends (numpy, scipy, autograd, jax, torch), used in double precision, gives the same results up to rounding, compared diffraction order by diffraction order: retained orders, transverse wavevectors, efficiencies, amplitudes, field coefficients, real-space fields, fluxes, permittivity and tangent field maps, rasterized shapes, filtered and projected densities and interpolated values. A function that assigns in place with one backend and functionally with another, or names options differently, computes the same value with each.",
 ["configurations","inputs"],"all set-ups and backends","Each test file uses one backend and compares one backend with itself.",[INI,FFT,SIM,LAY,TAN],"branches on the backend, precision and device options, set_index, FFT wrappers")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
