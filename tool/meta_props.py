prop('P01', 'Dense vector and cell-matrix operations compute their defining formulas',
     'For every size, content and multiplier, the dense vector, multivector and per-cell matrix operations (dot, norm, sum, max, min, fill, selective fill, copy, scale, axpy, update, strided extract, matrix times vector plain and transposed, identity, matrix update, matrix product, matrix inverse) produce exactly the textbook formula in every entry of the result, including the entries they are documented to leave alone. '
     'Apart from the result (and the matrix that inversion factors in place) no argument is modified.',
     ['inputs', 'configurations'], 'all array lengths, all entry values, all multipliers, all strides and offsets instantiated in the code base',
     ['BLAS1.hpp', 'BLAS2.hpp', 'BLAS3.hpp'], [('vector kernels', 'namespace blas1'), ('strided extraction, multivector and matrix-vector kernels', 'namespace blas2'), ('cell-matrix kernels', 'namespace blas3')])
prop('P02', 'Ill-formed dense operands are rejected before anything is written',
     'A dense vector or cell-matrix operation given an empty required operand, operands whose lengths, cell counts or matrix dimensions do not match as it documents, a non-finite multiplier where multipliers are checked, or an unknown transpose option raises an error, and no argument array has been modified when it does. '
     'Well-formed operands are never refused.',
     ['inputs', 'configurations'], 'all combinations of operand extents (symbolic lengths, each mismatch direction) and multipliers',
     ['BLAS1.hpp', 'BLAS2.hpp', 'BLAS3.hpp'], [('size and finiteness guards ahead of each kernel launch', 'start of each function in namespaces blas1, blas2, blas3')],
     why='Tests cover a few wrong sizes and never look at the arrays after the exception; the claim quantifies over every mismatch in either direction.')
prop('P03', 'Strains and gradients are the symmetric gradient of the nodal field',
     'For every nodal field, shape gradient and dimension, the mechanical, thermo-mechanical, electro-mechanical and stabilised (thermo-)mechanical kinematics return the engineering strain in Voigt order and the gradients of temperature, pressure and (negated) potential, reading each quantity from its own degree of freedom of each node. '
     'The result depends only on the inputs, never on what the result arrays held before, and no other array is changed.',
     ['inputs', 'configurations'], 'all nodal values, all shape gradients, all previous contents of the result, 1D/2D/3D, all physics layouts',
     ['EMKinematics.hpp', 'TMKinematics.hpp', 'Kinematics.hpp', 'PressureGradient.hpp', 'InterpolateGradientFromScalarNodal.hpp'],
     [('kinematics functors', 'operator() of EMKinematics, TMKinematics, Kinematics'), ('scalar gradient functors', 'PressureGradient, InterpolateGradientFromScalarNodal')])
prop('P04', 'Residual assembly is the scaled adjoint of the kinematics, accumulated',
     'The flux, stress and pressure divergence operations add, to each nodal residual entry they own, scale times cell volume times the contraction of the flux, stress or pressure with the shape gradient of that node, for every dimension, degree-of-freedom count and offset. '
     'They accumulate onto the previous residual and touch no entry of other degrees of freedom.',
     ['inputs', 'configurations'], 'all cell values, gradients, volumes, scales, previous residuals, dof layouts',
     ['FluxDivergence.hpp', 'StressDivergence.hpp', 'PressureDivergence.hpp'], [('divergence functors', 'operator() of FluxDivergence, StressDivergence, PressureDivergence')])
prop('P05', 'Interpolation, projection, inertia and cell averages use shape values correctly',
     'Interpolating a nodal field to the cell centre gives the shape-function weighted sum of exactly the requested degrees of freedom; projecting a cell value to nodes adds scale times volume times shape value times the cell value to exactly those degrees of freedom; inertial forces, cell mass and cell density follow the same weighting. '
     'This holds for every content, dimension, degree-of-freedom count and offset, and no other array entry changes.',
     ['inputs', 'configurations'], 'all nodal and cell values, all dof counts/offsets, 1D/2D/3D',
     ['InterpolateFromNodal.hpp', 'ProjectToNode.hpp', 'InertialForces.hpp', 'StateValues.hpp', 'Plato_TopOptFunctors.hpp'], [('interpolation and projection functors', 'operator() of InterpolateFromNodal, ProjectToNode, InertialForces, StateValues'), ('cell mass and density', 'Plato::cell_mass, Plato::cell_density')])
prop('P06', 'Stress, deviators, work, von Mises and tensile energy match their definitions',
     'For every strain or stress state and dimension (plane strain keeps the out-of-plane component), deviatoric strain and stress, Cauchy stress, elastic work, volumetric strain, tensor contraction, von Mises stress, tensile energy density and the pressure stabilisation term equal their definitions, with shear components counted as their tensor symmetry requires. '
     'Only the result is written.',
     ['inputs', 'configurations'], 'all strain and stress states, all moduli, 1D/2D/3D',
     ['ComputeDeviatoricStrain.hpp', 'ComputeDeviatoricStress.hpp', 'ComputeCauchyStress.hpp', 'ComputeElasticWork.hpp', 'ComputeStabilization.hpp', 'StrainDivergence.hpp', 'DoubleDotProduct2ndOrderTensor.hpp', 'DotProduct.hpp', 'VonMisesYieldFunction.hpp', 'TensileEnergyDensity.hpp'],
     [('constitutive functors', 'operator() of the listed functors')])
prop('P07', 'J2 plasticity history update, flow direction and residuals are consistent',
     'For every trial stress, history and dimension, the plastic update adds the plastic multiplier times the unit flow direction (twice for engineering shear) to the plastic strain and the hardening counterpart to the back stress, the elastic update copies the old history, and the local residuals are exactly current minus updated history, so that an updated state has zero residual. '
     'The flow direction is the normalised deviatoric stress minus back stress, each history quantity is read from its own slot, and the elastic strain is total minus plastic minus thermal expansion of the normal components.',
     ['inputs', 'histories', 'configurations'], 'all histories, trial states, hardening moduli; plane strain and 3D',
     ['J2PlasticityUtilities.hpp', 'ThermoPlasticityUtilities.hpp'], [('history layout and updates', 'class J2PlasticityUtilities'), ('elastic strain', 'class ThermoPlasticityUtilities')])
prop('P13', 'Penalty and projection functions follow their formulas under continuation',
     'Whatever combination of parameters an input deck gives, the SIMP, RAMP, Heaviside and no-penalty functions and the Heaviside and tanh projections evaluate their published formula with the given or default parameters, for every density. '
     'Each continuation step raises the exponent by the configured increment and never past the configured bound, resetting parameters falls back to the documented defaults for absent keys, and setters take effect on the next evaluation.',
     ['inputs', 'histories', 'configurations'], 'all densities, all subsets of deck parameters present, all parameter values, sequences of continuation steps and setters',
     ['Simp.hpp', 'Ramp.hpp', 'Heaviside.hpp', 'NoPenalty.hpp', 'HeavisideProjection.hpp', 'HyperbolicTangentProjection.hpp', 'ApplyProjection.hpp'],
     [('penalty functors', 'classes MSIMP, RAMP, Heaviside, NoPenalty: operator(), update, setParameters'), ('projection functors', 'classes HeavisideProjection, HyperbolicTangentProjection, ApplyProjection')])
prop('P14', 'Weighting by density multiplies exactly the intended cell values',
     'Weighting or penalising a cell quantity multiplies every component of that quantity, once, by the penalty function evaluated at the mean nodal density of the cell, for vector, matrix and scalar quantities, in place or out of place, for every penalty type and dimension, also after continuation steps. '
     'Nothing else is modified.',
     ['inputs', 'histories', 'configurations'], 'all densities and cell values, all penalty types, dimensions, component counts, before and after continuation',
     ['ApplyWeighting.hpp', 'ApplyPenalty.hpp', 'J2PlasticityUtilities.hpp'], [('weighting', 'class ApplyWeighting'), ('penalising', 'class ApplyPenalty, apply_penalty')])
prop('P19', 'Frequency-domain operators keep real and imaginary parts consistent',
     'The complex strain, stress divergence, damping (direct and adjoint), elastic and inertial energy, cell residual and misfit operators treat the real and imaginary halves of each node as the parts of one complex field: damping couples them with opposite signs, energies and misfits sum over both, kinematics act on each half with the same real operator. '
     'This holds for every state, coefficient and dimension, and results do not depend on the previous content of the output.',
     ['inputs', 'configurations'], 'all complex nodal states, damping coefficients, frequencies, 1D/2D/3D',
     ['ComplexStrain.hpp', 'ComplexStressDivergence.hpp', 'ComplexRayleighDamping.hpp', 'AdjointComplexRayleighDamping.hpp', 'ComplexElasticEnergy.hpp', 'ComplexInertialEnergy.hpp', 'StructuralDynamicsCellResidual.hpp', 'ComputeFrequencyResponseMisfit.hpp', 'RayleighDamping.hpp'],
     [('complex functors', 'operator() of the listed functors')])
prop('P24', 'Norm measures of vector and tensor fields equal the stated p-norm integrand',
     'The vector and tensor p-norm, weighted and Barlat cell measures equal cell volume times the stated power of the respective norm of the cell value, for every field value, exponent (integer or not), dimension and deck parameters or their defaults, writing only the result entry of that cell. '
     'The input deck selects which norm is evaluated, and post-evaluation takes the exponent-th root of the value and scales the gradient by the derivative of that root.',
     ['inputs', 'configurations'], 'all field values, exponents, volumes, dimensions, deck parameters present or absent', ['VectorPNorm.hpp', 'TensorPNorm.hpp'], [('norm functors', 'operator() of VectorPNorm, TensorPNormFunctor, WeightedNormFunctor, BarlatNormFunctor'), ('selection and post-evaluation', 'TensorNormFactory, TensorNormBase')],
     note='Barlat transformation matrices are unknowns in the one-component case and constant samples otherwise')
prop('P08', 'Essential constraints make the reduced system honour prescribed values',
     'Imposing prescribed values on a symmetric sparse system, block or not, in any order and for any subset of degrees of freedom, turns each constrained row into an identity row whose right-hand side is the prescribed value times the load scale, clears the constrained columns of the other rows and moves their contribution, with the scaled prescribed value, to the right-hand side. '
     'No other matrix entry and no other right-hand-side entry changes.',
     ['inputs', 'configurations'], 'all matrix entries, right-hand sides, prescribed values and scales; a family of symmetric sparsity structures, block sizes and constrained sets in both orders',
     ['ApplyConstraints.hpp'], [('constraint imposition', 'applyBlockConstraints, applyConstraints')],
     note='structures and constrained sets are a finite family; the values are unknowns')
prop('P09', 'Sparse matrix operations preserve the linear operator they represent',
     'Matrix times vector, row sums, row-sum scaling and solving, transposition-free products, differences, condensation, sorting and the conversions between block, non-block and dense form give the same linear map as the dense definition for every entry value, block size and column order, including unsorted and empty rows. '
     'Operands whose shapes do not fit are rejected, and inputs are left unchanged.',
     ['inputs', 'configurations'], 'all entry values and vectors; unknown structure for products with vectors and row sums, a family of constant structures (unsorted, empty rows, rectangular) elsewhere',
     ['PlatoMathFunctors.hpp', 'PlatoMathHelpers.hpp', 'alg/CrsMatrix.hpp', 'PlatoUtilities.hpp'],
     [('row-wise functors', 'MatrixTimesVectorPlusVector, RowSum, DiagonalInverseMultiply'), ('matrix-matrix operations and conversions', 'namespace Plato: MatrixMatrixMultiply, MatrixMinusMatrix, Condense, getDataAsNonBlock and inverses'), ('container', 'class CrsMatrix')])
prop('P10', 'Time integrators and their gradients are one consistent scheme',
     'For every step size, state history and scheme parameters from the input deck, the Newmark and trapezoid integrators return residuals that vanish exactly on the documented update formulas, with the documented parameters, and each gradient they return is the derivative of the corresponding residual with respect to its argument. '
     'Results depend only on the arguments of the call (an integrator may be reused with other step sizes), inputs are not modified, and absent required scheme parameters are refused.',
     ['inputs', 'histories', 'configurations'], 'all step sizes, states, parameters; present and absent deck keys; repeated use of one integrator',
     ['hyperbolic/Newmark.hpp', 'parabolic/TrapezoidIntegrator.hpp'], [('second order scheme', 'class NewmarkIntegrator'), ('first order scheme', 'class Parabolic::TrapezoidIntegrator')])
prop('P11', 'Material models serve exactly the quantities the input deck states',
     'For every value an input deck gives and for constant and temperature dependent models alike, scalar, tensor and Voigt stiffness quantities are served with each coefficient in its own (symmetric) slot and documented defaults for absent ones, isotropic stiffness and moduli follow from Young modulus and Poisson ratio, and heat flux and heat content use the quantities of the selected model at the given temperature. '
     'A quantity stored under one name is never served under another, and temperature dependent quantities are quadratic in temperature with the given coefficients.',
     ['inputs', 'configurations'], 'all coefficient values and temperatures, present/absent optional keys, scalar or list form, linear and temperature dependent models, 1D/2D/3D',
     ['MaterialModel.hpp', 'MaterialModel.cpp', 'Rank4Voigt.cpp', 'IsotropicStiffness.cpp', 'ThermoelasticMaterial.hpp', 'ThermalConductivityMaterial.hpp', 'ThermalMassMaterial.hpp', 'ThermalFlux.hpp', 'ThermalContent.hpp', 'IsotropicMaterialUtilities.hpp', 'ParseTools.hpp'],
     [('quantities', 'ScalarFunctor, TensorFunctor, TensorConstant, Rank4VoigtFunctor, Rank4VoigtConstant and isotropic specialisations'), ('models', 'MaterialModel parse/set/get, ThermoelasticMaterial and thermal models with their factories'), ('use', 'ThermalFlux, ThermalContent'), ('moduli', 'compute_shear_modulus, compute_bulk_modulus')])
prop('P12', 'Incomplete or contradictory material input is refused',
     'An input deck that lacks a required material quantity, coefficient, section or model, or gives a temperature dependent stiffness or scalar to a model declared linear, ends in an error on every path, before any model is handed out. '
     'Complete decks are never refused.',
     ['inputs', 'configurations'], 'each required key absent in turn with every other value unknown, linear and temperature dependent, 1D/2D/3D',
     ['MaterialModel.hpp', 'MaterialModel.cpp', 'Rank4Voigt.cpp', 'IsotropicStiffness.cpp', 'ThermoelasticMaterial.hpp', 'ThermalConductivityMaterial.hpp', 'ThermalMassMaterial.hpp', 'IsotropicMaterialUtilities.hpp', 'ParseTools.hpp'],
     [('required parameters', 'ParseTools::getParam, MaterialModel::parse*'), ('factories', 'ThermoelasticModelFactory, ThermalConductionModelFactory, ThermalMassModelFactory')])
prop('P16', 'Basis functions, quadrature rules and Voigt maps are the exact simplex ones',
     'In one, two and three dimensions the linear basis functions sum to one and equal the nodal interpolants at every point, their gradients are the derivatives of those functions, and every supported quadrature rule integrates exactly every monomial up to its stated degree over the reference simplex with nodes inside it. '
     'The Voigt map sends each stress slot to the tensor entry it stands for, each symmetric entry exactly once, within the tensor bounds; unsupported degrees or dimensions are refused.',
     ['inputs', 'configurations'], 'all reference points, all supported degrees and dimensions, all monomials up to the degree',
     ['alg/Basis.hpp', 'alg/Basis.cpp', 'alg/Cubature.hpp', 'alg/Cubature.cpp', 'LinearTetCubRuleDegreeOne.hpp', 'VoigtMap.hpp'],
     [('basis', 'class Basis'), ('quadrature', 'class Cubature, class LinearTetCubRuleDegreeOne'), ('voigt', 'struct VoigtMap')])
prop('P27', 'Principal values keep the invariants of the strain or stress tensor',
     'For every symmetric tensor in Voigt form, engineering strain or stress, the one- and two-dimensional principal values have the sum and the sum of products of the tensor (trace and determinant), whatever the sign of the shear term, and every rotation sweep of the three-dimensional iteration is a similarity by an orthogonal matrix that preserves the invariants. '
     'Only the principal value entries of the cell are written.',
     ['inputs', 'configurations'], 'all tensor values, strain-like and stress-like, 1D/2D/3D (one sweep of the iteration)',
     ['Eigenvalues.hpp'], [('principal values', 'class Eigenvalues')],
     note='convergence of the three-dimensional iteration is a runtime quantity and is not claimed')
prop('P18', 'Rocket burn histories follow the chamber balance step by step',
     'For every geometry, propellant and chamber parameter, each recorded pressure is the Newton-corrected solution step of the chamber mass balance from the previous pressure and current burning area, the thrust follows from that pressure, the grain radius grows by burn rate times step, and the time, thrust and pressure histories have one entry per step starting at zero time, zero thrust and reference pressure. '
     'Setters and inputs take effect, the correction stops on tolerance or iteration limit, and solving again after re-initialising repeats the history exactly.',
     ['inputs', 'histories', 'configurations'], 'all real parameter values; histories of one to three steps with one or two Newton corrections per step, and repeated solves',
     ['Plato_AlgebraicRocketModel.hpp', 'Plato_Cylinder.hpp', 'Plato_GeometryModel.hpp', 'Plato_RocketMocks.hpp'],
     [('burn model', 'class AlgebraicRocketModel: solve, newton, residual, jacobian'), ('geometry', 'class Cylinder')],
     note='longer histories repeat the same loop body; step counts are constants of the call sites')
prop('P26', 'Newton-Raphson convergence bookkeeping is exact and refuses bad norms',
     'For every sequence of residual norms, the relative (absolute) measure after iteration k is the difference of the norms of iterations k and k-1, divided (not divided) by the current norm, the first iteration only records the reference, and a non-finite norm is refused before anything is updated. '
     'Stopping criterion names are recognised regardless of case and anything else is refused; diagnostics to a closed file are refused unless output is disabled.',
     ['inputs', 'histories'], 'all norm values and iteration numbers, sequences of three iterations, known and unknown names',
     ['NewtonRaphsonUtilities.hpp'], [('bookkeeping', 'compute_relative_residual_norm_error, compute_absolute_residual_norm_error, newton_raphson_stopping_criterion, print_newton_raphson_*')])

prop('P15', 'Math expressions evaluate to the value the written formula denotes',
     'For every well-formed expression and every value of its variables and parameters, the expression evaluator returns the value given by the usual precedence and associativity of + - * / ^, parentheses and absolute-value bars, implicit products, the documented functions (sin, cos, tan, exp, log, sqrt, pow), numeric literals and names, and evaluating again with other values or another expression is independent of what was evaluated before. '
     'Malformed expressions (unbalanced parentheses, missing operands, unknown symbols) are refused with an error instead of giving a value. '
     'Custom material properties defined by an equation evaluate that equation with the deck\'s constants.',
     ['inputs', 'histories', 'programs'], 'all variable and parameter values, over a catalogue of expression shapes covering each pair of operators, nesting and function; malformed shapes; sequences of parses and evaluations',
     ['ExpressionEvaluator.hpp', 'ExpressionEvaluator.cpp', 'CustomMaterial.hpp', 'CustomMaterial.cpp', 'PlatoMathExpr.hpp'],
     [('parser and evaluator', 'class ExpressionEvaluator: parse_expression, evaluate_expression'), ('custom material', 'class CustomMaterial: getCustomExpressionValue')],
     note='expression texts are a finite catalogue (every operator pair, unary forms, nestings); values are unrestricted')
prop('P17', 'Physics layouts and derivative types agree in every dimension',
     'For every physics and every dimension it is offered in, the number of nodal degrees of freedom, their offsets (pressure, temperature, potential), Voigt terms, local history values and nodes per cell are those the physics implies, and the evaluation types used for value, gradient and Jacobian carry derivatives only in the field being differentiated and in the result, with as many derivatives as that field has values per cell. '
     'Combining a differentiated field with plain ones gives the differentiated type in whatever order they are named, and combining two differently differentiated fields is refused at compile time.',
     ['programs', 'configurations'], 'all physics classes, 1D/2D/3D, all evaluation types, all argument positions',
     ['Simplex.hpp', 'SimplexMechanics.hpp', 'SimplexThermal.hpp', 'SimplexThermomechanics.hpp', 'SimplexElectromechanics.hpp', 'SimplexStabilizedMechanics.hpp', 'SimplexPlasticity.hpp', 'SimplexThermoPlasticity.hpp', 'SimplexFadTypes.hpp', 'VoigtMap.hpp'],
     [('layout constants', 'classes Simplex*'), ('evaluation types', 'SimplexFadTypes and the elliptic, parabolic, hyperbolic and geometric evaluation types'), ('type selection', 'fad_type_t')],
     tech='constant and type evaluation by the compiler front end over the current headers (type-level encoding), plus a compile-fail witness')
prop('P23', 'Kernels carry derivatives from every argument to the result',
     'Every element kernel, projection, penalty and weighting function can be evaluated with automatic-differentiation values in any of its field arguments, and the result then carries the derivative with respect to every such argument: nowhere between argument and result is a differentiated value replaced by its bare value or stored in a plain temporary. '
     'Gradients assembled from these kernels are therefore the exact derivatives of the computed values.',
     ['inputs', 'programs'], 'all kernels with formulas in P03-P07, P14 and P19; each field argument alone, and all together; all values',
     ['ComputeCauchyStress.hpp', 'ComputeElasticWork.hpp', 'StressDivergence.hpp', 'FluxDivergence.hpp', 'InterpolateFromNodal.hpp', 'ProjectToNode.hpp', 'ComputeStabilization.hpp', 'J2PlasticityUtilities.hpp', 'ThermoPlasticityUtilities.hpp', 'VonMisesYieldFunction.hpp', 'Heaviside.hpp', 'Simp.hpp', 'Ramp.hpp', 'ApplyWeighting.hpp'],
     [('kernels', 'operator() of the functors, instantiated with Sacado types')],
     why='a dropped derivative leaves every value, and so every value test, unchanged',
     tech='dataflow over the type-checked AST with derivative-carrying and bare values kept apart (taint of dropped derivatives) and instantiation of every kernel by the compiler front end',
     note='comparisons select branches by value; derivatives at branch points are not claimed')
prop('P28', 'Reductions over processes deliver the named operation to every process',
     'For every local value on every process of a machine, max, min and sum return the maximum, minimum and sum over all processes, allReduce stores in each of its n target entries the sum over all processes of the same source entry and touches nothing else, and size and rank are those of the communicator. '
     'The local inputs are left as they were.',
     ['inputs', 'configurations'], 'all local values, whatever the number of processes; vector reductions of 0, 1, 2 and 5 entries',
     ['alg/ParallelComm.hpp', 'alg/ParallelComm.cpp'], [('reductions', 'Comm::max, min, sum, allReduce'), ('identity', 'Comm::size, rank')],
     why='the tests run one process, where every reduction is the identity', note='the communicator itself (Teuchos, MPI) is trusted to reduce as documented')
prop('P29', 'Saved states are what the data map held when they were saved',
     'For every history of filling, saving and clearing, state k of a data map returns exactly the scalars, vectors and arrays it held at the k-th save since the last clear, as a copy without any history of its own, however the map is changed afterwards; with nothing saved the current contents are returned, and a state that does not exist is refused. '
     'Solutions keep value, rate and second rate in their own slots, and problems without local states refuse to hand out or take them.',
     ['inputs', 'histories'], 'all values; histories of up to three saves with every container rewritten between saves, clearing, re-saving, late and erased keys; all state numbers in and next to the range',
     ['PlatoStaticsTypes.hpp', 'PlatoAbstractProblem.hpp'], [('saved states', 'struct DataMap'), ('solutions', 'struct Solution'), ('problem interface', 'class AbstractProblem')],
     note='arrays are shared handles: writing into an array after saving is seen in the saved state, as in Kokkos')
prop('P30', 'Solver configurations are well-formed and carry the requested limits',
     'Every named AmgX configuration is well-formed JSON of configuration version 2 that selects the named solver, preconditioner and cycle, with the requested convergence type and the requested tolerance and iteration limit as the limits of the outer solver, for all their values and for the documented defaults (absolute, 1e-10, 10000); the configuration named default keeps its own tolerance 5e-8 and limit 1000. '
     'Names of no configuration are refused.',
     ['inputs', 'configurations'], 'all seven names, both convergence types, all tolerances and limits, defaulted arguments; twenty misspelt names',
     ['alg/AmgXConfigs.hpp', 'alg/AmgXConfigs.cpp'], [('configurations', 'configurationString')],
     note='numbers appear in the text as the stream prints them')

OMEGA = 'Omega_h is not installed here: its calls are declared with their documented meaning in drivers/omega, so the property is about the repository given that meaning'
prop('P20', 'Gathering and assembly use exactly the degrees of freedom the mesh names',
     'For every mesh and every state, control, configuration and local state, entry (cell, node, field) of a workset is the value of that node or cell, with derivative seeds numbered by place within the cell, on the whole mesh and on any element block. '
     'Assembling residuals, gradients and Jacobians (plain, transposed, with or without derivatives) adds each cell contribution exactly once to the degree of freedom or coupling entry it belongs to and changes nothing else.',
     ['inputs', 'configurations'], 'gathering: any connectivity, cell count and values in 1, 2 and 3 dimensions for mechanics, thermal and plasticity; assembly: all values on fixed small meshes and element blocks',
     ['Assembly.hpp', 'WorksetBase.hpp', 'SpatialModel.hpp', 'ImplicitFunctors.hpp'],
     [('gather', 'workset_state_scalar_scalar and siblings'), ('scatter', 'assemble_residual, assemble_vector_gradient*, assemble_scalar_gradient*'), ('Jacobians', 'assemble_jacobian*, assemble_transpose_jacobian')],
     note=OMEGA)
prop('P21', 'Element gradients and volumes are those of the linear simplex',
     'For all vertex positions of a line, triangle or tetrahedron, the gradient computed for node n is that of the linear function equal to one at n and zero at the other vertices, cell volumes are the absolute Jacobian determinant with the factor the routine documents, surface areas are those of the face, and strain-displacement rows pair each gradient component with its Voigt term. '
     'Node and side coordinates are the ones the mesh names and nothing but the result is written.',
     ['inputs'], 'all coordinates, connectivities and cells in 1, 2 and 3 dimensions',
     ['ImplicitFunctors.hpp', 'SimplexMechanics.hpp'], [('gradients', 'ComputeGradient, ComputeGradientWorkset, ComputeGradientMatrix'), ('measures', 'ComputeVolume, ComputeCellVolume, JacobianDet, ComputeSurfaceArea')],
     note=OMEGA)
prop('P25', 'Sparse structure couples exactly the nodes that share a cell',
     'The matrix created from a mesh has one (block) row per node whose columns are that node and every node sharing a cell with it, sorted, once each, with row starts, sizes and block shapes to match. '
     'For every cell and pair of local unknowns, the entry ordinal handed to assembly is the one that couples exactly these two unknowns, also for transposed and unblocked storage.',
     ['inputs', 'configurations'], 'all cells and local unknowns of fixed small meshes in 1, 2 and 3 dimensions, several block shapes',
     ['ImplicitFunctors.hpp'], [('structure', 'CreateBlockMatrix, CreateMatrix'), ('lookup', 'BlockMatrixEntryOrdinal, BlockMatrixTransposeEntryOrdinal, MatrixEntryOrdinal')],
     note=OMEGA)
prop('P22', 'Elastic stiffness is the one the material constants of the deck define',
     'For all constants, the isotropic, cubic and orthotropic models give, in 1, 2 and 3 dimensions, the stiffness of that symmetry class (orthotropic: the inverse of the compliance with shear moduli in Voigt order yz, xz, xy), zero elsewhere. '
     'Reference strains and Rayleigh coefficients, and for isotropic and orthotropic decks the density (isotropic also the pressure scaling), are the given values or their documented defaults; orthotropic decks that miss a required constant, have a negative modulus or a Poisson ratio beyond its stability bound are refused.',
     ['inputs', 'configurations'], 'all real constants; every optional entry given and not given; every required entry missing; every modulus negative',
     ['LinearElasticMaterial.cpp', 'IsotropicLinearElasticMaterial.cpp', 'CubicLinearElasticMaterial.cpp', 'OrthotropicLinearElasticMaterial.cpp'],
     [('models', 'constructors of the Isotropic, Cubic and OrthotropicLinearElasticMaterial'), ('common entries', 'LinearElasticMaterial::setReferenceStrainTensor')],
     note=OMEGA)
