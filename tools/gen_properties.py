"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               hook_needed=hook)))
EM = "simpeg/electromagnetics"
prop("C01", "Sensitivity-vector products are the derivative of predicted data",
 "For every forward simulation, model and direction, the sensitivity times a vector equals the directional derivative of the predicted data: the remainder of the first-order Taylor expansion of the predicted data vanishes faster than the step. This holds for every formulation, source type, receiver type/orientation/component, mesh type, physical property being inverted and model mapping the library accepts.",
 ["inputs", "configurations"], "all simulations x sources x receivers x meshes x invertible properties x models x directions",
 "Tests run a Taylor check on one model, one small survey and a few receiver choices per simulation, and large parts (time-domain EM, FDEM derivatives, dask) are outside the stable suite.",
 ["simpeg/simulation.py", EM + "/frequency_domain", EM + "/time_domain", EM + "/static", EM + "/natural_source", EM + "/base_1d.py", "simpeg/potential_fields", "simpeg/flow/richards", EM + "/viscous_remanent_magnetization", "simpeg/seismic", "simpeg/base/pde_simulation.py"],
 [("Jvec: A^-1 (dRHS - dA) chained through fields and receivers", "*/simulation.py Jvec, getADeriv, getRHSDeriv"), ("receiver evalDeriv and fields *Deriv", "*/receivers.py, */fields.py")],
 ["Simulation.dpred", "Simulation.Jvec"])
prop("C02", "Transpose sensitivity products are the exact adjoint",
 "For every forward simulation, model, model-space vector v and data-space vector w, the inner product of w with (sensitivity times v) equals the inner product of (transpose sensitivity times w) with v up to rounding. This holds for every formulation, source, receiver, mesh, mapping and storage option.",
 ["inputs", "configurations"], "all simulations x configurations x models x (v, w)",
 "Adjoint tests use one vector pair on a few configurations; time-domain EM, FDEM adjoint and dask tests are outside the stable suite.",
 ["simpeg/simulation.py", EM + "/frequency_domain", EM + "/time_domain", EM + "/static", EM + "/natural_source", EM + "/base_1d.py", "simpeg/potential_fields", "simpeg/flow/richards", EM + "/viscous_remanent_magnetization"],
 [("Jtvec: receiver adjoint, transposed solve, transposed derivative", "*/simulation.py Jtvec"), ("adjoint=True branches", "*/fields.py, */receivers.py, */sources.py")],
 ["Simulation.Jvec", "Simulation.Jtvec"])
prop("C03", "Explicit sensitivities and cached fields agree with implicit products",
 "Wherever a simulation offers the full sensitivity matrix or the (optionally data-weighted) diagonal of its Gram matrix, these equal what the sensitivity-vector products imply. Supplying precomputed fields, choosing to store the sensitivity, or any memory-saving option never changes predicted data or products.",
 ["inputs", "configurations"], "all simulations offering getJ/getJtJdiag, all storage options, models and data weights",
 "Tests compare one stored/unstored pair for a few simulations, usually without weights and for a single model.",
 ["simpeg/simulation.py", EM + "/static/resistivity/simulation.py", EM + "/static/resistivity/simulation_2d.py", EM + "/frequency_domain/simulation.py", "simpeg/potential_fields", EM + "/base_1d.py", EM + "/static/spectral_induced_polarization/simulation.py"],
 [("getJ / getJtJdiag and storeJ/miniaturize/fix_Jmatrix options", "*/simulation*.py")], ["getJ", "getJtJdiag", "Jvec", "dpred"])
prop("C04", "Simulation results depend on current inputs, never on call history",
 "After any sequence of calls and reassignments of the model, physical properties or their mappings, every simulation result (predicted data, products, sensitivities, Gram diagonals) equals what a freshly built simulation in the same configuration returns. In particular no cached matrix, factorization, field, sensitivity or Gram diagonal survives a change of what it was computed from.",
 ["histories", "inputs"], "all interleavings of forward/product/sensitivity calls with model, property and mapping changes",
 "Tests exercise a simulation once per instance or reassign a model once; the state space of call histories is not sampled.",
 ["simpeg/props.py", "simpeg/base/pde_simulation.py", EM + "/static", EM + "/frequency_domain/simulation.py", EM + "/time_domain/simulation.py", "simpeg/potential_fields", EM + "/base_1d.py"],
 [("_delete_on_model_update cache clearing", "simpeg/props.py HasModel.model"), ("_clear_on_*_update", "simpeg/base/pde_simulation.py")],
 ["dpred", "Jvec", "Jtvec", "getJ", "getJtJdiag"], [("_model", "current model", "simpeg/props.py")])
prop("C05", "Model mappings: derivative, inverse, shape and composition laws",
 "For every mapping and admissible model, the mapping's derivative equals the Jacobian of its transform (also when applied directly to a vector), its declared shape is the shape it produces, and its inverse, where offered, undoes the transform. Products, sums, wires and other combinations of mappings act as composition, addition and selection with the derivative given by the chain rule.",
 ["inputs", "programs"], "all map classes x meshes x parameters x models, and compositions of them",
 "Tests check the derivative on default-constructed maps with one random model; most options and compositions are not reached.",
 ["simpeg/maps"], [("_transform / deriv / inverse", "simpeg/maps/*.py"), ("ComboMap, SumMap, Wires, Projection", "simpeg/maps/_base.py")], ["map * m", "map.deriv(m)", "map.deriv(m, v)", "map.inverse"])
prop("C06", "Objective functions and data misfits obey calculus and algebra",
 "Every objective function's gradient is the derivative of its value and its Hessian product is linear, symmetric, non-negative for quadratic terms, and equal whether obtained as an operator or applied to a vector. Scalar multiples and sums evaluate, differentiate and order their terms exactly as the corresponding combination of the parts, and the data misfit is the squared norm of the weighted residual for any weights.",
 ["inputs", "programs"], "all expression trees of objective functions with arbitrary multipliers, data, weights and models",
 "Tests build a handful of fixed combinations.",
 ["simpeg/objective_function.py", "simpeg/data_misfit.py", "simpeg/inverse_problem.py"],
 [("ComboObjectiveFunction", "simpeg/objective_function.py"), ("L2DataMisfit", "simpeg/data_misfit.py"), ("BaseInvProblem.evalFunction", "simpeg/inverse_problem.py")], ["__call__", "deriv", "deriv2"])
prop("C07", "Regularization gradients and Hessians match their values",
 "For every regularization (smallness, first/second-order and full-gradient smoothness, sparse, vector/amplitude, cross-gradient, joint total variation, correspondence, petrophysical), any mesh, active-cell set, mapping, weights and reference model, the gradient is the derivative of the value and the Hessian is symmetric, positive semi-definite where quadratic, and the same whether formed or applied to a vector.",
 ["inputs", "configurations"], "all regularizations x meshes x active cells x mappings x weights x reference models",
 "Tests use a few meshes with default options and a single random model.",
 ["simpeg/regularization"], [("f_m, f_m_deriv, W, deriv, deriv2", "simpeg/regularization/*.py")], ["__call__", "deriv", "deriv2"])
prop("C08", "Regularizations measure the functional they document",
 "A regularization's value equals the documented volume-weighted functional of the mapped model on active cells only: it vanishes exactly for models with nothing to penalize, scales quadratically (or with the IRLS weights for the chosen norms), multiplies all named weights together, and is the alpha-weighted sum of its terms. Changing weights, alphas, length scales, active cells, norms or reference models changes the value exactly as documented, whatever the order of the changes.",
 ["inputs", "configurations", "histories"], "all meshes, active sets, weights, alphas, norms, reference models and orders of setting them",
 "Tests compare with a few fixed values; orders of setting options are not explored.",
 ["simpeg/regularization/base.py", "simpeg/regularization/sparse.py", "simpeg/regularization/regularization_mesh.py", "simpeg/regularization/_gradient.py", "simpeg/regularization/vector.py", "simpeg/regularization/cross_gradient.py", "simpeg/regularization/jtv.py", "simpeg/regularization/correspondence.py"],
 [("W assembly, set_weights/remove_weights, multipliers, get_lp_weights", "simpeg/regularization/base.py, sparse.py")], ["__call__"])
prop("C09", "Survey and data bookkeeping is a partition of the data vector",
 "Every datum belongs to exactly one source-receiver pair; the slices of all pairs tile the data vector in survey order, counts of data agree at receiver, source, survey and data level, and reading or writing data through a pair touches exactly that pair's entries. Uncertainties always equal the root-sum-square of noise floor and relative error times absolute data, and predicted data are placed in the same order.",
 ["inputs", "histories"], "all surveys (shared receivers, different sizes, any modality) and all write/read sequences",
 "Tests use small regular surveys; shared receivers, mixed sizes and write sequences are barely sampled.",
 ["simpeg/survey.py", "simpeg/data.py", EM + "/frequency_domain/survey.py", EM + "/static/resistivity/survey.py", "simpeg/potential_fields/magnetics/survey.py", "simpeg/potential_fields/gravity/survey.py", EM + "/natural_source/survey.py"],
 [("get_slice/get_all_slices, vnD/nD", "simpeg/survey.py"), ("Data.__getitem__/__setitem__, standard_deviation", "simpeg/data.py")], ["Data", "Survey"])
prop("C10", "Fields storage returns exactly what was stored, per source and time",
 "Values written to a fields object for given sources, field names and times are returned unchanged by every overlapping read and never leak into other sources, names or times. Derived fields equal their defining function of the stored solution for the same sources and times, for any selection of sources (single, list in any order, slice) and times.",
 ["histories", "inputs"], "all sequences of writes and reads with single sources, lists, slices, names and time indices",
 "Tests write whole-array patterns for a fixed 5-source survey.",
 ["simpeg/fields.py", EM + "/frequency_domain/fields.py", EM + "/time_domain/fields.py", EM + "/static/resistivity/fields.py", EM + "/static/resistivity/fields_2d.py"],
 [("Fields.__getitem__/__setitem__, TimeFields", "simpeg/fields.py")], ["Fields"])
prop("C11", "Data files written by the library read back to the same survey and data",
 "Writing a survey or data object to any supported file format and reading it back yields the same electrode/receiver locations, source definitions, data values, uncertainties and their pairing, up to the precision of the format. Survey conversions (DC to IP/SIP, 3D to 2D lines, record arrays) preserve the data-to-geometry pairing.",
 ["inputs", "configurations"], "all surveys representable in each format (pole/dipole mixes, topography, any ordering) and all file types",
 "Tests round-trip one small survey per format.",
 ["simpeg/utils/io_utils/io_utils_electromagnetics.py", "simpeg/utils/io_utils/io_utils_pf.py", EM + "/static/utils/static_utils.py", EM + "/natural_source/survey.py", EM + "/static/induced_polarization/survey.py"],
 [("write_*/read_* pairs", "simpeg/utils/io_utils")], ["read_*", "write_*"])
prop("C12", "Optimizers stay feasible, descend and respect their limits",
 "Every iterate and every trial point at which the objective is evaluated satisfies the bounds; the accepted objective value never increases when decrease is required and satisfies the sufficient-decrease rule; iteration, line-search, inner-iteration and maximum-step limits are never exceeded. Stopping reports agree with the criteria, a bound-constrained quadratic is minimized to the constrained optimum, and the callback sees each accepted iterate exactly once.",
 ["inputs", "histories"], "all minimizers x objective functions x bounds x starting points x limits",
 "Tests check final answers on a couple of textbook functions.",
 ["simpeg/optimization.py", "simpeg/utils/code_utils.py"],
 [("projection, line search, stoppers", "simpeg/optimization.py")], ["evalFunction calls", "callback", "minimize result"])
prop("C13", "Inversion directives follow their documented schedules",
 "During an inversion the trade-off parameter, scalings, sparse norms/thresholds, sensitivity weights, preconditioner and targets change only when and by the amount the configured directives document, in the configured order, for any history of misfits. The inversion stops exactly when a target is reached, and everything saved per iteration equals the state of that iteration.",
 ["histories", "configurations"], "all directive lists and parameters, all misfit histories",
 "Tests check end results of a few inversions and a few single-call unit checks.",
 ["simpeg/directives/_directives.py", "simpeg/directives/_regularization.py", "simpeg/directives/_sim_directives.py", "simpeg/directives/_pgi_directives.py", "simpeg/inversion.py", "simpeg/inverse_problem.py"],
 [("endIter/initialize of each directive", "simpeg/directives")], ["invProb.beta per iteration", "saved files"])
prop("C14", "Computing engine, parallelism and storage never change the answer",
 "Gravity and magnetic simulations (volume meshes and equivalent layers), forward values, products and Gram diagonals are the same for every engine, serial or parallel execution, in-memory, on-disk or on-the-fly sensitivities and data type, up to the precision of that type. The dask variants and multi-process or threaded composite simulations return what their serial counterparts return, regardless of worker count, chunking and scheduling.",
 ["configurations", "schedules", "inputs"], "all engines x storage modes x parallel settings x components x models; worker counts and schedules",
 "Tests compare pairs of engines for single components; dask tests are outside the stable suite.",
 ["simpeg/potential_fields", "simpeg/dask", "simpeg/meta/multiprocessing.py"],
 [("engine/store_sensitivities/numba_parallel dispatch", "simpeg/potential_fields/*/simulation.py"), ("numba kernels", "simpeg/potential_fields/*/_numba"), ("dask overrides", "simpeg/dask"), ("_SimulationProcess workers", "simpeg/meta/multiprocessing.py")], ["dpred", "Jvec", "Jtvec", "getJtJdiag"])
prop("C15", "Composite simulations equal the assembly of their parts",
 "A composite (meta) simulation's predicted data, products and sensitivity diagonals equal the stacking, summing or repeating of its member simulations each applied to its mapped model, in member order. Splitting a survey over members or tiling a mesh and recombining reproduces the undivided simulation.",
 ["inputs", "configurations"], "all member lists, mappings, models, vectors",
 "Tests use 2-10 similar members with simple maps.",
 ["simpeg/meta/simulation.py", "simpeg/meta/multiprocessing.py"], [("MetaSimulation/SumMetaSimulation/RepeatedSimulation", "simpeg/meta/simulation.py")], ["dpred", "Jvec", "Jtvec", "getJtJdiag"])
prop("C16", "Electrical simulations obey reciprocity, superposition and scaling",
 "Resistivity, induced-polarization and self-potential predictions are linear in injected current, additive over electrodes (a dipole is the difference of its poles), reciprocal under exchange of current and potential electrodes, and proportional to resistivity when it is scaled uniformly. Different discretizations, boundary conditions and dimensionalities of the same half-space converge to the analytic answer, and apparent resistivities of a half-space equal its resistivity.",
 ["inputs", "configurations"], "all electrode layouts, conductivity models, meshes and formulations",
 "Tests compare one layout with an analytic value at percent-level tolerance.",
 [EM + "/static/resistivity", EM + "/static/induced_polarization", EM + "/static/self_potential", EM + "/static/spectral_induced_polarization"],
 [("getA/getRHS/source eval/receiver getP", EM + "/static/resistivity/*.py")], ["dpred", "fields"])
prop("C17", "Potential-field predictions obey superposition and field identities",
 "Gravity and magnetic predictions are linear and additive over bodies, invariant under joint translation and cell subdivision, and match the closed-form field of prisms; gradient components have zero trace outside bodies and are the spatial derivatives of field components; derived components (total field, amplitudes, combined gradients) are the documented function of the basic ones. Self-demagnetizing, remanent, vector and equivalent-layer variants reduce to each other where their definitions coincide.",
 ["inputs", "configurations"], "all meshes, active cells, components, receivers and inducing fields",
 "Tests use one prism or sphere and fixed receiver grids.",
 ["simpeg/potential_fields/gravity", "simpeg/potential_fields/magnetics", "simpeg/potential_fields/base.py"],
 [("evaluate_integral, kernels, tmi projection", "simpeg/potential_fields/*/simulation.py")], ["dpred", "getJ"])
prop("C18", "Full-wave EM formulations agree and satisfy discrete Maxwell laws",
 "For the same physics the E-, B-, H- and J-formulations in frequency and time domain give consistent fields and data, the stored and derived fields satisfy the discrete Faraday, Ampere and constitutive relations, and responses are linear in source strength and additive over sources and independent of how sources and receivers are grouped or ordered in the survey. Source terms of closed wires are divergence-free and those of grounded wires inject and extract exactly the wire current at its ends.",
 ["inputs", "configurations"], "all sources, meshes, models, frequencies, time steppings and survey orderings",
 "Cross-check tests fix one mesh and model; the time-domain tests are outside the stable suite.",
 [EM + "/frequency_domain", EM + "/time_domain", EM + "/utils/current_utils.py", EM + "/base.py"],
 [("getA/getRHS, fields aliases, sources", EM + "/frequency_domain, time_domain")], ["fields", "dpred"])
prop("C19", "Layered-earth EM responses are consistent with their definition",
 "One-dimensional frequency-, time-domain, resistivity and magnetotelluric layered simulations are unchanged by splitting a layer into identical sublayers, by survey ordering and grouping, and by expressing the same property through its reciprocal; they are linear in source moment, depend on source-receiver offset only, reduce to analytic half-space responses, and in time domain equal the convolution of the impulse response with the waveform.",
 ["inputs", "configurations"], "all layerings, sources, receivers, waveforms and property parameterizations",
 "Tests compare a few half-space/IP cases with analytic or stored values.",
 [EM + "/base_1d.py", EM + "/frequency_domain/simulation_1d.py", EM + "/time_domain/simulation_1d.py", EM + "/static/resistivity/simulation_1d.py", EM + "/natural_source/simulation_1d.py"],
 [("recursive coefficients, Hankel/time filters, waveform convolution", EM + "/base_1d.py, time_domain/simulation_1d.py")], ["dpred"])
prop("C20", "Waveforms are continuous-time functions with matching derivatives",
 "Every transmitter waveform (inductive time-domain and viscous-remanent) evaluates to its documented shape for any parameters and time: it is within its peak amplitude, is zero before it starts and after it ends, is continuous where documented, and its derivative function is the derivative of its value. Decay functions of viscous-remanent waveforms equal the superposition of the responses of their steps and pulses.",
 ["inputs"], "all waveform classes x parameters x times",
 "Tests evaluate each waveform at a few chosen times.",
 [EM + "/time_domain/sources.py", EM + "/viscous_remanent_magnetization/waveforms.py", EM + "/utils/waveform_utils.py"],
 [("eval / eval_deriv / time_nodes / getCharDecay", EM + "/time_domain/sources.py")], ["eval", "eval_deriv", "getCharDecay", "getLogUniformDecay"])
prop("C21", "Physical properties, their reciprocals and inner products stay consistent",
 "A physical property read from an object always equals the value last assigned to it, the reciprocal of the value last assigned to its reciprocal property, or its mapping of the current model; assigning any one of these supersedes the others and a rejected assignment changes nothing. Mass matrices, their inverses and derivatives derived from properties always correspond to the current property values.",
 ["histories", "inputs"], "all sequences of assigning values, reciprocals, mappings and models, valid or not",
 "Tests cover a few fixed assignment sequences.",
 ["simpeg/props.py", "simpeg/base/pde_simulation.py"], [("PhysicalProperty/Mapping/Reciprocal descriptors", "simpeg/props.py"), ("with_property_mass_matrices", "simpeg/base/pde_simulation.py")], ["property reads", "mass matrices"])
prop("C22", "Calls have no side effects and random draws are reproducible",
 "Evaluating simulations, mappings, misfits, regularizations, directives and utilities never modifies arrays or objects the caller passed in, never changes the global random state, and repeating a call returns the same result. The same seed gives the same synthetic data, random models and estimates, and synthetic noise has the documented standard deviation.",
 ["histories", "inputs"], "all public calls and repetitions",
 "Tests rarely check arguments after a call or repeat calls.",
 ["simpeg/simulation.py", "simpeg/maps", "simpeg/regularization", "simpeg/utils", "simpeg/directives"],
 [("copies in setters, default_rng use", "simpeg/**")], ["argument digests before/after", "numpy global RNG state"])
prop("C23", "Invalid input is rejected, valid input is kept exactly",
 "Public setters and constructors accept every value in their documented domain and store it (or its documented canonical form) and raise an error for values outside it (wrong type, shape, range, choice, duplicate members), leaving the object unchanged and usable. No out-of-domain value is silently accepted, truncated or coerced into a different value.",
 ["inputs", "histories"], "all public properties and constructors x values inside and outside their domains",
 "Tests try a few bad values on a few classes.",
 ["simpeg/utils/code_utils.py", "simpeg/survey.py", "simpeg/data.py", "simpeg/optimization.py", "simpeg/directives", "simpeg/maps", "simpeg/regularization", EM],
 [("validate_* helpers", "simpeg/utils/code_utils.py")], ["property setters"])
prop("C24", "Electrode-geometry utilities agree with the geometry they describe",
 "Electrode separations, geometric factors, apparent resistivities, pseudo-locations, electrode location tables, line extraction and generated surveys are exact functions of each datum's electrode positions, for every mixture of pole and dipole sources and receivers, in data order. Building a survey from a table of electrode positions and reading the table back preserves every quadrupole, and draping moves electrodes only vertically onto the topography.",
 ["inputs"], "all electrode tables and surveys",
 "Tests cover regular single-type lines only.",
 [EM + "/static/utils/static_utils.py", EM + "/static/resistivity/survey.py", EM + "/static/resistivity/IODC.py"],
 [("electrode_separations, geometric_factor, pseudo_locations, generate_survey_from_abmn_locations", EM + "/static/utils/static_utils.py")], ["utility outputs"])
prop("C25", "Model-building and geometric utilities match their geometric meaning",
 "Block, sphere, ellipsoid, polygon, layer and topography selections contain exactly the cells they describe; rotations are orthogonal and map one direction to the other; spherical-Cartesian and dip-azimuth conversions invert each other; depth and distance weightings follow their formula; and discrete topography and draping agree with the active cells, for any mesh and orientation.",
 ["inputs"], "all meshes, shapes, angles and point sets",
 "Tests check one example each.",
 ["simpeg/utils/model_builder.py", "simpeg/utils/mat_utils.py", "simpeg/utils/coord_utils.py", "simpeg/utils/model_utils.py", "simpeg/utils/mesh_utils.py", "simpeg/utils/curv_utils.py"],
 [("utility functions", "simpeg/utils")], ["utility outputs"])
prop("C26", "Petrophysical mixture models are valid weighted Gaussian mixtures",
 "Cell-weighted Gaussian mixture models always hold proportions that are non-negative and sum to one, covariances that are symmetric positive definite and consistent with their precisions for every covariance type; likelihoods and memberships equal the weighted mixture density; cluster ordering only permutes; and updating with priors interpolates between the observed and the prior parameters as documented.",
 ["inputs", "configurations"], "all covariance types, dimensions, cell weights, priors and samples",
 "Tests fit one mixture with default options.",
 ["simpeg/utils/pgi_utils.py", "simpeg/regularization/pgi.py"],
 [("WeightedGaussianMixture, GaussianMixtureWithPrior", "simpeg/utils/pgi_utils.py")], ["gmm parameters", "score_samples", "predict"])
prop("C27", "Unsaturated-flow solutions conserve mass and constitutive laws hold",
 "Each converged time step of the flow simulation satisfies the discrete mass-balance equation to the solver tolerance for any boundary and initial condition, and water content and conductivity curves are monotone, bounded by their residual and saturated values and have exact derivatives with respect to head and parameters. A hydrostatic state with no-flow remains unchanged.",
 ["inputs", "configurations"], "all soils, heads, meshes, boundary conditions and time stepping",
 "Tests use one profile and compare derivatives for default parameters.",
 ["simpeg/flow/richards", "simpeg/optimization.py"], [("getResidual / NewtonRoot", "simpeg/flow/richards/simulation.py"), ("van Genuchten / Haverkamp curves", "simpeg/flow/richards/empirical.py")], ["fields per step", "empirical curves"])
prop("C28", "Natural-source receivers are the documented ratios of fields",
 "Impedance, tipper, admittance and apparent-conductivity data equal the documented algebraic functions of the electric and magnetic fields interpolated at the receiver locations, for every component, orientation and pair of locations, in 1D, 2D and 3D. Over a layered earth they reproduce the analytic impedance, and amplitude/phase/apparent-resistivity forms are consistent with the real and imaginary parts.",
 ["inputs", "configurations"], "all receiver types x orientations x components x locations x models",
 "Tests check half-spaces and one random field set.",
 [EM + "/natural_source/receivers.py", EM + "/natural_source/fields.py", EM + "/natural_source/simulation.py", EM + "/natural_source/utils"],
 [("_eval_impedance etc.", EM + "/natural_source/receivers.py")], ["receiver eval", "dpred"])
prop("C29", "Ray paths and viscous-remanent responses integrate their kernels exactly",
 "Straight-ray travel times equal the line integral of slowness along each source-receiver segment for any segment and mesh (path lengths sum to the segment length inside the mesh and are symmetric in the end points). Viscous-remanent predictions are linear in the amalgamated susceptibility, additive over cells, sources and sub-cell refinement, and separable into a geometric response times the waveform decay.",
 ["inputs"], "all ray end points, meshes, models, sources, receivers and waveforms",
 "Tests use one ray set and a few VRM geometries.",
 ["simpeg/seismic/straight_ray_tomography/simulation.py", EM + "/viscous_remanent_magnetization"],
 [("_lineintegral", "simpeg/seismic/straight_ray_tomography/simulation.py"), ("A, T matrices", EM + "/viscous_remanent_magnetization/simulation.py")], ["dpred", "Jvec"])
prop("C30", "Analytic reference solutions are exact solutions",
 "The analytic solutions offered for comparison (fields of electric and magnetic dipoles in a whole-space in frequency and in time, dipoles and loops on a half-space, dipoles in a casing, potentials of electrodes and of a conductive sphere, gravity and magnetic fields of spheres, layered magnetotellurics, relaxation models) satisfy the equations they are solutions of at every point, frequency, time, orientation and medium: Maxwell's equations with the strength and direction of the source, continuity across interfaces, total equal to primary plus secondary, potentials adding over electrodes.",
 ["inputs"], "all points, sources, orientations, frequencies, times and media of the documented domains",
 "Tests compare the magnitudes of a few of them with coarse numerical solutions.",
 [EM + "/analytics", "simpeg/potential_fields/gravity/analytics.py", "simpeg/potential_fields/magnetics/analytics.py", EM + "/utils/em1d_utils.py"],
 [("MagneticDipoleWholeSpace", EM + "/analytics/FDEM.py"), ("TransientElectricDipoleWholeSpace", EM + "/analytics/TDEM.py"), ("DCAnalyticSphere", EM + "/analytics/DC.py"), ("GravityGradientSphereFreeSpace", "simpeg/potential_fields/gravity/analytics.py")], ["ElectricDipoleWholeSpace", "MT_LayeredEarth", "MagSphereAnaFunA"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
