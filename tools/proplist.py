prop("P01", "Symmetry groups are the set of their operations",
     "Every symmetry group that is constructed, generated, combined, transposed, dualised, transformed, copied or cut out as a subgroup is exactly the mathematical group of its definition: closed, each operation listed once, with the right order, inversion included. Equality, containment, closure tests, symmetry tests of functions, conjugacy classes and quotients answer for that set of operations, however its representatives are stored. What is not a finite group is rejected. Space groups, in any dimension, keep their translations under all of this, and are cut down to exactly the operations that remain.",
     ["inputs", "histories"], "all command histories over generators from GL(d,Z) for d=1,2,3, the named groups and their transforms, and irrational groups",
     "The tests compare a dozen fixed groups; representation dependence, inversion handling and odd histories are not reached.",
     ["symmetry.py"], [("Symmetry group algebra", "symmetry.py")],
     "TLA+ (TLC): group algebra as a state machine; TLC-generated command histories replayed on the library, recorded operation sets judged by the spec",
     "Exhaustive model check of the group algebra for small generator pools; the library is judged on TLC-generated and random histories (integer matrices exact, irrational groups via Cayley tables). Trusts the projection of floats to integers.")

prop("P02", "Symmetry expansion yields exactly the full orbits",
     "Expanding points with a symmetry group, plainly or modulo the reciprocal unit cell, returns for every point the images under all operations of the group (inversion included), as a set or, where the order is promised, operation by operation. Expanding data together with its points gives every image the value of the point it came from (the mean where several points share an image and averaging is requested) and loses no point.",
     ["inputs"], "all groups (crystal groups in d=1,2,3, conjugated into arbitrary lattices), all lists of rational points (special, coincident and zone boundary points included) and data",
     "The tests expand a few hand picked points; special points, unit cell wrapping and inversion combinations are only sampled.",
     ["symmetry.py"], [("Symmetry.symmetrize*, expansion of data", "symmetry.py")],
     "TLA+ (TLC): orbits as sets over exact rational points; every recorded expansion is judged against the orbit of the spec",
     "The orbit specification is model checked exhaustively on small grids; the library is judged on generated groups and points in exact rational coordinates.")

prop("P03", "Symmetry reduction keeps one weighted representative per orbit",
     "Reducing points (and data) by a symmetry group keeps exactly one point of every orbit that was given and its data, so that expanding the reduced set restores every given point. The weight of a point is the size of its orbit (class), so weighted sums over representatives equal sums over the full set. Points are found in, and only in, the class they belong to.",
     ["inputs"], "all groups and all multisets of rational points, including orbits of equal or nearly equal length, special points and lattices that are not orthogonal",
     "The tests reduce one regular grid; orbits with coinciding lengths, inversion and special points are not enumerated.",
     ["symmetry.py"], [("reduce_symmetric_data, find_classes, r_class_size", "symmetry.py")],
     "TLA+ (TLC): orbit partition specification, model checked (round trip, orbit-stabilizer, weights), then recorded reductions of the library are judged",
     "Exact rational points; representatives may be any member of the orbit.")

prop("P04", "Neighbor lists are completed to closed, sorted, halved shells",
     "Completing a neighbor list with a symmetry gives each vector of every orbit exactly once up to sign, ordered so that each image can be traced to the given vector it came from, and neighbor lists are accepted by the check exactly if they are complete and consistent in this sense. Looking up points among neighbors returns the matching index and sign, or reports that there is none.",
     ["inputs"], "all groups and lists of integer or lattice vectors, with duplicates, mirrored pairs and incomplete shells",
     "The tests complete a handful of cubic shells only.",
     ["symmetry.py", "bandstructure.py"], [("complete_neighbors, check_neighbors", "symmetry.py")],
     "TLA+ (TLC): closure/halving specification over orbits; recorded neighbor lists are judged",
     "Exact integer vectors; which of r and -r is kept is free unless the code fixes it.")

prop("P05", "Symmetrized tensors are the group mean",
     "Symmetrizing a tensor or pseudotensor of any rank with a symmetry group gives the mean of the tensor over all operations of the group (inversion included, with the determinant sign for pseudotensors and complex conjugation only where documented). The result is invariant under every operation, symmetrizing twice changes nothing and an invariant tensor is unchanged.",
     ["inputs"], "all crystal groups in d=1,2,3 and all integer tensors up to rank 4, for every documented option",
     "The tests look at two cubic examples; odd ranks, pseudotensors and inversion-containing groups are not reached.",
     ["symmetry.py"], [("symmetrize_tensor", "symmetry.py")],
     "TLA+ (TLC): exact group mean of integer tensors as specification; recorded results are judged entry by entry",
     "Tensor entries scaled by the group order are exact integers; ranks up to 4.")

prop("P06", "Bands are the eigenvalues of the Hermitian Fourier series",
     "A tight binding model evaluates H(k) as the Fourier sum of its hopping matrices over its neighbors and their Hermitian mirror images, without double counting the on-site term, for every model class and every way of constructing it. Its bands are the ascending eigenvalues of H(k) (the generalized ones if there is an overlap matrix), periodic in k, for any k array shape that is documented.",
     ["inputs", "configurations"], "all integer models in d=1,2,3 with up to 4 bands, all classes and forms, at all rational k of denominator 4 (exact) and other lattices by tables; large models (up to 24 bands, 130 points) with known bands",
     "The tests evaluate two fixed models at sampled k.",
     ["bandstructure.py", "tight_binding_asym.py", "tight_binding.py", "linalg.py"], [("HermitianFourierSeries, f, bands", "tight_binding_asym.py")],
     "TLA+ (TLC): exact Gaussian integer H(k), bands judged by their power sums tr H^j; generalized problem by exact overlap polynomials",
     "Eigenvalues are judged through exact integer power sums; k on the quarter grid, or quantized phase tables.")

prop("P07", "Band gradients and hessians are the derivatives of the bands",
     "The gradients of the bands are the exact k-derivatives of the eigenvalues, for every model class, with overlap, and at degenerate points up to the choice within the degenerate set. The hessians, also with a k-dependent overlap, are the exact second derivatives where the bands are not degenerate, and finite, with the exact second derivatives along the axes (summed over equal bands), where they are. The bands returned along with them equal the bands, and the coupling of states to displacements consists of these velocities and the overlaps of the states.",
     ["inputs", "configurations"], "all integer models in d=1,2,3 with up to 4 bands and all rational k of denominator 4; large models (up to 24 bands) with known bands and k-dependent eigenvectors",
     "The tests compare against finite differences at a few random points.",
     ["bandstructure.py", "tight_binding_asym.py", "tight_binding.py", "linalg.py"], [("bands_grad, bands_grad_hess", "tight_binding_asym.py")],
     "TLA+ (TLC): exact first and second derivatives of tr H^j(k) as specification; recorded gradients and hessians are judged by these sums",
     "Mixed second derivatives only where the bands are 0.05 apart (at degenerate points they depend on the choice within the degenerate set).")

prop("P08", "All parameter representations describe the same Hamiltonian",
     "The parameter forms of a band structure model (cosine/sine or exponential, reduced or not, with or without a symmetry group) all describe the same Hamiltonian: setting complex parameters and reading them back is the identity on what the form can represent, and converting between forms, normalizing or copying leaves the bands unchanged.",
     ["inputs", "histories", "configurations"], "all integer hopping matrices, all crystal groups, all chains of conversions between the forms",
     "The tests exercise single conversions of one model.",
     ["bandstructure.py", "tight_binding.py"], [("params_complex, set_params_complex, convert, normalize", "bandstructure.py")],
     "TLA+ (TLC): symmetry expanded hoppings and their exact sums as specification; recorded parameters and bands after each step are judged",
     "Exact integer parameters, quarter grid.")

prop("P09", "Editing operations on models do exactly what they say",
     "Every history of editing operations on a model (adding, moving, changing, removing and pruning neighbors or bands, scaling, shifting, adding models, permuting, transforming, blocks, direct sums, randomizing, normalizing) changes the Hamiltonian and the bands exactly as documented and nothing else. Copies and the results of pure operations share no parameters with the original, which stays unchanged.",
     ["histories", "inputs"], "all histories of up to six operations over small integer models, both model classes",
     "Unit tests call single operations on one model; histories and aliasing are unbounded.",
     ["bandstructure.py", "tight_binding_asym.py"], [("model editing", "tight_binding_asym.py")],
     "TLA+ (TLC): models as a state machine, invariants model checked; behaviours generated by TLC are replayed on both classes and every intermediate model is judged",
     "The neighbors of a BandStructureModel copy may be shared as documented.")

prop("P10", "Supercells describe the same solid",
     "A supercell of a model, for any integer supercell matrix of non zero determinant, has the folded bands of the original: at every k its bands are the union of the bands of the original at all k that fold onto it, whatever the order of the copies. Supercells of supercells are the supercell of the product.",
     ["inputs", "histories"], "all integer supercell matrices with |det| up to 4 (6 thorough) in d=1,2,3, integer models, lattices; larger ones (|det| up to 16, up to 5 bands) whose folded k are on the quarter grid",
     "The tests check one diagonal supercell.",
     ["bandstructure.py", "tight_binding_asym.py"], [("supercell", "tight_binding_asym.py")],
     "TLA+ (TLC): exact folded power sums as specification; recorded supercells are judged",
     "Exact integer models on the quarter grid of the supercell.")

prop("P11", "Files keep models",
     "Saving a model and loading it again (json, python, with or without symmetry) gives the same neighbors, bit-identical numbers and the same bands, of any size and dimension, with overlap matrices where the class has them, whatever was in the file before. Wannier90 files are read as the Hamiltonian they describe: blocks in any order, mirrored blocks merged, the degeneracy weights applied. Unknown formats and file names are rejected, and no call changes global printing settings, even if it fails.",
     ["inputs", "fault_sequences"], "all model sizes and dimensions, all finite doubles, all block orders and degeneracies of wannier90 files, failing saves",
     "The tests save one model.",
     ["bandstructure.py", "tight_binding_asym.py", "json_tb_format.py", "wannier90_tb_format.py"], [("save, load", "bandstructure.py"), ("load_tb, load_hr", "wannier90_tb_format.py")],
     "TLA+ (TLC): file reader state machine over block orders (model checked) plus round trip relations; recorded files and loaded models are judged",
     "Bit patterns compared exactly; in the json format numbers below 1e-14 may be dropped as documented.")


prop("P12", "Hamiltonian symmetrization projects onto symmetric models",
     "A Hamiltonian symmetry built from orbitals and their positions acts on hopping matrices as the site and orbital representation of the group, with inversion and the lattice translations of the mapped sites. Symmetrizing a model gives the mean over the group: the result commutes with every operation, doing it twice changes nothing, symmetric and Hermitian models stay so, and the symmetrized operator at k has the symmetry at all images of k. Copies are independent.",
     ["inputs", "configurations"], "all crystal groups, orbital layouts (s, p, d, pairs on diamond sites, 1D irreps on all site orbits), neighbor lists (complete or partial orbits) and integer hopping matrices",
     "The tests symmetrize two cubic models and look at a few numbers.",
     ["hamiltonian_symmetry.py"], [("HamiltonianSymmetry", "hamiltonian_symmetry.py")],
     "TLA+ (TLC): representations on sites and orbitals, group mean as specification (model checked: projection, invariance), recorded matrices are judged exactly",
     "Matrices over Z[sqrt 3], integer hopping matrices; phases as lattice translations.")

prop("P13", "Unitary representations are representations and compose",
     "Unitary representations, real or complex, built in, generated from a homomorphism of generators, added, multiplied, repeated, permuted or copied, are representations of their group with the right characters and parity (gerade states first). Their check accepts exactly representations, what cannot be combined is rejected without side effects. Symmetrizing hopping matrices with them gives the mean over the group, and the symmetry check of an operator decides exactly whether it is symmetric.",
     ["inputs", "histories"], "all crystal groups with integer or Z[sqrt 3] representations, all sums and products of them, all neighbor orbits and integer matrices",
     "The tests do not multiply representations and symmetrize only one.",
     ["unitary_representations.py"], [("UnitaryRepresentation", "unitary_representations.py")],
     "TLA+ (TLC): representations and projections specified exactly and model checked, recorded representations and matrices are judged",
     "Matrices over Z[sqrt 3] with a common denominator.")

prop("P14", "Paths through k-space and interpolated band data are right",
     "A k-path visits its waypoints with the requested number of evenly spaced points, keeps its waypoint indices, names and plot positions in step, and refuses bad waypoints without changing; plots show every band at these positions. Interpolation of data on a grid, completed by a symmetry and periodic if wanted, gives the data at the grid points and is multilinear between them for the linear method; scattered data is found at its points and their images only. The named special points lie on the boundary of the Brillouin zone of their lattice.",
     ["inputs", "histories", "configurations"], "all waypoint sequences and step counts, all regular grids (shifted, non-cubic, wedges of any crystal group), all lattice parameters of the special points",
     "The tests interpolate one square lattice and never look at paths.",
     ["kpaths.py"], [("KPath, interpolate, interpolate_unstructured, special points", "kpaths.py")],
     "TLA+ (TLC): paths as a state machine (model checked), exact multilinear interpolation on symmetric periodic grids and Brillouin zones as specification; recorded paths, plots and interpolations are judged",
     "Cubic interpolation at grid points and on affine data only; special points with a tolerance of 1e-3.")

prop("P15", "Loss functions are exact and the fit log records what was reported",
     "The loss of a model is the root mean square of the weighted errors of the compared bands, the errors are the largest ones per band; the windowed loss is the smallest one over all band offsets (or over all assignments of bands when bands may be skipped), restricted to the energy window; the error histogram shows the largest error per energy bin. Printed reports of errors and parameter norms, and plots of the loss, show these values. The fit log keeps every message, iteration, loss and error bar in order, prints exactly what its switches ask for, and can be aborted once.",
     ["inputs", "histories"], "all integer bands, offsets, weights and windows (every injective assignment); all sequences of calls on the log",
     "No test looks at the windowed loss, the histogram or the log.",
     ["loss.py", "logger.py", "bandstructure.py", "tight_binding_asym.py"], [("model_loss, model_error, windowed_loss, error_histogram", "loss.py"), ("OptimisationLogger", "logger.py")],
     "TLA+ (TLC): loss functions specified by exhaustive minimization over integers, the log as a state machine driven by calls; recorded results are judged",
     "Histogram bins: values exactly on a bin boundary may go to either bin.")

prop("P16", "Fits follow their protocol, reach exact data and survive interruption",
     "A fit returns the given logger with one entry per iteration, ends with converged, aborted or all iterations done, and its last entry has the loss and errors of the returned model. An interruption at any moment of the fit leaves a model of completed steps only. Data of one band models are reached, a perfect fit stays (also with a fixed or fitted overlap), a fit that starts near its data stays near it, symmetries, zeros (if asked), neighbors, hermiticity and the caller's arrays are kept; starting points and automatic fits have the promised bands, neighbors and checkpoint files.",
     ["inputs", "schedules", "histories", "configurations"], "all model classes, options, weights, band offsets and groups; interruption at every executed line of the fit",
     "The tests fit three models without interruption, and look at the final loss only.",
     ["bandstructure.py", "tight_binding_asym.py", "linalg.py", "logger.py"], [("optimize, optimize_cg, init_tight_binding_from_ref", "bandstructure.py"), ("optimize, optimize_cg, autofit_asym", "tight_binding_asym.py"), ("conjugate_gradient_solve", "linalg.py")],
     "TLA+ (TLC): optimizer with an interrupt enabled in every state (model checked), protocol and results of recorded fits, interrupted at random lines, are judged against it",
     "Losses in fixed point; convergence is required for one band models only (undamped Gauss-Newton steps may diverge otherwise).")

prop("P17", "Volumes below a level are exact, cell by cell",
     "For every smearing method the volume of a cell below an energy is the exact volume for the function the method uses in that cell (the linear function of mean value and slopes in cubes and spheres, the linear one of each tetrahedron, the extrapolation of two grids for cubes+), the density is its derivative, and both together are the same as each alone. The samples on a cut are the centers of mass of the cut of every cell crossed, once per cell, with its area as weight and its gradient, in the reciprocal space of any lattice. Grids wrap or do not wrap as asked, and no argument changes.",
     ["inputs", "configurations"], "all integer functions and levels in a cell, grids of integers with and without wrapping, lattices, ranges, and gradients given or not",
     "The tests compare the integrals of one spherical band with 1e-2, not a single cell.",
     ["smearing.py"], [("cube_cut_volume, tetra_cut_volume, unit_sphere_cut, SmearingMethod", "smearing.py")],
     "TLA+ (TLC): cut volumes of cubes and tetrahedra as rational polynomials, model checked (monotone, complement, integral of the density, agreement of both); recorded volumes, densities and samples are judged",
     "Fixed point with 5 digits; the ends of one dimensional cuts, where the density jumps, are not judged.")

prop("P18", "Densities of states, Fermi levels and energies are right",
     "For every smearing method and lattice the states below a level, the density and the parts of each band are the means over all cells, band ranges contain every sampled energy, and the Fermi level is where the states reach the number of electrons, in the middle of the gap of an isolator. Energies are those of the filled states and curves at finite temperature are those of zero temperature smeared by the Fermi function; the chemical potential conserves electrons, and Seebeck coefficient, heat capacity and k-resolved density follow from it. Samples of the Fermi surface are one per crossed cell, weigh as much as their cell adds to the density, and improved points lie on the surface; models which are not periodic are refused.",
     ["inputs", "configurations"], "all systems of integer bands on small grids, lattices (left-handed too), levels, electron numbers and temperatures",
     "The tests check one spherical and one cosine band at a few levels, and no energy or temperature of overlapping or flat bands.",
     ["density_of_states.py", "smearing.py"], [("DensityOfStates, naive_fermi_energy, naive_energy, convolve_df, convolve_ddf, secant", "density_of_states.py")],
     "TLA+ (TLC): states, densities and energies of several bands as exact sums over cells, model checked with a rising level; recorded results are judged",
     "Finite temperatures against sums over a fine grid with tolerances; flat lowest bands at finite temperature and the improved weights are left out.")

prop("P19", "Transport integrals and coefficients are right for any lattice",
     "The transport integrals at zero temperature are the means of the velocity products and inverse masses over the cells of the grid, weighted with the density of states at the Fermi level, in the reciprocal space of any lattice and for any smearing; at finite temperature they are these, smeared with the moments of the derivative of the Fermi function. Conductivity, Peltier, Seebeck, thermal conductivity and Hall tensors follow from the integrals by their defining matrix relations, for one or many temperatures, and include the scattering time, also if it depends on k. Free electron bands have the energies, gradients and hessians of plane waves.",
     ["inputs", "configurations"], "all integer bands on small grids with slopes and curvatures per cell, all lattices (left-handed too), levels, temperatures and scattering times",
     "The tests compute the coefficients of one spherical band of a cubic lattice with one scattering time.",
     ["bulk_properties.py", "density_of_states.py", "smearing.py"], [("BulkProperties integrals and coefficients, free electrons", "bulk_properties.py"), ("fermi_surface_samples", "density_of_states.py")],
     "TLA+ (TLC): transport integrals as exact sums over cells and moments of the Fermi function, tensors over integers, model checked (covariance, symmetry, moments); recorded integrals and coefficients are judged",
     "Moments at finite temperature for linear and quadratic dependence only, with tolerances of the documented quadrature; deprecated functions are not judged.")

prop("P20", "The Quantum Espresso interface writes and reads what the crystal says",
     "Every input file written for a crystal is well formed, holds its lattice, atoms, cutoff, smearing, spin-orbit flag and k points as given, is run once with the matching program, and leaves the crystal unchanged. Crystals, bands, Fermi energies, symmetries (of the crystal only, acting on k), wavefunctions, charge densities and projections read from the output files are exactly those in the files, in the unit of the crystal. Lattices have the given lengths, angles and centering, densities are those of the atoms, and names reach a shell only if they are harmless. Plots show all atoms in the drawn cells at their places and the bands of the files.",
     ["inputs", "configurations"], "all crystals (left-handed lattices, any unit, element, smearing, spin-orbit coupling), all calculations, k point lists, symmetry lists with translations, plane wave sets with one or two spin components",
     "No test runs any of this code; it needs installed programs which the harness replaces by stand-ins that record the call and by files written from the specification.",
     ["qespresso_interface.py"], [("QECrystal, from_disk, qe_prepare", "qespresso_interface.py"), ("triclinic, rhombohedral and other lattices", "qespresso_interface.py")],
     "TLA+ (TLC): namelists as a reader state machine, output files as functions of the crystal (model checked: reading inverts writing, symmetries are dual, lattices have their metric and volume); recorded inputs, commands and results are judged",
     "Lattices in quarters, positions and k in eighths; electron masses and the documented 3 digits of atomic masses are within the tolerance; no program of Quantum Espresso is run.")

prop("P21", "Fermi surfaces are where the bands cross the Fermi energy",
     "The bands of a Fermi surface are exactly those with values on both sides of the Fermi energy, each with its values relative to it, on any grid. The exported file holds for each of them a closed surface: one vertex per crossed edge of the grid, where the linear interpolation vanishes, triangles inside of single cells that name vertices of their own band, a material that exists, and the material file beside it. Plots in three dimensions show these triangles, and cuts show the zero lines of every band of every model, at their k coordinates and height, within the requested range.",
     ["inputs", "configurations"], "all volumes of all bands (noise with ambiguous cells, smooth, touching or not crossing), grid sizes, ranges, heights, numbers of bands, models given as one or as list, accelerated or not",
     "No test runs any of this code; a surface can only be judged as a whole, vertex by vertex.",
     ["fermi_surface.py"], [("fermi_surface, export_3D_fermi_surface, plot_3D_fermi_surface, plot_2D_fermi_surface", "fermi_surface.py")],
     "TLA+ (TLC): surfaces on grids and the file that lists them as a state machine, model checked for all small grids; recorded selections, files, plotted triangles and lines are judged",
     "Values are odd integers, so no node lies on the surface; colors and shading are not judged.")

prop("P22", "The numerical kernels are exact",
     "Direct sums, Kronecker products and merged axes of any number of (lists of) matrices are the mathematical ones. Generalized eigenproblems give ascending eigenvalues and normalized eigenvectors; first and second derivatives of eigenvalues under any perturbations are those of perturbation theory, next to and within degenerate sets too. Conjugate gradients solve every positive definite system from every starting point and stop at the iteration limit. Point clouds have distance zero exactly if they are equal as multisets, lattice points in a sphere are all of them, and the Fermi quadratures are exact for polynomials up to their degree. Arguments stay unchanged.",
     ["inputs"], "all Gaussian integer matrices with integer spectra (degenerate or not), perturbations, overlaps, list shapes, positive definite systems, lattices (skewed too), point clouds with repetitions, polynomials",
     "The tests look at three point clouds and a few random perturbations of a single matrix.",
     ["linalg.py", "density_of_states.py"], [("kron, direct_sum, merge_axes, geigh, geigh_grad, eigh_grad_hess, conjugate_gradient_solve, pointcloud_distance, lattice_in_sphere", "linalg.py"), ("gauss_5_df, gauss_7_df, gauss_4_f, gauss_6_f", "density_of_states.py")],
     "TLA+ (TLC): conjugate gradients as a state machine over rationals (model checked: ends exactly within n steps), perturbation sums and products over Gaussian integers (laws model checked); recorded results are judged",
     "Integer spectra with exactly known eigenvectors; mixed second derivatives within a degenerate set are not judged (they have no meaning of their own).")
