"""Source of properties.jsonl; run to regenerate it."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, **anchors):
  assert len(title) <= 80, title
  P.append({
      'id': id, 'title': title, 'statement': statement,
      'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
      'anchors': {'files': ['swirl_fem/' + f for f in files],
                  'mechanism': [{'name': mechanism, 'where': ', '.join(
                      'swirl_fem/' + f for f in files)}], **anchors}})


prop('P01', 'Interpolation reproduces polynomials and their gradients exactly',
     'For every node family (equispaced, Gauss-Legendre, Gauss-Lobatto), number of points and dimension, interpolating the nodal values of a polynomial of per-coordinate degree below the number of points returns its exact values at any evaluation points, and the interpolated gradient returns its exact partial derivatives, one per axis in axis order. '
     'Interpolation is linear in the nodal values, reproduces constants, and leaves the values unchanged at points which are grid points themselves; the matrix form and the function form agree.',
     ['inputs', 'configurations'],
     'All pairs of grid and evaluation node sets (including single points and points which coincide with or are arbitrarily close to grid points), 1 to 3 dimensions, all polynomials of the admissible degree.',
     'The tests interpolate a handful of fixed functions for a few node counts; the exactness must hold for every pair of node sets, coinciding points and dimension.',
     ['core/interpolation.py'],
     'Barycentric weights per node family, the barycentric formula with an exact-equality special case, the differentiation matrix, and Kronecker products over the axes.')

prop('P02', 'Node sets and quadrature rules are exact to their stated degree',
     'An n-point Gauss-Legendre rule integrates every polynomial of degree up to 2n-1 exactly, a Gauss-Lobatto rule up to 2n-3, and the equispaced rule is the composite trapezoidal rule; all weights are positive and sum to 2. '
     'Nodes are strictly increasing, symmetric and inside [-1, 1], and the families which claim continuity across elements (and only those) contain both end points. '
     'The multi-dimensional weights are the tensor product of the 1D weights, in the same (last axis fastest) order as the nodes.',
     ['inputs', 'configurations'],
     'All node families, numbers of points, dimensions and polynomials up to the degree of exactness.',
     'The tests check a few low-order rules against tabulated numbers.',
     ['core/interpolation.py'],
     'Node and weight construction from Legendre/Jacobi roots, and repeated outer products for the n-dimensional weights.')

prop('P03', 'Mesh refinement gives a conforming high-order mesh of the same domain',
     'Refining a first-order mesh to any node distribution places, in every element, the nodes at the images of the tensor-product reference nodes under the element\'s own multilinear map, in tensor-product order, and keeps the original vertices and their numbering. '
     'With a continuous node distribution two elements share a refined node exactly if it lies on a vertex, edge or face they share, whatever the relative orientation of the elements; with a discontinuous one no node is shared. '
     'Every node of the refined mesh belongs to an element, and the input mesh is not modified.',
     ['inputs'],
     'All conforming meshes of line, quadrilateral or hexahedral elements: any connectivity, node numbering, element order, element orientation and geometry; all target node distributions.',
     'The tests refine a few tiny meshes with hand-picked orientations; there are 8 relative orientations per face, and the deduplication depends on the element order and on the numbering.',
     ['core/mesh_refiner.py', 'common/facet_util.py', 'core/premesh.py'],
     'Deduplication of the inner nodes of facets by their sorted vertices, and the mapping of vertex permutations to permutations of the inner nodes.')

prop('P04', 'Refinement carries physical groups, periodic links and partitions over',
     'After refinement every physical group consists of exactly the refined nodes lying on the facets of that group, facet by facet, and periodic links pair exactly the corresponding nodes of the refined facets, so that linked nodes keep the correspondence (translation, rotation or reflection) given by the linked vertices. '
     'The assignment of elements to partitions and the order of elements are preserved.',
     ['inputs'],
     'All meshes with any set of boundary or interior facets as groups, any periodic facet pairs with any orientation of the listed vertices, any partitioning, any continuous node distribution.',
     'The tests look at one or two groups on small structured meshes in a single orientation.',
     ['core/mesh_refiner.py', 'common/facet_util.py', 'core/premesh.py'],
     'Facets of groups and links are refined by looking up the nodes which were created when the elements were refined.')

prop('P05', 'Gather and scatter are exact transposes and ignore missing entries',
     'Gathering reads for each element the values of its own nodes and scattering sums the element values into their nodes, so that the inner product of a gathered vector with element values always equals the inner product of the vector with the scattered element values. '
     'Missing (padding) entries read the fill value, and contribute nothing to any node when scattered.',
     ['inputs'],
     'All meshes, index arrays with any pattern of repeated and missing entries, all vectors and value types.',
     'The tests use a few literal arrays; the transpose relation must hold for each index pattern, including a missing entry next to a use of the last node.',
     ['core/gather_scatter.py', 'core/mesh.py'],
     'Index arrays with a sentinel for missing entries, which also is a valid index of the last node unless it is masked.')

prop('P06', 'Exchange sums values over nodes identified by periodicity',
     'On an unpartitioned mesh, exchanging nodal values replaces the value at every node by the sum over all the nodes which are identified with it by any chain of periodic links, and leaves every other node untouched. '
     'Equivalently it is the symmetric operator Q Qᵀ of the map from unique degrees of freedom to nodes; a node is part of a physical group exactly if it is identified with a node listed in it.',
     ['inputs'],
     'All meshes and periodic links: several periodic directions, chains and cycles of links, nodes linked to themselves or repeatedly, any numbering, and any physical groups touching the periodic boundary.',
     'The tests have one single and one doubly periodic mesh of two elements; transitive identification depends on the whole link graph.',
     ['core/gather_scatter.py', 'core/premesh.py', 'core/mesh.py'],
     'Connected components of the link graph with the lowest index as the representative; gather and unique indices of the nodes which take part.')

prop('P07', 'A partitioned mesh computes the same as the unpartitioned mesh',
     'For every assignment of elements to partitions, the partitioned mesh has the same elements with the same coordinates and physical groups, and integrals (summed over partitions), assembled functionals, operator applications and exchanges agree node by node with those of the unpartitioned mesh, including across periodic boundaries. '
     'Padding of unevenly sized partitions has no influence on any result.',
     ['inputs', 'configurations'],
     'All meshes, periodic links between different partitions, and assignments of the elements to 1 to 8 partitions with unequal sizes and any adjacency.',
     'The tests exchange on partitioned 1D meshes of a few elements; the agreement must hold for any partitioning of any mesh, including nodes shared by more than two partitions.',
     ['core/premesh.py', 'core/gather_scatter.py', 'core/mesh.py', 'core/fespace.py'],
     'Grouping of elements with padding, renumbering to partition-local nodes, and the exchange indices used for summing across devices.')

prop('P08', 'Integration over a mesh is exact, additive and independent of the labelling',
     'The integral of a function over a mesh is the sum over its elements of the quadrature of the function in physical coordinates times the volume element; in particular the integral of 1 is the volume of the domain, and polynomials are integrated exactly once the quadrature covers their degree on the deformed element. '
     'The integral is linear, does not depend on the numbering or order of nodes and elements or on the orientation of the elements, does not change when the same domain is refined, and scales with the units of length in which the mesh is given, however small or large.',
     ['inputs'],
     'All meshes of deformed (also curved, high-order) elements in 1 to 3 dimensions, integrands given as functions of the coordinate or as nodal functions, and quadratures.',
     'The tests integrate a few functions on unit cubes and one or two skewed meshes.',
     ['core/fespace.py', 'core/interpolation.py', 'core/mesh.py'],
     'Isoparametric map evaluated by tensor-product interpolation, Jacobian determinants and tensor-product weights; nodal functions are evaluated through custom batching rules.')

prop('P09', 'Gradient and divergence of nodal functions are exact in physical space',
     'On every mesh, the gradient of a scalar or vector nodal function equals the derivative with respect to the physical coordinates of the function interpolated from its nodal values, with entry (i, j) the derivative along axis i of component j, and the divergence is its trace. '
     'Functions which are in the finite element space, such as affine functions on any deformed mesh and polynomials on affine elements, thus have their exact gradients everywhere, in whichever units of length the mesh is given.',
     ['inputs'],
     'All meshes with deformed or curved elements of any order in 1 to 3 dimensions, scalar and vector nodal functions, and scalar and vector plain functions of the coordinate.',
     'The tests check gradients on fixed meshes which are mostly axis aligned, where a transposed Jacobian or swapped index goes unnoticed.',
     ['core/fespace.py', 'core/interpolation.py'],
     'Reference gradients times inverse Jacobians by index contractions, separately for scalar and vector functions.')

prop('P10', 'Functionals of a form are represented exactly by their covector',
     'For every multilinear form and every choice of its free argument, the covector dotted with the element values of any function of that space equals the integral of the form evaluated at that function, for scalar and vector arguments and also for arguments from different spaces on the same elements. '
     'Symmetric forms give symmetric operators, operators of semi-definite forms are semi-definite, and a call with no or several free arguments is rejected.',
     ['inputs', 'programs'],
     'All forms built from products, gradients, divergences and coefficient functions, positions of the free argument, meshes, and pairs of spaces sharing a quadrature.',
     'The tests evaluate a few fixed forms on fixed meshes.',
     ['core/fespace.py'],
     'Linear transposition of the integral with respect to the placeholder argument.')

prop('P11', 'Reading a mesh file preserves geometry, topology and periodicity',
     'Reading a Gmsh file returns all the nodes with their coordinates, and exactly its line, quadrilateral or hexahedral elements, each with its nodes in tensor-product order and a positively oriented map. '
     'Its periodic facets are returned as pairs with corresponding nodes, also if a node takes part in several periodic boundaries, such that the mesh can be refined and finalized; a file without elements of the requested dimension is rejected.',
     ['inputs'],
     'All Gmsh files with line/quad/hexahedron elements: any numbering and order of nodes (consecutive node tags in periodic files), elements and facets, file version, and periodic directions.',
     'The tests read four fixed files and compare only array shapes, except for a single-element file.',
     ['common/mesh_reader.py', 'core/premesh.py'],
     'Node-ordering permutations from Gmsh to tensor-product order and lookup of facets in the periodic node maps.')

prop('P12', 'The cube mesh is the uniform grid it promises, with exact boundaries',
     'The cube mesh generator returns the uniform grid over the requested interval per axis, with elements in tensor-product order that tile the cube exactly. '
     'The boundary group consists of precisely the facets on non-periodic axes, and the periodic links pair precisely each facet on the low side of a periodic axis with its translate on the high side. '
     'A partition array assigns equal contiguous blocks of elements.',
     ['inputs', 'configurations'],
     'All dimensions, element counts, intervals, sets of periodic axes and partition arrays.',
     'The tests check one or two sizes.',
     ['common/premesh_commons.py', 'common/facet_util.py'],
     'Enumeration of facets by type and multi-index to node-index conversion.')

prop('P13', 'Automatic partitioning assigns each element to exactly one valid part',
     'Partitioning a mesh into k parts assigns every element to one part number in 0..k-1, keeps everything else of the mesh, and does not modify its input. '
     'On connected meshes with many more elements than parts every part is used, parts are balanced, and the number of cut connections stays far below that of an arbitrary assignment.',
     ['inputs'],
     'All meshes and numbers of partitions.',
     'The tests partition three fixed meshes.',
     ['common/mesh_partitioner.py'],
     'The graph of elements sharing a node, partitioned by METIS.')

prop('P14', 'Facet enumeration and orientation maps cover every symmetry of the cube',
     'The facets of a cube are enumerated completely and without repetition (3^d in total, binomial(d,k) 2^(d-k) of dimension k), and the slice of each selects exactly its nodes, so that the interiors of all facets partition the nodes of an element of any order. '
     'The orientation map has one entry for each of the 2^d d! symmetries of the cube, and each entry permutes the high-order nodes by the same symmetry as it permutes the vertices.',
     ['inputs', 'configurations'],
     'All dimensions up to 4, element orders and symmetries.',
     'The tests compare a few entries in 1 and 2 dimensions.',
     ['common/facet_util.py'],
     'Products of per-axis facet types; transposes and flips of index arrays.')

prop('P15', 'The crystal router delivers every item once, intact, to its target',
     'After routing, each device holds exactly the multiset of valid items whose target it was, with all the parts of an item (and its source device) still belonging together, and the reported count is the number of items received. '
     'Items beyond the valid count of a device are never delivered, and routing the result back by the returned sources restores the original items of every device. '
     'This holds for any number of devices, also when all items go to the same device and buffers have to grow in the middle.',
     ['inputs', 'configurations', 'histories'],
     'All numbers of devices, valid counts, targets (balanced, skewed, empty), payload trees of several shapes and types, and sequences of calls of the same router.',
     'The single test routes one random array on a fixed number of devices.',
     ['communication/crystal_router.py', 'communication/semi_traced_scalar.py', 'communication/jit_distributed.py'],
     'Divide-and-conquer stages over groups of devices of unequal sizes, compaction by masks, and a restart with larger buffers.')

prop('P16', 'Parallel scan and reduce equal their sequential definition',
     'On every device, the parallel exclusive scan equals the sequential combination in device order of the values of all lower devices (the identity of the operation on the first), and the reduction equals the combination over all devices. '
     'This holds for sums, products, maxima, minima and bitwise operations on all supported types, element-wise for arrays and trees of arrays, and any number of devices.',
     ['inputs', 'configurations'],
     'All numbers of devices from 1 to 8 and beyond, operations, types, shapes, tree structures, and values (including extreme ones).',
     'The tests use a fixed number of devices and random values of one type.',
     ['communication/pscan.py', 'communication/semi_traced_scalar.py'],
     'Binary fan-in and fan-out over recursively halved groups, with the schedule derived from per-device scalars.')

prop('P17', 'Distributed compilation and per-device scalars mean the local computation',
     'A function compiled for a distributed run returns, for every device, what the plain function returns on that device\'s slice of the inputs, with static arguments passed through unchanged, whichever arguments are static, passed by keyword, or missing. '
     'A scalar with a local and a global view keeps both consistent under every arithmetic, comparison and selection operation: the local value on a device is the entry of the global array at its index.',
     ['inputs', 'programs', 'configurations'],
     'All signatures and argument kinds, input trees and numbers of devices; all expressions over the index, the size and constants.',
     'The tests call three fixed functions; the scalars are only exercised indirectly.',
     ['communication/jit_distributed.py', 'communication/semi_traced_scalar.py'],
     'Binding of the signature into static and sharded arguments around a sharded map; operator overloads which apply each operation to both views.')

prop('P18', 'Conjugate gradients solve symmetric positive definite systems as reported',
     'For every symmetric positive definite operator and preconditioner, the solver returns a solution whose preconditioned residual satisfies the requested relative or absolute tolerance, or stops after the given maximum number of iterations; the reported residual and iteration count are those of the returned iterate. '
     'The k-th iterate minimises the energy-norm error over the Krylov space, so a system of n unknowns is solved in about as many iterations as there are distinct eigenvalues; right-hand sides and solutions may be any tree of arrays, and an exact initial guess needs no iterations.',
     ['inputs'],
     'All SPD operators with any spectrum, right-hand sides, initial guesses, tolerances, iteration limits, preconditioners, inner products and tree structures.',
     'The tests solve two fixed systems.',
     ['linalg/cg.py'],
     'The preconditioned CG recurrence in a traced loop with a combined relative/absolute stopping test.')

prop('P19', 'The Poisson solver returns the Galerkin solution with its boundary values',
     'On every mesh the returned function vanishes at the nodes of Dirichlet groups and solves the Galerkin equations at all the other nodes to the requested tolerance, with natural (zero flux) conditions elsewhere. '
     'The solution thus is linear in the forcing, minimises the energy, reproduces solutions which are in the space exactly, and does not depend on numbering, element orientation or rigid motions of the mesh; unsupported boundary values are rejected.',
     ['inputs'],
     'All meshes (deformed, unstructured, of any order and dimension), forcings, and combinations of Dirichlet and Neumann groups.',
     'The tests compare with two known solutions on uniform meshes to discretisation accuracy.',
     ['examples/poisson.py', 'core/fespace.py', 'core/mesh.py'],
     'Matrix-free stiffness and mass operators with masked boundary rows, solved by conjugate gradients.')

prop('P20', 'Spectral element operators are the discretisations they stand for',
     'On every mesh the velocity mass is the (diagonal) quadrature of the mass form, its inverse inverts the mass summed over shared and periodic nodes, the stiffness is symmetric and positive semi-definite with the constants as its kernel, the pressure gradient operator is the exact transpose of the divergence, and the pressure operator is symmetric positive semi-definite. '
     'Convection, vorticity and the stabilising filter are exact on the polynomials they represent exactly; the filter leaves lower-degree fields untouched; constrained nodes receive zero.',
     ['inputs', 'configurations'],
     'All meshes (deformed, unstructured, periodic), orders, boundary conditions and fields.',
     'The tests look at a few operators on unit squares for single fields.',
     ['navier_stokes/navier_stokes.py', 'core/fespace.py', 'core/mesh.py'],
     'Local covectors of the forms, gathered and scattered, and masked at the constrained nodes.')

prop('P21', 'Time-stepping coefficients have their order of accuracy',
     'The backward-differentiation coefficients of order k, applied to equally spaced samples ordered from oldest to newest, give the exact derivative at the newest sample times the step size for every polynomial of degree up to k; the extrapolation coefficients with k+1 samples give the exact value one step ahead for every polynomial of degree up to k.',
     ['inputs', 'configurations'],
     'All orders and polynomials up to the order of accuracy, step sizes and time offsets.',
     'The tests compare the coefficients of orders up to 3 with literal values, or not at all.',
     ['navier_stokes/navier_stokes.py', 'core/interpolation.py'],
     'Interpolation and differentiation matrices of equispaced nodes evaluated at or beyond the last node.')

prop('P22', 'A Stokes step yields divergence-free velocities obeying the discrete system',
     'Each step returns a velocity that is discretely divergence free to the solver tolerance and keeps the prescribed values at Dirichlet nodes, together with a pressure such that both satisfy the fully discrete momentum equation up to the splitting error of the scheme; steady polynomial solutions are reproduced, and the solution converges with the order of the scheme. '
     'The step is linear in history, forcing and boundary data, and keeps periodic images of a node equal.',
     ['inputs', 'histories'],
     'All meshes, boundary conditions, orders, viscosities, step sizes, time orders, and sequences of steps with any history and forcing.',
     'The tests run a few known flows at single parameter values and check coarse error norms.',
     ['navier_stokes/navier_stokes.py', 'linalg/cg.py'],
     'Fractional step: Helmholtz solve with extrapolated pressure, filter, pressure correction solve and velocity update.')

prop('P23', 'The SDE integrator follows the Euler-Heun scheme on the given path',
     'For every drift and diffusion, the returned states are those of the Euler-Heun (Stratonovich) scheme applied step by step to the given increments, one state for each requested output time, for any tree-structured state and extra arguments. '
     'Integrating over consecutive time segments equals integrating at once, zero diffusion gives the Euler scheme, and the sampled Brownian increments are independent normals with the variance of the step, reproducible from the key.',
     ['inputs', 'histories'],
     'All drift and diffusion functions (state and time dependent), increments, output times, segmentations, state trees and arguments.',
     'The tests integrate three SDEs with closed-form solutions and compare loosely.',
     ['sde/sdeint.py', 'sde/flax_nn_sde.py'],
     'Nested scans over segments and steps on a flattened state, with a guard on the time interval.')

prop('P24', 'Gradients through the SDE integrator are those of the solution',
     'Differentiating the integrated states with respect to the initial state or the extra arguments gives the gradient of the solution, up to an error that vanishes with the step size; it is exact whenever the reverse solve is. '
     'Integrating a neural module with bound parameters (if any) gives the same states and parameter gradients as integrating its plain function of parameters.',
     ['inputs'],
     'All differentiable drift and diffusion functions, loss weights on any of the outputs, state trees and parameter trees.',
     'The tests compare gradients for fixed scalar problems with loose tolerances.',
     ['sde/sdeint.py', 'sde/flax_nn_sde.py'],
     'A custom reverse-mode rule which solves the augmented adjoint SDE backwards; lifting of module variables into function arguments.')

prop('P25', 'Solvers are differentiable, batchable and compilable without changing results',
     'Integrals, functionals, the linear solver, the Poisson solver and the Stokes step give the same results when they are compiled, batched over inputs or called repeatedly, and their derivatives with respect to fields, forcing and coordinates agree with finite differences and with each other in forward and reverse mode.',
     ['inputs', 'programs'],
     'All meshes, fields and directions, and compositions of compilation, batching and differentiation.',
     'The tests differentiate through one or two fixed computations.',
     ['core/fespace.py', 'core/mesh.py', 'navier_stokes/navier_stokes.py', 'linalg/cg.py', 'examples/poisson.py'],
     'Mesh and operators are trees of arrays passed through transformations; implicit differentiation of the linear solves.')

prop('P26', 'Training utilities permute, window, pool and bin data without loss or mix-up',
     'The element permutation is a bijection that places the elements of each coarser patch contiguously; the node transfer maps every target node to the source node at its position; time windows are the consecutive slices asked for, in order, none missing, and their number matches the announced count. '
     'Attention pooling reduces each window over the sequence axis as specified and splits heads without mixing features, the multiscale attention blocks compute softmax attention of the pooled queries, keys and values per head with their residuals, the energy spectrum assigns each mode to the bin of its wave number, and the schedules of learning rate and penalty follow their stated warm-up and decay.',
     ['inputs', 'configurations'],
     'All sizes, patch sizes and factors that tile the grid, snapshot lengths, window sizes, strides and steps, pooling windows and strides, and fields.',
     'None of these functions has a test.',
     ['niles/train.py', 'niles/input_pipeline.py', 'niles/transformer.py'],
     'Index arithmetic on lexicographic grids, nearest-neighbour lookup, slicing and pooling windows, and binning of wave numbers.')

prop('P27', 'Data generation records the simulated trajectory faithfully',
     'A generation cycle writes one file whose snapshots are exactly the states of the simulated trajectory at the recorded times, starting with the state it was given and then every tenth step, and returns the latest history; cycles continue one another, so several cycles record the same trajectory as a single one. '
     'Reading the file back returns the recorded arrays, and the reported grid spacing is the smallest distance between two nodes of an element.',
     ['inputs', 'histories'],
     'All initial histories, numbers of steps and cycles, and meshes.',
     'The data generator has no test, and does not run at the pinned commit.',
     ['niles/datagen/datagen.py', 'niles/input_pipeline.py', 'navier_stokes/navier_stokes.py'],
     'A loop over solver steps shifting the histories of velocity, pressure and convection, and serialisation to HDF5.')

prop('P28', 'Results do not depend on how the mesh is numbered, ordered or oriented',
     'Renumbering the nodes, reordering the elements, rotating the local axes of elements, or moving the mesh rigidly changes every result of the whole chain from mesh to refined mesh, finite element operators and flow step only by the same renumbering or motion.',
     ['inputs', 'histories'],
     'All meshes with groups and periodic links, all renumberings, reorderings, rotations of local axes and rigid motions, and all stages of the chain.',
     'Each test fixes one numbering and orientation.',
     ['core/mesh_refiner.py', 'core/premesh.py', 'core/fespace.py', 'navier_stokes/navier_stokes.py', 'examples/poisson.py'],
     'All the stages index nodes by position; the invariance involves refinement, gather/scatter, exchange and operators together.')

prop('P29', 'The training loss is that of the flow solver rolled out with the model',
     'For every model and batch of windows, the training loss is the mean over the windows of half the squared velocity errors, summed over steps, nodes and components, of a rollout of the flow solver which starts from the first states of the window, with the element-wise output of the model assembled as additional forcing, plus the weighted divergence terms summed over the steps; permuting the elements for the model changes nothing else. '
     'A training step moves the parameters along the gradient of this loss averaged over all devices, in which the first (pushforward) steps carry no gradient, and reports averaged metrics. '
     'Every step of the solver and of the training hands the model its own random keys, which are reproducible; an evaluation step reports the same rollout and its errors, including the squared difference of the logarithms of the energy spectra on the uniform grid, averaged over the second half of the steps.',
     ['inputs', 'configurations'],
     'All models, parameters, windows, batch sizes, time orders, numbers of steps and pushforward steps, grids, and numbers of devices.',
     'Training has no test.',
     ['niles/train.py', 'navier_stokes/navier_stokes.py'],
     'A scan over solver steps with gathered inputs, permuted elements and scattered forcing, differentiated and averaged across devices.')

prop('P30', 'The closure model is the network its configuration describes',
     'For every configuration, parameters and inputs, the closure model returns the composition of embedding, positions, pooling encoder, latent process, upsampling decoder with the skip connections and final projection, each window of the batch on its own, with the gradients of that composition (up to the size of the steps in the latent process). '
     'The latent state follows the learned drift over unit time, with independent Gaussian initial states of the prior scale and independent Brownian increments for every window, sample and coordinate if there are several samples, and without noise for a single one; the reported divergence terms are those between posterior and prior. The models of the shipped configuration can be built and start without any correction.',
     ['inputs', 'configurations'],
     'All depths, widths, pooling layers, windows, strides, batch sizes, samples, parameters, inputs and keys.',
     'Only shapes and small attention blocks could be sampled by tests; neither the model nor the latent process has any.',
     ['niles/transformer.py', 'niles/config/niles.py', 'sde/flax_nn_sde.py', 'sde/sdeint.py'],
     'Head counts, widths, strides and skip connections change by layer in the encoder and must be mirrored in the decoder; the latent process reshapes batches of samples and noise.')

prop('P31', 'Training runs take the steps of their schedule, save them and resume',
     'Each step of a run changes the parameters by the AdamW update with clipped gradients for the gradient of the loss on its batch, with the learning rate and the penalty of the schedules of its configuration at that step, and logs the loss; a checkpoint holds the state exactly. '
     'Checkpoints are written at the configured intervals and at the end of a run, evaluations are made and metrics averaged at theirs, and every device and step draws its own noise. Epochs consist of all windows of the training data, and an evaluation without a given number of steps of all those for validation. A run which is stopped and started again continues from the latest checkpoint as if it had not been stopped (its data start over).',
     ['histories', 'configurations'],
     'All data sets, batch sizes, schedules, and all points at which a run stops.',
     'Training has no test; resuming involves the history of several runs.',
     ['niles/train.py', 'niles/input_pipeline.py'],
     'Steps, schedules and optimiser state are carried through files from one run to the next.')

prop('P32', 'The shipped configurations fit the mesh, the data and the model',
     'The shipped training configuration, every entry of its sweep, and runs with the encoder or the processor disabled, describe one consistent experiment: the counts of nodes, elements, channels and grid points are those of the mesh built from the configuration, the pooling layers are layers of the encoder, the windows of the data hold exactly the initial states and the targets of a rollout, and their samples are one solver time step apart for data from the generator, which has the same viscosity; full and debug data sets count the snapshots of their files. '
     'Full-size training and evaluation steps are well-formed, keep the shapes and types of the training state and report every metric the configuration lists; energy spectra of the grid have no empty bins; with debug data or all data a run has at least one step between evaluations and checkpoints, its learning rate rises to a peak and falls to zero by the end, and the penalty reaches its configured value.',
     ['configurations', 'inputs'],
     'All entries of the sweep and documented overrides, data sets, batch sizes and flow fields.',
     'No test reads the configurations, which cannot be run at full size in a test.',
     ['niles/config/niles.py', 'niles/train.py', 'niles/transformer.py', 'niles/input_pipeline.py', 'niles/datagen/datagen.py'],
     'Options are derived from one another by hand, and repeat counts of the mesh, the model and the data.')

prop('P33', 'Unsupported inputs are rejected with an error instead of giving a result',
     'Every input which the library documents as unsupported, or which is inconsistent, raises an error instead of giving a result: '
     'refining or solving flow on meshes of high order, element groups that are empty or facet groups with facets that are not of the mesh, counts of nodes that do not match the grid points, nodal or local values of a wrong shape, unknown types of nodes or quadrature, integrands that are not scalar, forms without exactly one free argument, unknown groups, partitioned operations without the name of an axis, partitions that do not divide the elements, hold periodic images together or a node twice, mesh files of another dimension or without cells, non-zero boundary values in the Poisson example, unknown models and pooling modes, and batches which the devices do not divide. '
     'The closest supported inputs are accepted.',
     ['inputs'],
     'All meshes, orders, shapes, partitions, forms, files and options next to the border of what is supported.',
     'The tests cover a few of the errors with one input each.',
     ['core/premesh.py', 'core/mesh.py', 'core/mesh_refiner.py', 'core/fespace.py', 'core/interpolation.py', 'core/gather_scatter.py', 'common/facet_util.py', 'linalg/cg.py', 'navier_stokes/navier_stokes.py', 'niles/train.py', 'niles/transformer.py'],
     'Shapes broadcast and indices clamp silently in JAX, so an input which is not rejected gives a wrong result rather than an error.')

prop('P34', 'Single precision gives the double-precision results up to rounding',
     'With 64-bit types disabled, which is the default of JAX, meshes, gather and scatter, exchanges, integrals, covectors, gradients, solutions of linear systems and Poisson problems, and operators and steps of the flow solver are those in double precision up to the effect of rounding errors, whatever the units of lengths and values, and are themselves of single precision; masks and numberings are the same.',
     ['inputs', 'configurations'],
     'All meshes, fields, units and tolerances which single precision resolves.',
     'The tests enable double precision, or compare a few values.',
     ['core/fespace.py', 'core/gather_scatter.py', 'core/mesh.py', 'linalg/cg.py', 'examples/poisson.py', 'navier_stokes/navier_stokes.py'],
     'Thresholds and casts which are harmless in double precision may dominate in single precision.')

prop('P35', 'Calls do not influence each other and leave arguments and earlier results intact',
     'The result of a call depends on its arguments (and the files it reads, as they are then) alone: in any sequence of calls, each gives what it gives when made first. '
     'This holds for tables of nodes, weights, interpolation and time-stepping coefficients, for meshes which agree in their sizes but differ in coordinates, numbering, groups or periodicity, for operators and solvers which are created once and used many times, for programs on several devices and scans of several types and operations, for mesh and data files replaced under the same name, and for configurations, of which one may be overridden without a change of those obtained later. '
     'Arrays and lists passed to a call are not modified, and results already handed out stay as they are.',
     ['histories', 'inputs'],
     'All sequences of calls.',
     'A test makes its calls in a fixed order, mostly with arguments of its own.',
     ['core/interpolation.py', 'core/mesh_refiner.py', 'core/gather_scatter.py', 'core/fespace.py', 'common/mesh_reader.py', 'communication/jit_distributed.py', 'communication/pscan.py', 'communication/crystal_router.py', 'navier_stokes/navier_stokes.py', 'niles/input_pipeline.py', 'niles/train.py', 'niles/config/niles.py'],
     'Tables and compiled programs invite caching, with keys that must hold everything the value depends on; NumPy arrays and configurations are mutable and shared.')

if __name__ == '__main__':
  path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
  with open(path, 'w') as f:
    for p in P:
      f.write(json.dumps(p, ensure_ascii=False) + '\n')
  print(len(P))
