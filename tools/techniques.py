"""The technique and the note on the level of each check, for MANIFEST.json."""

TECH = {
    'P01': ('random polynomials of the full admissible degree on random pairs '
            'of node sets, against their exact values and derivatives',
            'Values, gradients, constants, grid points and the product-form '
            'Lagrange matrix, in 1 to 3 dimensions.'),
    'P02': ('random polynomials up to the degree of exactness, integrated by '
            'every rule and compared with their exact integrals; invariants of '
            'nodes and weights',
            'All families up to 24 points, tensor products up to 3D.'),
    'P03': ('random conforming meshes (relabelled, reoriented, deformed, '
            'irregular) refined and compared with a reference refinement and '
            'the geometric definition of shared nodes',
            'Includes every relative orientation of two hexahedra and 3D '
            'stars with irregular vertices.'),
    'P04': ('random groups, periodic links (with random orientation of the '
            'listed vertices) and partitions carried through refinement and '
            'compared with a reference by barycentric labels',
            '1D to 3D meshes.'),
    'P05': ('random index arrays with missing and repeated entries; exact '
            'integer inner products and a reference loop',
            'Arrays of several types and finalized meshes of all dimensions.'),
    'P06': ('random link graphs and periodic meshes; union-find as the '
            'reference, on exactly representable values, compared bit for bit',
            'Includes chains, cycles, self links, and values of very '
            'different magnitude.'),
    'P07': ('random partitions of random periodic meshes on 1 to 8 simulated '
            'devices; differential against the unpartitioned mesh',
            'Structure, integrals, covectors, gradients and exchanges.'),
    'P08': ('random curved meshes and polynomials; reference quadrature, exact '
            'integrals from polynomial calculus, and relabelling and '
            'refinement as metamorphic relations',
            'Function and nodal integrands in 1 to 3 dimensions.'),
    'P09': ('random deformed meshes with nodal and closed-form functions, '
            'compared with exact derivatives and with reference gradients',
            'Scalar and vector functions.'),
    'P10': ('random multilinear forms generated as expression trees; the '
            'covector against integrals at random fields and against a dense '
            'reference matrix',
            'Any position of the free argument, spaces of different orders.'),
    'P11': ('random meshes written as Gmsh files (two versions, random '
            'numbering and order) and read back; round trip',
            'Includes several periodic directions, refinement and exchange '
            'of the mesh which was read.'),
    'P12': ('random sizes, intervals, periodic axes and partitions; compared '
            'with an independent enumeration by coordinates',
            '1D to 3D, also after refinement.'),
    'P13': ('random meshes and numbers of parts; invariants, and balance and '
            'cut against bounds',
            'Quality only for connected meshes with many elements.'),
    'P14': ('random dimensions, orders and symmetries; compared with geometric '
            'classification of integer grid points',
            'Dimensions up to 4; the quick tier enumerates nearly all of the '
            'small domain.'),
    'P15': ('random item distributions, payload trees and sequences of calls '
            'on 1 to 16 simulated devices; multiset model and round trip',
            'Both 32 and 64 bit modes.'),
    'P16': ('random values, trees and operations on 1 to 16 simulated devices, '
            'against the sequential fold',
            'Both 32 and 64 bit modes, extreme values included.'),
    'P17': ('random signatures and calls, and random expression trees over '
            'per-device scalars; differential against evaluation per device',
            'Up to 12 devices.'),
    'P18': ('random spectra, preconditioners, trees and tolerances; compared '
            'with a reference recurrence, true residuals and Krylov minimisers',
            'Up to 40 unknowns; 64 and 32 bit.'),
    'P19': ('random meshes, boundary groups and forcings; compared with a '
            'dense Galerkin solve, energies and manufactured solutions',
            '1D to 3D unstructured and curved meshes.'),
    'P20': ('random meshes, orders, boundary conditions and fields; compared '
            'with dense reference matrices and algebraic identities',
            'Includes periodic, unstructured and curved meshes.'),
    'P21': ('random polynomials, orders, offsets and step sizes; exact '
            'derivatives and values, and repeated time stepping',
            'Orders up to 8.'),
    'P22': ('random meshes, boundary conditions, histories, parameters and '
            'step sequences; compared with a dense reference of the '
            'fractional step, with constraints checked directly, steady '
            'solutions and measured order',
            'Also checks bit equality of periodic nodes.'),
    'P23': ('random drift, diffusion, state trees, arguments, output times and '
            'paths; compared with a plain loop, metamorphic segmentation, and '
            'moments of sampled increments',
            '64 and 32 bit, eager, compiled and batched.'),
    'P24': ('random linear and nonlinear SDEs; exact classes compared with '
            'differentiation of the plain loop, the others by convergence',
            'Includes neural modules against their plain function.'),
    'P25': ('random problems run eagerly, compiled, batched and '
            'differentiated in both modes; differential and finite '
            'differences',
            'Integrals, covectors, CG, Poisson and the Stokes step.'),
    'P26': ('random sizes, windows, patch sizes and fields; compared with '
            'definitions by loops',
            'Permutations, windows, pooling, spectra, interpolation and data '
            'reading.'),
    'P27': ('random initial histories, cycle lengths and meshes with the '
            'generator run in a scratch folder; compared with a plain loop '
            'over solver steps and a single long cycle',
            'Small resolutions; the resolution constants are replaced.'),
    'P28': ('random relabelling, reordering, reorientation and rigid motion of '
            'random meshes through the whole chain; metamorphic',
            'Refined meshes, operators, Poisson solutions and flow steps.'),
    'P29': ('random flows, models and parameters on one and two simulated '
            'devices; compared with a plain loop over solver steps and its '
            'gradient',
            'Small grids, and the 12 x 12 grid of the permutation.'),
    'P30': ('random configurations, parameters and inputs; compared with '
            'float64 numpy networks, and moments of the noise in closed form',
            'Small widths, up to 5 layers.'),
    'P31': ('random data sets and schedules with runs in a scratch folder, '
            'interrupted and resumed; every step compared with the update of '
            'the reference gradient',
            'Small grids, up to 4 steps, without attention layers.'),
    'P32': ('random configurations from the sweep and overrides, data files, '
            'batch sizes and flow fields; compared with the counts of the mesh '
            'built from them, the times of generated data and the abstract '
            'evaluation of full-size steps',
            'All entries of the sweep; steps of full size by shapes and types.'),
    'P33': ('random meshes, values, forms, partitions, files and options, each '
            'next to a supported one; the supported one is accepted and the '
            'changed one raises',
            'Small meshes; one change at a time.'),
    'P34': ('random meshes, fields, units and systems, evaluated in single and '
            'in double precision; differential, with a tolerance from double '
            'precision with perturbed data',
            'Single steps, well-shaped elements.'),
    'P35': ('random sequences of calls with repetitions and colliding '
            'arguments; each result against that of the call alone in a '
            'freshly imported copy of the package, arguments and earlier '
            'results against copies',
            'Up to nine calls; callers do not write to shared arrays.'),
}
