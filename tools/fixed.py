"""Writes known_findings.json."""
import json
import os

FIXED = [
    ('P07', '4df6ae9', 'finalizing a partitioned premesh with periodic links gave linked nodes the coordinates of their representative, so elements at the periodic boundary were distorted'),
    ('P06', 'c736283', 'physical masks of periodic nodes: a node of a group which is not the representative of its periodic nodes was not marked'),
    ('P11', '24340eb', 'periodic links of Gmsh nodes lying on several periodic entities overwrote each other'),
    ('P11', 'b490764', 'nodes of 3D periodic Gmsh facets were not in tensor-product order, so refined periodic meshes were linked wrongly'),
    ('P15', '72e3cb7', 'the crystal router failed on payloads with trailing dimensions'),
    ('P17', '8566199', 'jit_distributed failed with static arguments before sharded ones'),
    ('P20', '58f5735', 'the vorticity had the opposite sign'),
    ('P27', 'cd73fe3', 'the data generator did not unpack the auxiliary output of stokes_one_step, and failed'),
    ('P26', '09a342e', 'niles used jax.tree_map, which no longer exists'),
    ('P03', '6e97419', 'refined inner nodes of faces shared with a rotation by 90 degrees were numbered by the inverse permutation, giving distorted elements'),
    ('P03', 'df77386', '3D meshes could not be refined to a single node per element'),
    ('P07', '58e1d24', 'NaNs from the degenerate padding elements of unevenly partitioned meshes'),
    ('P16', '366a142', 'parallel maxima and minima started from the smallest or largest finite number, so infinities were lost'),
    ('P20', 'c221c43', 'pressure elements with a single node had zero Jacobians, so the divergence of the lowest-order Stokes discretisation was zero'),
    ('P22', '5e05055', 'exchange added differences to the identified nodes, so that these differed by cancellation errors (also P06, P07)'),
    ('P24', '95ff936', 'gradients of SDE integrals with integer or random key arguments failed'),
    ('P09', 'a2d6f73', 'the gradient and the divergence of a vector-valued plain function of the coordinate raised an exception'),
    ('P20', '5e28735', 'the velocity space reported two overintegration nodes whatever their number'),
    ('P24', 'fe93f30', 'neural SDE modules failed to initialize unless the state is a single array'),
    ('P24', '3b7d33d', 'neural SDE modules without parameters returned drift plus diffusion instead of the integral'),
    ('P23', 'd599810', 'long SDE integrations in single precision skipped steps since the time was accumulated'),
    ('P25', '2de0680', 'reverse-mode derivative of the Stokes step: transposed solves diverged at Dirichlet nodes and ignored the pressure nullspace'),
    ('P26', 'bdae94c', 'the feed-forward block of the transformer failed, since its initializers and activation were not declared as fields'),
    ('P27', '5dde578', 'the data generator passed the solver to a compiled function, which is not possible, and failed'),
    ('P30', '67711ed', 'the closure model did not accept the argument `train` with which the training calls it'),
    ('P30', 'a7e006b', 'the latent state with a single sample failed, since the entry of the KL term was missing'),
    ('P29', '5ccc732', 'evaluation steps called a method of the mesh which does not exist'),
    ('P15', '5e957c5', 'the crystal router returned empty arrays on a single device'),
    ('P31', '7b33468', 'evaluations of the whole validation split (`steps_per_eval = -1`) divided its size by the batch size twice, and counted snapshots instead of windows'),
    ('P32', '38f8dce', 'the configuration listed a metric under a name which evaluations do not report'),
    ('P30', '1e39895', 'the shipped configuration lacked fields which building its model requires'),
]
FINDINGS = [{
    'id': 'poisson-boundary-cotangent', 'property': 'P25',
    'what': 'reverse-mode derivative of solve_poisson for cotangents which '
            'are not zero at the Dirichlet nodes: the boundary rows of its '
            'operator are zero, so the transposed solve does not converge',
    'sub': 'poisson_boundary_cotangent', 'env': {},
    'case': {'mesh': {'base': {'kind': 'grid', 'n': [2, 2]}, 'topo': 'quad2x2',
                      'geom': {'affine': None, 'jitter': None},
                      'groups': [{'name': 'dir', 'what': 'boundary', 'seed': 0,
                                  'frac': 1.}]},
             'kind': 'gll', 'n': 3, 'curved': None, 'bc': 'dir',
             'what': 'derivative', 'seed': 1}}]
if __name__ == '__main__':
  v = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
  with open(os.path.join(v, 'known_findings.json'), 'w') as f:
    json.dump({'findings': FINDINGS, 'fixed': [
        f'fixed: property={p} {c} {t}' for p, c, t in FIXED]}, f, indent=1)
    f.write('\n')
