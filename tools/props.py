"""Source of properties.jsonl and MANIFEST.json:  python3-vt tools/props.py"""
import json, sys
SA = 'src/field_advance/standard/'
PL = SA + 'pipeline/'
SP = 'src/species_advance/standard/'
PROPS = []


def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))


ANY = 'every mesh shape (including meshes one cell thick), every array content, every number of worker pipelines and every vector-width build'

prop('F01', 'A magnetic field half-advance is exactly the discrete Faraday law',
     'Advancing the magnetic field by a fraction of a time step changes every magnetic face component of every cell, including the faces on the high sides of the domain, by minus that fraction of c*dt times the discrete Yee curl of the electric field, with the derivative along any one-cell-thick axis dropped. '
     'Each face is updated exactly once from the values before the call, and nothing else in the field array changes apart from the local boundary adjustment of the normal magnetic field that follows. '
     'The result does not depend on the number of worker pipelines or on the vector width compiled in.',
     ['inputs', 'configurations', 'schedules'], ANY, 'The decks run a few meshes with one thread layout and compare to loose tolerances; remainder cells, thin axes and other vector builds are not reached.',
     [PL + 'advance_b_pipeline.cc', PL + 'advance_b_pipeline_v4.cc', PL + 'advance_b_pipeline_v8.cc', PL + 'advance_b_pipeline_v16.cc', PL + 'advance_b_pipeline.h'],
     [('bulk update per pipeline', PL + 'advance_b_pipeline*.cc'), ('surface faces and final adjustment', PL + 'advance_b_pipeline.cc advance_b_pipeline()')])
prop('F02', 'An electric field advance is exactly the discrete Ampere law with materials',
     'Advancing the electric field updates each electric edge component of the domain exactly once by the material decay and drive coefficients, the discrete curl of B/mu, the previous transverse-current correction damped by the damping parameter, and the free current, and stores the new transverse-current correction; ghost and unrelated values are not changed. '
     'The one-material fast path gives what the general path gives when all cells hold that material, and the curl-only initialisation stores the same undamped correction. '
     'The result does not depend on the number of worker pipelines or on the vector width compiled in.',
     ['inputs', 'configurations', 'schedules'], ANY + ', every material map and coefficient table', 'Decks run one material on a few meshes; heterogeneous materials, edges on high faces and other vector builds are not compared with a specification.',
     [PL + 'advance_e_pipeline.cc', PL + 'vacuum_advance_e_pipeline.cc', PL + 'compute_curl_b_pipeline.cc', PL + 'vacuum_compute_curl_b_pipeline.cc', PL + 'advance_e_pipeline_v4.cc', PL + 'advance_e_pipeline_v8.cc', PL + 'advance_e_pipeline_v16.cc'],
     [('bulk update per pipeline', PL + '*advance_e_pipeline*.cc, *compute_curl_b_pipeline*.cc'), ('boundary edges between ghost exchange begin and end', PL + 'advance_e_pipeline.cc')])
prop('F03', 'Local field boundary conditions set the prescribed ghost and surface values',
     'On every face of a subdomain the ghost values of tangential B, normal E and div B errors and the surface adjustments of tangential E, normal B, currents and charge densities are exactly those prescribed for the boundary kind of that face (anti-symmetric/metal, symmetric/magnetic wall, absorbing), over exactly the entities of that face. '
     'Faces shared with a neighbouring domain, and all other values, are left alone.',
     ['inputs', 'configurations'], 'every mesh shape, every combination of boundary kinds on the six faces and every field content', 'No unit test calls these kernels; decks use periodic or a single kind of wall.',
     [SA + 'local.cc', SA + 'sfa_private.h'], [('per-face macros', SA + 'local.cc local_ghost_*, local_adjust_*')])
prop('F04', 'Field exchange between domains delivers and combines matching entities',
     'Ghost exchange fills each ghost plane of a domain with its neighbour\'s matching plane of the same component (interpolated to the domain\'s own cell size), and synchronisation leaves both copies of every shared edge, face or node with the agreed combination: the sum for currents and free charge, the average for fields and bound charge, with the reported desynchronisation error equal to the sum of squared differences. '
     'Messages are packed and unpacked in the same order with the same sizes in all six directions.',
     ['inputs', 'configurations'], 'every mesh shape, direction and field content, with communication between equal neighbours', 'Deck runs with several ranks check only coarse physics tolerances.',
     [SA + 'remote.cc'], [('begin/end exchange', SA + 'remote.cc begin_remote_*/end_remote_*'), ('synchronize', SA + 'remote.cc synchronize_*')])
prop('F05', 'Divergence errors, cleaning and their norms follow the discrete operators',
     'The computed electric and magnetic divergence errors equal the discrete divergence minus (free plus bound) charge over permittivity at every node and cell of the domain with the non-conductive mask applied, the bound charge computed from the fields makes the electric error vanish, and the reported rms errors weight interior, face, edge and corner nodes 1, 1/2, 1/4, 1/8. '
     'Cleaning adds the Marder correction to every edge or face once and never changes anything else.',
     ['inputs', 'configurations', 'schedules'], ANY, 'Decks exercise cleaning on few meshes with print-only checks.',
     [PL + 'compute_div_e_err_pipeline.cc', PL + 'compute_div_b_err_pipeline.cc', PL + 'clean_div_e_pipeline.cc', PL + 'clean_div_b_pipeline.cc', PL + 'compute_rms_div_e_err_pipeline.cc', PL + 'compute_rhob_pipeline.cc'],
     [('node / cell kernels', PL)])
prop('F06', 'Field energies are the sums of the discrete energy densities',
     'The six reported field energies are half the cell volume times the permittivity- and permeability-weighted squares of the Yee components averaged over the entities around each cell and summed over every interior cell once, then over all domains. '
     'The fast path for one material agrees with the general one and the result does not depend on the number of worker pipelines.',
     ['inputs', 'configurations', 'schedules'], ANY, 'Decks compare energies with loose tolerances.',
     [PL + 'energy_f_pipeline.cc', PL + 'vacuum_energy_f_pipeline.cc'], [('per-pipeline partial sums', PL + 'energy_f_pipeline.cc'), ('reduction over pipelines and ranks', PL + 'energy_f_pipeline.cc')])
prop('F07', 'Material coefficients are the exact one-step solution for each material',
     'For each material the stored coefficients are the exponential conductivity decay over a step, the matching mean drive divided by permittivity (with the non-conducting and perfectly-conducting limits), and the reciprocals of the permeabilities, stored under the material\'s own identifier, and a material is flagged non-conductive only when all three conductivities vanish. '
     'Time step, damping and parameters are recorded as given, and the single-material fast kernels are selected only when there is exactly one material.',
     ['inputs'], 'every list of materials and every time step', 'Only one vacuum material is used by tests.',
     [SA + 'sfa.cc', 'src/material/material.cc'], [('coefficient table', SA + 'sfa.cc create_sfa_params')])
prop('P01', 'The momentum push is the relativistic Boris rotation with half electric kicks',
     'Every particle\'s momentum advances by half an electric kick, the Boris magnetic rotation at the interpolated field and half an electric kick, and its displacement is the resulting velocity times the time step; centering and uncentering of momenta apply exactly the corresponding half-step and its inverse and change nothing else. '
     'Each particle is processed exactly once whatever the number of pipelines or the vector width.',
     ['inputs', 'configurations', 'schedules'], 'every particle, every interpolated field, every particle count and pipeline count', 'Tests check one gyration orbit and one thread layout.',
     [SP + 'pipeline/advance_p_pipeline.cc', SP + 'pipeline/center_p_pipeline.cc', SP + 'pipeline/uncenter_p_pipeline.cc'],
     [('push', SP + 'pipeline/advance_p_pipeline*.cc'), ('time centering', SP + 'pipeline/*center_p_pipeline*.cc')])
prop('P02', 'Moving a particle deposits its exact current in every cell it crosses',
     'When a particle moves, each straight segment of its path inside one cell deposits to that cell the charge-conserving four-edge current of the segment from its midpoint and displacement, the segments add up to the requested displacement, and the particle ends in the right cell at the right offset. '
     'At a reflecting face it reflects and keeps going, at a face with a neighbour it enters that neighbour from the opposite side, and otherwise it stops at the face with its remaining displacement and face recorded for boundary processing.',
     ['inputs', 'configurations'], 'every start, displacement, momentum and neighbour table; paths crossing any number of cells', 'Tests check aggregate charge conservation for a few decks.',
     [SP + 'move_p.cc', SP + 'pipeline/advance_p_pipeline.cc'], [('segment loop', SP + 'move_p.cc move_p'), ('in-cell fast path', SP + 'pipeline/advance_p_pipeline.cc')])
prop('P03', 'Sorting permutes the particles into cell order and indexes each cell',
     'Sorting a species leaves exactly the same multiset of particles with non-decreasing cell index, and the partition table gives for each cell the range of its particles. '
     'This holds for the serial in-place and out-of-place sorts and for the parallel sort with any number of pipelines.',
     ['inputs', 'configurations', 'schedules'], 'every particle list, mesh and pipeline count', 'Tests sort a few lists with one layout.',
     [SP + 'sort_p.cc', SP + 'pipeline/sort_p_pipeline.cc'], [('counting sort', SP + 'sort_p.cc'), ('coarse count, coarse sort, subsort', SP + 'pipeline/sort_p_pipeline.cc')])
prop('P04', 'Charge, moment and kinetic-energy accumulation use exact trilinear weights',
     'Accumulating charge density adds each particle\'s charge over the cell volume to the eight surrounding nodes with trilinear weights (doubled where the boundary halves the control volume for bound charge), and hydrodynamic accumulation adds the charge, current, momentum and stress moments of the time-centred momentum with the same weights. '
     'The kinetic energy is the sum over particles, counted once each, of mc^2 times (gamma-1) at the time-centred momentum.',
     ['inputs', 'configurations', 'schedules'], 'every particle position, momentum, mesh and pipeline count', 'Tests compare only totals of a few decks.',
     [SP + 'rho_p.cc', SP + 'pipeline/hydro_p_pipeline.cc', SP + 'pipeline/energy_p_pipeline.cc'], [('scatter kernels', SP + 'rho_p.cc, ' + SP + 'pipeline/hydro_p_pipeline*.cc')])
prop('P05', 'Boundary processing conserves particles and bookkeeping',
     'Boundary processing removes each departing particle exactly once from its list, and either adds its charge to the bound charge (absorption), hands it to the neighbouring domain with all of its remaining motion, or passes it to the registered handler, and received particles are appended and finish their motion. '
     'The survivors are back-filled without loss, duplication or reordering of unrelated data and the mover list is left consistent.',
     ['inputs', 'histories'], 'every set of movers, boundary actions and capacities', 'Deck tests cover few combinations.',
     ['src/boundary/boundary_p.cc', SP + 'rho_p.cc'], [('pack, exchange, inject', 'src/boundary/boundary_p.cc')])
prop('S01', 'The field interpolator reproduces the staggered fields of each cell',
     'The interpolation coefficients loaded for each interior cell are the mean, gradients and cross-gradient of the four surrounding electric edges and the mean and gradient of the two surrounding magnetic faces, so that evaluating them at the cell\'s edges and faces returns the field values. '
     'Every interior cell is loaded exactly once for any number of pipelines and any vector width.',
     ['inputs', 'configurations', 'schedules'], ANY, 'Tests use uniform fields.',
     ['src/sf_interface/pipeline/interpolator_array_pipeline.cc', 'src/sf_interface/interpolator_array.cc'], [('load', 'src/sf_interface/pipeline/interpolator_array_pipeline.cc')])
prop('S02', 'Accumulated currents are cleared, reduced and unloaded without loss',
     'Clearing zeroes every entry of every pipeline\'s accumulator, reduction leaves in the first accumulator the sum over all of them for every cell, and unloading adds to each current edge the scaled sum of the contributions of the four cells around it. '
     'Each entry is handled exactly once for any number of pipelines and any vector width.',
     ['inputs', 'configurations', 'schedules'], ANY, 'Tests run a single pipeline where the reduction is trivial.',
     ['src/sf_interface/accumulator_array.cc', 'src/sf_interface/pipeline/clear_array_pipeline.cc', 'src/sf_interface/pipeline/reduce_array_pipeline.cc', 'src/sf_interface/pipeline/unload_accumulator_pipeline.cc'],
     [('clear / reduce / unload', 'src/sf_interface/pipeline/')])
prop('S03', 'Hydro arrays are cleared and combined consistently over cells and domains',
     'Clearing zeroes all moments of every node, and synchronisation scales boundary nodes by the fraction of their control volume inside the domain at local walls and adds the two contributions at nodes shared with a neighbour, for all fourteen moments and in all directions. '
     'No other value changes.',
     ['inputs', 'configurations'], 'every mesh and boundary combination', 'No unit test.',
     ['src/sf_interface/hydro_array.cc'], [('local adjust and exchange', 'src/sf_interface/hydro_array.cc')])
prop('G01', 'Domain decomposition gives a consistent neighbour and rank structure',
     'The size, origin, spacing and counts of each local domain tile the global box, and the neighbour table maps every cell face either to the cell on its other side, wrapped or offset into the neighbouring domain as the boundary says, or to the boundary code of that side. '
     'Mapping between linear and coordinate rank or cell indices is a bijection.',
     ['inputs', 'configurations'], 'every mesh, processor layout and boundary assignment', 'Tests use a few layouts.',
     ['src/grid/partition.cc', 'src/grid/ops.cc', 'src/grid/grid_structors.cc'], [('size_grid / join_grid / set_pbc', 'src/grid/ops.cc'), ('partition', 'src/grid/partition.cc')])
prop('G02', 'Work distribution covers every item exactly once',
     'For any number of items, block size and number of workers, the ranges given to the workers and to the remainder handler are disjoint, in order, cover all items exactly once and give workers whole blocks differing by at most one block. '
     'A dispatched job runs exactly once for every worker with that worker\'s arguments and rank, and waiting returns only after all have finished.',
     ['inputs'], 'every count, block size and worker count', 'Only the layouts used by tests are exercised.',
     ['src/util/pipelines/pipelines.h', 'src/util/pipelines/pipelines_thread.cc', 'src/util/pipelines/pipelines_serial.cc', 'src/util/util_base.h', 'src/grid/grid.h'], [('DISTRIBUTE', 'src/util/pipelines/pipelines.h')])
prop('C01', 'Checkpoint then restore reproduces every saved object and reference',
     'Saving the registered objects and restoring them gives back byte-identical contents with every pointer between saved objects, symbols and interior addresses mapped to the restored counterpart, in whatever order they were registered. '
     'The save and restore routine of each kind of object read and write the same records in the same order.',
     ['inputs', 'histories'], 'every set of registered objects and every content', 'Tests restore one deck.',
     ['src/util/checkpt/checkpt.cc', 'src/util/checkpt/checkpt.h'], [('registry and address translation', 'src/util/checkpt/checkpt.cc')])
prop('R01', 'Random numbers have the exact bit layout, range and sequence promised',
     'Integer draws use exactly the promised bits, floating draws lie in the promised open or closed interval on the promised lattice, arrays filled in bulk equal repeated single draws, and seeding is a function of the seed only. '
     'A random permutation contains each index exactly once, and a shuffle leaves each element exactly once in the array (whatever its size and stride), each position drawn uniformly from those that remain, without modulo bias.',
     ['inputs', 'histories'], 'every generator state and count', 'Tests sample histograms from few seeds.',
     ['src/util/rng/rng.cc', 'src/util/rng/rng_private.h'], [('generator and conversions', 'src/util/rng/rng_private.h')])
prop('K01', 'Binary collisions conserve momentum and energy and respect weights',
     'Each binary collision leaves the total momentum and energy of a pair of equal weight unchanged, updates the heavier-weighted particle with the probability given by the weight ratio, and each particle of a cell is paired as the scheme prescribes. '
     'Unary and Langevin operators touch only the particles they select, once each.',
     ['inputs', 'configurations'], 'every pair, scattering angle and weight', 'Tests check no collision operator.',
     ['src/collision/pipeline/takizuka_abe_pipeline.cc', 'src/collision/pipeline/binary_pipeline.cc', 'src/collision/langevin.cc'], [('pair update', 'src/collision/pipeline/')])
prop('B01', 'Particle boundary handlers and emitters place particles as specified',
     'An absorbing handler adds the particle\'s charge to the local bound charge and tallies it exactly once under its species, a refluxing handler re-emits one particle from the face into the domain with the species, weight and inward flux momentum of its table, and the emitter creates the configured number of particles only at its faces, each with the weight of the space-charge limited current through that face and aged by a part of the step. ',
     ['inputs', 'configurations'], 'every particle, face and species table', 'Tests do not use them.',
     ['src/boundary/absorb_tally.cc', 'src/boundary/maxwellian_reflux.cc', 'src/emitter/child_langmuir.cc'], [('handlers', 'src/boundary/')])
prop('V01', 'Vector classes compute lane by lane what the scalar operator computes',
     'Each arithmetic, comparison, logical, selection, load, store, gather, scatter, transpose and reciprocal operation of the 4, 8 and 16 wide vector classes acts on each lane exactly as the scalar operation (approximate reciprocals up to their stated accuracy) and touches only the addressed memory. '
     'All implementations of a class agree.',
     ['inputs', 'configurations'], 'every lane value including bit patterns and every implementation that compiles here', 'The class tests use one or two hand-picked values per operation.',
     ['src/util/v4/v4_portable.h', 'src/util/v4/v4_sse.h', 'src/util/v8/v8_avx2.h', 'src/util/v8/v8_portable.h', 'src/util/v16/v16_portable.h'], [('vector classes', 'src/util/v4, v8, v16')])
prop('I01', 'Injected particles land where requested with consistent bookkeeping',
     'Injecting a particle inside the local domain stores it in the cell containing the position with the offset, momentum and weight requested, optionally adds its negative charge to the bound charge and ages it, and a position belonging to another domain changes nothing here. '
     'A position on a face shared by two domains is taken by exactly one of them.',
     ['inputs', 'configurations'], 'every position, momentum, weight and age', 'Tests inject few particles.',
     ['src/vpic/misc.cc'], [('inject_particle', 'src/vpic/misc.cc')])
prop('U01', 'One simulation step calls the kernels in the documented order and cadence',
     'A step sorts, clears and collides, pushes, injects, reduces, processes boundaries, unloads and synchronises currents, then advances B by half, E by one and B by half, cleans and synchronises at the configured intervals only, reloads the interpolator and increments the step count by one. '
     'Particles with unprocessed movers are removed exactly once with their charge added to the bound charge.',
     ['inputs', 'histories'], 'every combination of species, intervals, rounds and step numbers', 'Decks use a few combinations.',
     ['src/vpic/advance.cc'], [('advance', 'src/vpic/advance.cc vpic_simulation::advance')])

if __name__ == '__main__':
    sys.path.insert(0, '/verif')
    with open('/verif/properties.jsonl', 'w') as f:
        for p in PROPS: f.write(json.dumps(p) + '\n')
    from tools.claims import CLAIMS, NA
    ids = [p['id'] for p in PROPS]
    man = dict(version=1, setup_cmd='python3-vt -c "import z3, numpy" && clang++-18 --version', hooks=dict(guard='VPIC_VERIF', enable='none needed: the contracts are external to the source', source_commits=[]),
               checks=[], not_applicable=[])
    for i in ids:
        if i in CLAIMS:
            lv, note = CLAIMS[i]
            man['checks'].append(dict(property=i, quick_cmd='python3-vt irv/check.py %s --tier quick' % i, thorough_cmd='python3-vt irv/check.py %s --tier thorough' % i,
                                      technique='function contracts on the compiled real code, discharged by a deductive verifier (symbolic execution with inductive loop summaries + Z3)', level=lv, level_note=note))
        else: man['not_applicable'].append(dict(property=i, reason=NA.get(i, 'not claimed: no contract built for it yet')))
    json.dump(man, open('/verif/MANIFEST.json', 'w'), indent=1)
    import jsonschema
    for p in PROPS: jsonschema.validate(p, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print(len(PROPS), 'properties,', len(man['checks']), 'claimed')
