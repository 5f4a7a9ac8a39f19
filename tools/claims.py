TB = 'Trusted: clang-18 front end, the IR semantics and loop rule of irv/, Z3; floating point is treated as real arithmetic; MPI and the thread dispatcher by contract.'
BT = 'The thorough tier attempts every unbounded proof; what is discharged only for stated sizes is labelled bounded in the evidence. '
CLAIMS = {
 'F01': ('proof', 'Every pipeline variant and the host routine proved against the Yee curl for all mesh shapes, pipeline counts and contents. ' + TB),
 'F02': ('proof', 'Every pipeline variant and the host routines proved against the discrete Ampere law for all mesh shapes, pipeline counts, material maps and contents (the quick tier proves the host routines of one build and the vector pipelines of one width, and checks the others for stated sizes; the thorough tier proves all of them). ' + TB),
 'F03': ('proof', 'The nine local boundary routines proved for all mesh shapes and contents, for 25 combinations of face kinds covering every pair of kinds on every pair of faces. ' + TB),
 'F05': ('other', 'Pipelines and host routines against the discrete divergence operators and Marder corrections: unbounded proof where discharged, otherwise the same contract for stated meshes. ' + BT + TB),
 'F06': ('other', 'The energy pipelines are proved to sum the discrete energy densities over their share of the mesh for all shapes; the host reductions over ranks are discharged for stated meshes and pipeline counts. ' + TB),
 'S01': ('proof', 'Every interpolator-load pipeline and the host routine proved against the centred coefficients of the Yee faces and edges, for all mesh shapes, pipeline counts and contents. ' + TB),
 'S02': ('proof', 'Clear, reduce and unload pipelines and hosts proved for every element count, stride and accumulator content (reduction over 1 to 12 arrays in the quick tier, up to 273 in the thorough one). ' + TB),
 'F04': ('other', 'Exchange and synchronisation routines for six combinations of shared and local faces on stated meshes (bounded), the received message being by contract the image of the message an equal neighbour sends; the port layer is proved. ' + TB),
 'S03': ('other', 'Clear and reduction of the hydro copies proved for all sizes; the synchronisation across domains for stated meshes (bounded). ' + TB),
 'P04': ('proof', 'Charge, moment and energy pipelines of every vector width and the hosts proved for any number of particles, cells and pipelines: the sum of the per-particle contributions of the definition, each particle once. ' + TB),
 'P01': ('proof', 'Advance, centering and uncentering (all vector widths and the hosts) proved for any number of particles, pipelines and movers: an arbitrary iteration of the particle loop of an arbitrary rank moves, deposits and hands over exactly as the Boris push and the in-cell current define; the lemma that centering and uncentering are inverse. move_p is used through its contract. ' + TB),
 'V01': ('proof', 'Every operation of the nine vector classes (SSE, AVX, AVX2, AVX-512 and portable; widths 4, 8 and 16) proved bit for bit equal to its lane-by-lane definition for all operand bits and memory contents, with nothing outside its result written. Rounded float arithmetic is uninterpreted (the same rounded operation on the same operands); a fused multiply-add may round once or twice; the approximate reciprocals are held to one Newton step of the instruction\'s approximation; shuffles with template arguments are proved for the instantiations of the harness; the sign of a zero from unary minus is not compared. Trusted: clang-18 front end, the semantics of IR and x86 intrinsics in irv/bits.py, Z3.'),
 'P02': ('proof', 'move_p (scalar and every vector width): an arbitrary iteration of its segment loop, from any position, displacement, momentum, charge and neighbour table, ends its segment on the first face the track meets, deposits the current of that segment in the cell it runs through, and reflects, enters the neighbour, stops or finishes as the definition says; only this particle, mover and cell are written. Termination of the loop is not proved; in the vector variants displacement components that are exactly zero are covered by replay only. ' + TB),
 'R01': ('proof', 'The generator step equals the published SFMT-11213 recursion for every state (cut at each 128-bit word), seeding equals its definition, every integer and float draw and every bulk fill (arbitrary iteration, any count) equals the promised bits of the next words, open/closed intervals exact; exponential, normal fills call the single draw once per element; randperm and shuffle (elements of 1, 2, 3, 4, 5 and 8 bytes, any stride and count up to 2^29): an arbitrary iteration draws a position in the remaining range by rejection and exchanges exactly those two elements. Termination of the rejection loops and the distribution of normal and exponential variates are not proved; quotients a/d are bounded by monotonicity. Trusted: clang-18 front end, IR semantics in irv/bits.py, Z3.'),
 'U01': ('proof', 'vpic_simulation::advance proved, for every state, list of species and combination of intervals, to make the same calls with the same arguments in the same order under the same conditions, and leave the same memory, as the documented step written as a specification function; each loop is proved through an arbitrary iteration. The kernels and user hooks are calls whose own contracts are other properties and which do not change intervals or lists; log messages and timers are ignored. Trusted: clang-18 front end, IR semantics and loop rule in irv/trace.py, Z3.'),
 'I01': ('proof', 'inject_particle and both inject_particle_raw proved, for every state and argument, to reject, place, count, deposit and age the particle as the specification function: same stores, same calls (accumulate_rhob, move_p) with the same arguments under the same conditions. Float arithmetic is uninterpreted. Trusted: clang-18 front end, IR semantics in irv/trace.py, Z3.'),
 'B01': ('proof', 'The absorbing and refluxing handlers (every face), the reflux temperatures, the emitter list and the Child-Langmuir emitter proved, for every state, region and number of faces and particles, to draw, write, deposit, move and return the same as their specification functions. The random draws, accumulate_rhob and move_p are calls with their own contracts; float arithmetic is uninterpreted. Trusted: clang-18 front end, IR semantics and loop rule in irv/trace.py, Z3.'),
 'F07': ('proof', 'create_sfa_params, new_standard_field_array, material, append_material and the lookups proved, for every list of materials, mesh and time step, to leave the same table, kernels and identifiers as their specification functions (arbitrary iteration of each loop). exp, sinh and rounded float arithmetic are uninterpreted; materials are assumed numbered as append_material numbers them. Trusted: clang-18 front end, IR semantics and loop rule in irv/trace.py, Z3.'),
 'P05': ('proof', 'boundary_p (scalar, SSE, AVX2 and portable V8 builds) proved, for every species list, mover list, neighbour table, face kinds and message contents, to remove, absorb, send, hand over, back-fill, resize, append and move on as its specification function: same messages, calls and memory, an arbitrary iteration of each loop. accumulate_rhob, move_p, the handlers and the message layer are calls with their own contracts; face codes are 0 to 5 and buffers of distinct objects do not overlap. Trusted: clang-18 front end, IR semantics in irv/trace.py, Z3.'),
 'P03': ('proof', 'The serial sort (both ways) and the four parts of the parallel sort proved, for every particle list, mesh, worker count and table, to count, position, move and index as their specification functions (same memory and calls, an arbitrary iteration of each loop); the specification is the counting sort whose outcome - a permutation in cell order with the matching table - the replay checks directly. Workers are called through the dispatcher by contract. Trusted: clang-18 front end, IR semantics in irv/trace.py, Z3.'),
 'G01': ('proof', 'The three partitions, size_grid, join_grid, set_fbc, set_pbc, the grid constructor and destructor and the deck-level wrappers proved, for every mesh, layout, rank and boundary, to leave the same geometry, rank ranges, boundary codes and neighbour table and make the same calls as their specification functions (an arbitrary iteration of each loop); lemmas: rank and position correspond one to one, the domains tile the box. The replay compares with the geometry computed from cell positions. Float arithmetic is uninterpreted in the code proof; mp_allgather by contract. Trusted: clang-18 front end, IR semantics and loop rule in irv/trace.py, Z3.'),
 'G02': ('proof', 'DISTRIBUTE decided on the compiled arithmetic for every item count below 2^31, block size and up to 2^17 workers: shares adjoin, cover, and are the exact rounded fractions because the accumulated rounding error (bounded operation by operation) is below the distance of the exact value from an integer; lemmas give shares within one block of each other. DISTRIBUTE_VOXELS, EXEC_PIPELINES and the serial and thread dispatchers (boot, assign, worker, dispatch, wait, halt) proved to make the same calls under the same conditions and leave the same memory as their specification functions. Other threads act only inside pthread calls and waits (their effect there is arbitrary on the shared tables); deadlock freedom and the memory model are not proved. Trusted: clang-18 front end, IR semantics in irv/trace.py, Z3, sympy.'),
 'K01': ('proof', 'The Takizuka-Abe, binary, unary and Langevin workers (like and unlike species), their hosts, the hard-sphere and Coulomb pair and background collisions, rate constants, model constructors and the operator list proved, for every species list, cell table and worker count, to select, pair, test, rotate and write the same as their specification functions (an arbitrary iteration of each loop); in exact arithmetic the rotation keeps the length of the relative momentum in each of its orientations, hence (lemma) an equal-weight pair keeps momentum and energy, and the heavier particle is updated with the ratio of the weights. Rounded float arithmetic is uninterpreted in the code proof; the random draws and the sort are calls with their own contracts; distinct species do not share arrays; the FLT_MIN guards are left out of the conservation lemma. Trusted: clang-18 front end, IR semantics and loop rule in irv/trace.py, Z3, sympy.'),
}
NA = {}
