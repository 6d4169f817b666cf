#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, pathlib
S = 'src/pysimulators/'
F = 'src/flib/'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    assert len(title) <= 80, title
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': list(observe), 'hook_needed': hook}})

prop('C01', 'Multithreaded kernels give the sequential result under every schedule',
 'Every operation that the package runs on several OpenMP threads (sparse and pointing-matrix products, their kernels, restrictions and '
 'diagonals, rotation matrices, polygon integrations, grids, rotations, areas, profiles, distances, time constants, angle statistics) '
 'leaves in its outputs exactly the result of the sequential execution, whatever the number of threads and however their '
 'memory accesses interleave. No element is lost, counted twice or computed from another iteration\'s scratch data.',
 ['schedules', 'inputs'],
 'for every interleaving of the memory accesses and synchronisations of the team of threads, for every team size, and for every input',
 'The tests run each kernel once under whatever schedule the machine picks, mostly on arrays too small for two threads to collide: a missing '
 'atomic, critical, private or reduction passes them.',
 [F+'module_operators.f90.j2', F+'sparse.f90.j2', F+'operators.f90.j2', F+'module_pointingmatrix.f90', F+'projection.f90.j2', F+'bi.f90.j2',
  F+'geometry.f90', F+'datautils.f90.j2', F+'wcsutils.f90', F+'pointingmatrix_old.f90'],
 [('omp atomic / critical around scattered additions', F+'sparse.f90.j2'), ('private and reduction clauses', F+'projection.f90.j2')],
 ['output arrays of the public operators and functions'],
 [('output accumulator', 'array shared by the threads of a team', F+'sparse.f90.j2')])

prop('C02', 'Sparse operators apply exactly the linear map of their stored entries',
 'A fixed-sparse-row, fixed-sparse-column, block, 2-d rotation or 3-d rotation matrix maps a vector to the sum of its stored entries applied to it: '
 'negative indices contribute nothing, repeated indices add up, and extra trailing dimensions are carried along unchanged. This holds for '
 'every storage, index, value and vector type, for the matrix, its transpose and the operator built on it, with a fresh, a '
 'given or an accumulated output, and the row and column storages of the same entries are transposes of each other.',
 ['inputs', 'configurations'],
 'for every matrix shape, entry pattern, block shape, index/value/vector dtype and output mode',
 'Tests sample one random pattern per format; off-by-one indices, wrong block strides or a wrong type dispatch only show for particular dtype, shape, '
 'index and output combinations.',
 [S+'sparse.py', F+'sparse.f90.j2', F+'module_operators.f90.j2'],
 [('type-dispatched compiled kernels with a pure Python fallback', S+'sparse.py')],
 ['matrix * vector', 'vector * matrix', 'SparseOperator(x)', 'SparseOperator.T(x)', 'SparseOperator.todense()'])

prop('C03', 'Operators derived from a sparse matrix agree with its dense matrix',
 'Restricting the input or output space of a sparse or projection operator, in place or not, yields the dense matrix with the unselected '
 'columns or rows removed; its kernel, its P^T P product, its P^T 1 and P^T x sums, and its diagonal simplifications are those of the dense '
 'matrix. Only the in-place variants may modify the operator they are called on, and a chain of such derivations behaves as the same chain on dense matrices.',
 ['inputs', 'histories', 'configurations'],
 'for every matrix, mask, dtype and sequence of derivations up to a depth',
 'Tests check one derivation at a time on one matrix; renumbering a second time, empty masks, all-kept masks, negative indices and aliasing between an operator and its derived copies are not reached.',
 [S+'sparse.py', S+'operators.py', F+'operators.f90.j2', F+'sparse.f90.j2'],
 [('index renumbering', F+'sparse.f90.j2'), ('P^T P simplification rule', S+'sparse.py'), ('projection operator methods', S+'operators.py')],
 ['restrict', 'corestrict', 'pT1', 'pTx_pT1', 'canonical_basis_in_kernel', 'P.T * P'])

prop('C04', 'Selecting and packing table elements composes like array indexing',
 'A packed table behaves as an array of components: for every selection, and every sequence of selections, its length, its attribute values, '
 'its removed-component flags and its packed and unpacked arrays are those obtained by indexing plain arrays with the same selections. Packing an array and unpacking it again '
 'restores the kept components at their places and fills the removed ones with the missing value.',
 ['inputs', 'histories'],
 'for every table shape, selection kind (slice with any start, stop and step, integers, booleans, repeated or reordered indices, ellipsis), selection of a selection, attribute kind and missing value',
 'Tests try a few dozen selections, one at a time; the normalisation of slices and indices composes over sequences and its corner cases (negative steps, empty results, repeated elements) are state-dependent.',
 [S+'packedtables/core.py', S+'packedtables/layouts.py', S+'packedtables/samplings.py', S+'packedtables/scenes.py'],
 [('index normalisation', S+'packedtables/core.py'), ('lazy special attributes', S+'packedtables/core.py')],
 ['len(table)', 'table.<attribute>', 'table.all.<attribute>', 'table.index', 'table.removed', 'table.pack', 'table.unpack'])

prop('C05', 'Splitting and distributing a table is an exact, order-preserving partition',
 'Splitting a table in n parts, or scattering it over n processes, gives consecutive parts that contain each component exactly once, in order, with its attribute values, '
 'with sizes that differ by at most one, and gathering the scattered parts, under every order in which the processes run, gives back the original table.',
 ['inputs', 'schedules', 'configurations'],
 'for every table shape and selection, number of parts or processes (more than the components included) and process interleaving',
 'The tests run on at most two processes and a few sizes.',
 [S+'packedtables/core.py', S+'packedtables/layouts.py', S+'packedtables/samplings.py', S+'acquisitions.py'],
 [('split, scatter and gather methods', S+'packedtables/core.py')],
 ['table.split', 'table.scatter', 'table.gather'])

prop('C06', 'Arithmetic on quantities never yields a value inconsistent with its unit',
 'For operands of any compatible units, an arithmetic or reduction operation on quantities gives the same physical value (number times unit, reduced to a common unit system) as '
 'the operation on the physical values, in either operand order, out of place or in place. Operations that would mix incompatible units raise and leave the operands unmodified.',
 ['inputs', 'histories'],
 'for every pair of units, operation, operand kind (quantity, array, scalar) and sequence of operations up to a depth',
 'Tests check a handful of units per operation; the unit bookkeeping is a state carried through every subsequent operation.',
 [S+'quantities.py'],
 [('ufunc and reduction unit propagation', S+'quantities.py')],
 ['magnitude and unit of the results'])

prop('C07', 'Unit conversion is exact, reversible and independent of history',
 'Converting a quantity to a compatible unit, in place or not, multiplies its magnitude by the ratio of the units and is reversible, and an incompatible '
 'target raises and changes nothing. Instrument-dependent (derived) units attached to a quantity convert with the values of its own elements, also '
 'after indexing, and what one quantity defines or converts never affects another one or a later conversion.',
 ['inputs', 'histories'],
 'for every pair of units, exponent, derived unit definition and sequence of definitions, selections and conversions up to a depth',
 'Tests convert once from a fresh interpreter state; leaks through the global units table only show in particular histories.',
 [S+'quantities.py'],
 [('conversion by reduction to the SI system', S+'quantities.py'), ('derived units', S+'quantities.py')],
 ['tounit', 'to', 'SI', 'magnitude', 'unit'],
 [('units table', 'global definition of the units', S+'quantities.py')])

prop('C08', 'Data sets survive a save and load round trip',
 'Saving an array, quantity, map or time-ordered data to a FITS file, as primary data or extension, and loading it back under a string or path object gives the same type of values, '
 'shape, number type, unit, derived units, header keywords, coverage, error, display origin and mask.',
 ['inputs', 'configurations', 'histories'],
 'for every class, number type, shape, combination of optional companions, file name type and sequence of saves and loads',
 'Tests save few combinations, always with string file names.',
 [S+'datatypes.py', S+'quantities.py', S+'mpiutils.py'],
 [('save methods and loading constructors', S+'datatypes.py')],
 ['the loaded object'])

prop('C09', 'Companions of maps and time-ordered data follow the data',
 'The coverage and error of a map and the mask of time-ordered data stay aligned with the values through views, selections, reshapes, copies and conversions, whatever their sequence, '
 'and statistics of masked data ignore the masked samples and keep the unit.',
 ['inputs', 'histories'],
 'for every shape, companion combination and sequence of operations up to a depth',
 'Tests apply single operations; alignment is a property of sequences.',
 [S+'datatypes.py'],
 [('array finalisation, selection and view hooks', S+'datatypes.py')],
 ['values, coverage, error, mask of the results'])

prop('C10', 'Distributed FITS files and headers equal their serial counterparts',
 'A file written collectively by any number of processes has the data and header of the file written by one process from the whole array, the parts read back by any number of processes concatenate to the whole, '
 'and scattering then gathering a header restores it while each local header describes its part. No process blocks for ever and no data is corrupted, in whatever order the processes run.',
 ['schedules', 'configurations', 'inputs'],
 'for every number of processes (more than rows included), array shape, number type and interleaving of the processes',
 'The parallel write path is not exercised by any test; the header functions are tested on one process.',
 [S+'mpiutils.py', S+'datatypes.py'],
 [('read_fits / write_fits / header scatter and gather', S+'mpiutils.py')],
 ['file contents', 'local arrays and headers'])

prop('C11', 'Work distribution assigns every detector and observation exactly once',
 'For any set of detectors and observations and any number of processes and threads, the parts given to the processes cover every selected detector of every observation exactly once, '
 'never select a removed detector, and do not modify the inputs.',
 ['configurations', 'inputs'],
 'for every number of processes, threads, observations, detectors and detector mask',
 'One process is tested.',
 [S+'mpiutils.py'],
 [('distribute_observation', S+'mpiutils.py')],
 ['returned masks and observation lists'])

prop('C12', 'Pointing-matrix projections agree with their dense matrix and each other',
 'A projection stored in memory, computed on the fly or split in blocks projects a map, back-projects data, computes P^T P, observed-pixel masks, intersections and packed versions exactly as the dense matrix of its '
 'pointing entries does, for whole and partially filled rows, and its transpose is its adjoint.',
 ['inputs', 'histories', 'configurations'],
 'for every pointing matrix content, number of pixels per sample, mask, and sequence of operations on projections sharing an on-the-fly buffer',
 'Tests use random well-formed matrices with one pixel per sample or full rows; the on-the-fly cache depends on the order in which the projections are used.',
 [S+'operators.py', S+'datatypes.py', F+'module_pointingmatrix.f90', F+'pointingmatrix_old.f90'],
 [('ProjectionOperator family', S+'operators.py'), ('shared place holder of on-the-fly projections', S+'operators.py')],
 ['direct', 'transpose', 'todense', 'get_mask', 'get_pTp', 'intersects', 'apply_mask'],
 [('place holder', 'pointing matrix shared by on-the-fly projections and its owner', S+'operators.py')])

prop('C13', 'Integration over detectors is the exact overlap area on the scene grid',
 'The integration of a scene over polygonal detectors gives each grid pixel a weight equal to the area of the polygon inside the pixel, each pixel once; the weights of a polygon inside the grid sum to its area, '
 'parts outside the grid contribute nothing, and no overlap is lost whatever the initial capacity.',
 ['inputs'],
 'for every grid shape, polygon (orientation, vertices on pixel edges and corners, inside, straddling or outside the grid) and storage type',
 'Tests integrate a few polygons.',
 [S+'packedtables/scenes.py', F+'projection.f90.j2', F+'module_geometry.f90.j2'],
 [('polygon clipping', F+'module_geometry.f90.j2'), ('capacity loop', S+'packedtables/scenes.py')],
 ['SceneGrid.get_integration_operator'])

prop('C14', 'Coordinate conversions are mutually inverse and preserve geometry',
 'The operators converting between spherical and cartesian coordinates, between celestial frames and between object and image planes are inverse of each other on every direction of their domain, '
 'agree with each other for every angle unit and convention, compose with their own transposes or inverses to the identity, and rotations preserve norms and angles.',
 ['inputs', 'configurations'],
 'for every convention, degree flag, direction on a grid including the poles and the 0/360 meridian, time and location',
 'Tests sample a few directions.',
 [S+'operators.py', S+'wcsutils.py', S+'geometry.py'],
 [('coordinate operators', S+'operators.py')],
 ['outputs of the operators and of their inverses'])

prop('C15', 'HEALPix operators follow the pixelisation for every pixel and direction',
 'Converting a pixel centre to its pixel index, with cartesian or spherical coordinates and either ordering, gives back the pixel for every pixel of every resolution, every direction falls in the pixel reference HEALPix gives it, and scenes on the sphere '
 'count, select and convert their pixels consistently, convolve maps as the reference does and convert temperatures into powers following the Planck law.',
 ['inputs', 'configurations'],
 'for every resolution up to a bound, ordering, convention and pixel',
 'Tests check single resolutions and random directions.',
 [S+'interfaces/healpy.py', S+'packedtables/scenes.py'],
 [('healpy interface operators', S+'interfaces/healpy.py')],
 ['outputs of the operators', 'SceneHealpix attributes'])

prop('C16', 'FITS world-coordinate headers and projections are consistent',
 'A header created from a centre, pixel size, angle or matrix describes exactly that geometry (the reference pixel maps to the centre, pixel size and angle are read back), pixel to world and world to pixel '
 'conversions are inverse of each other on every pixel (whatever the shapes and memory layouts of the coordinates), and a header combining several gnomonic headers in degrees covers each of their pixels, '
 'with the requested or smallest pixel size and the requested or mean angle.',
 ['inputs', 'configurations'],
 'for every naxis, centre, pixel size, rotation angle and optional argument combination in a grid',
 'Tests check a few headers.',
 [S+'wcsutils.py'],
 [('create_fitsheader and friends', S+'wcsutils.py')],
 ['header keywords', 'ToPixel/ToWorld operators'])

prop('C17', 'Angular statistics are invariant to the 0/360 wrap and to the input order',
 'The mean and bounds of angles, barycentres and angular separations on the sphere do not depend on the order of the inputs, shift with a common rotation of the inputs across the 0/360 limit, '
 'ignore undefined values, and agree with the direct spherical-geometry definition.',
 ['inputs', 'schedules'],
 'for every multiset of angles of a grid up to a size that spans less than half a turn, every set of directions of a grid whose sum does not vanish, every permutation and every rotation of the grid',
 'Tests check a few lists.',
 [S+'wcsutils.py', F+'wcsutils.f90', F+'module_math_old.f90'],
 [('mean_degrees, minmax_degrees, angle_lonlat, barycenter_lonlat', F+'wcsutils.f90')],
 ['returned angles'])

prop('C18', 'Planar geometry helpers agree with elementary geometry',
 'Grids of points, squares and circles have the requested number, spacing, orientation, centre and area; rotations, in place or not, preserve distances and invert with the opposite angle; polygon areas are exact and signed by orientation; hulls and segmentations cover their input exactly.',
 ['inputs', 'configurations'],
 'for every grid shape, reflection, angle and spacing of a finite domain and every lattice polygon up to a size',
 'Tests check some configurations.',
 [S+'geometry.py', F+'geometry.f90', S+'packedtables/layouts.py'],
 [('grid creation, rotation, surface', F+'geometry.f90')],
 ['returned coordinates and areas'])

prop('C19', 'Images of distances, profiles and beams follow their definition',
 'Distance maps, Gaussian and other model images, radial profiles and encircled-energy functions equal, element by element, their definition evaluated at the pixel positions, for every shape, origin, resolution, number type and output buffer, '
 'whichever internal path computes them.',
 ['inputs', 'configurations'],
 'for every shape up to a bound, origin of a grid, resolution (isotropic or not), dtype and buffer contiguity',
 'Tests check a few shapes; the fast and slow paths are selected by the input combination.',
 [S+'datautils.py', F+'datautils.f90.j2', S+'beams.py'],
 [('fast and slow paths', S+'datautils.py')],
 ['returned arrays'])

prop('C20', 'Time-domain operators and their transposes are adjoint, in and out of place',
 'Convolution by a truncated exponential, cyclic shifts and the spectral operators (black body, power law), alone, in products and in block operators, give the result of their definition for every shape, axis and parameter, out of place, in place or on strided buffers, '
 'and <Ax,y> = <x,A^T y> holds for every x and y.',
 ['inputs', 'configurations'],
 'for every basis vector of every shape up to a bound, every parameter of a grid, and every buffer mode',
 'Tests apply the operators out of place to one shape.',
 [S+'operators.py', F+'operators.f90.j2', F+'module_operators.f90.j2', S+'noises.py'],
 [('truncated exponential recursions', F+'module_operators.f90.j2')],
 ['outputs, in place and out of place'])

prop('C21', 'Partitioned operators equal the block assembly of their pieces',
 'An operator built from per-block parameter lists acts on each block of the partition as the operator built from that block\'s parameters, and blocks are concatenated in order, for every partition, also after transposition or in-place application.',
 ['inputs', 'configurations'],
 'for every partition of a small axis, axis placement and per-block parameter list',
 'Tests use a single partition.',
 [S+'operators.py'],
 [('block_diagonal decorator', S+'operators.py')],
 ['outputs of the operator'])

prop('C22', 'An acquisition model reflects its current instrument, sampling and scene',
 'Whatever the sequence of restrictions, operator requests and observations applied to an acquisition, its operator, observation and noise are those of an acquisition built afresh from the selected detectors, samples and scene pixels; '
 'splitting the sampling in blocks or over processes does not change the result, and restricting never alters the acquisition it is applied to.',
 ['histories', 'configurations', 'schedules'],
 'for every sequence of operations up to a depth, every block partition and number of processes',
 'Tests restrict once and never interleave restrictions with cached operators.',
 [S+'acquisitions.py', S+'instruments.py'],
 [('operator cache and selection', S+'acquisitions.py')],
 ['get_operator', 'get_observation', 'get_noise', '__getitem__'],
 [('cached operator', 'operator built on first use', S+'acquisitions.py')])

prop('C23', 'Noise models have the requested spectrum and inverse covariance',
 'Folding and unfolding of power spectral densities, their interpolation on sampling grids and the inverse noise covariance derived from them are consistent for every length and frequency: folding then unfolding restores the spectrum of an even number of samples, '
 'the total power is preserved, and the covariance operator is the symmetric band matrix of its filter.',
 ['inputs', 'configurations'],
 'for every even and odd length up to a bound, sampling frequency and spectrum of a basis',
 'Tests check one length.',
 [S+'noises.py', S+'instruments.py'],
 [('PSD folding', S+'noises.py')],
 ['returned spectra and operators'])

prop('C24', 'Reading MadMap1 data returns every block, pixel and filter where it belongs',
 'For any number of detectors, blocks, samples, pixels per sample and map mask, the map-making interface returns the data, projection and inverse noise covariance that the files define, block by block and detector by detector, and missing or truncated data is reported rather than silently mixed.',
 ['inputs', 'configurations', 'fault_sequences'],
 'for every file layout of a finite domain and every truncation point',
 'Tests read one example data set.',
 [S+'interfaces/madmap1.py'],
 [('record reader', S+'interfaces/madmap1.py')],
 ['get_operator, get_invntt_operator, data'])

prop('C25', 'Pointing samplings derive consistent times, directions and centres',
 'Whatever the way a pointing sampling is specified (angles by position or keyword, constant or per sample; times, period and start date given or by default) and after any sequence of selections, copies and assignments, the times, the spherical, cartesian, equatorial and galactic directions and the velocities it derives are those of its own samples; its centre is the direction of the mean of the pointings that are not masked, whichever way they are ordered or distributed; and asking for a derived value changes neither the sampling nor the other derived values.',
 ['inputs', 'histories', 'configurations'],
 'for every specification of a sampling of up to 4 samples in a finite domain and every history of operations up to a depth',
 'Tests check the constructor arguments one by one and a few centres; they never ask a selected sampling for all its derived values.',
 [S+'packedtables/samplings.py'],
 [('time, period, date', S+'packedtables/samplings.py'), ('directions, velocity and centre', S+'packedtables/samplings.py')],
 ['Sampling.time, .spherical, .cartesian, .equatorial, .galactic, .velocity, get_center'])

prop('C26', 'Layouts, instruments and scenes describe the same components when selected',
 'Whatever the way the positions of a layout are given (centres or vertices, as arrays, quantities, functions or members of the class), and after any sequence of selections, orderings, partitions and copies, each remaining component keeps its centre, vertices, row, column, unit and number, removed components are marked as such, an instrument or a scene keeps its own attributes and packs and unpacks data accordingly, the object-plane and image-plane transforms of an imager and the world-to-pixel and pixel-numbering transforms of a scene stay mutually inverse, and a distributed instrument or scene describes the same detectors or map as the original.',
 ['inputs', 'histories', 'configurations'],
 'for every form of definition and every history of selections of up to 6 components, and every number of processes up to 4',
 'Tests check a handful of selections of one layout; instruments, imagers and scenes are never selected then inspected.',
 [S+'packedtables/layouts.py', S+'packedtables/scenes.py', S+'packedtables/core.py', S+'instruments.py'],
 [('Layout.__init__', S+'packedtables/layouts.py'), ('Instrument, Imager', S+'instruments.py'), ('Scene, SceneGrid', S+'packedtables/scenes.py')],
 ['Layout.center, .vertex, .all, Instrument.pack, .unpack, .split, .scatter, Imager.image2object, SceneGrid.to1d, .topixel'])

prop('C27', 'Results do not depend on the memory layout of the arrays, inputs are kept',
 'A call of the public interface gives the same result whatever the way its input arrays lie in memory (row or column order, steps, negative strides, padding, read-only, subclasses of the arrays) and leaves them and the memory around them unchanged; '
 'given an output buffer of any memory layout, it either writes exactly the result in the elements of the buffer and nothing outside of them, and returns that buffer, or refuses it: results are never lost in a temporary copy. Unaligned inputs and inputs of the other byte order may be refused too.',
 ['inputs', 'configurations'],
 'for every call of a list over all the modules and every combination of memory layouts of its inputs and output',
 'Tests use freshly allocated contiguous arrays, for which missing copies to or from the compiled routines cannot be seen.',
 [S+'operators.py', S+'geometry.py', S+'datautils.py', S+'sparse.py', S+'wcsutils.py', S+'packedtables/core.py', S+'instruments.py', S+'noises.py', S+'interfaces/healpy/operators.py'],
 [('calls of the compiled routines', S+'operators.py'), ('rotate', S+'geometry.py'), ('distance', S+'datautils.py'), ('PackedTable.pack, unpack', S+'packedtables/core.py')],
 ['returned arrays, output buffers and the memory around them, inputs after the calls'])

prop('C28', 'A call that is refused leaves its targets, arguments and files as they were',
 'Whenever a call that modifies an object in place, writes in an output buffer or saves a file raises an error (units of other dimensions, shapes or types that do not fit, read-only memory, invalid selections, masks, operations or paths, data that cannot be stored...), '
 'the object, its unit, derived units, header and companions, the arguments, the arrays that share memory with them and the files of the disk are exactly as they were before the call; wrong output buffers and masks are refused rather than written out of their bounds, and calls that are accepted neither depend on the memory around their arguments nor write to it. '
 'What numpy, pyoperators or astropy themselves write before they refuse a call given plain arrays is not counted.',
 ['inputs', 'histories'],
 'for every modifying operation of a list over all the modules, every kind of target and every valid or invalid argument, once and twice in a row',
 'Tests check that errors are raised, not the state of the objects after the errors; the refusals that matter happen after the first side effect.',
 [S+'quantities.py', S+'datatypes.py', S+'packedtables/core.py', S+'packedtables/layouts.py', S+'packedtables/samplings.py', S+'packedtables/scenes.py', S+'sparse.py', S+'operators.py', S+'acquisitions.py', S+'instruments.py', S+'mpiutils.py'],
 [('__array_ufunc__, unit, inunit', S+'quantities.py'), ('companion setters, save', S+'datatypes.py'), ('PackedTable.__setattr__, pack, unpack', S+'packedtables/core.py'), ('write_fits', S+'mpiutils.py'), ('get_noise', S+'acquisitions.py')],
 ['values, units, attributes and companions after an exception', 'contents of the files after an exception'])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(p) + '\n' for p in P))
print(len(P), 'properties')
