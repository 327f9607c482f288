"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` rewrites both."""
import json, os

I = 'include/kigumi/'
PROPS = []
TECH = {}
NA = {}


def prop(id, title, statement, over, text, why, files, mechanism, tech=None, note=None, na=None, observe=()):
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
                  'why_tests_cant': why,
                  'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                              'observe_at': list(observe), 'hook_needed': None}})
    assert len(title) <= 80, title
    if na:
        NA[id] = na
    else:
        TECH[id] = (tech, note)


AI = 'path-partitioned abstract interpretation of the resolved source against a hand-derived table'
NOTE = ('Decides the stated clause for every input on the current source, within the abstract models of the standard, boost and '
        'CGAL containers; constructs outside of the analyser are reported as undecided, never as violations.')

prop('C01', 'Each operator keeps, drops or reverses faces as its set semantics demands',
     'For each of the sixteen Boolean operators, a face of an operand that lies strictly outside of, strictly inside of, or coincides '
     '(with equal or opposite orientation) with the boundary of the other operand appears in the result exactly as the set semantics of '
     'the operator requires: unchanged, reversed, or not at all. Where two faces coincide, exactly the copy of the preferred operand is '
     'taken. The corners of an emitted face are the corners of its original.',
     ['inputs', 'configurations'], 'all 16 operators, both preference settings, both operands, every classification of a face',
     'The tests compute a few operators on a handful of meshes and compare areas or counts; 16 operators x 2 preferences x 5 classes x 2 '
     'operands is never enumerated.',
     [I + 'Extract.h', I + 'Boolean_operator.h'],
     [('face output masks', I + 'Boolean_operator.h'), ('extraction loop', I + 'Extract.h')], AI,
     NOTE + ' Assumes that the faces are classified correctly.')

prop('C02', 'Results without boundary, and empty or full operands, follow set algebra',
     'If an operand is the empty set or the whole space, or if no face survives, the result of every operator is the empty region, the '
     'full region or a region with boundary exactly as set algebra on the operands prescribes; inconsistent operands whose result '
     'cannot be determined are reported as an error and never answered with a guess. The named operators (union, intersection, '
     'difference, symmetric difference) denote these operations, with the operands in the order given.',
     ['inputs', 'configurations'], 'all 16 operators and all 9 combinations of empty, full and bounded operands',
     'Only a few combinations are tested; the table has 144 entries, each with several outcomes.',
     [I + 'Boolean_region_builder.h', I + 'Boolean_operator.h', I + 'Region.h'],
     [('special operands', I + 'Boolean_region_builder.h'), ('evaluation without faces', I + 'Boolean_region_builder.h')], AI, NOTE)

prop('C03', 'Every face of a result carries the face data of its original',
     'The data attached to each face of the result of a Boolean operation equals the data of the operand face of which it is a part, '
     'however that face was split, reversed, or combined with an empty or full operand. Data and faces of a mesh never get out of step.',
     ['inputs'], 'every pair of operands, every subdivision of their faces, every operator',
     'Face data is exercised on a few meshes; which of the many parts receives which datum is not enumerated.',
     [I + 'Extract.h', I + 'Mix.h', I + 'Corefine.h', I + 'Triangulation.h', I + 'Boolean_region_builder.h', I + 'Triangle_mesh.h', I + 'Triangle_soup.h'],
     [('combination of the operands', I + 'Mix.h'), ('extraction', I + 'Extract.h')],
     'abstract interpretation of the data flow of face data, plus a write-effect rule', NOTE)

IOF = [I + 'io.h', I + 'Region.h', I + 'Region_io.h', I + 'Triangle_soup.h', I + 'Mesh_indices.h']
TXT = [I + 'io/obj.h', I + 'io/off.h', I + 'io/ply.h', I + 'io/ascii.h', I + 'Triangle_soup_io.h']

prop('C04', 'Operations leave their operands unchanged',
     'Boolean operations, queries, searches for defects and savers only read the meshes and regions they are given: vertices, faces, '
     'attributes and kind of an operand are the same afterwards, whatever the operands are and however the call ends. Evaluating an operator on '
     'a prepared pair of regions does not use up the pair, so that all operators can be evaluated on it in any order. The only thing that may '
     'be stored in an operand is its search tree, under its lock.',
     ['inputs', 'histories'], 'every pair of operands, every operator, every sequence of operators',
     'Tests look at results, not at the operands; a change of an operand needs a second use of it, after the call that changed it.',
     [I + f for f in ('Boolean_region_builder.h', 'Mix.h', 'Corefine.h', 'Extract.h', 'Side_of_triangle_soup.h', 'Find_defects.h', 'Region.h', 'Triangle_soup.h')],
     [('operands by reference to const', I + 'Boolean_region_builder.h'), ('prepared pair of regions', I + 'Boolean_region_builder.h'),
      ('search tree', I + 'Triangle_soup.h')],
     'interprocedural effect analysis: every write that outlives the call is traced back to the parameter and members it goes through', NOTE)

prop('C05', 'Saving a region to a .kigumi file and loading it gives back the same region',
     'For every region, whatever was written in the binary .kigumi format is read back as exactly the same region: same kind, same '
     'number and order of vertices and faces, exactly equal coordinates (doubles and arbitrary rationals, of any sign and size), same '
     'corners in the same order, same data on every face. A number that does not fit the format is refused instead of truncated, and '
     'the reader refuses nothing that the writer can write.',
     ['inputs'], 'every region: any kind, any number of vertices and faces, any rational coordinate, any face data',
     'The tests round-trip a few meshes with coordinates that are doubles or simple fractions; signs, mixed points and large integers '
     'are not enumerated.', IOF,
     [('numbers', I + 'io.h'), ('meshes', I + 'Triangle_soup.h'), ('regions', I + 'Region.h')],
     'abstract interpretation of writer and reader over an ideal stream; symbolic comparison of the two item sequences', NOTE)

prop('C06', 'Reading a file is all or nothing',
     'If reading a mesh or a region fails, for whatever reason and at whatever point of the input, the object that was to be read '
     'keeps its previous value; if it succeeds, the object holds exactly what the file says, and nothing of its previous value is left. '
     'This holds for OBJ, OFF, PLY and .kigumi, from streams and from files, and for the command line tool.',
     ['inputs', 'fault_sequences'], 'every input and every point at which it may turn out to be malformed or truncated, or the stream may fail',
     'A test can only offer a few malformed files; that no statement before the last check touches the target is a fact about all paths.',
     TXT + [I + 'Region.h', I + 'Triangle_soup.h', I + 'Region_io.h', 'cli/utility.h'],
     [('text readers', I + 'io/obj.h, io/off.h, io/ply.h'), ('binary reader', I + 'Region.h, Triangle_soup.h')],
     'path-partitioned abstract interpretation of every reader with all stream outcomes', NOTE)

prop('C07', 'Malformed files are refused',
     'No reader reports success on a file that contradicts its format: every number that is used was extracted completely and is finite '
     '(exact ones have a denominator), all corners refer to vertices of the file, OFF and PLY files contain exactly as many vertices, faces '
     'and lines as their headers declare, signature, format line and end of the header are present, binary variants of the text formats are '
     'not taken for text, read errors are not taken for the end, and the kind of a region agrees with its boundary.',
     ['inputs', 'fault_sequences'], 'every file, in particular files cut at any point, with wrong counts, with garbage after a number, or with indices out of range',
     'Each kind of malformation at each place is a different input; the test files are well formed.',
     TXT + [I + 'Region.h', I + 'Triangle_soup.h', I + 'io.h', I + 'Region_io.h'],
     [('line loops and state machines', I + 'io/obj.h, io/off.h, io/ply.h'), ('items', I + 'io/ascii.h, io/off.h'), ('binary format', I + 'Triangle_soup.h, Region.h, io.h')],
     'abstract interpretation of all readers; facts known on the accepting partitions are compared with the format; affine-relation '
     'fixpoint over the counters and states of the line loops; item parsers verified against the contracts used for them', NOTE)

prop('C08', 'Readers stop when their input ends or fails',
     'No reader loops without end or in proportion to a number found in the file once its input has ended or failed: every loop of a '
     'reader that consumes input ends as soon as an extraction fails, and no loop is driven by a number in the file alone.',
     ['inputs', 'fault_sequences'], 'every input, in particular truncated ones and ones that declare huge counts, and streams that fail at any point',
     'A hang shows only on the input that triggers it; huge counts and failing devices are not in the test data.',
     TXT + [I + 'Region.h', I + 'Triangle_soup.h'],
     [('loops of the readers', I + 'io/obj.h, io/off.h, io/ply.h, Triangle_soup.h')],
     'loop progress rule over the partitions of every reader found by abstract interpretation', NOTE)

prop('C09', 'Reading and writing report success if and only if they succeeded',
     'A writer that returns true has handed everything to the operating system without an error: a file that cannot be opened, a full '
     'device or a failing stream is reported, also if the error shows only when the buffers are flushed. A reader that returns false '
     'has met an error or malformed input, and one that returns true has read everything up to the end of the mesh. Nothing that '
     'failed on the way is swallowed by a later step.',
     ['inputs', 'fault_sequences'], 'every mesh and region, and every point at which a stream can fail',
     'No test has a stream that fails.',
     TXT + [I + 'Region.h', I + 'Region_io.h'], [('results of readers and writers', I + 'io, Region.h, Region_io.h, Triangle_soup_io.h')],
     'abstract interpretation with a model of stream states (good, failed, flushed) and of failing operations', NOTE)

prop('C10', 'Text files are read as OBJ, OFF and PLY define them',
     'A mesh read from a text file is the mesh the file describes: the three coordinates of each vertex are the x, y and z of its line '
     '(in PLY the properties with these names, whatever other properties there are), indices are resolved as the format defines (OBJ: '
     'from one, or relative to the vertices read so far if negative; OFF, PLY: from zero), and every polygon with three or more corners '
     'becomes the triangle fan of its corners in order, so that no face is lost, reversed or attached to other vertices. The format is chosen by the extension of the name, and lines that the format allows, such as comments, are accepted.',
     ['inputs'], 'every file: every order of properties and elements, every polygon size, absolute and relative indices, interleaved lines',
     'The test files contain triangles with absolute indices and the usual properties only.',
     TXT, [('line loops of the readers', I + 'io/obj.h, io/off.h, io/ply.h')],
     'abstract interpretation of the readers with summarised loops; the derived corner, index and coordinate terms are compared with '
     'those the format defines', NOTE)

prop('C11', 'Text files that are written describe the mesh exactly',
     'Every OBJ, OFF and PLY file that is written is well formed and describes the mesh: the declared counts are the numbers of vertices '
     'and faces, each vertex and each face is written exactly once and in order, corners keep their order and are counted as the format '
     'demands (relative indices if and only if requested), and each coordinate is the exactly evaluated x, y or z, rounded once and '
     'printed so that reading it gives back the same double. The format is that of the extension of the name.',
     ['inputs', 'configurations'], 'every mesh, including empty ones and coordinates whose approximations differ from their exact values; both index modes',
     'The tests write a few meshes and compare them after reading them back with the same code.',
     TXT, [('writers', I + 'io/obj.h, io/off.h, io/ply.h'), ('coordinates', I + 'io/ascii.h')],
     'abstract interpretation of the writers; the derived sequence of words is matched against the grammar of each format', NOTE)

prop('C12', 'What is computed does not depend on what was computed before',
     'Calls are independent of each other: buffers, queues and caches that are kept between calls (in static and thread-local variables, '
     'in objects that are used again, in the meshes themselves) never let content of an earlier call, for other operands or another '
     'file, reach the result of a later one. The search tree that a mesh keeps is dropped whenever the mesh changes, and belongs to its '
     'own faces after it was copied, moved or assigned. Neither the time, nor random numbers, nor the environment have any influence.',
     ['histories', 'inputs', 'schedules'], 'every sequence of calls, on any thread',
     'Each test computes one thing in a fresh process or with fresh operands; content that was left behind only shows in the right second call.',
     [I + 'Triangle_soup.h', I + 'Side_of_triangle_soup.h', I + 'Propagate_face_tags.h', I + 'Classify_faces_locally.h', I + 'Face_face_intersection.h',
      I + 'Find_defects.h', I + 'io.h', I + 'io/ascii.h'],
     [('search tree', I + 'Triangle_soup.h'), ('reused buffers', I + 'Side_of_triangle_soup.h'), ('reused queue', I + 'Propagate_face_tags.h')],
     'structured dataflow analysis of every object that outlives a call (emptied before it is used, or left empty); abstract '
     'interpretation of every function that changes a mesh with a cached tree', 'std::bad_alloc in the middle of a call is not considered. ' + NOTE)

prop('C13', 'Parallel loops are free of data races',
     'Iterations of a parallel loop run on several threads at a time. Two iterations never access the same object without '
     'synchronisation if one of them writes it: what an iteration changes is its own element, the state of its own thread, or '
     'protected by a mutex that every other access also holds; objects shared by all threads, such as the lazily built search tree of '
     'a mesh, are built once, under their lock, before anyone reads them.',
     ['schedules', 'inputs'], 'every schedule of every number of threads, every mesh',
     'Races depend on timing; on most machines, the tests pass although they are there.',
     [I + f for f in ('Corefine.h', 'Mix.h', 'Find_coplanar_faces.h', 'Find_possibly_intersecting_faces.h', 'Classify_faces_locally.h',
      'Classify_faces_globally.h', 'Propagate_face_tags.h', 'Side_of_triangle_soup.h', 'Triangle_soup.h', 'Find_defects.h', 'Boolean_operator.h')],
     [('parallel loops', I + 'Corefine.h, Mix.h, Find_coplanar_faces.h, Find_possibly_intersecting_faces.h, Classify_faces_globally.h, Find_defects.h'),
      ('the lazily built tree', I + 'Triangle_soup.h')],
     'interprocedural mod/ref (effect) analysis of the body of every parallel loop with access paths, index classes and locks held; '
     'lock rule for members that are protected by a mutex', NOTE)

prop('C14', 'The parallel helpers do what sequential code would do',
     'parallel_do calls its body exactly once for each element of the range, whatever the number of threads; each thread works on its '
     'own copy of the state and hands it over exactly once, one thread at a time, after its last element; all threads have ended when '
     'the function returns; an exception of the body, of the copy of the state or of the post-processing step ends neither the program '
     'nor unnoticed, but is thrown to the caller. parallel_sort leaves the whole range sorted by the given order, without threads '
     'that wait for ever or rearrange the same elements at a time.',
     ['schedules', 'inputs', 'configurations', 'fault_sequences'], 'every number of elements and of threads, every schedule, an exception at any call',
     'The tests sort and sum a few ranges on the machine they run on; what goes wrong at the last element, with an odd number of threads '
     'or with a second exception stays hidden.',
     [I + 'parallel_do.h', I + 'parallel_sort.h'], [('loops over elements', I + 'parallel_do.h'), ('merge sort', I + 'parallel_sort.h')],
     'abstract interpretation of the helpers with opaque callbacks and a model of threads, counters, locks and exceptions; parallel_sort '
     'for each number of threads up to a bound with symbolic sizes', 'Threads are started successfully; parallel_sort is decided for up to 65 '
     '(thorough: 299) threads. ' + NOTE)

prop('C15', 'No parallel step uses more threads than the options allow',
     'The number of threads in the options is always between one and the number of processors; a context installs its options for the '
     'current thread only and restores the previous ones when it ends. parallel_do, parallel_sort and the building of the search tree '
     'do their work with at most that many threads at a time, whatever the number of elements; the threads of parallel_do run the body '
     'with the options of their creator, so that work that is nested in it obeys them too. Nothing else in the library or the tool '
     'starts threads.',
     ['configurations', 'inputs', 'schedules'], 'every number that is asked for, every number of processors and of elements, every nesting of contexts',
     'Tests pass with any number of threads; a limit that is ignored for some sizes, depths or nestings only shows as load.',
     [I + 'threading.h', I + 'Context.h', I + 'parallel_do.h', I + 'parallel_sort.h', I + 'AABB_tree/AABB_tree.h'],
     [('options', I + 'threading.h'), ('contexts', I + 'Context.h'), ('threads of the search tree', I + 'AABB_tree/AABB_tree.h')],
     'abstract interpretation of the options, contexts and helpers with models of threads and thread_local objects; every construct of '
     'the library and the tool that could start a thread is enumerated', 'Steps that are nested in each other may each use as many '
     'threads; std::log2 is taken to yield at most the logarithm. ' + NOTE)

prop('C16', 'The command line tool does what its arguments say',
     'kigumi boolean reads the first and the second mesh into the first and the second operand and writes to each given output file '
     'exactly the result of the operator its option names; kigumi convert writes what it read; kigumi defects reports each kind of '
     'defect of the mesh under its own name with its number. Warnings are printed exactly if they apply. The exit status is zero if '
     'and only if a known command was run and succeeded: unknown commands, invalid options, unreadable inputs and failed outputs give '
     'a nonzero status and never a crash.',
     ['inputs', 'configurations', 'fault_sequences'], 'every combination of commands, options, operands and failures',
     'The command line tool has no tests at all.',
     ['cli/main.cc', 'cli/boolean_command.cc', 'cli/convert_command.cc', 'cli/defects_command.cc', 'cli/utility.h'],
     [('commands', 'cli/*_command.cc'), ('dispatch and exit status', 'cli/main.cc')],
     'abstract interpretation of the commands with unknown arguments; every option combination and every failure is enumerated', NOTE)

prop('C17', 'The search for intersecting faces misses no face',
     'The search tree of a mesh has a leaf for every face, with a box around all three corners; a query reports every leaf whose box '
     'meets it, whatever the number of faces and of threads that built the tree, and no leaf twice. The pairs of faces that are '
     'examined for intersections contain every pair of a face of the left and a face of the right mesh that are not tagged yet and '
     'whose boxes meet, each once and with the left face first.',
     ['inputs', 'configurations', 'schedules'], 'every number of faces, every shape of the tree, every query',
     'A face that is missed because of its position in the tree makes results wrong for particular numbers and arrangements of faces only; '
     'the tests use a handful of small meshes.',
     [I + 'AABB_tree/AABB_tree.h', I + 'AABB_tree/AABB_node.h', I + 'Triangle_soup.h', I + 'mesh_utility.h', I + 'Find_possibly_intersecting_faces.h'],
     [('search tree', I + 'AABB_tree/AABB_tree.h'), ('pairs of faces', I + 'Find_possibly_intersecting_faces.h')],
     'abstract interpretation of one step of building together with one step of searching for a symbolic number of leaves (induction over '
     'the tree), and of the functions that fill and query it', 'CGAL\'s boxes and do_intersect are trusted. ' + NOTE)

prop('C18', 'Nothing is lost when the parts of a parallel loop are put together',
     'What a parallel loop computes is what all of its iterations found together, however they are divided among threads: pairs of faces, '
     'intersections, tags, defects and warnings that one thread found are neither overwritten by those of another nor dropped, an '
     'iteration adds the same to its thread\'s part whatever that part contains already, and threads start with an empty part.',
     ['schedules', 'configurations', 'inputs'], 'every division of the iterations among threads',
     'With one thread, or with so few faces that one thread does all the work, nothing has to be put together; the tests cannot force a division.',
     [I + 'Corefine.h', I + 'Mix.h', I + 'Find_possibly_intersecting_faces.h', I + 'Find_coplanar_faces.h', I + 'Find_defects.h', I + 'Classify_faces_globally.h'],
     [('loops with a state per thread', 'parallel_do(first, last, state, body, post)')],
     'abstract interpretation of each merging function for an arbitrary result and an arbitrary part, and of each loop body for an arbitrary '
     'element and state', NOTE)

prop('C19', 'Two triangles are intersected symbolically without an error',
     'For every position of two triangles that are not degenerate, in general or in special position, every corner of their common part is found '
     'exactly once, together with the corner, edge or face of either triangle whose interior contains it, and the corners of a common part with '
     'an area are passed on in the order in which they follow each other on its boundary.',
     ['inputs'], 'every combination of signs that the predicates can have for two triangles that are not degenerate',
     'There are tens of thousands of combinations of signs; the tests contain a few pairs of triangles per kind of intersection.',
     [I + 'Face_face_intersection.h', I + 'Triangle_region.h'],
     [('functions that evaluate orientation predicates and insert what they imply', 'every entry of their decision tables'), ('the cached predicate', 'the sign of the permutation that sorts its arguments')],
     'partitioned abstract interpretation of each function into a decision table over uninterpreted signs, compared with a catalogue of all relative '
     'positions; induction over the loops of the sort for the cached predicate',
     'Relative positions are enumerated by points of a grid that contains every combination. The orders of the points are decided for the connection of '
     'neighbours and the step to the next one, not for the termination of the walk. ' + NOTE)

prop('C20', 'Intersection points are right, shared by all faces that meet there',
     'The point at which two faces meet is the corner, the intersection of two edges or the intersection of an edge and a face that the symbolic '
     'intersection names; it has one number wherever and in whichever direction its edges occur; every face is divided by exactly the points and '
     'edges it has in common with faces of the other mesh, keeps its direction, and faces, numbers, tags and error messages are those of the right mesh.',
     ['inputs'], 'every pair of regions, order of the numbers and number of corners of a common part',
     'Which regions, orders and directions occur depends on the position of the meshes and on the order of their vertices and faces.',
     [I + 'Intersection_point_inserter.h', I + 'Triangulation.h', I + 'Corefine.h'],
     [('insert(left_region, a, b, c, right_region, p, q, r)', 'every pair of regions'), ('the caches of known points', 'every order of the numbers'),
      ('constraints and intersecting edges', 'every number of points up to six'), ('the constructor of Corefine', 'every use of a mesh, its numbers, tags and triangulations')],
     'abstract interpretation with uninterpreted points and numbers; tables of the inserter and of the triangulation over all regions, comparison of cache keys over '
     'all orders of the numbers, and a provenance analysis (left or right mesh) of everything the refinement combines',
     'The constructions and the triangulation of CGAL are trusted. ' + NOTE)

prop('C21', 'Soups, meshes, point lists and regions keep what is put into them',
     'A vertex or face that is added to a soup or a mesh is appended under the number that is returned, with default data, and changes no other; '
     'copies, moved objects and what is taken out have the vertices, faces, data and adjacency of their original, and an object assigned to itself '
     'keeps them; the ranges of vertices and faces contain every number once and in order; numbers, iterators and edges compare by value; a point '
     'list that checks uniqueness has one number per point, and equal points have equal hashes; a region is empty, full or has a boundary with '
     'faces, and tells the side of a point accordingly.',
     ['inputs', 'configurations'], 'all contents of the containers, all numbers, all points',
     'Copies of meshes, numbers out of order and coordinates that are known only approximately hardly occur in a test.',
     [I + 'Triangle_soup.h', I + 'Triangle_mesh.h', I + 'Mesh_indices.h', I + 'Mesh_iterators.h', I + 'Mesh_entities.h', I + 'Point_list.h', I + 'Region.h'],
     [('mutators, constructors, assignments', I + 'Triangle_soup.h, ' + I + 'Triangle_mesh.h'), ('Index', I + 'Mesh_indices.h'),
      ('Point_list, Point_3_hash', I + 'Point_list.h'), ('Region', I + 'Region.h')],
     'abstract interpretation of every member on a symbolic object: the state after it is compared with the state before; comparisons are tabulated over all orders; '
     'the hash is checked for uses of approximations that are not known to be exact', NOTE)

prop('C22', 'The faces at an edge and the neighbours of a face are found',
     'After a mesh has been finalized, the range of faces around an edge contains every face that has both ends of the edge as corners, once and nothing else, '
     'whichever vertices have no faces and however many faces meet there; the range of faces around a face contains the faces that share one of its three edges, '
     'except those across a border edge, and stops nowhere before the last of them.',
     ['inputs'], 'every mesh, edge, face and set of border edges',
     'The tests do not use the adjacency of a mesh with isolated vertices, edges with more than two faces or borders; every later step silently relies on it.',
     [I + 'Triangle_mesh.h', I + 'Mesh_iterators.h'],
     [('Face_around_edge_iterator', 'constructor, increment, equal, dereference'), ('Face_around_face_iterator', 'constructor, increment, equal, dereference'),
      ('finalize, faces_around_edge, faces_around_face', I + 'Triangle_mesh.h')],
     'abstract interpretation extracts the step of each iterator for arbitrary positions; it is compared with the step of a merge of two sorted sequences (and of a '
     'concatenation of three) in every case; the construction of the table is compared with its specification as a loop invariant', NOTE)

prop('C23', 'Every face of the combined mesh is on the right side of the other mesh',
     'After the classification, a face of one mesh carries the tag of the side of the other mesh on which it lies: at an edge where both meet, common faces are marked as '
     'coplanar or opposite and the rest alternate between inside and outside as the faces around the edge say; tags spread to every face that is reached without '
     'crossing a border edge and to no other; every component left over is classified once, by the nearest face that a ray from it meets, rays that touch an edge are '
     'discarded, and a point on the surface is reported; faces around an edge that contradict each other are left to the global step, and a degenerate face at an edge is reported; faces with the same vertices are found whatever corner they start with.',
     ['inputs', 'configurations'], 'every arrangement of faces around an edge, every component, every combination of hits of a ray',
     'The stable tests contain six arrangements of faces around one edge. A wrong tag in one of the others removes or keeps a whole component.',
     [I + 'Classify_faces_locally.h', I + 'Classify_faces_globally.h', I + 'Propagate_face_tags.h', I + 'Side_of_triangle_soup.h', I + 'Find_coplanar_faces.h', I + 'Mix.h'],
     [('Classify_faces_locally::operator()', I + 'Classify_faces_locally.h'), ('Propagate_face_tags::operator()', I + 'Propagate_face_tags.h'),
      ('Classify_faces_globally::operator()', I + 'Classify_faces_globally.h'), ('Side_of_triangle_soup::operator()', I + 'Side_of_triangle_soup.h'),
      ('Find_coplanar_faces::operator()', I + 'Find_coplanar_faces.h'), ('Mix::operator()', I + 'Mix.h')],
     'abstract interpretation of the source over an enumerated domain: arrangements of faces around an edge with up to 5 directions (thorough: 6), dual graphs of up to 4 '
     'faces with every set of tags, results of the intersections of a ray; compared with the tags that follow from the arrangement', NOTE)

prop('C24', 'The defects that are reported are those that the mesh has',
     'After vertices at the same point have been merged, the search for defects lists, each once and nothing else: vertices of no face, vertices whose faces do not form '
     'one fan or circle, edges with one face, edges whose two faces run in the same direction, edges with more than two faces, faces with a repeated corner, faces '
     'without area, and of every two other faces that share more than their common corners at least one.',
     ['inputs'], 'every mesh',
     'There are no tests of the search for defects. Its lists are what a user checks before a Boolean operation; a defect that is missed there becomes a wrong result later.',
     [I + 'Find_defects.h', I + 'Dense_undirected_graph.h'],
     [('Find_defects::Find_defects', 'merge_duplicate_vertices, isolated_vertices, non_manifold_vertices, *_edges, *_faces'), ('dense_undirected_graph', I + 'Dense_undirected_graph.h')],
     'abstract interpretation of the constructor and the accessors over an enumerated family of meshes of up to six faces (every second face over five points, with '
     'repeated corners, points and unused vertices) and of intersection results; compared with the definitions of the defects', NOTE)

# ---------------------------------------------------------------- not applicable
def na(id, title, statement, over, text, why, files, mechanism, reason):
    prop(id, title, statement, over, text, why, files, mechanism, na=reason)


na('N01', 'The result is, as a set of points, the result of the set operation',
   'The boundary that a Boolean operation returns bounds exactly the regularised result of the set operation on the two regions.',
   ['inputs'], 'every pair of meshes without defects', 'The tests compare a few counts.',
   [I + 'Mix.h', I + 'Corefine.h', I + 'Extract.h'], [('Mix::operator()', I + 'Mix.h'), ('Corefine', I + 'Corefine.h')],
   'The composition of the parts is a statement about real geometry (a constrained Delaunay triangulation of the pieces, exact predicates on unbounded coordinates) that no '
   'static argument in reach bounds; the steps that the repository itself implements are decided by C01, C02, C17, C19, C20, C22 and C23.')
na('N02', 'The result of closed meshes is closed and consistently oriented',
   'If both operands are closed and consistently oriented, every edge of a result is used equally often in both directions.',
   ['inputs'], 'every pair of closed meshes', 'Only sampled.', [I + 'Corefine.h', I + 'Triangulation.h', I + 'Extract.h'], [('Extract::operator()', I + 'Extract.h')],
   'It follows from N01, and like it depends on which edges the Delaunay triangulation of CGAL inserts for given coordinates; only the use of the triangulation (C20) and the '
   'choice of faces (C01) can be read off the source.')
na('N03', 'A triangulated face is covered by its pieces',
   'The pieces into which a face is divided cover the face, do not overlap and contain the inserted points and edges.',
   ['inputs'], 'every face and set of points and edges', 'Only sampled.', [I + 'Triangulation.h'], [('Triangulation', I + 'Triangulation.h')],
   'That is the correctness of CGAL::Constrained_Delaunay_triangulation_2, which is outside of the repository; that the repository passes it the right corners, points, '
   'edges and roles is decided by C20.')
na('N04', 'Results do not depend on the number of threads',
   'The set of faces of a result, their data and the warnings are the same for every number of threads and every schedule.',
   ['inputs', 'schedules'], 'every operation and schedule', 'The tests run with one schedule.', [I + 'parallel_do.h', I + 'Mix.h', I + 'Corefine.h'],
   [('parallel_do', I + 'parallel_do.h')],
   'Numbers of points and the order of faces depend on the schedule by design; equality up to renumbering is a statement about whole runs. The parts are decided by C13 '
   '(no races), C14 (every element once) and C18 (nothing lost, whatever the order).')
na('N05', 'Boolean operations end and use memory in proportion to what they find',
   'Every operation ends, in time close to linear in the size of the meshes and the number of intersections.',
   ['inputs'], 'every pair of meshes', 'Time is not measured by the tests.', [I + 'Side_of_triangle_soup.h', I + 'AABB_tree/AABB_tree.h'], [('Side_of_triangle_soup', I + 'Side_of_triangle_soup.h')],
   'The number of rays that are discarded and the shape of the search tree depend on the coordinates, which no static bound covers. Loops of readers are decided by C08; '
   'loops that reach the same state twice on the meshes of C23 and C24 are reported there.')
na('N06', 'Exact numbers are computed exactly, and filtered comparisons agree with them',
   'Every comparison and construction on coordinates has the exact result.',
   ['inputs'], 'all coordinates', 'Only sampled.', [I + 'mesh_utility.h'], [('CGAL kernels', 'CGAL')],
   'A property of CGAL, GMP and MPFR, which are not part of the repository; the repository only chooses the kernel.')

if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 kvf/frontend.py',
           'checks': [{'property': k, 'quick_cmd': f'./check {k} quick', 'thorough_cmd': f'./check {k} thorough',
                       'technique': 'static analysis: ' + t, 'level': 'other', 'level_note': n} for k, (t, n) in TECH.items()],
           'not_applicable': [{'property': k, 'reason': r} for k, r in NA.items()],
           'notes': 'No hooks in /repo. Commits in /repo are repairs of genuine defects only (see known_findings.json).'}
    with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
