#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=('stdout and exit code of the executable',), state=(), hook=None):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': ['src/' + f for f in files], 'state': [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          'mechanism': [dict(name=a, where='src/' + b) for a, b in mech], 'observe_at': list(observe), 'hook_needed': hook}})


prop('C01', 'Facet enumeration with double description is exact',
     'For every inner description (points with integer or fractional coordinates and, optionally, rays, at least one point) facet enumeration with the double description method (-m dd) prints exactly the facets of the convex hull plus cone: every printed inequality is valid, defines a facet and is in lowest terms, no facet is printed twice, and no facet is missing. '
     'It exits with 0. This holds whenever the intermediate numbers fit the selected integer type, in every dimension and for any number of points, including lower-dimensional, redundant, duplicate and unbounded inputs.',
     ['inputs', 'configurations'], 'all inner descriptions (dimension, number and order of points and rays, redundancy, rank deficiency) and integer types',
     'The tests run helper algorithms on a handful of matrices; none runs the method on an input or compares a complete output with an independent convex hull.',
     ['method_double_description.cpp', 'algorithm_fourier_motzkin_elimination.cpp', 'algorithm_matrix_operations.cpp', 'bitset_fixed_size.tpp', 'input_vertex.cpp'],
     [('two phase Fourier-Motzkin elimination with combinatorial adjacency test', 'algorithm_fourier_motzkin_elimination.cpp'),
      ('removal of the face at infinity, lowest terms', 'algorithm_fourier_motzkin_elimination.cpp')])

prop('C02', 'Facet enumeration with adjacency decomposition is exact',
     'For every inner description facet enumeration with the adjacency decomposition method (the default, -m ad) prints exactly the facets of the convex hull, each once, valid and in lowest terms, and exits with 0. '
     'The printed set does not depend on the number of threads given with -t and equals the set printed by the double description method up to adding multiples of the printed equations.',
     ['inputs', 'configurations', 'schedules'], 'all inner descriptions and all thread counts',
     'The tests rotate one or two facets of fixed polytopes; no test enumerates all facets, uses unbounded or degenerate input or compares both methods.',
     ['method_adjacency_decomposition_implementation.cpp', 'algorithm_rotation.cpp', 'algorithm_fourier_motzkin_elimination.cpp', 'algorithm_inequality_operations.cpp', 'list.cpp'],
     [('initial facet by the elimination heuristic', 'algorithm_fourier_motzkin_elimination.cpp'), ('rotation around all ridges of a facet', 'algorithm_rotation.cpp'),
      ('set of known rows, job list', 'list.cpp')])

prop('C03', 'Printed equations are a basis of the affine hull',
     'The equations printed by facet enumeration hold for every input point and ray, are linearly independent, and there are exactly as many as the codimension of the affine hull of the input. '
     'No section of equations is printed for full-dimensional input, and both methods print the same equations.',
     ['inputs'], 'all inner descriptions of any rank, coordinate order and coefficient size',
     'The tests extract equations of three fixed matrices; they do not vary rank, coefficient or position of the dependent coordinates.',
     ['algorithm_matrix_operations.cpp', 'method_double_description.cpp', 'method_adjacency_decomposition_implementation.cpp'],
     [('integer column elimination on the generators', 'algorithm_matrix_operations.cpp')])

prop('C04', 'Vertex enumeration is exact with both methods',
     'For every non-empty polyhedron given by inequalities and equations, vertex enumeration with either method prints exactly its vertices and extremal rays, each once, with exact coordinates in lowest terms, and exits with 0. '
     'If the polyhedron contains lines, the printed rows generate exactly the polyhedron.',
     ['inputs', 'configurations'], 'all feasible systems of inequalities and equations: bounded, unbounded, with redundant, scaled or repeated rows, with lines; both methods; all thread counts',
     'No test runs a vertex enumeration.',
     ['method_double_description.cpp', 'method_adjacency_decomposition_implementation.cpp', 'input.cpp', 'input_constraint.cpp', 'algorithm_fourier_motzkin_elimination.cpp'],
     [('homogenization of inequalities and use of equations', 'input_constraint.cpp'), ('elimination / rotation on the polar cone', 'algorithm_fourier_motzkin_elimination.cpp'),
      ('printing of fractions', 'algorithm_row_operations.cpp')])

prop('C05', 'The printed description can be read again and describes the same polyhedron',
     'Standard output carries nothing but the description (progress and diagnostics go to standard error), and the facets printed by either method as well as the vertices printed by double description can be fed back to the program (after the names, if there are any). '
     'Converting a pointed polyhedron of dimension at least one from vertices to facets and the printed facets back to vertices with either method reproduces exactly the original vertices and extremal rays, for named and unnamed coordinates.',
     ['inputs', 'configurations'], 'all inner descriptions of pointed polyhedra, named or unnamed, and pairs of methods',
     'Tests never read output of the program; formatting and parsing are tested separately on fixed strings.',
     ['algorithm_row_operations.cpp', 'input.cpp', 'input_constraint.cpp', 'input_vertex.cpp', 'method_double_description.cpp', 'list.cpp'],
     [('printing of rows, names and relations', 'algorithm_row_operations.cpp'), ('section keywords tolerate a trailing colon', 'input_keywords.cpp')])

prop('C06', 'Symmetric enumeration prints one representative of every class',
     'If maps that permute the input are given, facet enumeration prints exactly one member of each class (orbit under the group generated by the maps) of facets, marks the section as Reduced, and vertex enumeration does the same with vertices and rays of pointed polyhedra. '
     'This holds for affine maps, for maps on polyhedra that are not full-dimensional, for several generators in any order, and for both methods; the union of the classes is the full set of facets respectively vertices.',
     ['inputs', 'configurations'], 'all symmetric inputs and generating sets of maps, including redundant, identical and affine ones',
     'The tests compute the classes of a few rows under one fixed set of maps.',
     ['algorithm_classes.cpp', 'algorithm_map_operations.cpp', 'algorithm_row_operations.cpp', 'input_map.cpp', 'method_double_description.cpp', 'algorithm_rotation.cpp'],
     [('orbit by breadth-first application of all maps, maximal element as representative', 'algorithm_classes.cpp'), ('maps reduced modulo the equations', 'algorithm_map_operations.cpp')])

prop('C07', 'Reduced input is equivalent to the full input',
     'Giving only representatives in a section marked Reduced together with the maps leads to the same output as giving all members of their classes. '
     'This holds for vertices, rays and inequalities, independent of which member represents its class, whether several members are listed, and of scaling or of adding multiples of equations to inequalities.',
     ['inputs'], 'all choices of representatives of symmetric inputs',
     'No test reads a reduced section and runs an enumeration.',
     ['input.cpp', 'input_vertex.cpp', 'input_constraint.cpp', 'algorithm_classes.cpp', 'algorithm_map_operations.cpp'],
     [('expansion of reduced sections with the maps', 'input_vertex.cpp'), ('expansion of reduced inequalities', 'input.cpp')])

prop('C08', 'Adjacency decomposition does not depend on the schedule and terminates',
     'With any number of worker threads and under every interleaving, adjacency decomposition terminates with exit code 0 and prints the same set of rows, each exactly once and on a line of its own. '
     'The progress trace shows that every class found is started exactly once and completed exactly once before the program ends.',
     ['schedules', 'configurations'], 'all interleavings of the worker threads, the thread that announces known rows, and the start-up; all thread counts, also more threads than classes',
     'Tests are sequential; a lost wake-up, an early termination or a torn line needs a particular interleaving.',
     ['list.cpp', 'job_manager.cpp', 'joining_thread.cpp', 'method_adjacency_decomposition_implementation.cpp', 'concurrency.cpp'],
     [('mutex, condition variable, counter of active workers and termination row', 'list.cpp'), ('threads joined at end of scope', 'joining_thread.cpp')],
     ('stdout, the progress trace on stderr, sequence of synchronization operations',),
     (('pending rows', 'found and not yet handed out', 'src/list.cpp'), ('workers', 'threads that may still announce rows', 'src/list.cpp')))

prop('C09', 'No data races',
     'No execution of the program performs two conflicting unsynchronized accesses to memory: with any number of threads, any input, with and without symmetry and known data, a happens-before race detector reports nothing and no lock order inversion exists.',
     ['schedules', 'inputs', 'configurations'], 'all schedules and inputs of adjacency decomposition',
     'The tests start no concurrent enumeration and run without a race detector.',
     ['list.cpp', 'job_manager.cpp', 'method_adjacency_decomposition_implementation.cpp', 'joining_thread.tpp', 'delayed_action.tpp'],
     [('one mutex guards rows, pending rows, counters and standard output', 'list.cpp')], ('ThreadSanitizer reports',))

prop('C10', 'Memory safety and defined behaviour on every input',
     'Whatever the content of the input file and the command line, the program performs no out-of-bounds, use-after-free, uninitialized or null access, leaks no memory and executes no undefined operation (other than integer overflow with the unchecked fixed width integer types). '
     'Unless the given maps are no symmetries or the given known data is wrong, it also violates none of its own assertions and always ends by itself, with a result or with an error.',
     ['inputs', 'configurations'], 'all byte strings as input files, all command lines, all integer types and both methods',
     'Tests feed a few dozen well-formed and malformed strings without sanitizers.',
     ['input.cpp', 'input_common.cpp', 'input_constraint.cpp', 'input_map.cpp', 'input_vertex.cpp', 'input_detection.cpp', 'algorithm_fourier_motzkin_elimination.cpp', 'bitset_fixed_size.tpp', 'big_integer.h'],
     [('validation of dimensions and tokens while reading', 'input_consistency.cpp'), ('assertions throughout', 'algorithm_matrix_operations.cpp')], ('AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer, glibcxx and program assertions',))

prop('C11', 'The checked integer type never gives a wrong result',
     'With -i safe every run either prints exactly the right description, or fails with a non-zero exit code because an intermediate value left the range. '
     'It never ends successfully with a wrong or truncated result, whatever the size of the coefficients, and the rows printed before a failure are right.',
     ['inputs', 'configurations'], 'all inputs, with coefficients from small to the limits of int; both methods and both directions',
     'Tests of the checked type cover a few operand pairs, never a computation that overflows midway.',
     ['safe_integer_arithmetics.cpp', 'safe_integer_constructors.cpp', 'cast.cpp', 'input_vertex.cpp'],
     [('overflow checks in every operation', 'safe_integer_arithmetics.cpp'), ('checked conversion to the printed type', 'cast.cpp')])

prop('C12', 'The arbitrary precision integer type is exact',
     'With -i inf no intermediate value is ever truncated: every run prints exactly the right description whenever all printed numbers fit the printed type (int). '
     'If one does not fit (or a coefficient of a map reduced by equations does not), the run fails with a non-zero exit code and never prints a wrong number.',
     ['inputs', 'configurations'], 'all inputs with coefficients up to the limits of int; both methods and both directions',
     'No test runs an enumeration whose intermediate values exceed 64 bits.',
     ['big_integer.h', 'big_integer_arithmetics.cpp', 'big_integer_comparisons.cpp', 'big_integer_constructors.cpp', 'cast.cpp', 'integer_type_selection.tpp'],
     [('arbitrary precision arithmetic', 'big_integer_arithmetics.cpp'), ('checked conversion to the printed type', 'cast.cpp')])

prop('C13', 'All integer types give the same output on small data',
     'As long as no intermediate value exceeds the range of 16 bits, all integer types (16, 32, 64, safe, inf, and the default) and both spellings of the option print identical rows, for both methods and both directions.',
     ['inputs', 'configurations'], 'all inputs with small intermediate values, all integer types',
     'Most tests instantiate one integer type.',
     ['integer_type_selection.tpp', 'integer_type_selection.cpp', 'integer_type_detection.cpp', 'algorithm_integer_operations.cpp', 'cast.cpp'],
     [('selection of the template instance', 'integer_type_selection.tpp')])

prop('C14', 'Checked integers: exact result or exception',
     'Every operation of the checked integer type (construction and conversion, +, -, *, /, %, negation, absolute value, comparisons, compound forms, mixed operands, aliasing, gcd) returns the mathematically exact value if that fits 64 bits and reports an overflow or division by zero by an exception otherwise (the remainder is the one between 0 and the divisor, a divisor that is not positive is refused). '
     'After an exception the operands keep their values.',
     ['inputs', 'histories'], 'all pairs of 64-bit operands, all operations and sequences of operations',
     'Tests use a handful of operand pairs per operation.',
     ['safe_integer.h', 'safe_integer_arithmetics.cpp', 'safe_integer_arithmetics.tpp', 'safe_integer_comparisons.cpp', 'safe_integer_comparisons.tpp', 'safe_integer_constructors.cpp'],
     [('range checks before each operation', 'safe_integer_arithmetics.cpp')], ('values and exceptions of the public operators',))

prop('C15', 'Arbitrary precision integers equal mathematical integers',
     'Every operation of the arbitrary precision type (construction, conversion, +, -, *, /, %, negation, absolute value, comparisons, compound forms, aliasing, gcd) gives the mathematical result, with division truncating toward zero and the remainder by a positive divisor lying between 0 and the divisor (exclusive), for operands of any size and sign. '
     'Conversion to a fixed width type is exact or an exception, and division by zero is an exception.',
     ['inputs', 'histories'], 'all operands of any number of digits and all sequences of operations',
     'Tests use a handful of operand pairs, few above one machine word.',
     ['big_integer.h', 'big_integer_arithmetics.cpp', 'big_integer_comparisons.cpp', 'big_integer_constructors.cpp'],
     [('sign and magnitude with machine word digits', 'big_integer_arithmetics.cpp')], ('values and exceptions of the public operators',))

prop('C16', 'Known data never changes the result',
     'Supplying any subset of the true facets (or, for vertex enumeration, vertices and rays) as known data with -k changes at most the order of the rows and, among the members of one class, which is irrelevant: the printed set is the same as without, each row once, with exit code 0. '
     'This holds with maps (any member of a class may be given), with equations (any multiple of them may have been added), for scaled rows and for all thread counts.',
     ['inputs', 'configurations', 'schedules'], 'all subsets, representatives and orders of known data',
     'No test passes known data to an enumeration.',
     ['input.cpp', 'method_adjacency_decomposition_implementation.cpp', 'input_consistency.cpp', 'filename.h'],
     [('known rows are normalized and reduced to representatives before they are announced', 'method_adjacency_decomposition_implementation.cpp')])

prop('C17', 'Malformed or inconsistent input is rejected',
     'An input file (or file of known data) whose sections contain unparsable or missing tokens, rows of different length, numbers that do not fit, unknown or repeated names, wrong numbers of map images, contradicting, repeated or missing sections or a wrong dimension field, and a missing file, is rejected: the program ends with a non-zero exit code, an explanation on standard error and no description on standard output. '
     'It never hangs and never computes with a silently altered input. (Lines outside of any known section are ignored, for compatibility with PORTA; a section with its keyword on the same line as data is such a line.)',
     ['inputs'], 'all mutations of well-formed files that leave the documented format',
     'Tests cover about twenty fixed malformed strings at the level of single parsers.',
     ['input.cpp', 'input_common.cpp', 'input_constraint.cpp', 'input_constraint_named_variables.cpp', 'input_constraint_unnamed_variables.cpp', 'input_consistency.cpp', 'input_vertex.cpp', 'input_map.cpp', 'input_names.cpp', 'input_dimension.cpp'],
     [('token and dimension checks', 'input_common.cpp'), ('consistency of sections', 'input_consistency.cpp')], ('exit code, stdout, stderr',))

prop('C18', 'The validity check accepts exactly valid maps and known rows',
     'With --check a facet or vertex enumeration proceeds (and gives its usual output) if every map permutes the given vertices, rays or inequalities, and is refused with a non-zero exit code, an explanation and no rows if some map does not. '
     'Known rows (-k) are likewise accepted if each of them is a facet (for vertex enumeration: a vertex or extremal ray) and refused if one is not. '
     'The answer does not depend on the order of rows, on scaling, on repeated rows or on the position of the offending map or row.',
     ['inputs'], 'all inputs with maps that are or are not symmetries',
     'Tests check no input with the validity check.',
     ['input_validity.cpp', 'input.cpp', 'algorithm_map_operations.cpp'],
     [('application of every map to every row', 'input_validity.cpp')])

prop('C19', 'Equivalent notations of an input give identical output',
     'The output is the same for every documented way to write the same input: sections in any permitted order, extra white space and blank lines, line endings of Windows, keywords in any accepted spelling, with or without colon, END or none, the dimension field or none, identifiers in parentheses in front of rows, named or numeric constraints, >= or <=, = or ==, terms reordered or with coefficient zero or one, signs attached or detached, and equivalent fractions. '
     'Also the PORTA style files in the documentation are read as described.',
     ['inputs'], 'all equivalent rewritings of all inputs',
     'Tests parse a few dozen fixed lines.',
     ['input.cpp', 'input.tpp', 'input_common.cpp', 'input_keywords.cpp', 'input_names.cpp', 'input_dimension.cpp', 'input_constraint_named_variables.cpp', 'input_detection.cpp', 'istream_peek_line.cpp'],
     [('keyword detection and line-wise parsing', 'input_keywords.cpp')])

prop('C20', 'The result is independent of order, redundancy and size of the input',
     'Permuting input rows, any value of the sorting option (-s), duplicating rows, adding redundant points or inequalities, and scaling inequalities leave the printed set unchanged for both methods. '
     'This holds for inputs of any number of rows, from a handful to many hundreds.',
     ['inputs', 'configurations'], 'all permutations, sort orders, redundant extensions and row counts',
     'Tests never run an enumeration, and reach only two sizes of the internal sets.',
     ['input.cpp', 'input_order.h', 'algorithm_fourier_motzkin_elimination.cpp', 'bitset_fixed_size.tpp', 'bitset_variable_size.cpp', 'method_double_description.cpp'],
     [('sorting of input rows', 'input.tpp'), ('choice of the set representation by number of rows', 'algorithm_fourier_motzkin_elimination.cpp')])

prop('C21', 'Index sets behave like mathematical sets',
     'Index sets of every fixed and variable capacity behave like mathematical sets: after any sequence of insertions and unions, membership, cardinality, cardinality of a union, union, containment and containment in a union agree with the set model for every bound that covers the indices used. '
     'Both representations agree with each other.',
     ['inputs', 'histories'], 'all capacities, index sets and sequences of operations',
     'Tests cover single operations on a few words.',
     ['bitset_fixed_size.h', 'bitset_fixed_size.tpp', 'bitset_variable_size.h', 'bitset_variable_size.cpp', 'popcount.h', 'popcount.tpp'],
     [('word-wise operations', 'bitset_fixed_size.tpp')], ('results of the public member functions',))

prop('C22', 'Command line options mean the same in every documented form and position',
     'Every documented option works in short and long form, with = or a separate argument, in any order and before or after the file name, and selects the documented method, integer type, number of threads, sort order, known data or check. '
     'Help and version requests print to the terminal and exit with 0 without computing; illegal values of options, misspelled options and missing arguments are refused with a non-zero exit code, an explanation and no description (the number of threads concerns adjacency decomposition only).',
     ['configurations', 'inputs'], 'all command lines built from documented options, in all forms, orders and positions, and illegal values',
     'Tests pass a few fixed argument vectors to single detectors.',
     ['main.cpp', 'input_method.cpp', 'integer_type_detection.cpp', 'concurrency.cpp', 'filename.h', 'help.cpp', 'input_detection.cpp', 'input.tpp'],
     [('detectors scan the argument vector', 'input_method.cpp')])

prop('C23', 'Exact integer linear algebra',
     'For every integer matrix the rank, the basis of the equations satisfied by its rows, the transposition, the product with vectors, greatest common divisor and least common multiple of numbers and rows, and the normalization of a row by equations are exact for every integer type as long as the numbers fit. '
     'Normalization changes a row only by positive scaling and multiples of equations, and yields one common form for all rows that agree up to such changes.',
     ['inputs'], 'all matrices, rows and equations and all integer types',
     'Tests use a handful of fixed matrices and one integer type.',
     ['algorithm_matrix_operations.cpp', 'algorithm_row_operations.cpp', 'algorithm_integer_operations.cpp', 'algorithm_inequality_operations.cpp', 'cast.cpp'],
     [('fraction-free elimination with division by the gcd', 'algorithm_matrix_operations.cpp')], ('return values of the public functions',))

prop('C24', 'Distributed runs equal local runs',
     'A build with message passing support prints on any number of nodes, with any number of threads per node, exactly the set of rows of a local run, each once and only by the root node, and every node terminates with exit code 0; a run that has to fail ends on all nodes with a failure. '
     'Every message sent is received, buffers are not modified while a transfer is in progress, and calls of several threads of one node to the message passing library do not overlap.',
     ['schedules', 'configurations', 'inputs'], 'all numbers of nodes and threads, inputs and interleavings of messages',
     'The tests are built without message passing.',
     ['communication.cpp', 'job_manager.cpp', 'job_manager_proxy.cpp', 'message_passing_interface_session.cpp', 'list.cpp'],
     [('one request thread per remote worker', 'job_manager.cpp'), ('non-blocking transfer of rows with a termination row', 'communication.cpp')])

prop('C25', 'Classes of rows under maps form a partition',
     'For every set of invertible maps and every row, the computed class contains the row, is closed under all maps, and is the same for each of its members, and the representative is a member that is the same for all members. '
     'The list of representatives of a set of rows contains exactly one representative per class and depends on neither order nor repetition of the rows, and the maps reduced modulo equations act like the original maps modulo these equations.',
     ['inputs'], 'all maps (permutations, affine, modulo equations), rows and integer types, for facets and vertices',
     'Tests compute three classes.',
     ['algorithm_classes.cpp', 'algorithm_map_operations.cpp'],
     [('closure under all maps', 'algorithm_classes.cpp')], ('return values of the public functions',))

prop('C26', 'Job distribution: each row handed out once, no lost or early termination',
     'In every concurrent history of the job pool, a row announced any number of times is handed out to exactly one worker, a worker is told to stop only after all announced rows were handed out and every worker that could still announce rows has reported, and then every waiting and every later request is told to stop. '
     'No request waits forever, provided that workers request their next row after reporting, as the program does.',
     ['schedules', 'histories'], 'all interleavings of announcements, requests and reports by any number of workers',
     'Tests exercise no concurrent use of the pool.',
     ['list.cpp', 'list.h', 'job_manager.cpp', 'job_manager.h'],
     [('counter of active workers, pending rows and termination row under one mutex', 'list.cpp')], ('recorded history of calls of the pool',))

prop('C27', 'Scope-bound helpers act exactly once, ranges and stream helpers are faithful',
     'Scope-exit actions run exactly once on every way out of the scope, delayed actions run at most once and only after their delay, wrapped threads are joined before their owner disappears, and stream positions are restored by guards. '
     'Peeking at a line never changes what is read next, whatever the content of the stream, and reversed ranges visit exactly the elements in reverse order.',
     ['inputs', 'histories', 'schedules'], 'all exits (return, exception, nesting), delays, stream contents and containers',
     'Tests use one instance each.',
     ['scope_guard.h', 'scope_guard.tpp', 'delayed_action.h', 'delayed_action.tpp', 'joining_thread.h', 'joining_thread.tpp', 'position_guarded_file.h', 'istream_peek_line.cpp', 'range.h', 'range.tpp'],
     [('destructors', 'scope_guard.tpp')], ('effects and order of actions in a harness',))

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
