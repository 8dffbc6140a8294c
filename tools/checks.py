"""The checks: for each property the harness variants to build and run."""

COMMON_ASSUMPTIONS = [
    'bounds: alphabets, depths and sizes of the scenarios as listed in DESIGN.md; nothing is claimed outside them',
    'g++ 13, libstdc++ and the sanitizer runtimes are trusted; every execution is of real code compiled from the current tree',
]


def V(name, *src, **kw):
    return dict(name=name, src=list(src), **kw)


CHECKS = {}


def check(pid, technique, note, *variants, **kw):
    CHECKS[pid] = dict(variants=list(variants), technique='stateless model checking of the real code: ' + technique, note=note, **kw)


check('C01', 'all operation histories of the cache against a recency list',
      'All histories of put/get/age/queries up to the stated depth and all reachable recency orders for small capacities; larger capacities by structured histories.',
      V('main', 'c01.cpp'), V('far', 'c01.cpp', build='O2', flags=['-DFAR'], workers=1))
check('C02', 'all operation histories with aliased arguments, movable values and every failing copy or allocation, against a reference cache',
      'All histories up to the stated depth with every element operation and every allocation of an insertion failing in turn.',
      V('main', 'c02.cpp'))
check('C03', 'all operation histories over three arrays against plain sequences',
      'All histories up to the stated depth over small sizes; larger sizes by structured families.',
      V('main', 'c03.cpp'))
check('C04', 'all operation histories with every failing element operation or allocation, lifetime ledger and allocation balance',
      'A single failure per history (constructor, copy, assignment, allocation); huge sizes are tried without sanitizers under an address space limit.',
      V('main', 'c04.cpp'), V('huge', 'c04_huge.cpp', build='plain'))
check('C05', 'all owner histories of shared arrays against a group model, lifetime ledger and allocation balance',
      'All histories of at most the stated number of owners and depth.', V('main', 'c05.cpp'))
check('C06', 'all handle histories against a value model, lifetime ledger',
      'Objects of a small class hierarchy, at most four handles; a reference kept from mutable access while the handle is copied afterwards is outside the property.', V('main', 'c06.cpp'))
check('C07', 'all access/copy/assign/destroy histories and factory answers',
      'Sequential histories; concurrent first access is not claimed.', V('main', 'c07.cpp'))
check('C08', 'all operand pairs of the set operations against element-wise set algebra',
      'All sets over a small universe and structured large sets.', V('main', 'c08.cpp'))
check('C09', 'all map histories and operand pairs against an association list',
      'All maps over a small key universe, histories up to the stated depth, structured large maps.', V('main', 'c09.cpp'))
check('C10', 'all operand pairs of the list operations against element-wise specifications',
      'All lists up to a length over a small alphabet, structured large lists.', V('main', 'c10.cpp'))
check('C11', 'all contents, delimiters, stream settings and failing elements against an independent printer',
      'All contents up to a length over a small alphabet, six stream settings; the width setting, which any output consumes, is not part of the settings compared.',
      V('main', 'c11.cpp', build='asan0'))
check('C12', 'all texts over small alphabets against an independent position parser, with chosen prior memory',
      'All texts up to the stated length; delimiters that are blanks are not considered. Builds with sanitizers, and without them with the stack filled beforehand.',
      V('main', 'c12.cpp'), V('plain', 'c12.cpp', build='plain', flags=['-DDEEP=1']), V('O0', 'c12.cpp', build='O0', flags=['-DDEEP=1']))
check('C13', 'all pairs of words, edits and histories against strings of zeros and ones',
      'All words up to a length (8 quick), all words of length 11 as second operand of the subword relation, structured long words.', V('main', 'c13.cpp'))
check('C14', 'all words and all texts over small alphabets, in every stream setting and prior memory, against an independent parser',
      'All texts up to the stated length. Builds with sanitizers, and without them with the stack filled beforehand.',
      V('main', 'c14.cpp'), V('plain', 'c14.cpp', build='plain', flags=['-DDEEP=1']), V('O0', 'c14.cpp', build='O0', flags=['-DDEEP=1']))
check('C15', 'all histories under every clock progress and wall clock adjustment, with interposed clocks',
      'Clock progress from a boundary alphabet, at most the stated number of events, two stopwatches.', V('main', 'c15.cpp'))
check('C16', 'enumeration of generator answers and entropy values on the real randomisers, with a controlled generator state',
      'Answers from a boundary alphabet (all sequences) and from a complete lattice (equidistribution of single values, pairs, triples within a tolerance of a few per cent; all 2^32 answers for some intervals in the thorough tier). The standard engine itself is trusted.',
      V('main', 'c16.cpp', fallbacks=[[], ['-DNO_ENGINE']]))
check('C17', 'all numbers of alternatives, positions, ways of making, visitors and short assignment histories, for eleven assignments of codes',
      'One to sixteen alternatives. Codes that no alternative has: all of a byte, and those near, or equal modulo powers of two to, the codes of the alternatives.',
      *[V('part%d' % k, 'c17.cpp', build='asan0', flags=['-DPART=%d' % k]) for k in range(8)])
check('C18', 'all pairs of positions and offsets, and all histories of several iterators, against integer positions',
      'Positions and offsets up to six around the start (nine thorough) plus boundary values; iterators over memory, tables, computed and linked elements. Operations that the facades do not provide are not considered.',
      V('main', 'c18.cpp'))
check('C19', 'all sequences of notification, assertion and deprecation macros at every kind of call site, with every truth value and operand, against an independent rendering',
      'Built with and without NDEBUG. Conditions and operands in which the user names a variable like the local of the macro are not considered.',
      V('debug', 'c19.cpp', build='asan0'), V('release', 'c19.cpp', build='asan0', flags=['-DNDEBUG']))
check('C20', 'all programs of test macros with every outcome and exception up to a depth, and all pairs of operand values, against an independent account of the counts and the error stream',
      'Programs of up to three statements (four thorough) in called cases up to two levels; exceptions outside the standard hierarchy that leave a called case are not considered.',
      V('main', 'c20.cpp', build='asan0'))
check('C21', 'all bounds around the boundary values, all selections of few indices',
      'Ranges up to length 19 from eleven bases, structured longer ones; selections of up to 12 indices (16 thorough), structured larger ones.',
      V('main', 'c21.cpp'))
check('C22', 'all answers of the frame lookup functions for every frame of small stacks and every depth, and real stacks of every depth',
      'The lookup functions are replaced in one variant; running out of memory inside them is not considered.',
      V('looked_up', 'c22.cpp', 'repo:src/stack_trace.cpp', flags=['-DENABLE_STACK_TRACE', '-rdynamic']),
      V('release', 'c22.cpp', 'repo:src/stack_trace.cpp', flags=['-DENABLE_STACK_TRACE', '-DNDEBUG', '-rdynamic']),
      V('real', 'c22.cpp', 'repo:src/stack_trace.cpp', flags=['-DENABLE_STACK_TRACE', '-DREAL', '-rdynamic']),
      V('disabled', 'c22.cpp', 'repo:src/stack_trace.cpp', flags=['-DDISABLED']))
def scheduled(repo, here, work, out, extra):
    import os, sched_build
    h = os.path.join(here, 'harness')
    return sched_build.build(os.path.join(h, 'c23.cpp'), extra, os.path.join(h, 'sched.cpp'), ['-I', h, '-isystem', os.path.join(repo, 'include')], work, out)


check('C23', 'controlled scheduling of threads at every access to memory that is not the thread\'s own, with race detection',
      'Two or three threads, preemption bound 1 to 2 (quick) and 2 to 3 (thorough); atomic operations are taken as sequentially consistent. Concurrent copies of SharedArray, first access of one Lazy by several threads, concurrent put/get on one cache and the global generator are outside the property.',
      V('main', 'c23.cpp', custom=scheduled))
check('C24', 'all lists of types up to a length and all pairs of a universe of types, against what the language accepts',
      'Lists of up to five types over four (seven over three); universes of 26 to 34 types; calls with up to two arguments. The compiler and the standard traits for variables of reference type are trusted.',
      V('lists', 'c24.cpp', build='O0', flags=['-DPART=0']), V('longer_lists', 'c24.cpp', build='O0', flags=['-DPART=0', '-DLONGER']),
      V('conversions', 'c24.cpp', build='O0', flags=['-DPART=1']), V('classes', 'c24.cpp', build='O0', flags=['-DPART=2']), V('operators', 'c24.cpp', build='O0', flags=['-DPART=3']), V('calls', 'c24.cpp', build='O0', flags=['-DPART=4']))
check('C25', 'all source contents and conversions against element-wise conversion',
      'All contents up to a length over a small alphabet, structured larger ones; every pair of nine arithmetic types with sequences of up to two edge values.', V('main', 'c25.cpp'), V('edges_small', 'c25b.cpp', flags=['-DPART=1']), V('edges_large', 'c25b.cpp', flags=['-DPART=2']))
check('C26', 'all choices of variables and component values for every arity, all components of tuples up to length twelve',
      'Tuples of up to six references; assigning references of variables to themselves crosswise is left to the standard.',
      V('main', 'c26.cpp'))
