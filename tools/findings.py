#!/usr/bin/env python3
"""Source of /verif/known_findings.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ('C02', '4c997f2', 'adjacency decomposition lost facets whose ridge lies at infinity and printed the face at infinity'),
 ('C04', '4c997f2', 'adjacency decomposition lost vertices and rays adjacent through the face at infinity'),
 ('C06', '873eef5', 'normalization of maps by equations ignored leading coefficients other than one: wrong classes'),
 ('C15', '260be19', 'signs and aliasing of arbitrary precision subtraction, division and comparison'),
 ('C23', '5ae29ea', 'gcd of the smallest value of a fixed width type'),
 ('C09', '1a4b0ab', 'termination row inserted into the job list without holding the lock'),
 ('C16', '3482a95', 'dangling reference to the equations while known vertices are announced'),
 ('C22', '5b92f9d', 'file name after an option of the form -s=<arg> was skipped'),
 ('C17', '1e8db0f', 'malformed vertices and rays were truncated silently or read forever'),
 ('C11', '57cff8d', 'common denominator of a vertex overflowed silently'),
 ('C17', '4621bf5', 'maps with a wrong number of images were accepted'),
 ('C19', 'bfe4085', 'dimension field DIM=N without spaces was not recognised'),
 ('C17', '75a1d22', 'trailing characters after constraints were ignored'),
 ('C17', '825b8ab', 'dimensions of equations, known data and maps were not checked (also C10: out of bounds accesses)'),
 ('C18', '3e4f88e', 'the validity check refused valid maps'),
 ('C07', '57a4547', 'expansion of reduced inequalities lost rows'),
 ('C24', '9c7ab11', 'buffers of pending messages were released too early'),
 ('C04', '5430d72', 'lines of a polyhedron were lost in the inner description'),
 ('C19', '9221e80', 'names that are prefixes of each other or look like numbers were misread'),
 ('C04', '8c3132b', 'adjacency decomposition failed on polyhedra without proper faces'),
 ('C18', 'd5ae713', 'validity check and expansion ignored sections following the maps'),
 ('C17', '693a04e', 'repeated sections replaced earlier ones silently'),
 ('C22', '155a4d9', 'help on known data was not found'),
 ('C22', '23b62c5', 'option --checked was ignored'),
 ('C27', '19647a2', 'a delayed action that was moved from ran as well'),
 ('C10', '7ff4ac3', 'assertion violated by the elimination on an empty system'),
 ('C11', 'f7f13a2', 'coefficients of maps overflowed when reduced by equations'),
 ('C12', '733209b', 'right hand side 2147483648 was printed with the wrong sign'),
 ('C22', '315f286', 'illegal sort orders were accepted, some read beyond the end of the argument'),
 ('C17', 'ef3a664', 'variables right of the relation operator were read as if they were left of it'),
 ('C17', '4a125ce', 'signs without a term were read as constants in images of maps'),
 ('C17', '39aa87d', 'names declared twice were accepted although terms referred to the first one only'),
 ('C17', '95a556b', 'a sign at the end of a line was joined with the term on the next line'),
 ('C17', '8435f8a', 'characters following the dimension were ignored and a missing dimension swallowed sections'),
 ('C11', '5be09ed', 'images of reduced vertices and inequalities and ranks of known data overflowed silently'),
 ('C18', 'c00f7d4', 'inequalities tight at rays only were accepted as known facets by the validity check'),
 ('C17', '8a8e113', 'files without any vertices or rays were accepted as known vertices'),
 ('C24', '3d66bc5', 'double description printed the result on every node'),
 ('C16', '9e054f2', 'a known row that could not be printed was lost silently'),
 ('C24', '523bd11', 'a run of several nodes hung when the root node failed'),
 ('C10', 'e68f4c8', 'elimination of a system of zero rows only (rays 0 without vertices) accessed an empty matrix'),
]
fixed = ['fixed: property=%s %s %s' % f for f in FIXED]
with open(os.path.join(V, 'known_findings.json'), 'w') as f:
    json.dump({'known': [], 'fixed': fixed}, f, indent=1)
    f.write('\n')
