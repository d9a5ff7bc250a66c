"""Writes properties.jsonl and MANIFEST.json from one table (run by hand; the results are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'ababe/stru/'
A = 'ababe/cmdline/apps/'
P = []


def p(id, title, statement, over, text, why, files, mech, observe, tech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                  tech=tech, note=note))


p('C01', 'Substituting n atoms lists every distinct structure exactly once',
  'Enumerating the ways to put n atoms of a species (vacancies included) on a crystal\'s sites - all sites, the sites of one element, or '
  'the sites of one Wyckoff letter - yields exactly one structure from every class of substitutions that symmetry operations of the '
  'original crystal map onto each other. Every structure yielded has the lattice and sites of the original with exactly the requested '
  'sites replaced, and the original is left unchanged, also when several enumerations are made from one generator.',
  ['inputs', 'histories'], 'every crystal (any lattice, origin, site order, wrapped or unwrapped coordinates), every site selection, every '
  'species and every n from 0 to beyond the number of sites, and every sequence of enumerations on one generator',
  'The tests count structures for a handful of cells with tidy coordinates; duplicates or losses appear only for particular symmetry, '
  'coordinates near a rounding boundary, or particular n.',
  [S + 'sogen.py', S + 'scaffold.py'], [('candidate generation', S + 'sogen.py:49-106'), ('duplicate removal by symmetry images', S + 'sogen.py:184-205'),
                                        ('symmetry as site permutations', S + 'scaffold.py: get_symmetry_permutation')],
  ['structures yielded by the enumeration of one species'],
  'property-based testing against brute-force orbit enumeration', 'Generated crystals up to 14 sites; oracle = brute-force '
  'substitutions and their orbits under an independent symmetry search. Trusts spglib only for Wyckoff letters.')
p('C02', 'Two-species substitution lists every distinct structure exactly once',
  'Enumerating the ways to put n1 atoms of one species and n2 of another on all sites of a crystal, or on the sites of one element, '
  'yields exactly one structure from every symmetry class of such substitutions and nothing else. This holds for unequal counts, zero '
  'counts, counts beyond the available sites, and species already present in the crystal or equal to each other.',
  ['inputs'], 'every crystal, every pair of species and counts, every host element or none',
  'The tests count structures for two small cells with equal counts.',
  [S + 'sogen.py', S + 'scaffold.py'], [('candidate generation', S + 'sogen.py: _gen_dup_trinary_alloy'), ('duplicate removal', S + 'sogen.py:184-205')],
  ['structures yielded by the two-species enumeration'], 'property-based testing against brute-force orbit enumeration',
  'Generated crystals up to 12 sites; oracle as in C01.')
p('C03', 'Stepwise substitution gives, at every count, the complete direct list',
  'The stepwise enumeration that adds one atom at a time delivers, for each count up to the maximum, exactly one structure per symmetry '
  'class of substitutions with that count, independent of the order in which the caller consumes the levels and of partial reads. '
  'Its two steps hold by themselves for any stream of structures: adding one atom gives each structure with one more exactly once, and '
  'removing duplicates keeps exactly one structure of each symmetry class, however long the stream.',
  ['inputs', 'histories'], 'every crystal, selection, species and maximum count; every interleaving of reads from the level generators; every input stream',
  'The tests compare counts for two cells, reading the levels in order.',
  [S + 'sogen.py'], [('levels', S + 'sogen.py:207-246'), ('adding one atom', S + 'sogen.py:130-182'), ('duplicate removal', S + 'sogen.py:184-205')],
  ['structures of each level', 'structures after each single step'],
  'property-based testing: levels read by random scripts against brute-force orbits; long random streams',
  'Up to 12 sites, level generators read in five kinds of order incl. random scripts; streams of up to 25000 structures.')
p('C04', 'Symmetry permutations are exactly the symmetries of the crystal',
  'The site permutations reported for a crystal are exactly the ones its symmetry operations induce: each is a permutation of the sites '
  'that preserves elements and geometry, and none is missing. The operations listed map the crystal onto itself, symmetry-related sites '
  'share a Wyckoff letter, and two occupations are declared equivalent exactly when one of these operations maps one onto the other.',
  ['inputs'], 'every crystal in every description (basis, origin, order, wrapping, rounding of coordinates) and every pair of occupations',
  'The tests check the group order of a few cells with coordinates on a coarse grid.',
  [S + 'scaffold.py', S + 'sogen.py'], [('permutations', S + 'scaffold.py: get_symmetry_permutation'), ('equivalence', S + 'sogen.py:39-47')],
  ['list of permutations', 'answer of the equivalence test'], 'property-based testing against an independent symmetry search',
  'Oracle: search over all lattice isometries and translations; crystals whose symmetry is unambiguous at the tolerance.')
p('C05', 'Grid structures: complete duplicate-free list, right geometry, touching test',
  'For the named grid lattices, filling a periodic grid of any shape with n atoms of a second species yields exactly one grid per class under '
  'the symmetries of the empty grid, two grids compare equal exactly when such a symmetry maps one onto the other, and the unfiltered list '
  'contains every occupation once. A grid converts to the cell whose lattice is the grid lattice times the shape and whose atoms sit '
  'on their grid points, and the touching test says yes exactly when no two atoms of the species, periodic images included, are nearest neighbours.',
  ['inputs'], 'every named lattice, grid shape, pair of species, count and occupation',
  'The tests use a few 2x2x2 to 2x2x4 grids.',
  [S + 'sogen.py', S + 'scaffold.py'], [('enumeration', S + 'sogen.py: gen_nodup_cstru'), ('cell of a grid', S + 'scaffold.py: CStru.get_cell'), ('touching', S + 'sogen.py: is_speckle_disjunct')],
  ['grids yielded', 'cell of a grid', 'answers of the two tests'], 'property-based testing against brute-force orbit enumeration and image distances',
  'Grids up to 16 sites, long thin ones up to 42 sites.')
p('C06', 'Substituted C60: exactly one structure per class under its 120 symmetries',
  'The symmetry table of the fullerene is the group of the 120 rigid motions and reflections of its 60 sites. Starting from any '
  'occupation, each substitution level lists exactly one occupation per symmetry class, first the start itself, in whatever order the '
  'levels are read; adding an atom and removing duplicates are complete and duplicate-free on any stream, however long, and the '
  'unfiltered list contains every choice of sites once.',
  ['inputs', 'histories'], 'every start occupation, species, number of steps, order of reading and stream of occupations',
  'The tests count classes of two or three substituents for one species and never look at the geometry of the table.',
  [S + 'buckyball.py', S + 'bucky_permu_table.npy', S + 'buckyball.json'], [('table', S + 'buckyball.py:20-41'), ('levels', S + 'buckyball.py: all_speckle_gen'), ('duplicate removal', S + 'buckyball.py: to_nodup_generator')],
  ['occupations listed per level', 'permutation table'], 'property-based testing against geometric group and orbit/Burnside counts',
  'Up to three substitution steps and streams of 2500 occupations.')
p('C07', 'Superlattices of an index are listed completely and without equivalents',
  'For a unit cell and index n, the superlattice list contains exactly one representative of every class of superlattices of that index '
  'under the rotations of the crystal, in three dimensions or restricted to the plane of the first two axes; the unreduced list contains '
  'every superlattice once. Two superlattices of one index compare equal exactly when a rotation of the crystal maps one onto the other.',
  ['inputs'], 'every unit cell and index, both dimensions, every pair of superlattices',
  'The tests count superlattices for fcc, bcc and a triangular lattice only - never low symmetry or skewed cells.',
  [S + 'grid.py'], [('list of normal forms', S + 'grid.py:93-115'), ('equivalence', S + 'grid.py: SuperLatticeCell.__eq__'), ('plane', S + 'grid.py:133-165')],
  ['superlattice matrices listed'], 'property-based testing against independent normal-form orbits',
  'Index up to 6 (3D) and 12 (plane), comparisons up to index 12; oracle by integer row reduction.')
p('C08', 'A supercell contains every atom of the repeated crystal exactly once',
  'The supercell of a crystal for a scaling matrix, made directly or through a superlattice, has the scaled lattice and holds exactly the atoms '
  'of the infinite crystal inside one new cell, each with its element. The original is unchanged, and supercells of supercells '
  'compose.', ['inputs'], 'every crystal and every non-negative upper triangular scaling matrix',
  'The tests scale one or two cells and compare listings.',
  [S + 'scaffold.py', S + 'grid.py'], [('supercell', S + 'scaffold.py: supercell'), ('cell of a superlattice', S + 'grid.py: to_general_cell')],
  ['lattice, positions and elements of the supercell'], 'property-based testing against exact integer expansion',
  'Index up to 64; sites matched modulo the new lattice.')
p('C09', 'Refined, primitive and reshaped cells describe the same crystal',
  'The refined, primitive and reshaped cells of a crystal are the same infinite crystal up to a rigid motion, with the same density and space '
  'group; the primitive one has the least possible number of atoms and the reshaped one keeps the number of atoms. The refined '
  'lattice is the conventional one of its crystal system in standard orientation, and the primitive lattice is derived from it. A cell is reported '
  'primitive exactly when no translation other than lattice vectors preserves it.', ['inputs'],
  'every crystal in every description', 'The tests compare two or three refined cells with recorded numbers.',
  [S + 'scaffold.py'], [('refinement', S + 'scaffold.py: get_refined_cell, get_refined_pcell, get_shaped_cell'), ('primitivity', S + 'scaffold.py: is_primitive')],
  ['the cells returned'], 'property-based testing with a crystal-isomorphism oracle', 'Isomorphism search independent of spglib; mirror images count as equal.')
p('C10', 'A cell does not depend on the order of its atoms and stays consistent',
  'A cell holds exactly the atoms it was given, and the same atoms given in another order, or moved by lattice vectors, give the same '
  'canonical order and identifier. Its derived data - composition, atom counts, cartesian coordinates of all or one element, symmetry - '
  'always describe its present atoms, also after new elements were assigned to its sites; the arrays given are not modified.',
  ['inputs', 'histories'], 'every set of atoms, every order and lattice translation of them, every reassignment',
  'The tests build a few cells in one order and never assign elements and ask for symmetry.',
  [S + 'scaffold.py'], [('canonical order', S + 'scaffold.py: GeneralCell.__init__, _get_new_id_seq'), ('derived data', S + 'scaffold.py: GeneralCell')],
  ['attributes and derived data of a cell'], 'property-based testing: metamorphic relations and own derived data',
  'Canonical order claimed for sites that differ at the 0.001 level.')
p('C11', 'POSCAR files carry the crystal unchanged, written and read',
  'A structure written as POSCAR (fractional or cartesian, any scale) states the lattice, the elements, and every atom except vacancies, to the '
  'six decimals of the format, under the composition as comment. Reading a POSCAR - any scale or volume, cartesian or fractional, '
  'elements in any order - gives the crystal it describes to four decimals, and writing followed by reading gives the same crystal.',
  ['inputs'], 'every crystal, coordinate mode, scale and layout of the file',
  'The tests write and read one or two fractional files with scale 1.',
  ['ababe/io/vasp.py', S + 'io.py'], [('reading', 'ababe/io/vasp.py: from_string'), ('writing', 'ababe/io/vasp.py: get_string; ababe/stru/io.py: VaspPOSCAR')],
  ['text written', 'cell read'], 'property-based testing: round trip and own reader/writer', 'Both writers; VASP 5 files without selective dynamics.')
p('C12', 'YAML files carry the crystal with vacancies; the format follows name or request',
  'A structure written as YAML states lattice, every site with its atomic number (vacancies as 0) and the composition as comment, and reading any '
  'YAML text with these keys gives the crystal it describes, scaled by its zoom. Files are read and written in the format their name or '
  'the explicitly requested format says, in any letter case, to the named file or to the terminal, and nothing else is touched.',
  ['inputs', 'configurations'], 'every crystal, YAML layout, zoom, file name and format request', 'The tests write and read one file.',
  ['ababe/io/yaml.py', 'ababe/io/io.py', S + 'io.py'], [('reading and writing', 'ababe/io/yaml.py'), ('choice of format', 'ababe/io/io.py')],
  ['text written', 'cell read', 'files present'], 'property-based testing: round trip and own reader/writer', 'Name and explicit format do not contradict each other.')
p('C14', 'The distance restriction accepts exactly structures that keep the distance',
  'A minimum-distance restriction for an element accepts a structure exactly when every two different atoms of that element, periodic images '
  'included, are farther apart than the limit; structures without the element are accepted. The answer depends on the crystal only, not '
  'on the choice of basis, origin or supercell, and the structure is not changed.', ['inputs'],
  'every crystal, in reduced and strongly skewed cells, every element and limit', 'The tests check two structures in nearly orthogonal cells.',
  [S + 'restriction.py'], [('distance test', S + 'restriction.py: MinDistanceRestriction')], ['answer of the restriction'],
  'property-based testing against exhaustive image distances', 'Limits at least 1e-5 away from the true distance.')
p('C15', 'The space-group restriction accepts exactly the listed groups',
  'A space-group restriction accepts a structure exactly when the number of its space group is in the list, whatever the rest of the list, '
  'and whatever cell describes the crystal. The structure is not changed.', ['inputs'], 'every crystal and list of group numbers',
  'The tests check two structures whose group symbol happens to contain no other digits.',
  [S + 'restriction.py'], [('group test', S + 'restriction.py: SpaceGroupRestriction')], ['answer of the restriction'],
  'property-based testing against tabulated prototypes and the spglib dataset', 'Trusts spglib to find the group; 26 prototypes are checked against tables.')
p('C16', 'Sphere queries and atom removal hit exactly the atoms within the radius',
  'The atoms found within a radius of a point are exactly those with a periodic image nearer than the radius, restricted to an element if asked. '
  'Removing atoms around points, or around every atom of an element of the original structure, removes exactly those and keeps all others '
  'unchanged and in order; anything but an editable cell is refused.', ['inputs'],
  'every cell incl. strongly skewed ones, every centre, radius and element filter', 'The tests remove atoms from one nearly cubic cell.',
  [S + 'clarifier.py', S + 'scaffold.py'], [('sphere', S + 'scaffold.py: get_points_incell_insphere'), ('removal', S + 'clarifier.py')],
  ['sites found', 'sites remaining'], 'property-based testing against exhaustive image distances', 'No atom within 1e-5 of the radius.')
p('C17', 'An editable cell is a faithful sequence of sites through every edit history',
  'Through any history of inserting, appending, replacing, removing, reversing, editing and translating sites, an editable cell holds exactly the '
  'sites a plain list would hold, and all its views (length, iteration, positions, elements, search, conversion to an immutable cell) agree. '
  'Copies and the cell it was made from are unaffected by edits of the original and the reverse, and cells that differ in size, '
  'elements or positions compare unequal.', ['histories'], 'every history of edits on a cell and its copies',
  'The tests do single edits.', [S + 'scaffold.py', S + 'site.py'], [('sequence', S + 'scaffold.py: ModifiedCell'), ('site', S + 'site.py')],
  ['sites and views after every step'], 'stateful property-based testing against a list model', 'Histories of up to 22 steps; all live cells compared after each.')
p('C18', 'Perturbation and translation move atoms by the stated cartesian amount',
  'A random perturbation moves every atom by exactly the given cartesian length (0.2 Angstrom if none is given), each in a fresh direction '
  'covering all of space, and changes neither lattice nor elements. Translating one site moves that site by the given '
  'cartesian vector and no other, and fractional and cartesian coordinates convert into each other without loss.', ['inputs', 'histories'],
  'every cell, length, vector and sequence of moves', 'The tests perturb once and translate one site.',
  [S + 'scaffold.py'], [('perturb, translate_sites', S + 'scaffold.py: ModifiedCell')], ['positions before and after'],
  'property-based testing: metric invariants and statistics of directions', 'Directions judged by pairwise difference, sign and size within 40 or more samples.')
p('C19', 'The occupation programs write each requested structure once, in its own file',
  'Each of the four occupation commands writes, into one new directory named after comment or composition, one file per symmetry class of the requested '
  'substitutions that passes all given distance limits (and, where asked, is primitive), and no other file; counts, species, element '
  'and defaults are as documented. Each file is in the requested format, its name states its composition, and it holds the structure itself or, '
  'when refined, the primitive cell of the same crystal in standard orientation. No structure is lost to a file-name coincidence and the user\'s files stay as they were.',
  ['inputs', 'configurations', 'fault_sequences'], 'every structure file, combination of options and outcome of the random file names',
  'The tests do not run the programs.', [A + 'occupymaker.py', A + 'occupybiter.py', A + 'occupytenter.py', A + 'occupymakert.py', 'ababe/cmdline/runabalib.py'],
  [('selection and output', A + 'occupy*.py: run'), ('options', 'ababe/cmdline/runabalib.py')], ['files in the working directory'],
  'property-based testing of command lines against brute-force enumeration; random-name coincidences injected',
  'Structures of up to 8 atoms; half of the runs with a name source that mostly repeats itself.')
p('C20', 'The superlattice program writes each distinct superlattice exactly once',
  'For a primitive unit cell the superlattice command writes exactly one file per inequivalent superlattice of the index (of the plane with the '
  'planar option), each the same crystal in a cell of that superlattice class, in the requested format, into a directory that replaces an older '
  'result. A unit cell that is not primitive is refused and nothing is written or removed; no structure is lost to a file-name coincidence.',
  ['inputs', 'configurations', 'fault_sequences'], 'every unit cell, index, option, earlier content and outcome of the random names',
  'The tests do not run the program.', [A + 'superlattice.py', 'ababe/cmdline/runabalib.py', S + 'grid.py'],
  [('program', A + 'superlattice.py')], ['files in the working directory'],
  'property-based testing of command lines against independent superlattice orbits; random-name coincidences injected', 'Unit cells of up to 4 atoms, index up to 6.')
p('C21', 'The structure tools write exactly the edited structure',
  'The commands that remove atoms, perturb, build a supercell or find the primitive cell write exactly the structure the options describe: the '
  'atoms of the chosen element within the radius of any atom of the centre element removed, every atom moved by the radius, the '
  'repeated crystal, the primitive cell in standard orientation. The result goes to one file named after the input in the working directory, in the requested format, or to the terminal, and '
  'the input file is not changed.', ['inputs', 'configurations'], 'every structure file, location and combination of options',
  'The tests do not run the commands.', ['ababe/cmdline/runatilib.py', A + 'atomclarifier.py', A + 'atomperturb.py'],
  [('commands', 'ababe/cmdline/runatilib.py'), ('programs', A + 'atomclarifier.py, atomperturb.py')], ['files in the working directory', 'terminal output'],
  'property-based testing of command lines against own readers and crystal comparison', 'Structures of up to 8 atoms.')
p('C22', 'The tree search follows its published selection, evaluation and update rule',
  'Every playout of the search starts from a copy of the caller\'s state, follows at each step a move with the greatest sum of mean value and '
  'exploration bonus, evaluates the leaf by the stated mixture of value function and rollout result, and updates all positions on the path. '
  'The move returned is a most visited one after exactly the requested number of playouts, the caller\'s state is untouched, and what was learned '
  'about the position after a played move is kept for the next search.', ['histories', 'inputs'], 'every game, parameter set and history of searches and moves',
  'The tests run one uniform toy state.', ['ababe/mlearn/mcts.py'], [('playout', 'ababe/mlearn/mcts.py: _playout'), ('node updates', 'ababe/mlearn/mcts.py: TreeNode'), ('re-rooting', 'ababe/mlearn/mcts.py: update_with_move')],
  ['calls made to the game, moves returned'], 'model-based property testing: reference tree replaying the observed moves', 'Random games up to depth 7; scores within 1e-9 count as equal.')
p('C23', 'A random arrangement is connected, distinct, of the requested size',
  'A random arrangement begins at the start position and has exactly the requested number of positions, no two equal, each a neighbour of an '
  'earlier one and inside the grid. Every position adjacent to the arrangement can be the next one.', ['inputs', 'schedules'],
  'every problem (grid or custom neighbour relation), size and outcome of the random choices', 'The tests run two sizes once.',
  ['ababe/mlearn/arrange.py', 'ababe/mlearn/arrangeAgent.py'], [('random growth', 'ababe/mlearn/arrange.py'), ('problems', 'ababe/mlearn/arrangeAgent.py')],
  ['positions returned'], 'property-based testing of invariants over random seeds', 'Goals within the reachable part.')
p('C24', 'The random-pop set behaves as a set through every history',
  'Through any history of additions, removals, set algebra and random draws the container holds exactly the elements a mathematical set would '
  'hold, and length, membership, iteration and comparisons agree. A random draw returns a present element, every element can be drawn, '
  'removing draws remove exactly what they return, and draining returns every element once.', ['histories'],
  'every history of operations on several sets', 'The tests do single operations, and four of them cannot run.',
  ['ababe/mlearn/dsutils.py'], [('set', 'ababe/mlearn/dsutils.py: RandomPopSet')], ['views after every step'],
  'stateful property-based testing against python sets', 'Histories of up to 30 steps.')
p('C25', 'Neighbour lists of grids contain exactly the grid points within the radius',
  'The neighbours of a grid point within a distance are exactly the other points of the grid whose cartesian distance does not exceed it, without '
  'periodic images, for planar and three-dimensional grids of any shape and lattice. The midpoint is the point at half of every axis, rounded down.',
  ['inputs'], 'every lattice, grid shape, point and radius', 'The tests use equal axes and one radius.',
  [S + 'scaffold.py', S + 'scaffold2d.py'], [('neighbours', S + 'scaffold.py: CStru.get_neighbors; scaffold2d.py: CStru2d.get_neighbors')],
  ['set of neighbours'], 'property-based testing against exhaustive distances', 'No grid point within 1e-6 of the radius.')
p('C26', 'Symbols, atomic numbers and masses of the species table are consistent',
  'Every species of the table has the atomic number and, within 0.6 percent, the atomic mass of its element; symbol and number determine each other, the '
  'vacancy being symbol G with number 0 and mass 0. Species are equal exactly when their numbers are, however they were made, never equal '
  'to something that is not a species, and unknown symbols are refused.', ['inputs'], 'every species and every pair, created from number or symbol',
  'The tests look at two or three species.', [S + 'element.py', S + 'pt.json'], [('table', S + 'pt.json'), ('species', S + 'element.py')],
  ['attributes of a species'], 'exhaustive table and property-based pairs against an own table', 'All 74 species once, random subsets and pairs.')
p('C27', 'Grids of sites convert without loss and copies are independent',
  'Converting an array of atomic numbers to a grid and back gives the same array, reading and writing one site affects that site of that grid only, and '
  'copies share nothing with their original, through every history. Grids compare equal exactly when all sites are, uniform '
  'grids hold one species, and random fillings have the requested shape and consist of the two given species.', ['histories', 'inputs'],
  'every grid and history of copies, assignments, comparisons and conversions', 'The tests edit one copy once, at one site.',
  [S + 'scaffold.py', S + 'scaffold2d.py'], [('grids', S + 'scaffold.py: SitesGrid, CStru; scaffold2d.py: SitesGrid2d, CStru2d')], ['arrays of all live grids after every step'],
  'stateful property-based testing against nested lists', 'Grids up to 4x4x4, histories of up to 14 steps.')

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for q in P:
            f.write(json.dumps({'id': q['id'], 'title': q['title'], 'statement': q['statement'], 'quantifier': {'over': q['over'], 'text': q['text']},
                                'why_tests_cant': q['why'], 'anchors': {'files': q['files'], 'mechanism': [{'name': a, 'where': b} for a, b in q['mech']],
                                                                         'observe_at': q['observe'], 'hook_needed': None}}) + '\n')
            assert len(q['title']) <= 80, q['id']
            n = q['statement'].count('. ') + 1
            assert n <= 3, (q['id'], n)
    M = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': [
        {'property': q['id'], 'quick_cmd': 'python3-vt check.py %s' % q['id'], 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % q['id'],
         'evidence_file': 'evidence/%s.json' % q['id'], 'technique': q['tech'], 'level': 'exploration', 'level_note': q['note']} for q in P],
        'not_applicable': [], 'notes': 'No hooks: the code under test runs unmodified in PyPy worker processes that import /repo. '
        'Generators and oracles run in CPython with Hypothesis. Findings and repairs: known_findings.txt.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(M, f, indent=1)
        f.write('\n')
