prop('K01', 'Kinematic chain poses always equal the composed tree, whatever was queried',
     'At every moment the world pose of every part and named frame equals the composition along the path from the '
     'world datum of attachment-frame offset, joint base offset and joint motion, regardless of which poses were '
     'queried (and cached) before which joint values changed; relative poses, ancestor lists and child/descendant '
     'lists agree with the same tree. Joint values set with clamping never leave the limits. A rejected operation '
     '(duplicate name, unknown part or parent) reports an error and changes nothing.',
     ['histories', 'inputs'],
     'every sequence of adding parts, setting joints and querying poses, for every tree shape, joint kind, axis and limit',
     'Tests query a few fixed chains once; a stale cache or wrong composition order shows only for particular '
     'interleavings of queries and updates in deeper trees with rotated frames.',
     ['src/yapcad/kinematics/chain.py', 'src/yapcad/kinematics/joint.py', 'src/yapcad/kinematics/part.py',
      'src/yapcad/kinematics/transform.py'],
     ['world-transform cache invalidated by subtree', 'parent attachment frame composition', 'limit clamping'],
     note='Exact poses: quarter, half and third turns and integral slides; other angles share the same code path but '
          'are not enumerated.')
prop('K02', 'Saving and reloading a kinematic chain loses nothing',
     'A chain written to its JSON document and read back (from a dictionary or a file, with the parts listed in any '
     'order, with or without derived world poses) has the same parts, parents, attachment frames, joints, values, '
     'limits, frames and descriptive data and therefore the same poses, and goes on behaving identically. The '
     'human-readable translation plus rotation angles of a pose denote the same pose as its matrix. Documents with '
     'unknown parents or cyclic parent links are rejected.',
     ['inputs', 'histories'],
     'every chain document and every order of its parts; every rotation and translation',
     'Tests reload one chain in creation order with identity-like rotations; convention mismatches and order '
     'dependence need general rotations and shuffled documents.',
     ['src/yapcad/kinematics/chain.py', 'src/yapcad/kinematics/transform.py', 'src/yapcad/kinematics/frame.py'],
     ['to_dict/from_dict of chain, part, joint, frame', 'topological ordering on load', 'Euler angle convention'],
     note='Poses compared to 1e-6; the read-back law of Euler angles is also sampled on oblique angles.')

# ---------------------------------------------------------------- DSL
DSLF = ['src/yapcad/dsl/runtime/interpreter.py', 'src/yapcad/dsl/runtime/context.py', 'src/yapcad/dsl/runtime/values.py']
prop('D01', 'A DSL program computes what its text says',
     'Executing a command yields exactly the value the language defines for its text: arithmetic, comparison and '
     'logic with short-circuit evaluation, conditionals and loops, block scoping and assignment, list, string, '
     'comprehension and lambda/match-free expressions, calls of other commands with positional, named and default '
     'arguments, recursion, and emit ending the command with its value.',
     ['inputs'],
     'every program of the core language and every argument',
     'Tests run single short programs; wrong scoping, evaluation order, early exit or argument passing shows only in '
     'compositions of nested loops, shadowed names, recursive calls and mixed int/float values.',
     DSLF + ['src/yapcad/dsl/parser.py'], ['expression and statement evaluation', 'scope chain', 'command call and emit'],
     note='Core language over int, float (dyadic), bool, string, list; geometry builtins are not in the model.')
prop('D02', 'A violated require is never lost and a satisfied one never fails a run',
     'A run succeeds exactly when every require condition reached, in the command run or in any command it calls '
     '(also from argument and default-value expressions), is true; otherwise the result is unsuccessful, carries no '
     'value and reports every failed condition with its message text.',
     ['inputs'],
     'every program, nesting of calls and placement of require statements',
     'Tests check a top-level require; a failure inside a nested call, loop or default value can be silently dropped.',
     DSLF, ['require failure recording across command calls', 'message evaluation', 'result construction'])
prop('D03', 'Execution limits hold and every runtime fault is contained',
     'Iteration and recursion budgets are enforced exactly at the configured values for every loop form and call '
     'chain, and any fault while running a program (limits, division by zero, bad index, missing name, type misuse) '
     'is reported as an unsuccessful result; no exception escapes and a faulted run leaves later runs unaffected.',
     ['inputs', 'faults'],
     'every program, limit setting and fault position',
     'Tests exercise one infinite loop; off-by-one budgets, unbudgeted constructs and escaping exceptions need '
     'programs at the boundary and faults at unusual positions.',
     DSLF, ['loop and recursion limits', 'exception containment in execute'])
prop('D04', 'Static checking accepts well-typed programs and rejects ill-typed ones',
     'The checker reports an error for every program of the core language that violates the typing rules '
     '(undefined names, wrong operand, argument, condition, iterable, initializer, emit or return types, missing or '
     'unknown arguments, duplicate definitions) and none for programs that satisfy them; accepted programs do not '
     'fail at run time for a type reason.',
     ['inputs'],
     'every program of the core language, well or ill typed',
     'Tests check one example per rule in the simplest position; a rule skipped in a nested position accepts a '
     'program that later fails.',
     ['src/yapcad/dsl/checker.py', 'src/yapcad/dsl/symbols.py', 'src/yapcad/dsl/types.py'],
     ['expression and statement typing', 'scopes', 'call signature checks'])
prop('D05', 'DSL source parses to the structure its grammar and layout define',
     'Every expression parses to the tree defined by operator precedence and associativity, and every program '
     'means the same in brace style and in indentation style, whatever its blank lines, comments, indentation width '
     'and line breaks inside brackets; inconsistent indentation is rejected.',
     ['inputs'],
     'every expression over all operators and every layout of a block structure',
     'Tests parse typical snippets; precedence pairs and layout corner cases (comments at odd columns, blank lines, '
     'nested dedents) are combinatorial.',
     ['src/yapcad/dsl/lexer.py', 'src/yapcad/dsl/parser.py'],
     ['precedence climbing', 'indentation tokens', 'brace blocks'])
prop('D06', 'Provenance of a run identifies its source, command and parameters exactly',
     'The provenance of an execution names the module, command and parameter values actually used, and its source '
     'signature is equal for two source texts exactly when they agree up to surrounding white space and the spelling '
     'of line ends, so a recorded result can be matched to the program that produced it.',
     ['inputs', 'histories'],
     'every sequence of runs of different sources, commands and parameters',
     'Tests look at one provenance record; aliasing of parameters, stale signatures and mixed-up commands need '
     'several runs.',
     ['src/yapcad/dsl/runtime/provenance.py', 'src/yapcad/dsl/runtime/interpreter.py', 'src/yapcad/dsl/packaging.py'],
     ['source signature', 'parameter capture'])

# ---------------------------------------------------------------- packages
prop('P01', 'A package validates exactly when its files match its manifest',
     'Whatever has been created, added, replaced, rehashed, saved or changed behind its back, a package is judged valid '
     'exactly when its schema is known, every listed file exists and matches its recorded hash (under the algorithm it '
     'was recorded with), the primary geometry is readable and every material definition is well formed; every '
     'offending file and material is named. Creating, adding a file, rehashing and saving record exactly the content, '
     'tags, materials and entities given; refused operations change nothing.',
     ['histories', 'inputs'],
     'every sequence of package operations interleaved with outside changes to files and manifest',
     'Tests validate one freshly made package; stale entries, other hash algorithms, replaced and deleted files and '
     'partially refused additions need longer histories.',
     ['src/yapcad/package/core.py', 'src/yapcad/package/validator.py'],
     ['content hashing', 'manifest sections', 'file and material checks'],
     note='Random histories of 22 operations over a fixed set of paths; the specification itself is explored exhaustively to a small depth.')
prop('P02', 'A package signature is accepted only for the signed content and reports trust correctly',
     'A signature verifies exactly when the manifest means what it meant when it was signed (formatting, key order and '
     'the signatures section aside): any other content is INVALID, even for unknown signers, and unknown keys, missing '
     'or corrupt files and mismatched methods never verify; VALID is reported only for trusted signers. Adding a '
     'signature leaves every earlier one intact, and counts and overall status follow from the single verdicts.',
     ['histories', 'inputs'],
     'every sequence of signing, adding, editing, reformatting, tampering and verifying with any keys and trust',
     'No test signs anything; overwritten signature files, unchecked signatures and wrong trust decisions appear only '
     'with several signers, trust settings and edits between signing and verifying.',
     ['src/yapcad/package/signing.py'],
     ['canonical manifest hash', 'signature files and entries', 'trust decision'],
     note='Real GPG and SSH keys made for each run. Whether a key found in an explicitly given keyring counts as trusted is left open.')
prop('P03', 'Package file references never leave the package',
     'No operation writes a file outside the package directory or records one there as geometry, export or attachment: a destination that climbs out is refused and '
     'changes nothing, and a manifest that lists such a path never validates, whether or not a file is there.',
     ['inputs', 'histories'],
     'every destination and listed path, climbing at any point of the path',
     'Tests use plain destinations; escapes hide behind segments that first descend.',
     ['src/yapcad/package/core.py', 'src/yapcad/package/validator.py'],
     ['destination resolution', 'listed path resolution'])
prop('P04', 'Running a validation plan records exactly that run in the package',
     'After a plan has been run through any backend (or none), the manifest lists the plan once, with its path relative '
     'to the package, and holds one result for it, whose status, metrics, artifacts and notes are those of this run '
     'only, with a summary file that satisfies the result schema; everything else in the package is unchanged. A plan '
     'that cannot be read, whose results would lie outside the package, or whose backend fails changes nothing.',
     ['histories', 'inputs'],
     'every sequence of plans, backends, outcomes and ways of naming package and plan',
     'Tests run one plan once; leftovers of earlier runs, duplicated or misplaced entries need repeated runs with '
     'different outcomes and relative paths.',
     ['src/yapcad/package/analysis/cli.py', 'src/yapcad/package/analysis/base.py'],
     ['plan and result entries of the manifest', 'results directory', 'backend lookup'],
     note='Backends are scripted stand-ins; the external solvers are not installed.')
prop('P05', 'Validation verdicts follow from the measurements and the schema',
     'A geometric or measurement plan is reported as passed exactly when every acceptance criterion is met by the '
     'measured value, including its tolerance and comparison, and the volume, area, bounding box, mass and centroid '
     'measured for an assembly are its true ones; each criterion is reported with its own verdict. Plan and result '
     'documents are reported invalid exactly when they deviate from the documented schema, at the place they deviate, '
     'and no document makes the validation itself fail.',
     ['inputs'],
     'every assembly of boxes, every set of criteria, every plan and result document',
     'Tests use a single satisfied or violated criterion and few malformed plans; missing metrics, boundary values, '
     'alternative spellings and malformed values in unusual places decide differently.',
     ['src/yapcad/package/analysis/yapcad_native.py', 'src/yapcad/package/analysis/schema.py'],
     ['criterion evaluation', 'metric computation', 'schema rules per kind'],
     note='Exact values for axis-aligned boxes; boundary values only for the part count, other metrics carry rounding noise.')
prop('A01', 'Assemblies judge every constraint where the parts really are',
     'After any sequence of adding, moving and mating parts, adding constraints, load cases and bolt patterns and importing '
     'poses, each datum is found where its part is placed in the world, and each design constraint passes exactly when that '
     'placed datum satisfies it. Validation, the raising validation and the report agree on the failed constraints, '
     'the degrees of freedom follow from the mates, and a refused operation leaves the assembly as it was.',
     ['histories', 'inputs'],
     'every sequence of assembly operations, every placement of the parts, every kind of constraint and mate',
     'Tests place single parts at the origin or shift them; rotated parts, refused operations and later moves need '
     'histories.',
     ['src/yapcad/assembly/assembly.py', 'src/yapcad/assembly/datum.py', 'src/yapcad/assembly/constraint.py',
      'src/yapcad/assembly/mate.py', 'src/yapcad/assembly/load_case.py'],
     ['part, mate, constraint, load case and bolt registries', 'part placements', 'constraint evaluation', 'reports'],
     note='Placements of the cube group and datum directions of integral length; constraint names unique.')
prop('G01', 'Transforming, cutting and sampling figures agree with geometry',
     'A plane figure (line, arc, circle, polyline, polygon or a list of them) that has been moved, turned, scaled, mirrored, '
     'transformed by a matrix product, cut, reversed or copied any number of times is the figure geometry says: sampled '
     'points, length, centre, bounding box, continuity and closedness are those of the path so obtained. Finding the '
     'parameter of a sampled point leads back to that point, points off the figure are not found, and no operation '
     'alters the figures it was given.',
     ['inputs', 'histories'],
     'every figure and every sequence of operations, through functions and geometry objects',
     'Tests transform single elements by round values; sweeps across zero degrees, reversed arcs, joints, nested lists, '
     'stale cached values and compositions need combinations.',
     ['src/yapcad/geom.py', 'src/yapcad/xform.py', 'src/yapcad/geometry.py'],
     ['figure construction', 'transformation functions', 'sampling parameters', 'cached length, centre and box'],
     note='Arcs are turned about z only (as the code requires); tolerance 0.015 units; shapes of a few units.')
prop('G02', 'Intersections and inside tests of plane figures are exact',
     'The points in which two plane figures (lines, arcs, circles, polylines, polygons and lists of them) are reported to meet '
     'are exactly the points they have in common, whether given as points or as parameters, and none is reported when they '
     'have none; extended lines and circles are used when that is asked for. A point is reported inside a closed figure '
     'exactly when the figure encloses it, and on an open one exactly when it lies on it. The figures are not altered.',
     ['inputs'],
     'every pair of figures and every figure with any point off its boundary',
     'Tests intersect a few hand-picked figures; touching at corners, ends within a circle, rays through corners, two-line '
     'polylines and nested lists are special positions that samples miss.',
     ['src/yapcad/geom.py', 'src/yapcad/geometry.py'],
     ['pairwise intersection', 'parameters of intersections', 'inside tests'],
     note='Integer coordinates, arcs of 15 degree multiples; overlapping (collinear, co-circular) pieces are not judged.')
prop('I01', 'Geometry documents give back the entities they were written from',
     'Reading a geometry document returns, in order, every solid, surface and sketch it was written from with the same '
     'geometry, material, construction record and metadata, with metadata given for an item taking precedence and layers '
     'passed down from solids to their surfaces. Every id in a document is unique, is the given one unless taken, and every '
     'reference resolves; documents with other schemas, missing ids or dangling references, and geometry with infinite or '
     'undefined numbers, are refused. Documents, live entities and entities read never change one another.',
     ['histories', 'inputs'],
     'every sequence of creating, copying, changing, writing, altering and reading entities and documents',
     'Tests write one solid or one sketch once; shared or copied surfaces, mixed documents, later changes to either side and '
     'repeated reads need histories.',
     ['src/yapcad/io/geometry_json.py', 'src/yapcad/metadata.py'],
     ['serialised entities and ids', 'metadata overrides and layers', 'sketch elements', 'rehydration'],
     note='Analytic boundary representations need OCC, which is not installed; geometry itself is opaque to the model.')
prop('G05', 'Solids keep their volume, surface and orientation through every operation',
     'Boxes and extruded outlines (with holes, either winding, either direction, any plane) are closed, enclose exactly the '
     'intended space and face outwards; translating, rotating, mirroring and scaling them (as solids or as wrapped geometry), '
     'stacking and repeating them and combining them by union, intersection or difference give exactly the corresponding '
     'space, bounding box, area and volume. Containment and overlap tests agree with the enclosed space. Operations leave '
     'their operands as they were, and what was asked of a solid earlier does not influence later answers.',
     ['histories', 'inputs'],
     'every sequence of constructions, transformations, combinations and queries',
     'Tests transform one box once; reflected, negatively scaled, re-wrapped or already queried solids, concave outlines and '
     'compositions need histories.',
     ['src/yapcad/geom3d.py', 'src/yapcad/geom3d_util.py', 'src/yapcad/triangulator.py', 'src/yapcad/boolean', 'src/yapcad/geometry.py'],
     ['solid construction and triangulation', 'transformation functions', 'stacking and patterns', 'booleans', 'containment'],
     note='Rectilinear solids on a grid at several scales; booleans with the trimesh engine (no OCC here) and, for fixed box '
          'pairs, the native engine, whose wrong volumes are listed as known findings.')
prop('I02', 'Mesh files hold every triangle of a solid and are read back or refused',
     'Writing a surface or solid as an STL file, binary or text and to a path or a stream, stores every triangle that has an '
     'area, with its winding, and reading the file gives those triangles, corners, normals and bounding box back, however the '
     'file was laid out; a file that was cut short or damaged is refused instead of giving part of the mesh. A STEP file '
     'names the same triangles once each in well-formed entities, grouped in connected shells that are solids exactly when '
     'they are closed, under the given name. Writing changes nothing about what was written.',
     ['histories', 'inputs', 'faults'],
     'every sequence of building, writing, altering, cutting and reading files',
     'Tests write one cube; meshes with several components, open edges, degenerate or tiny triangles, unusual names, other '
     'layouts and damage at any byte need histories.',
     ['src/yapcad/io/stl.py', 'src/yapcad/io/step.py', 'src/yapcad/mesh.py', 'src/yapcad/geometry_utils.py'],
     ['triangle export', 'STL reading', 'faceted STEP topology'],
     note='Analytic STEP export and STEP import need OCC, which is not installed; faceted STEP files are parsed by the harness.')
prop('M01', 'Part metadata is exactly what was recorded, and sidecars carry it',
     'Whatever is recorded about a part, by the metadata helpers or by the decorators of the commands that made it, is stored '
     'with the documented conversions next to what was recorded before, values outside the vocabularies are refused without '
     'effect, and applying a hint again changes nothing. Copies, transformed parts, other parts made by the same command, '
     'hints and files never share changes. The sidecar of an exported part reads back as exactly its metadata with its '
     'provenance, and is written exactly when there is metadata.',
     ['histories', 'inputs'],
     'every sequence of recording, copying, transforming, running commands, exporting and reading',
     'Tests call each helper once on a fresh dictionary and replace sidecar extraction by a stand-in; real parts, repeated '
     'hints, several decorators and shared values need histories.',
     ['src/yapcad/metadata.py', 'src/yapcad/dsl/meta_apply.py', 'src/yapcad/io/meta_yaml.py', 'src/yapcad/dsl/parser.py'],
     ['metadata helpers', '@meta decorators', 'sidecar files'],
     note='The optional MetadataTransform pass is not judged: its vocabularies contradict the runtime and tests pin both.')
prop('A02', 'Solved mates hold between the current datums of the parts',
     'A placement computed for a mate (singly, in a batch, along a chain, as a face mate or by a frame linked to a datum) is a '
     'rigid motion that makes the child datum meet the parent datum as the mate and its offset and angle say, relative to where '
     'the parent stands now, whatever was solved before; mates that cannot be solved are reported and place nothing. '
     'Validation, coincidence and bolt pattern checks, limits and coupled motion agree with the geometry and the given values.',
     ['histories', 'inputs'],
     'every sequence of registering datums, solving, moving parents, forgetting and checking, for every pair of datums',
     'Tests never call the solver or the face mates; directions, offsets, repeated solving with other parents and branching '
     'chains need histories.',
     ['src/yapcad/assembly/solver.py', 'src/yapcad/assembly/face_mate.py', 'src/yapcad/assembly/mate.py', 'src/yapcad/kinematics/frame.py'],
     ['mate solver', 'face mates', 'mate judgements', 'linked frames'])
prop('A03', 'Datum lookup gives what was registered or stored last',
     'Looking up a datum by source and name returns the datum registered last under that name, or the one in the first file '
     'found along the search paths, loaded once, also under the part name the file states. Unknown sources and names and '
     'unreadable files or entries are reported and leave no trace; looking things up never changes what another lookup gives. A datum '
     'turned into a frame keeps its origin and gives its axis or normal as the z axis of a square, right-handed frame.',
     ['histories', 'inputs', 'faults'],
     'every sequence of registering, writing files, adding paths, looking up, listing and clearing',
     'No test uses the registry beyond one registered source; lazy loading, aliases, missing and damaged files need histories.',
     ['src/yapcad/assembly/datum_registry.py'], ['registration', 'file loading', 'lookup'])
prop('G04', 'Spatial index queries give exactly the overlapping elements',
     'A query of a quad- or octtree, or of the index of a surface mesh, returns each element whose bounding box overlaps or '
     'touches the query box exactly once, with its tag, and no other element, for every split point, limit and history of '
     'additions, also while the tree is empty. What the caller passed in is never changed, bad arguments are refused without '
     'effect, and moved, turned, mirrored or scaled meshes answer for where they are now.',
     ['histories', 'inputs'],
     'every sequence of adding geometry, moving split points and limits, transforming meshes and asking, for any boxes',
     'Tests query a few fixed trees; elements spanning splits, touching boxes, empty trees, shared lists and growth after a '
     'query need many arrangements and histories.',
     ['src/yapcad/octtree.py', 'src/yapcad/boolean/native.py', 'src/yapcad/geom3d.py'], ['tree queries', 'box overlap', 'mesh index'])
prop('C01', 'Collision checks report real overlaps and excuse only meant ones',
     'A collision check says whether the parts overlap where they are placed now, by bounding boxes or by sampling, '
     'whatever form geometry and placement have; parts or placements that cannot be read are reported as failures. '
     'An overlap is excused exactly when interfaces of the two parts meet and all that meet fit each other, in the registry in '
     'use, and summaries, names, contact points and depths agree with the individual results.',
     ['histories', 'inputs', 'faults'],
     'every sequence of providing geometry, placing parts, registering and removing interfaces, and checking',
     'The package has no tests; registries shared before they are filled, cached geometry, scenes and several interfaces per '
     'part need histories.',
     ['src/yapcad/collision/detector.py', 'src/yapcad/collision/registry.py', 'src/yapcad/collision/interface.py',
      'src/yapcad/collision/gear_interface.py', 'src/yapcad/collision/thread_interface.py'],
     ['detector', 'interface registry', 'gear and thread interfaces'])
prop('F01', 'Parts of a path lie on it, in order, and lengths and parameters agree',
     'Evaluating a space path of lines and arcs gives the position and direction of travel at the parameter; the part between '
     'two parameters is exactly that stretch of the path, and parts of parts are parts, while the path is left as it was. '
     'Lengths add up over cuts, length and parameter conversions undo each other, and proposed cuts give even parts below the '
     'allowed length.',
     ['histories', 'inputs'],
     'every path of lines and arcs in any place, and every sequence of taking parts, measuring and converting',
     'Tests use one line, two equal lines and one quarter arc; unequal segments, long arcs, other planes and parts of parts '
     'need many shapes.',
     ['src/yapcad/manufacturing/path_utils.py', 'src/yapcad/manufacturing/segmentation.py'], ['evaluation', 'sub-paths', 'lengths', 'cuts'],
     note='Whole circles (start equal to end) have no defined angle and are not judged.')
prop('F02', 'Cutting a swept element loses nothing and every joint is matched',
     'However a swept element is cut, its segments in order cover it exactly once, and every cut that asks for one gets one '
     'connector, lying across that cut, of the length, clearance and size it asked for, joined only to the side it names. '
     'Names are unique; genders, mates, the assembly graph, instructions and ring seams say which segments and connectors '
     'really meet; bad cuts are refused and nothing passed in is changed.',
     ['inputs', 'faults'],
     'every swept element with any cuts in any order, with any clearances, lengths and sides, and failing solid operations',
     'Tests cut one straight beam once or twice with default connectors; close cuts, mixed sides, overrides, rings and failed '
     'unions need many combinations.',
     ['src/yapcad/manufacturing/segmentation.py', 'src/yapcad/manufacturing/connectors.py', 'src/yapcad/manufacturing/rings.py',
      'src/yapcad/manufacturing/data.py'], ['segments', 'connectors', 'assembly graph and instructions', 'ring seams'],
     note='The solid kernel is missing in the sandbox: solids are stand-ins that remember the stretch of the path they occupy and what was joined to them.')
prop('G03', 'Outline figures answer for the shape they have now',
     'A polygon of points and circular corners encloses exactly the rounded shape they describe; growing it by r gives the points '
     'within r of it. Union, intersection and difference of figures whose outlines cross properly, also of results, enclose exactly '
     'what the set operation says, with closed outlines. After any sequence of moves and edits, asked in any order, the box, '
     'length, centre, samples, inside tests and triangulated area are those of the figure as it is now; copies, wrapped figures '
     'and operands stay independent.',
     ['histories', 'inputs'],
     'every figure of points and corners, every combination of set operations, and every order of edits, moves and questions',
     'Tests ask fixed figures once; stale cached answers, several crossings, reflex corners, separate parts and results used as '
     'operands need histories and many shapes.',
     ['src/yapcad/poly.py', 'src/yapcad/combine.py', 'src/yapcad/geometry.py', 'src/yapcad/geom_util.py'],
     ['polygons with corners', 'grow', 'booleans of outlines', 'cached answers'],
     note='Operands that touch, overlap along a side or cross within a tenth of a unit of a corner are not judged; nor are clockwise rounded polygons.')
prop('A05', 'Assembly operations are applied in the declared order and nothing is lost',
     'Resolving an assembly applies every declared operation to each part it aims at, exactly once for each time it names it, in '
     'order of priority (default 50, else as declared), and stage by stage in the staged resolver. A failing or impossible operation '
     'leaves the part unchanged and ends as an error, a warning or nothing, as its policy says. Consumed cutters leave the result '
     'unless they are targets, kept ones are listed, every applied operation, warning and error is reported, the chosen engine is '
     'used and the parts passed in are unchanged.',
     ['histories', 'inputs', 'faults'],
     'every set of parts and operations with any kinds, targets, priorities, stages and policies, and every failing operation',
     'Tests stub the solid operation for one or two cutters; order among several cutters, cutters of cutters, stages, repeated targets '
     'and failures in the middle need many combinations.',
     ['src/yapcad/assembly/resolver.py', 'src/yapcad/metadata.py'],
     ['basic resolver', 'staged resolver', 'operation metadata'],
     note='The check that a cut passes through its target, which the documentation lists and the code does not have, is not judged.')
prop('A06', 'Exported assembly graphs and analysis set-ups describe the assembly',
     'The exported graph lists every part under its name in the assembly with its material, process, features and shapes, and one '
     'interface for each mated pair with the joint, axis, constraints, angles, insertion direction and bolt pattern of its mates; '
     'load cases and bolt patterns are checked and survive files. The analysis set up from it puts every part where the chain of '
     'interfaces puts it, one bolt on each hole with its axis, length and stiffness (or evenly around the pattern), and the load '
     'where and how the case says.',
     ['histories', 'inputs'],
     'every assembly of parts, features, mates, bolt patterns and load cases, and every chain of interface transforms',
     'Tests export one or two parts with one mate and set up one fixed graph; several instances of a definition, mixed mates, unusual '
     'units and rotated chains need many assemblies.',
     ['src/yapcad/assembly/mechatron_export.py', 'src/yapcad/assembly/load_case.py', 'src/yapcad/package/analysis/mechatron_fea_setup.py'],
     ['assembly graph export', 'load cases and bolt patterns', 'world placement', 'bolts and loads'],
     note='Insertion directions named only by joints, and shapes that mix metres and millimetres, are not judged.')
prop('B01', 'Boundary graphs of solids stay consistent, answer for their shape and survive moves and files',
     'A topology graph tells for every vertex its edges and for every edge its faces; a shell counts as closed exactly if each of its '
     'edges is used twice. Shells that claim closedness and lack it, and solids without shells, with open or crossing shells or with '
     'voids outside the outer shell, are refused and not added. Boxes, areas, overlap, crossing and containment are those of the faces; '
     'a line or arc runs through its end points, turning as its bulge or orientation says. Writing and reading back, and moving, '
     'turning, mirroring or scaling the solid that carries the graph, give the same graph at its new place and leave the old one alone.',
     ['histories', 'inputs'],
     'every graph of vertices, edges, loops, faces, shells and solids, and every sequence of additions, moves, reloads and questions',
     'Tests build one cube and move it once; lost incidence after a reload, voids that enclose, rays through triangle edges and '
     'mirrored arcs appear only in combinations.',
     ['src/yapcad/native_brep.py', 'src/yapcad/analytic_surfaces.py', 'src/yapcad/geom3d.py'],
     ['native BREP', 'file form', 'moves of the native BREP', 'shell and solid validation'],
     note='Faces lie on rectangles parallel to the axes, whole balls, cylinders, cones or tori; arcs lie in horizontal planes; circle, ellipse and spline edges are not judged.')
prop('A04', 'Kinematic constraints are judged by where the parts really are',
     'Given the world placements of parts and named frames, as arrays, lists or transforms, each constraint (coincident, at distance, '
     'concentric, parallel, perpendicular, tangent, bolt pattern, minimum distance, stack clearance, no overlap, custom) is satisfied '
     'exactly if the faces, axes, boxes or reference it names meet the tolerance, and reports the true error; a constraint whose part, '
     'face, axis or reference is missing is not satisfied. A validator judges all its constraints against the placements of that '
     'moment: valid exactly if no error-level constraint fails, with counts, names, warnings and text to match, or an error raised.',
     ['histories', 'inputs'],
     'every world of placements, every set of constraints, and every sequence of moves, additions, evaluations and validations',
     'No test runs this module; verdicts depend on turned boxes, faces, frames and missing references in combination, and on moves between validations.',
     ['src/yapcad/assembly/kinematic_integration.py'],
     ['constraint evaluation', 'faces and boxes', 'validator and reports', 'constraint helpers'],
     note='Hole clocking of bolt patterns, boxes that only touch and unknown severities are not judged.')
prop('D07', 'DSL shapes are what their text says',
     'The shape functions of the language denote the shapes they name: the emitted solids, regions, points, vectors, transforms, curves and '
     'lists of a program have the volume, box, area, rim, place, order and sides that follow from the numbers in its text, through any nesting '
     'of makers, moves (translate, rotate, scale, mirror, apply), boolean operations, compounds, patterns, lists and vector arithmetic; the '
     'questions volume, surface_area, centroid, area, perimeter, distance and length answer for that shape; defining more values from a value '
     'leaves it unchanged; surfaces stay closed with their faces turned outwards; and zero mirrors, empty unions, missing list elements and '
     'division by zero fail the run.',
     ['inputs', 'histories'],
     'every well-typed program over the shape functions with any numbers and any nesting',
     'Tests call each function once, mostly checking that something is returned; order of turns, reflections that turn faces inwards, patterns '
     'of patterns, shapes used twice and questions about moved or cut shapes need many programs.',
     ['src/yapcad/dsl/runtime/builtins.py', 'src/yapcad/dsl/runtime/interpreter.py', 'src/yapcad/geom3d_util.py', 'src/yapcad/geom3d.py'],
     ['DSL solids', 'DSL transforms', 'DSL regions', 'DSL curves', 'DSL vectors', 'patterns'],
     note='Whole numbers on a grid; booleans of solids with faces in a common plane only by volume; outlines that touch, off-grid mirrors and '
          'the functions that need OpenCASCADE (extrude of regions, sweep, loft, fillet) are not judged.')
