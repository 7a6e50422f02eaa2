LOOP = AI + '; loops over meshes summarised as bounded sums'
prop('C09', 'Structural elements are rotated bar, spring and Hermite beam matrices',
     'For any two end points, in any direction and with any material profile of documented length, the spring, truss and beam elements return the exact stiffness of a two-node bar or Euler-Bernoulli beam rotated to the axis of the element, and the corresponding consistent mass. '
     'Both have the documented size, are symmetric, and omitted optional parameters take their documented defaults.',
     ['inputs', 'configurations'], 'all end points and orientations, all parameter values and documented profile lengths, every entry',
     'Tests use horizontal or single elements, where sine terms vanish and errors in rotated entries do not show.',
     ['uelutil.py'], [('structural elements', 'solidspy/uelutil.py spring, truss2D, beam2DU, beam2D')],
     AI, 'Entries compared with the rotated Hermite matrices for symbolic end points (length as an algebraic root).' + TB)
prop('C10', 'Equations are numbered bijectively and the assembly operator gathers them',
     'For any mesh, connectivity and set of restrained degrees of freedom, every free degree of freedom receives its own consecutive equation number in node order, restrained ones receive -1, and the count equals the number of free ones. '
     'The assembly operator gives for each element slot the equation of the corresponding degree of freedom of its node, for every element type and number of degrees of freedom per node.',
     ['inputs', 'configurations'], 'all mesh sizes, connectivities, restraint patterns, element types and degrees of freedom per node',
     'Tests number two small meshes; collisions or swapped slots appear only for other restraint patterns, mixed meshes, or other dof counts.',
     ['assemutil.py'], [('equation counting', 'solidspy/assemutil.py eqcounter, node2dof'), ('assembly operator', 'solidspy/assemutil.py DME')],
     LOOP, 'Symbolic mesh with boolean restraint atoms, symbolic node/element/slot.' + TB)
prop('C11', 'Assembly scatters each element matrix exactly once into the global system',
     'The global stiffness and mass, dense or sparse, equal the sum over all elements of the element matrices scattered to the equations of their degrees of freedom; restrained ones contribute nothing and nothing is counted twice. '
     'Dense and sparse assembly agree, each element receives its own coordinates and material profile, and a user-supplied element routine is used when given.',
     ['inputs', 'configurations'], 'all meshes, assembly operators, element types, materials and user elements, every entry of the global matrices',
     'Tests assemble a few small meshes with one material; overlaps, mixed types and repeated equations are not sampled.',
     ['assemutil.py'], [('assembly', 'solidspy/assemutil.py assembler, dense_assem, sparse_assem, retriever')],
     LOOP, 'Element matrices are opaque functions of the data handed to them, so the identity holds for every element.' + TB)
prop('C12', 'Loads superpose on the free degrees of freedom',
     'The right-hand side is, for each equation, the sum of all load components given for its degree of freedom over all rows of the load table, including repeated nodes; loads on restrained degrees of freedom are discarded and nodes without loads get zero.',
     ['inputs', 'configurations'], 'any number of loads, nodes (repeated or not), restraint pattern, degrees of freedom per node, integer or float tables',
     'Tests load each node at most once; repetition, restrained loaded nodes and other dof counts are not sampled.',
     ['assemutil.py'], [('loads', 'solidspy/assemutil.py loadasem')],
     LOOP, 'Symbolic load table and numbering.' + TB)
prop('C13', 'Solution and complete displacements are consistent with the numbering',
     'The solution routine returns the solution of the given dense or sparse system for the right-hand side and rejects other kinds of matrices. '
     'The complete displacement array has one row per node and one column per degree of freedom, carrying the solution of its equation when free and zero when restrained.',
     ['inputs', 'configurations'], 'all systems, numberings, mesh sizes and degrees of freedom per node',
     'Tests solve a few small systems; misplaced entries for other restraint patterns are not sampled.',
     ['solutil.py', 'postprocesor.py'], [('solution', 'solidspy/solutil.py static_sol'), ('completion', 'solidspy/postprocesor.py complete_disp')],
     LOOP, 'The linear solver is an opaque exact function (see residual accuracy under not applicable).' + TB)
prop('C14', 'Recovered strains are the symmetric gradient at the returned points',
     'The strain routines of the continuum elements return the symmetric gradient of the interpolated displacement at the very points they report, for any geometry and displacement. '
     'Nodal strain and stress fields are, per component, the average over the elements sharing the node, with stresses given by the constitutive law of each element\'s own material; every node is covered and node order does not matter.',
     ['inputs'], 'all geometries, displacements, materials, mesh sizes and connectivities, every node and component',
     'Tests recover strains for one mesh under uniform fields, where a misplaced point, node or material does not show.',
     ['postprocesor.py', 'femutil.py'], [('strain routines', 'solidspy/femutil.py str_el3, str_el4, str_el6'), ('nodal recovery', 'solidspy/postprocesor.py strain_nodes')],
     LOOP, 'Element strains at points are derived; averages over a symbolic mesh with opaque element strains.' + TB)
prop('C15', 'Truss stresses and strain energy follow from the displacements',
     'The axial stress of each truss member equals its modulus times the relative displacement of its ends along its axis divided by its length, whatever its orientation and for profiles of either documented length. '
     'The energy equals minus one half of the displacements contracted with the stiffness, for dense and sparse matrices.',
     ['inputs'], 'all trusses, member orientations, profiles and displacements; all system sizes',
     'Tests check one truss with integer coordinates; inclined members, other profiles and sparse matrices are not sampled.',
     ['postprocesor.py'], [('axial stress', 'solidspy/postprocesor.py stress_truss'), ('energy', 'solidspy/postprocesor.py energy')],
     LOOP, 'Symbolic mesh and stiffness.' + TB)
prop('C16', 'Principal values and directions are the eigenpairs of the tensor',
     'For any symmetric plane tensor the eigenvalue routine returns its two eigenvalues sorted by decreasing magnitude with matching unit, mutually orthogonal eigenvectors; diagonal tensors have the axes as directions. '
     'The field routine applies it to each point of the field, in order, with the components in their documented positions.',
     ['inputs'], 'all symmetric tensors (including diagonal, equal, zero and negative ones) and fields of any length',
     'Tests cover two tensors; sign, ordering and degenerate cases are not sampled.',
     ['postprocesor.py'], [('eigenpairs', 'solidspy/postprocesor.py eigvals'), ('field', 'solidspy/postprocesor.py principal_dirs')],
     AI, 'All branches joined with their conditions and compared with the closed form; reals in place of floats.' + TB)
prop('C17', 'Bloch reduction removes image freedoms and applies the right phase',
     'For any list of image and reference degrees of freedom, the renumbering gives each kept degree of freedom its rank among the kept ones and each image the number of its reference. '
     'The transformation matrix has one row per degree of freedom and one column per kept one, with 1 for kept degrees of freedom and the phase of the wavevector over the offset between image and reference for images, so that reduction preserves symmetry.',
     ['inputs'], 'all numbers of degrees of freedom, image lists, coordinates and wavevectors',
     'Tests use one square cell at a few wavevectors; other images, chains or offsets are not sampled.',
     ['blochutil.py'], [('Bloch', 'solidspy/blochutil.py bloch_transform_mat, reassign_dof_bloch')],
     LOOP, 'Symbolic lists of distinct images.' + TB)
prop('C18', 'Structured meshes tile the rectangle with consistent elements',
     'For any size and number of divisions, the structured mesh has its nodes on the regular grid spanning the whole rectangle centred at the origin, and each element joins, counterclockwise, the four nodes of its own cell; all cells are covered once, with consecutive numbers.',
     ['inputs', 'configurations'], 'all lengths and numbers of divisions, every node and element',
     'Tests build one small mesh; unequal divisions or other sizes are not sampled.',
     ['preprocesor.py'], [('structured mesh', 'solidspy/preprocesor.py rect_grid')],
     LOOP, 'Numbers of divisions are symbols.' + TB)
prop('C19', 'Plotted triangles, fields and members are those of the mesh and solution',
     'For a mesh of any size the triangulation used for contour plots splits each element, without gaps or overlaps and with all its nodes as corners, into triangles of its own nodes; each plot of a field draws each column of the given nodal values over that triangulation, and truss plots draw each member between its own two nodes, '
     'coloured by the sign and relative size of its own stress. Plots leave out elements without area instead of drawing or failing on them.',
     ['inputs', 'configurations'], 'all meshes, nodal fields, stresses, element kinds and plotting options',
     'Tests never look at what is drawn; only that plotting returns for small meshes.',
     ['postprocesor.py'], [('triangulation', 'solidspy/postprocesor.py mesh2tri, tri_plot'),
      ('fields', 'solidspy/postprocesor.py plot_node_field, fields_plot'), ('members', 'solidspy/postprocesor.py plot_truss')],
     AI, 'The drawing library is trusted; the derived calls to it are compared.' + TB)
prop('C20', 'Mesh conversion keeps each physical group: elements, supports and loads',
     'From any gmsh mesh, the element table of a physical group has one row per cell of the group, in order, numbered consecutively from the given start, with the given type and material and the nodes of the cell; the node table keeps every point in order; '
     'supports are imposed on every node of the physical line and no other; loads put the given total force on the nodes of the line, each node once, in equal shares.',
     ['inputs', 'configurations'], 'all meshes, groups, cell kinds and values',
     'Tests use one small mesh with one group of each kind.',
     ['preprocesor.py'], [('elements', 'solidspy/preprocesor.py ele_writer'), ('nodes', 'solidspy/preprocesor.py node_writer'),
      ('supports', 'solidspy/preprocesor.py boundary_conditions'), ('loads', 'solidspy/preprocesor.py loading')],
     LOOP, 'Cells and physical tags are arbitrary arrays of symbolic length.' + TB)
prop('C21', 'The drivers run the workflow on the given data and return its results',
     'The automatic and the file based driver number equations, assemble, load, solve and complete the displacements from exactly the tables they are given or read, return the completed displacements, and also strains and stresses if and only if they are asked for; plots are made if and only if asked for, from the same results. '
     'The text input reads each table from its own file of the given folder, and the echo writes each table back to its own file.',
     ['inputs', 'configurations', 'histories'], 'all models, element kinds, folders and combinations of options',
     'Tests run one or two small models with default options.',
     ['solids_GUI.py', 'preprocesor.py'], [('automatic driver', 'solidspy/solids_GUI.py solids_auto'),
      ('interactive driver', 'solidspy/solids_GUI.py solids_GUI'), ('text input', 'solidspy/preprocesor.py readin'),
      ('echo', 'solidspy/preprocesor.py echomod')],
     AI, 'Routines of the workflow are opaque functions here; files and the dialog are trusted.' + TB)
prop('C22', 'Routines leave their arguments unchanged and share no memory with them',
     'No public routine changes the tables, vectors, lists or dictionaries it is given, whatever their values and sizes, and overwriting what it returned does not change them either; the only exception is the documented one, boundary conditions written into the node table.',
     ['inputs', 'histories'], 'all arguments of all public routines, and later writes to the results',
     'Tests use each input once and never compare it afterwards.',
     ['assemutil.py', 'femutil.py', 'uelutil.py', 'postprocesor.py', 'preprocesor.py', 'blochutil.py', 'solids_GUI.py'],
     [('everything', 'solidspy/*.py')],
     'alias and effect analysis by abstract interpretation (arrays as views of abstract stores)', 'Numpy views and copies follow a model of numpy.' + TB)
prop('C23', 'Results depend on the arguments alone, not on earlier calls',
     'A public routine called twice with equal data gives equal results and writes and draws the same, whatever was called before, on whatever data, and whatever the caller did to earlier results; no cache, default argument, module variable or uninitialised memory leaks from one call into the next.',
     ['inputs', 'histories'], 'all pairs of inputs of equal sizes and the histories made of them',
     'Tests call most routines once per process or compare with constants; they never spoil an earlier result.',
     ['gaussutil.py', 'femutil.py', 'uelutil.py', 'assemutil.py', 'postprocesor.py', 'solids_GUI.py'],
     [('everything', 'solidspy/*.py')],
     'effect and aliasing analysis by abstract interpretation over call histories', 'State of external libraries is trusted.' + TB)
prop('C24', 'The catalogue of element types agrees with the elements themselves',
     'For each element type 1 to 8 the catalogue gives the degrees of freedom, nodes and points of the element, the routine dispatched is the one of that element, its matrices have that size, and the equation map gathers node by node that many degrees of freedom; any other type is rejected with ValueError.',
     ['inputs', 'configurations'], 'every integer element type',
     'Tests build models with half of the element types and never an invalid one.',
     ['femutil.py', 'assemutil.py', 'uelutil.py'], [('sizes', 'solidspy/femutil.py eletype'), ('dispatch', 'solidspy/assemutil.py ele_fun')],
     AI, TB.strip())
prop('C25', 'Every name, attribute and call in the package resolves on every path',
     'Every name read in any scope of the package is defined, every import and every attribute of a module of the package, numpy, scipy, matplotlib or the standard library exists, every call of a package function fits its signature, and no public routine fails with NameError, UnboundLocalError, AttributeError or TypeError on valid arguments.',
     ['inputs', 'configurations'], 'all modules, scopes and call sites, branches that tests never take included',
     'Tests take few of the branches; an unresolved name elsewhere stays unnoticed until a user gets there.',
     ['all modules'], [('everything', 'solidspy/*.py')],
     'symbol table, import and signature resolution over the syntax tree, and abstract interpretation', 'Names of external libraries are those of the installed versions.' + TB)
prop('C26', 'The solution returned satisfies the equations to solver accuracy',
     'For a well-posed system the displacements returned satisfy stiffness times displacement equal to load to within a small multiple of the solver accuracy.',
     ['inputs'], 'all well-posed systems', 'Tests solve a few tiny systems.', ['solutil.py'],
     [('solver', 'solidspy/solutil.py static_sol')], None,
     'The residual is a runtime quantity of a LAPACK or SuperLU factorisation in floating point; no static argument over this source bounds it. That the right system reaches the right solver, that an unknown matrix kind is rejected, and that nothing is done to the answer is decided statically under C13 and C21.')
prop('C27', 'Displacements converge to the elasticity solution as the mesh is refined',
     'Under mesh refinement the computed displacements and strains converge to the solution of the continuum problem at the rate of the element.',
     ['inputs', 'configurations'], 'all problems with a regular solution', 'Tests solve one mesh of each kind.', ['uelutil.py', 'assemutil.py'],
     [('elements', 'solidspy/uelutil.py'), ('assembly', 'solidspy/assemutil.py')], None,
     'A limit over runtime meshes and solutions of linear systems; static analysis of the source cannot reach it. Its algebraic ingredients (completeness, exact gradients, quadrature precision, assembly) are decided under C01 to C11.')
prop('C28', 'A supported structure gives a positive definite, solvable system',
     'When the supports exclude rigid motions and all elements are well shaped, the reduced stiffness matrix is symmetric positive definite.',
     ['inputs', 'configurations'], 'all supported structures', 'Tests use a few supported structures.', ['assemutil.py', 'uelutil.py'],
     [('assembly', 'solidspy/assemutil.py assembler')], None,
     'Definiteness depends on the rank of a runtime matrix over an arbitrary mesh (a graph rigidity question); no static dataflow argument decides it. Symmetry and the semidefinite form of the element matrices are decided under C08, C09 and C11.')
prop('C29', 'Rounding stays within a small multiple of machine precision',
     'Matrices and recovered quantities computed in floating point differ from their exact values by a modest multiple of machine precision for well-scaled data.',
     ['inputs'], 'all well-scaled data', 'Tests compare with loose tolerances at a few points.', ['uelutil.py', 'femutil.py'],
     [('everything', 'solidspy/*.py')], None,
     'The analysis decides identities over the reals; sound rounding bounds would need ranges for runtime coordinates and condition numbers that the source does not give.')
