NOTES = 'Pure Python (standard library) analyser over the LLVM IR of /repo/src/*.cpp (clang++ 18, opt 18); nothing of the repository is executed.'
NA = {
 'C26': 'Whether 40 Newton steps and 1000 conjugate-gradient steps reach the tolerance depends on the spectrum of the matrix and on floating-point rounding of the run; no sound static argument in reach bounds them. The static part (each iteration is the right formula, each loop stops on tolerance or limit) is C18 and C19.',
 'C27': 'The inequality follows from variational theorems about the converged discrete solution, not from any construct of the source; deciding it needs the solved numbers. The ingredients (exact operators, exact averages, phase parameters) are C05-C09 and C23.',
 'C28': 'The displacement kept from the previous solve is the start guess, so the statement is true only up to the solver tolerance and rests on convergence, which static analysis cannot bound. What can be decided statically (history, boundary values and averages do not depend on it) is C01, C10 and C11.',
}
ALLN = 'all grid sizes >= 2 per direction (symbolic), both dimensions'
NOTE = ('Every obligation is decided for all grid sizes >= 2 at once over real arithmetic; an obligation the domain cannot settle is '
        'reported as undecided in the evidence (none on the current tree), never as a violation. Trusts clang, the analyser and its library models.')
NOTE_FLOW = ('Decided over real arithmetic for arbitrary states, with the solver functions replaced by contracts (functions of the '
  'prescribed strain and the committed history). Undecided obligations are listed in the evidence (none on the current tree). Trusts clang, the analyser and its library models.')
TEST = 'The tests run five fixed problems on small fixed grids and assert no value'
PROPS = [
 dict(id='C01', title='Boundary displacements are the affine field of the applied strain',
  statement='Prescribing a macroscopic strain gives every node on the boundary of the cell exactly the displacement (symmetric strain tensor, engineering shears halved) times the node position. Every boundary node, including edges and corners, gets it, and interior nodes keep their previous displacement as initial guess.',
  over=['inputs', 'configurations'], q='for every strain, every grid with nx,ny,nz >= 2, every cell length, 2D and 3D, every boundary node',
  why=TEST + '; a face loop that misses one node row at another size, or a swapped shear, goes unnoticed.',
  files=['src/assembly.cpp'], mech=[('one loop per face writing the affine displacement', 'src/assembly.cpp set_displ')],
  obs=['displacements after set_displ', 'displ field of the VTU file'], note=NOTE),
 dict(id='C02', title='Solving never moves a boundary node off its prescribed displacement',
  statement='In every Newton correction the rows of the boundary degrees of freedom are identity rows with zero right-hand side, and the linear solve started from zero returns exactly zero for them. The displacement of every boundary node therefore stays at the prescribed value through any number of Newton and solver iterations.',
  over=['inputs', 'configurations', 'histories'], q='for every strain, matrix, grid with nx,ny,nz >= 2, boundary node and number of iterations',
  why=TEST + '; a boundary row missed at one position lets the solver move that node a little, which nothing reports.',
  files=['src/ell.cpp', 'src/assembly.cpp', 'src/solve.cpp'], mech=[('ell_set_bc_2D / ell_set_bc_3D', 'src/ell.cpp'), ('boundary zeroing in assembly_rhs', 'src/assembly.cpp'), ('zero start and update in newton_raphson', 'src/solve.cpp')],
  obs=['displacements of boundary nodes after a solve'], note=NOTE),
 dict(id='C03', title='Dirichlet conditions leave identity boundary rows and decouple the interior',
  statement='After the boundary conditions are applied to the stiffness matrix, every row of a boundary node is the identity row and no interior row has a non-zero coefficient for a boundary node. All couplings between interior nodes stay exactly as assembled.',
  over=['inputs', 'configurations'], q='for every assembled matrix, every grid with nx,ny,nz >= 2, every row, neighbour and component',
  why=TEST + '; the face, edge and corner blocks of the boundary code only matter at particular positions and sizes.',
  files=['src/ell.cpp', 'src/assembly.cpp'], mech=[('ell_set_bc_2D / ell_set_bc_3D face, edge and corner blocks', 'src/ell.cpp'), ('called last in assembly_mat', 'src/assembly.cpp')],
  obs=['matrix passed to the linear solver'], note=NOTE),
 dict(id='C04', title='Sparse pattern and element assembly address the right matrix entries',
  statement='In the structured sparse matrix every row has one slot per neighbouring node, and the stored column of each slot is that neighbour\'s degree of freedom. Adding an element matrix adds each coefficient to the entry of its own row and column nodes and changes nothing else, so an assembled interior row is the sum of the contributions of its adjacent elements.',
  over=['inputs', 'configurations'], q='for every grid with nx,ny,nz >= 2, every element, every row position (corner, edge, face, interior)',
  why=TEST + '; a wrong slot or column for one position of the stencil still gives a solvable system.',
  files=['src/ell.cpp', 'src/assembly.cpp'], mech=[('column tables of ell_init_2D / ell_init_3D', 'src/ell.cpp'), ('slot tables of ell_add_struct2D / 3D', 'src/ell.cpp'), ('assembly_mat', 'src/assembly.cpp')],
  obs=['matrix passed to the linear solver'], note=NOTE),
 dict(id='C05', title='The residual is the assembled internal force, zero on the boundary',
  statement='The residual vector at an interior node is minus the sum of the nodal forces of exactly its adjacent elements, and it is zero at every boundary node. The residual norm reported to the Newton iteration is the Euclidean norm of that vector.',
  over=['inputs', 'configurations'], q='for every displacement and history, every grid with nx,ny,nz >= 2, every node',
  why=TEST + '; a connectivity slip changes the converged field but not whether the tests pass.',
  files=['src/assembly.cpp'], mech=[('assembly_rhs', 'src/assembly.cpp')], obs=['b vector', 'value returned by assembly_rhs'], note=NOTE),
 dict(id='C06', title='Strains, element forces and stiffness use the exact B operator and quadrature',
  statement='The strain at each integration point is the exact strain-displacement operator of the linear quad/hexahedron applied to the displacements of the element\'s own nodes, with engineering shears. Element forces and element stiffness are the Gauss quadrature (2^dim points at +-1/sqrt(3), full element volume) of B^T sigma and B^T C B with that same operator.',
  over=['inputs', 'configurations'], q='for every displacement field, element, element size dx,dy,dz and material parameters',
  why=TEST + '; the tests use cubic elements, where exchanging dx, dy and dz is invisible.',
  files=['src/assembly.cpp'], mech=[('get_strain2D/3D, calc_bmat_3D, getElemDisp', 'src/assembly.cpp'), ('get_elem_rhs2D/3D, get_elem_mat2D/3D', 'src/assembly.cpp')],
  obs=['element strains', 'element force vector', 'element stiffness matrix'], note=NOTE),
 dict(id='C07', title='Linear phases obey isotropic elasticity with the parameters of their phase',
  statement='The stress of a linear phase is the isotropic Hooke law (plane strain in 2D) with the Young modulus and Poisson ratio given for the material of that element, and all derived constants (bulk, shear, Lame) come from the same pair. The tangent of a plastic phase is the forward difference of its own stress function, column by column.',
  over=['inputs', 'configurations'], q='for every E, nu, strain, element, phase and microstructure type',
  why=TEST + '; a wrong constant or a phase mix-up yields a plausible stress.',
  files=['src/assembly.cpp', 'src/micro.cpp'], mech=[('elastic constants', 'src/micro.cpp constructor'), ('get_material, get_stress2D/3D, get_ctan_plast_pert', 'src/assembly.cpp')],
  obs=['stress at integration points', 'element stiffness'], note=NOTE),
 dict(id='C08', title='Plastic phases follow the J2 radial return from the committed state',
  statement='At every integration point of a plastic phase the stress is elastic below the yield surface of the committed state (deviatoric trial norm <= sqrt(2/3)(Sy + Ka alpha)) and otherwise returned radially onto it, with the plastic strain (tensor components) growing along the trial normal and alpha by sqrt(2/3) times the multiplier. In an elastic step plastic strain and alpha do not change. Each integration point reads and writes only its own seven history variables and never modifies the committed ones.',
  over=['inputs', 'histories'], q='for every strain, committed plastic strain and alpha, material, element and integration point',
  why=TEST + '; shear components, unloading and repeated yielding are barely reached.',
  files=['src/assembly.cpp', 'include/micro.hpp'], mech=[('plastic_step, get_stress3D', 'src/assembly.cpp'), ('intvar_ix layout', 'include/micro.hpp')],
  state=[('vars_old', 'committed plastic strain and alpha per point', 'include/micro.hpp'), ('vars_new', 'trial ones', 'include/micro.hpp')],
  obs=['stress', 'plastic strain', 'alpha'], note=NOTE + ' The hardening modulus does not enter the multiplier (as in the code: the yield surface is the committed one).'),
 dict(id='C09', title='Macroscopic and element values are true volume averages',
  statement='The averaged stress and strain are the integral over all elements and integration points divided by the cell area (2D) or volume (3D), whatever the cell dimensions. The element stress and strain fields are the average over the integration points of that element, stored under that element\'s number.',
  over=['inputs', 'configurations'], q='for every point stress/strain field, every grid size and every cell length (not only unit cubes)',
  why=TEST + '; with a unit cell a missing division or a wrong volume is invisible.',
  files=['src/assembly.cpp'], mech=[('calc_ave_stress, calc_ave_strain, calc_fields', 'src/assembly.cpp')], obs=['macroscopic stress', 'elem_stress, elem_strain'], note=NOTE),
 dict(id='C10', title='Trial and committed history are kept apart until update',
  statement='homogenize solves with the committed internal variables of the Gauss point (zero if it never yielded) and never changes them. The trial variables it stores are those of the converged solution for the applied strain, not of the perturbed solves for the tangent. Only update_vars makes them committed: it copies all of them, for every point, and changes nothing else; both history arrays of a point exist or neither does.',
  over=['inputs', 'histories'], q='for every strain history, any order of homogenize and update_vars, every internal variable of every point',
  why=TEST + '; a premature commit or a history taken from a perturbed solve changes later load steps only.',
  files=['src/homogenize.cpp', 'src/assembly.cpp'], mech=[('history load, trial store, first allocation', 'src/homogenize.cpp homogenize'), ('commit', 'src/homogenize.cpp update_vars')],
  state=[('int_vars_n / int_vars_k', 'committed and trial variables of a Gauss point', 'include/micro.hpp'), ('vars_old / vars_new', 'shared working copies', 'include/micro.hpp')],
  obs=['stress and tangent in later steps', 'micropp_int_vars_n.dat'], note=NOTE_FLOW),
 dict(id='C11', title='Gauss points do not influence each other',
  statement='The stress, tangent, invariant, flag and history a Gauss point gets from homogenize are those it would get alone with its own strain and history (the shared displacement vector only serves as initial guess). set_macro_strain, get_macro_stress and get_macro_ctan address the first point with the given number and no other; an unknown number adds a fresh point (no history, zero results), respectively leaves the output untouched. Nothing after construction changes the sizes, materials, phases, matrix pattern or linear tangent shared by all points.',
  over=['inputs', 'histories'], q='for every list of points (numbers, strains, histories), every point, every component',
  why=TEST + '; the tests use one or two points with the same loading.',
  files=['src/homogenize.cpp', 'src/micro.cpp'], mech=[('loop over gauss_list', 'src/homogenize.cpp'), ('search by id', 'src/homogenize.cpp')],
  state=[('gauss_list', 'one record per point', 'include/micro.hpp')], obs=['results of the get functions'], note=NOTE_FLOW + ' Lists of up to three points are analysed.'),
 dict(id='C12', title='The linear shortcut is taken exactly when allowed, with the linear response',
  statement='A Gauss point skips the microscopic solve exactly when it has no history and the absolute trace of CL:E is below inv_tol. Then its stress is CL:E, its tangent CL, and no iterations, no error and no history are recorded; in every other case the stress is that of the solved microscopic problem. The reported invariant is |trace(CL:E)|.',
  over=['inputs', 'configurations'], q='for every strain, linear tangent, tolerance and history state',
  why=TEST + '; strains around the threshold and points with history below it are not exercised.',
  files=['src/homogenize.cpp', 'src/micro.cpp'], mech=[('is_linear and the branch of homogenize', 'src/homogenize.cpp')], obs=['stress', 'tangent', 'convergence file'], note=NOTE_FLOW),
 dict(id='C13', title='The macroscopic tangent is the difference quotient of the homogenised stress',
  statement='After a solved step, tangent entry (v,i) is the forward difference of average stress component v for a small perturbation of strain component i, all other components and the committed history unchanged, and divided by the same step. The linear tangent is obtained likewise on the undeformed cell without history, once everything it depends on is set. Iterations and errors are reported per solve (stress first, then each perturbation).',
  over=['inputs', 'histories', 'configurations'], q='for every strain, history, component pair, 2D and 3D',
  why=TEST + '; a transposed or accumulated perturbation gives a plausible symmetric-looking tangent.',
  files=['src/homogenize.cpp', 'src/micro.cpp'], mech=[('CTAN loop of homogenize, calc_ctan_lin', 'src/homogenize.cpp')], obs=['get_macro_ctan', 'nr_its, nr_err'], note=NOTE_FLOW),
 dict(id='C14', title='The non-linear flag reports exactly the cells that have yielded',
  statement='An element is non-linear when at least one of its integration points yields, the cell when at least one element does. A Gauss point becomes non-linear in the first homogenisation whose solution at the applied strain yields somewhere, and stays non-linear afterwards. get_nl_flag returns 1 for such a point and 0 for any other or unknown number.',
  over=['inputs', 'histories', 'configurations'], q='for every combination of yielding points and elements, every grid, every sequence of steps',
  why=TEST + '; an overwritten flag is right whenever the last point or element yields.',
  files=['src/assembly.cpp', 'src/homogenize.cpp', 'src/micro.cpp'], mech=[('get_elem_rhs, assembly_rhs flag handling', 'src/assembly.cpp'), ('allocation in homogenize', 'src/homogenize.cpp'), ('get_nl_flag', 'src/micro.cpp')],
  obs=['get_nl_flag', 'nl_flag column of the convergence file'], note=NOTE_FLOW),
 dict(id='C18', title='The linear solver computes preconditioned CG iterates and stops on residual',
  statement='Starting from the given x, the conjugate-gradient solvers perform the Jacobi-preconditioned CG recurrence on the full sparse matrix (every stored coefficient at its column, diagonal taken from the centre slot). They return at the first iterate whose residual norm |Ax-b| is below min_tol, or after max_its iterations, and report that count and norm; A and b are left unchanged. micropp calls them on its own system A du = b with a tolerance of at most 1e-6 and at least 100 iterations.',
  over=['inputs', 'configurations'], q='for every matrix with the structured pattern, right-hand side, start vector, number of rows, iteration count and tolerance',
  why=TEST + '; a wrong preconditioner entry, recurrence or stopping test still converges on easy systems.',
  files=['src/ell.cpp', 'src/solve.cpp'], mech=[('ell_mvp_2D, ell_solve_cgpd_2D, ell_solve_cgpd_struct', 'src/ell.cpp'), ('solve', 'src/solve.cpp')],
  obs=['solution vector', 'solver.its', 'solver.err'], note=NOTE + ' The first three iterates are compared; convergence in floating point is not claimed.'),
 dict(id='C19', title='Newton iteration applies each correction once and stops on tolerance or limit',
  statement='The Newton iteration evaluates the residual first and stops as soon as its norm is below 1e-5, or after 40 corrections. Every correction solves the matrix and the residual assembled for the current displacement, starting from zero, and is added once to every degree of freedom. The reported iteration count, error and non-linear flag are those of the last residual evaluation.',
  over=['inputs', 'histories'], q='for every initial displacement and every sequence of residual norms, 2D and 3D, every degree of freedom',
  why=TEST + '; the counter, the limit and the order of assembly only matter on paths with several corrections.',
  files=['src/solve.cpp'], mech=[('newton_raphson', 'src/solve.cpp')], obs=['u', 'nr_its', 'nr_err', 'non-linear flag'], note=NOTE_FLOW),
 dict(id='C15', title='No result depends on uninitialised memory',
  statement='With the documented material and microstructure types, no branch, written file, stored result or value handed from one stage to the next (residual, matrix, start vector, histories, element fields, records of new Gauss points) depends on a variable or buffer that was never set. This includes results read or printed before the first homogenisation and the first solve after construction.',
  over=['inputs', 'histories', 'configurations'], q='for every grid size, phase layout, material type, sequence of public calls and buffer element',
  why=TEST + '; fresh memory is often zero, so an uninitialised value goes unnoticed.',
  files=['src/micro.cpp', 'src/homogenize.cpp', 'src/assembly.cpp', 'src/solve.cpp', 'src/ell.cpp', 'src/output.cpp'],
  mech=[('initialiser list and buffers of the constructor', 'src/micro.cpp'), ('new Gauss points', 'src/homogenize.cpp set_macro_strain'), ('work vectors', 'src/ell.cpp, src/solve.cpp')],
  obs=['every result and file'], note=NOTE_FLOW),
 dict(id='C17', title='Every array access stays inside its buffer',
  statement='Every load, store, fill and copy of the library, for every grid of at least two nodes per direction, touches only bytes of the buffer or array its pointer belongs to, through a pointer that is not null. Array members and local arrays are never indexed outside their declared bounds, and the output arrays of the caller are written only in the 3 or 6 (stress), 9 or 36 (tangent) and one (flag) entries they must provide.',
  over=['inputs', 'configurations'], q='for every grid size, element, node, loop iteration and list of Gauss points',
  why=TEST + '; an overrun by one element usually lands in padding and is only visible for particular sizes.',
  files=['src/assembly.cpp', 'src/ell.cpp', 'src/homogenize.cpp', 'src/micro.cpp', 'src/output.cpp', 'src/solve.cpp'],
  mech=[('allocation sizes', 'src/micro.cpp, src/ell.cpp'), ('index arithmetic', 'src/assembly.cpp, src/ell.cpp')],
  obs=['memory safety'], note=NOTE_FLOW),
 dict(id='C16', title='Every resource is released exactly once and never used afterwards',
  statement='Every heap block the library obtains is released exactly once, with the matching deallocation, at the end of the call that obtained it or, when an instance or a Gauss point keeps it, by the destruction of the instance, and is never used after its release. A new Gauss point owns no history until the step in which it becomes non-linear, which allocates its two histories once. Instances cannot be copied member by member, and constructing again through the Fortran interface destroys the previous instance once.',
  over=['inputs', 'histories', 'configurations'], q='for every sequence of public calls, list of Gauss points, early return and pair of constructions',
  why=TEST + '; leaks and double releases of histories need particular sequences of yielding and destruction.',
  files=['src/micro.cpp', 'src/homogenize.cpp', 'src/ell.cpp', 'src/wrapper.cpp', 'include/micro.hpp'],
  mech=[('constructor/destructor pair', 'src/micro.cpp'), ('history allocation', 'src/homogenize.cpp'), ('work vectors', 'src/ell.cpp')],
  obs=['memory consumption', 'absence of crashes at destruction'], note=NOTE_FLOW),
 dict(id='C20', title='The Fortran interface forwards faithfully to the instance constructed last',
  statement='Each extern "C" function performs exactly one call of its member on the instance of the last micropp_construct_, with the values its arguments point to, each in its place. Output arguments receive exactly what the member stored and nothing beyond. micropp_construct_ builds a new instance from all its arguments and makes it the one used from then on.',
  over=['inputs', 'histories'], q='for every argument value, Gauss point number, dimension and sequence of constructions',
  why=TEST + '; the Fortran example drives one instance only and asserts nothing.',
  files=['src/wrapper.cpp'], mech=[('micropp_*_ functions', 'src/wrapper.cpp')], obs=['results seen by a Fortran or C caller'], note=NOTE_FLOW),
 dict(id='C21', title='The VTU file shows the grid, solution and fields of the requested point',
  statement='output(t, g) of a known point g writes one file micropp_<g>_<t>.vtu with the state solved for that point\'s strain and committed history, and changes no Gauss point; for an unknown number it writes nothing. The file is balanced XML whose arrays hold exactly one tuple per node or element, separated by white space: node coordinates, connectivity and cell types in VTK order, displacements, residual, element strain, stress and phase, and in 3D the element means of plastic strain norm and hardening.',
  over=['inputs', 'configurations'], q='for every grid size, node, element, component, displacement field and history',
  why=TEST + ' and no test reads the file back; a permuted or shifted array is still a readable file.',
  files=['src/output.cpp'], mech=[('write_vtu', 'src/output.cpp'), ('output', 'src/output.cpp')], obs=['VTU files'], note=NOTE_FLOW),
 dict(id='C22', title='The log files record every step of every Gauss point once',
  statement='Each write_info_files call appends one line per log file with one group per Gauss point in list order: non-linear flag, invariant and the iteration count and error of every solve (convergence file); all strain, stress and tangent entries; all committed internal variables (zeros if the point has none). Comment lines listing the point numbers are written by the first call only, nothing else of the instance changes, and construction empties the logs and records E, nu, Sy, Ka of each phase.',
  over=['inputs', 'histories', 'configurations'], q='for every list of Gauss points, history state, value and variable index',
  why=TEST + ' and no test reads the files back.',
  files=['src/output.cpp', 'src/micro.cpp'], mech=[('write_info_files', 'src/output.cpp'), ('constructor', 'src/micro.cpp')], obs=['micropp_*.dat files'], note=NOTE_FLOW),
 dict(id='C23', title='Grid spacing and phase layout follow the requested microstructure',
  statement='An instance has exactly the requested numbers of nodes, spaced so that they cover the cell lx x ly (x lz), and all derived counts agree with them. An element belongs to the second phase exactly when its centre lies strictly within the distance width of the cell centre (micro_type 0) or strictly below y = width (micro_type 1), and to the first phase otherwise.',
  over=['inputs', 'configurations'], q='for every grid size, cell size, width and element',
  why=TEST + '; the cells of the tests are cubes with few elements, for which exchanged directions or shifted centres go unnoticed.',
  files=['src/micro.cpp'], mech=[('initialiser list, get_elem_type2D, get_elem_type3D', 'src/micro.cpp')], obs=['elem_type array of the VTU file', 'all results'], note=NOTE),
 dict(id='C24', title='An instance answers from its own data only',
  statement='What an instance returns, stores and writes is a function of its construction arguments and the calls made on it. It does not depend on other instances created or used before in the same process, nor on random numbers, clocks or the environment.',
  over=['inputs', 'histories', 'configurations'], q='for every sequence of calls on any number of instances in one process',
  why=TEST + ' and each uses a single instance; a value cached across instances shows only with a second, different one.',
  files=['src/assembly.cpp', 'src/ell.cpp', 'src/homogenize.cpp', 'src/micro.cpp', 'src/output.cpp', 'src/solve.cpp', 'include/micro.hpp'],
  mech=[('all state is held in the members of micropp_t', 'include/micro.hpp')], obs=['results of every call', 'VTU and log files'], note=NOTE_FLOW),
 dict(id='C25', title='Input arrays are copied, never modified nor kept',
  statement='Arrays passed to the constructor or to set_macro_strain hold the same values after the call. The instance keeps copies: the caller may free or reuse any array it passed, input or output, as soon as the call returns.',
  over=['inputs', 'histories'], q='for every argument array, dimension and microstructure type',
  why=TEST + '; their arrays live as long as the instance, so a kept pointer stays valid.',
  files=['src/micro.cpp', 'src/homogenize.cpp'], mech=[('copies in the constructor', 'src/micro.cpp'), ('copy in set_macro_strain', 'src/homogenize.cpp')],
  obs=['the caller\'s arrays', 'later results'], note=NOTE_FLOW),
 dict(id='C26', title='The iterations reach equilibrium within the tolerance',
  statement='For every admissible strain and history the Newton and conjugate-gradient iterations end with a residual below their tolerance, not at their iteration limits.',
  over=['inputs', 'histories'], q='for every strain, history, material and grid', why=TEST + '.',
  files=['src/solve.cpp', 'src/ell.cpp'], mech=[('newton_raphson', 'src/solve.cpp')], obs=['convergence log'], note=''),
 dict(id='C27', title='The homogenised stiffness lies between the Reuss and Voigt bounds',
  statement='The linear tangent of a cell is symmetric, positive definite and bounded by the harmonic and arithmetic means of the phase stiffnesses.',
  over=['inputs', 'configurations'], q='for every phase contrast, layout and grid', why=TEST + '.',
  files=['src/homogenize.cpp'], mech=[('calc_ctan_lin', 'src/homogenize.cpp')], obs=['linear tangent'], note=''),
 dict(id='C28', title='Results do not depend on the start guess left by earlier solves',
  statement='Homogenising the same strain from the same committed history gives the same stress and tangent whatever was solved before.',
  over=['inputs', 'histories'], q='for every sequence of earlier solves', why=TEST + '.',
  files=['src/homogenize.cpp', 'src/solve.cpp'], mech=[('displacement kept between solves', 'src/assembly.cpp set_displ')], obs=['macro stress and tangent'], note=''),
]
