#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None)))
A='array_2d_row_real_matrix.go'; B='block_real_matrix.go'; D='diagonal_matrix.go'; M='real_matrix.go'; V='array_real_vector.go'; RV='real_vector.go'
inp=['inputs']; hist=['inputs','histories']
p('C01','A matrix is a faithful mutable two-dimensional array',
 'After construction by any constructor or factory, and after any sequence of in-range writes (entries, rows, columns, vectors, row/column matrices, submatrices, updating walks), every way of reading a dense matrix returns exactly the values a plain two-dimensional array would hold. Writes change the addressed entries and nothing else, and an argument that is part of the matrix\'s own storage is read as it was before the write.',
 hist,'every shape (including several storage blocks), every representation of the matrix and of the source argument, every value including NaN, infinities and signed zero, every sequence of reads and writes',
 'tests write a few entries of one 3x3-like matrix, or one large block matrix with one access pattern; the interplay of writes, reads and block edges over arbitrary shapes is not reachable by samples',
 [A,B,M],[('index arithmetic of the 52x52 block layout',B),('row slices',A),('bulk setters and getters',A+', '+B)],['At','RowAt','ColumnAt','Data','SubMatrix'])
p('C02','Entrywise arithmetic is exact for every pair of representations',
 'Sum, difference, scalar addition, scalar multiplication, transpose and copy of a matrix return, in every entry, exactly the IEEE result of applying the operation to the corresponding entries, whatever the representations of the operands; the trace is the sum of the diagonal. The result has the shape the operation implies.',
 inp,'every shape, every pair of representations (array, block, diagonal, foreign implementations, the same object twice), every entry value',
 'tests use a handful of small integer matrices and mostly one representation pair',
 [A,B,D],[('type-specialised and generic branches of each operation',A+', '+B+', '+D)],['At','Trace'])
p('C03','Products agree with the definition of matrix multiplication',
 'Matrix-matrix products, products from the left, products with slices and vectors on either side, powers and outer products equal the textbook sums of products: exactly when every intermediate is an exactly representable integer, and otherwise within the standard rounding bound of a sum of that length. For dense matrices NaN and infinite entries propagate as in that sum.',
 inp,'all compatible shapes (inner and outer dimensions at block edges), all representation pairs, all entry values, all exponents',
 'tests multiply a few small integer matrices; block-edge shapes, mixed representations, vectors that are not the built-in type and exponents beyond a few values are not covered',
 [A,B,D,M],[('blocked multiplication with unrolled inner loops',B),('column-cached multiplication',A),('repeated squaring in Power',M)],['At'])
p('C04','The choice of storage never changes a result',
 'Running the same program of constructions, writes, arithmetic, products, extractions, norms and solves on array, block, foreign or automatically chosen storage gives equal matrices (bit-equal for entrywise and exact-integer work, equal up to rounding otherwise). The size-dependent factories differ from explicit construction only in storage.',
 ['inputs','programs'],'every program of operations over one to three matrices, every assignment of representations, sizes on both sides of the factory threshold',
 'tests check each storage class alone with its own examples; no test compares two storages on the same program',
 [A,B,M],[('factory threshold of 4096 entries',M),('separate implementations per storage',A+', '+B)],['At'])
p('C05','Traversals visit each requested entry exactly once, in the promised order',
 'A walk calls start once with the matrix and region bounds, then visits every entry of the requested region exactly once with its correct position and current value, then ends once and returns what the visitor returned. Row-order and column-order walks visit in that order; an updating walk stores exactly the returned values in the region and changes nothing outside it (a diagonal matrix may visit only entries it can hold), and vector walks do the same over an index range.',
 inp,'every shape and sub-rectangle (including those straddling block edges), all twelve walk kinds, all representations, any visitor; every vector length and range',
 'tests count visits on a few fixed shapes and ranges',
 [A,B,D,V],[('nested block loops with clipped starts and ends',B),('walk methods',A+', '+D+', '+V)],['visitor callbacks'])
p('C06','Operations leave their operands alone and results share no storage',
 'No operation that returns a new matrix, vector or slice modifies its operands, and later changes to a result or to an operand never show through in the other; slices passed to copying constructors and setters stay independent too. Only the constructors asked not to copy, and the accessors documented as references, share storage, and those do share it.',
 hist,'every operation, every representation, operands that are the same object, mutation of either side afterwards',
 'tests check values once right after a call and do not mutate results or re-read operands',
 [A,B,D,M,V,RV],[('fresh allocation of results',A+', '+B+', '+D),('copyArray flags and reference accessors',A+', '+V+', '+D)],['At','DataRef'])
p('C07','Invalid requests are rejected with a classified error and no effect',
 'Out-of-range indices, inverted ranges, mismatched or non-square dimensions, ragged, empty or nil nested data and impossible sizes given to matrices, vectors, decomposition constructors and solvers are refused, through the returned error or a panic carrying a library error whose status names the kind of fault, whose details show the violation (the wrong length, size or index where there is one) and whose message is filled in, and never through a runtime crash or silent acceptance. A refused request leaves every matrix, vector and slice involved exactly as it was.',
 inp,'every operation of matrices and vectors, every constructor of a matrix, vector or decomposition, and every solver, with each of its arguments pushed out of its domain, at every distance from the boundary',
 'tests sample one or two bad indices per method and seldom look at the state afterwards',
 [A,B,D,M,V,RV,'error.go'],[('index and dimension checks',A),('vector checks',RV),('error statuses','error.go')],['recovered panic value','returned error'])
p('C08','A vector is a faithful mutable sequence with entrywise arithmetic',
 'Under any sequence of in-range operations a vector behaves as a plain array of numbers: reads, writes, subvectors, appends, copies, iteration, maps, linear combination, entrywise add, subtract, multiply and divide return exactly the IEEE result per entry, whether the other operand is a built-in or a foreign vector. Operations documented to work in place change the instance; all others do not. An argument that is part of the storage of the instance is read as it was before the operation.',
 hist,'every length including 0 where allowed, every value including NaN, infinities and signed zero, every sequence of operations, both kinds of operand',
 'tests apply each operation once to a few fixed vectors',
 [V,RV],[('ArrayRealVector operations',V),('iterator',RV)],['At','ToArray','Iterator'])
p('C09','Vector norms, distances, products and extrema obey their definitions',
 'L1, L2 and L-infinity norms and distances, dot product, cosine, projection, unit vectors and index/value of the minimum and maximum equal their mathematical definitions up to rounding; zero vectors are refused where a direction is needed. Norms and distances satisfy their axioms (non-negativity, symmetry, scaling by exact factors, triangle inequality), and projection returns a new vector leaving residual orthogonal to the target. A NaN or an infinity among the entries (or differences) is never hidden: the norm or distance is then NaN or infinite, never a finite number.',
 inp,'all finite vectors of moderate magnitude of any length and either implementation, ties and signed zeros in extrema, NaN entries ignored by extrema',
 'tests use three or four fixed vectors',
 [RV,V],[('metric functions',RV),('Unitize',V)],[])
dec='decompositions recompute on a few fixed matrices in tests; shapes, rank deficiency, pivoting order, scaling and ties are unbounded'
p('C10','LU with partial pivoting factors every square matrix it accepts',
 'For every square matrix reported nonsingular (at a positive threshold), the permutation applied to the input equals the product of a unit lower triangular factor with entries at most one in magnitude and an upper triangular factor, to componentwise backward error; the pivot list and permutation matrix agree and are a permutation. The determinant is the signed product of the pivots and exact for small unimodular-style integer cases; a singular matrix has determinant zero and no factors.',
 inp,'all square matrices, including ones needing many row exchanges, badly scaled and singular ones',dec,
 ['lu_decomposition.go'],[('Crout elimination with partial pivoting','lu_decomposition.go')],['L','U','P','Pivot','Determinant'])
p('C11','Cholesky factors exactly the symmetric positive definite matrices',
 'Every symmetric positive definite matrix within the thresholds is accepted and equals the product of a lower triangular factor with positive diagonal and its transpose, to componentwise backward error, with the determinant the squared product of that diagonal. Matrices that are not square, not symmetric within the relative threshold, or not positive definite within the absolute threshold are refused with the matching error, naming the entry and the threshold (1e-15 and 1e-10 unless given).',
 inp,'all symmetric matrices of any size and definiteness, perturbations just inside and outside the symmetry threshold, both storages and foreign ones',dec,
 ['cholesky_decomposition.go'],[('symmetry test and column sweep','cholesky_decomposition.go')],['L','LT','Determinant'])
p('C12','QR gives an orthogonal and a triangular factor for every shape',
 'For every matrix, tall, square or wide, of full rank or not, the product of the orthogonal factor and the upper trapezoidal factor equals the input, the orthogonal factor has orthonormal columns and rows, and the transposed factor is its transpose, all to backward error proportional to the norm of the input (entries of magnitudes whose squares neither overflow nor underflow). The Householder matrix is lower trapezoidal.',
 inp,'all shapes and contents of magnitudes whose squares neither overflow nor underflow, zero columns and rank deficiency',dec,
 ['qr_decomposition.go'],[('Householder reflections','qr_decomposition.go')],['Q','QT','R','H'])
p('C13','Rank-revealing QR orders columns and reveals the rank',
 'For every matrix the input with columns permuted equals the orthogonal factor times the upper trapezoidal factor, the permutation matrix is a genuine permutation, and the diagonal of the triangular factor is non-increasing in magnitude and dominates the rows to its right. The reported rank is where the norms of the trailing parts of that factor first fall by the documented rule, equals the rank of matrices built with a known rank and a clear gap, and is zero for the zero matrix.',
 inp,'all shapes, ranks from zero to full, duplicated and zero columns, any column order and scale',dec,
 ['rrqr_decomposition.go','qr_decomposition.go'],[('column pivoting by largest remaining norm','rrqr_decomposition.go')],['P','R','Q','Rank'])
p('C14','Rectangular Cholesky gives a root of minimal width',
 'For every nonzero symmetric positive semidefinite matrix the root matrix times its transpose equals the input within the truncation threshold, and it has as many columns as the reported rank, which equals the rank of matrices built with a known rank. Of a diagonal matrix exactly the entries over the threshold (zero by default) count. Matrices with a clearly negative diagonal pivot, whose index the refusal names, and matrices that are not square are refused.',
 inp,'all symmetric positive semidefinite matrices of every rank and diagonal order, thresholds from zero up',dec,
 ['rectangular_cholesky_decomposition.go'],[('pivoted elimination with index permutation','rectangular_cholesky_decomposition.go')],['RootMatrix','Rank'])
p('C15','Singular value decomposition factors every finite matrix',
 'For every matrix of any shape and of entries of magnitudes whose squares neither overflow nor underflow, the product of the left factor, the diagonal of singular values and the transposed right factor equals the input, both outer factors have orthonormal columns, and the singular values are non-negative, in descending order, as many as the smaller dimension, and equal to those of matrices built with known singular values. Transposed accessors are transposes and the values agree with those of the transposed matrix.',
 inp,'all shapes (tall, wide, single row or column), all ranks, repeated and clustered singular values, graded matrices, any moderate scale',dec,
 ['singular_value_decomposition.go'],[('Golub-Kahan bidiagonalisation and implicit QR','singular_value_decomposition.go')],['U','S','V','SingularValues'])
p('C16','Norm, rank, condition, covariance and pseudo-inverse match the spectrum',
 'The reported norm, condition number, inverse condition number and effective rank are the ones implied by the singular values, and the rank of a matrix built with known rank and a clear gap is found at every scale. The covariance matrix is V times J times V-transposed restricted to the singular values kept, has as many rows as the input has columns, and refuses a cutoff above the largest singular value; the solver inverse satisfies the four Moore-Penrose conditions, for rank-deficient and rectangular matrices too.',
 inp,'all shapes, all ranks with a clear gap, scales from 1e-12 to 1e12, all cutoffs',dec,
 ['singular_value_decomposition.go'],[('tolerance, rank and pseudo-inverse from singular values','singular_value_decomposition.go')],['Rank','Norm','ConditionNumber','Covariance','Solver().Inverse'])
p('C17','Symmetric eigendecomposition is orthogonal and exact to backward error',
 'For every symmetric matrix (given in full or by its tridiagonal form) the eigenvector matrix is orthogonal, input = V D V-transposed to backward error proportional to its norm, D is diagonal, eigenvalues come in descending order with zero imaginary parts, and each returned eigenvector matches its eigenvalue. Eigenvalues of matrices built with a known spectrum are found, the determinant is their product, and the square root of a positive definite matrix squares to it and that of an indefinite or visibly singular one is refused.',
 inp,'all symmetric matrices: repeated, clustered, zero and negative eigenvalues, diagonal and block-diagonal ones, any scale; both constructors',dec,
 ['eigen_decomposition.go','tridiagonal_transformer.go'],[('QL iteration with implicit shifts and sorting','eigen_decomposition.go'),('symmetry test','eigen_decomposition.go')],['V','D','EigenvectorAt','SquareRoot'])
p('C18','General eigendecomposition satisfies A V = V D with conjugate pairs',
 'For every square non-symmetric matrix, each column of A V equals that of V D to backward error relative to the norm of A and of the eigenvectors involved, where D is block diagonal with real eigenvalues in 1x1 blocks and conjugate pairs in 2x2 blocks [a b; -b a]; complex eigenvalues come in exact conjugate pairs, the complex flag says whether there are any, and the per-index accessors agree with the arrays. Well separated spectra of matrices built by exact integer similarity are found, and the determinant and trace agree with the eigenvalues. A square root of a non-symmetric matrix, or a solver when there are complex eigenvalues, is refused.',
 inp,'all square matrices with real, complex, repeated, defective or zero eigenvalues, already triangular or block triangular ones, scales across many orders of magnitude short of overflowing eigenvectors',dec,
 ['eigen_decomposition.go','schur_transformer.go','hessenberg_transformer.go'],[('Schur form and back substitution','eigen_decomposition.go')],['V','D','RealEigenvalues','ImagEigenvalues'])
p('C19','Orthogonal reductions reproduce the matrix and have the promised shape',
 'The Hessenberg, tridiagonal and bidiagonal reductions return orthogonal transformations and a reduced matrix whose entries outside the promised band are exactly zero, whose product reproduces the input to backward error, and whose separately exposed diagonals are those of the reduced matrix. The bidiagonal form is upper for at least as many rows as columns and lower otherwise; non-square inputs are refused where a square one is required.',
 inp,'all shapes, zero rows and columns, already reduced matrices, any scale',dec,
 ['hessenberg_transformer.go','tridiagonal_transformer.go','bidiagonal_transformer.go'],[('Householder sweeps and lazily cached factors','hessenberg_transformer.go, tridiagonal_transformer.go, bidiagonal_transformer.go')],['P','H','Q','T','U','B','V'])
p('C20','Schur form is quasi-triangular and orthogonally similar to the input',
 'For every square matrix, the Schur transform returns an orthogonal P and a T with P T P-transposed equal to the input to backward error; T is zero below the first subdiagonal, no two consecutive subdiagonal entries are significant, a 2x2 block on the diagonal is left only for a conjugate pair, and the eigenvalues of its diagonal blocks are those of the input. Zero, diagonal, triangular and orthogonal inputs are handled like any other.',
 inp,'all square matrices including zero, nilpotent, orthogonal, permutation, companion and defective matrices, at scales across many orders of magnitude',dec,
 ['schur_transformer.go'],[('Francis double-shift QR with exceptional shifts','schur_transformer.go')],['P','T','PT'])
p('C21','All solvers solve nonsingular square systems and agree with each other',
 'For every nonsingular square system within the domain of a decomposition (LU, QR, rank-revealing QR and SVD in general; Cholesky for positive definite; eigen for symmetric), the solution for a vector or for any number of right-hand sides has small backward error, exactly matches between the vector form and each column of the matrix form up to rounding, and the inverse multiplies the matrix to the identity on both sides. Different decompositions give the same answer up to the conditioning of the system, for every representation of the right-hand side.',
 inp,'all well-conditioned square matrices, right-hand sides with 1 to more than 52 columns and any representation',
 'tests solve one or two fixed 3x3 systems per decomposition with a fixed number of columns',
 ['lu_decomposition.go','cholesky_decomposition.go','qr_decomposition.go','rrqr_decomposition.go','singular_value_decomposition.go','eigen_decomposition.go','decomposition_solver.go'],
 [('SolveVector, SolveMatrix and Inverse of each solver','*_decomposition.go'),('blocked multi-column back substitution','qr_decomposition.go')],['SolveVector','SolveMatrix','Inverse'])
p('C22','Rectangular systems are solved in the least-squares sense',
 'For overdetermined systems of full column rank, QR, rank-revealing QR and SVD return the unique minimiser of the residual norm: the residual is orthogonal to the columns of the matrix and the three agree up to conditioning, for one or many right-hand sides. For systems of any shape and rank the SVD solution is the one of least norm among the minimisers, and underdetermined systems of full row rank are satisfied by all three. The inverse given for a matrix of full rank that is not square is an inverse on the side where one exists.',
 inp,'all tall full-rank matrices, all shapes and ranks for SVD, right-hand sides in and out of the range, 1 to more than 52 columns',
 'tests check one overdetermined example per solver',
 ['qr_decomposition.go','rrqr_decomposition.go','singular_value_decomposition.go'],[('QT application and back substitution','qr_decomposition.go'),('pseudo-inverse','singular_value_decomposition.go')],['SolveVector','SolveMatrix','Inverse'])
p('C23','Singularity is reported truthfully and never solved through',
 'A decomposition of an exactly singular matrix (zero, zero or repeated row or column, integer rank deficiency), with a threshold above the rounding level where pivots are rounded, reports it as singular, and solving or inverting with LU, QR, rank-revealing QR or symmetric eigen is refused with the singular-matrix status instead of returning numbers; well-conditioned matrices are never reported singular. Raising or lowering the caller-supplied threshold moves the verdict exactly at the pivot magnitude; the defaults are 1e-11 for LU and zero for QR and rank-revealing QR.',
 inp,'all exactly singular integer matrices, all well-conditioned matrices, thresholds on both sides of the pivots, symmetric and general, both directions of rank deficiency',
 'tests use one or two singular 3x3 examples',
 ['lu_decomposition.go','qr_decomposition.go','rrqr_decomposition.go','eigen_decomposition.go','singular_value_decomposition.go','diagonal_matrix.go'],
 [('pivot thresholds','lu_decomposition.go, qr_decomposition.go'),('IsNonSingular of each solver','*_decomposition.go')],['IsNonSingular','Solve*','Inverse'])
p('C24','A decomposition is a stable snapshot of its input',
 'Constructing a decomposition or transformer does not modify the matrix, and later changes to that matrix do not change anything the decomposition or its solver reports. Factors, ranks, determinants and solutions are the same whichever order and however often the accessors and solvers are called, solving does not modify the right-hand side, and the same input in any representation gives the same factors.',
 hist,'all decompositions and transformers, all accessor orders and repetitions, mutation of the input between calls, all input representations',
 'tests call each accessor once on a matrix that is never changed afterwards',
 ['lu_decomposition.go','qr_decomposition.go','rrqr_decomposition.go','cholesky_decomposition.go','eigen_decomposition.go','singular_value_decomposition.go','schur_transformer.go','hessenberg_transformer.go','tridiagonal_transformer.go','bidiagonal_transformer.go','rectangular_cholesky_decomposition.go'],
 [('lazily built, cached factors','*_decomposition.go, *_transformer.go'),('copying of the input data','*_decomposition.go')],['accessors'])
p('C25','Submatrix extraction and matrix norms match the selected entries',
 'Extracting or copying out a submatrix, by range or by lists of row and column indices (repeated and unordered indices included), yields exactly the selected entries in the selected order and touches nothing else of the destination. The Frobenius norm is the root of the sum of squares and the maximum-column-sum norm is the largest column sum of absolute values, for every representation; a NaN or an infinity among the entries shows in both.',
 inp,'every shape, rectangle and index list, destinations larger than needed, every representation',
 'tests use fixed rectangles of one small matrix (and one block matrix)',
 [M,A,B,D],[('CopySubMatrix, CopySubMatrixFromIndices, SubMatrix, norms',M)],[])
p('C26','A diagonal matrix stays diagonal and acts like the dense one',
 'Under any history of operations a diagonal matrix equals the dense matrix with the same diagonal and zeros elsewhere: operations whose result is diagonal give that result, any request to store a nonzero off-diagonal value is refused, leaving the matrix unchanged (but for what a walk had visited), and results and parts that are not diagonal are refused or right. Its inverse has reciprocal diagonal, and it is reported singular exactly when some diagonal entry is zero within the threshold.',
 hist,'every dimension, diagonal and operation history; off-diagonal writes of zero of either sign, tiny and large values; thresholds',
 'tests write a few fixed values to 3x3 diagonal matrices',
 [D,'utils.go'],[('zero test on off-diagonal writes',D),('floating-point comparison helper','utils.go')],['At','Inverse','IsSingular'])
p('C27','Equality means same shape and same entries, whatever the storage',
 'Two matrices (or two vectors) are equal exactly when they have the same dimensions and all entries compare equal; the relation is reflexive on NaN-free values, symmetric and transitive, independent of storage, sensitive to a change in any single entry, and false for values of other kinds. Vectors containing NaN equal exactly the vectors of the same length containing NaN.',
 inp,'every shape and pair of representations, pairs differing in one arbitrary entry by as little as one unit in the last place, signed zeros, NaN, non-matrix objects',
 'tests compare a few fixed pairs',
 [A,B,D,V],[('Equals methods',A+', '+B+', '+D+', '+V)],['Equals'])
p('C28','Determinants are multiplicative and agree across decompositions',
 'The determinant is the same (up to rounding) from every decomposition that offers one and from exact integer elimination, and obeys its laws: transposing keeps it, exchanging two rows flips its sign, scaling a row scales it, the determinant of a product is the product of determinants, and a triangular matrix has the product of its diagonal. This holds for matrices with complex eigenvalues too.',
 inp,'all square integer matrices of moderate size and floating-point well-conditioned ones; positive definite ones for Cholesky',
 'tests compare determinants of a few fixed matrices',
 ['lu_decomposition.go','cholesky_decomposition.go','eigen_decomposition.go'],[('Determinant methods','lu_decomposition.go, cholesky_decomposition.go, eigen_decomposition.go')],['Determinant'])
p('C29','Extreme input ends in a result or a classified refusal, never a crash or hang',
 'Whatever its entries (NaN, infinities, numbers at both ends of the range), every matrix given to a decomposition or reduction ends, within its iteration limit, in a result or in an error returned by the constructor with the matching status: Cholesky and its rectangular variant refuse what is not positive definite, eigen and Schur what does not converge, and the others refuse nothing of the right shape. Reading every factor and solving then never crashes. A matrix of which an entry that is read is not finite is refused, called singular (LU) or shows in results that are not finite: it never yields only finite numbers (the rectangular Cholesky apart, which reads parts of one triangle).',
 inp,'all matrices of any shape with up to dozens of NaN, infinite, huge and subnormal entries at any position, on one or both sides of the diagonal; all decompositions and transformers with their default thresholds',
 'tests decompose ordinary finite matrices only',
 ['schur_transformer.go','eigen_decomposition.go','cholesky_decomposition.go','singular_value_decomposition.go','lu_decomposition.go','utils.go','qr_decomposition.go'],
 [('iteration limits and convergence tests','schur_transformer.go, eigen_decomposition.go, singular_value_decomposition.go'),('symmetry and positivity tests','utils.go, cholesky_decomposition.go')],['constructors','accessors','Solver()'])
p('C30','Goroutines on separate or read-only objects do not disturb each other',
 'Goroutines that each work on matrices, vectors and decompositions of their own, or that only read, combine, traverse or decompose a shared matrix or vector, get exactly the results they get one after another, refusals included, and never access the same memory without synchronisation. Results depend on the operands alone: the same calls give the same numbers every time. (Several goroutines on one decomposition, whose factors are built on demand, are not covered.)',
 ['schedules','inputs'],'two to four goroutines with any mix of operations, constructors, decompositions and refused requests over any representation, on matrices of their own and on a shared matrix, shared positive definite matrix and shared vector; every interleaving the race detector can infer from the ones run',
 'tests run one operation at a time in one goroutine, where hidden shared state does not show',
 [A,B,D,M,V,RV,'lu_decomposition.go','qr_decomposition.go','eigen_decomposition.go','singular_value_decomposition.go'],[('no package-level mutable state, buffers allocated per call','*.go')],['results of operations'])
p('C31','Decompositions of the same matrix agree on what they share',
 'Up to rounding, singular values do not change under transposition, rearrangement, changes of sign, borders of zeros or the orthogonal steps of the QR, bidiagonal, Hessenberg and Schur reductions; they interlace when a row or column is removed, move no more than the matrix does, and agree with norms, ranks and determinants from elsewhere. Eigenvalues of symmetric (and more generally normal) matrices follow shifts, negation, squaring, similarity, congruence and direct sums, interlace, bound the Rayleigh quotients, decide whether Cholesky succeeds, and have the singular values as moduli.',
 inp,'every shape and structure of real matrices (special, graded, rank-deficient, clustered spectra), every storage, every relation',
 'tests check each decomposition on its own few matrices, against tabulated numbers; that two algorithms agree on all matrices is not sampled',
 ['singular_value_decomposition.go','eigen_decomposition.go','schur_transformer.go','qr_decomposition.go','rrqr_decomposition.go','bidiagonal_transformer.go','hessenberg_transformer.go','tridiagonal_transformer.go','cholesky_decomposition.go','rectangular_cholesky_decomposition.go'],
 [('singular values','singular_value_decomposition.go'),('eigenvalues','eigen_decomposition.go'),('reductions','*_transformer.go')],['SingularValues','RealEigenvalues','ImagEigenvalues','Rank','Determinant'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P),'properties')
for x in P:
    n=x['statement'].count('. ')+1
    if n>3: print('too many sentences',x['id'],n)
