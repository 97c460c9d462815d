import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=state or [],observe_at=observe,hook_needed=None)))
B='kernelmethods/base.py';O='kernelmethods/operations.py';N='kernelmethods/numeric_kernels.py';U='kernelmethods/utils.py';S='kernelmethods/sampling.py';R='kernelmethods/ranking.py';A='kernelmethods/algorithms.py';C='kernelmethods/categorical.py';F='kernelmethods/config.py'
p('C01','The dense kernel matrix holds exactly the kernel values of the attached data',
 "A KernelMatrix without normalization, attached to one sample X, yields as its dense matrix the N x N array whose (i, j) entry is kernel(X[i], X[j]), for every symmetric kernel function. Attached to two samples X and Y of any (equal or different) sizes, it yields the N x M array whose (i, j) entry is kernel(X[i], Y[j]), with no entry missing, transposed or mirrored.",
 ['inputs'],'all samples (any number of rows and features), all pairs of samples, all kernel functions',
 'Tests look only at the shape, at a few random entries of a 40 x 45 two-sample matrix and print (not assert) on asymmetry; no test compares a whole matrix with its definition, nor a tall (N > M) one.',
 [B],[('upper-triangle population and mirroring / lower-triangle evaluation','KernelMatrix._populate_fully'),('element evaluation','KernelMatrix._eval_kernel'),('dense access','KernelMatrix.full')],['KernelMatrix.full'])
p('C02','Every way of reading a kernel matrix agrees, whatever was read before',
 "For a KernelMatrix attached to given data, the dense matrix, the sparse upper-triangular matrix (when not normalized), element, sub-matrix and linear-index access, the diagonal, the centered and normalized versions and the Frobenius norm are each determined by the kernel and the attached data alone. Any sequence of such reads, in any order and with any repetitions, returns the same values as the same read made on a freshly attached KernelMatrix.",
 ['histories','inputs'],'all finite sequences of reads on all samples',
 'Tests perform one or two reads per object; the cached state depends on the order of reads, which no test varies.',
 [B],[('element cache','KernelMatrix._eval_kernel'),('cached full/normalized/centered matrices and flags','KernelMatrix.full, normalize, center, frob_norm, full_sparse'),('index access','KernelMatrix.__getitem__')],
 ['KernelMatrix.full','KernelMatrix.full_sparse','KernelMatrix.__getitem__','KernelMatrix.diagonal','KernelMatrix.centered','KernelMatrix.normed_km','KernelMatrix.frob_norm'],
 [dict(name='_KM, _full_km, _normed_km, _centered, _frob_norm and the flags',meaning='lazily filled caches of the matrix',where='KernelMatrix')])
p('C03','Index access selects exactly the requested rows and columns, or is refused',
 "KM[rows, columns], with each part an integer, a slice or an iterable of integers, returns the 2-D array of kernel values for the distinct requested row indices and the distinct requested column indices, each in ascending order; a single integer k stands for the element at row k // M and column k % M of the N x M matrix. Selections that are negative, out of range, not integers, strings, empty, or not made of exactly two parts raise KMAccessError (out of range single integers raise an error) and never return values of other elements.",
 ['inputs'],'all index objects, on one- and two-sample matrices of all sizes',
 'Tests only check shapes of one random contiguous sub-matrix and a handful of invalid indices.',
 [B],[('index interpretation','KernelMatrix.__getitem__, _get_indices_in_sample'),('evaluation over the product of the two index sets','KernelMatrix._compute_for_index_combinations')],['KernelMatrix.__getitem__'])
p('C04','New data replaces the old without a trace; a failed attach changes nothing',
 "After a KernelMatrix is attached to new data (one or two samples), every read - dense, normalized, centered, diagonal, elements, norm, size, shape, number of samples - equals that of a new KernelMatrix with the same kernel attached to that data, and previously set user attributes are gone. An attach that is refused because the two samples differ in dimensionality raises ValueError and leaves all subsequent reads as they were before it.",
 ['histories','inputs'],'all sequences of attaches, reads and attribute changes',
 'Tests re-attach only to the very same data and look at private flags, so stale values can not be told from right ones.',
 [B],[('reset on attach','KernelMatrix._reset'),('attach','KernelMatrix.attach_to')],['all reads of KernelMatrix after attach_to'])
p('C05','The kernel function is evaluated at most once per pair, and only when needed',
 "While a KernelMatrix stays attached to one sample of N points, all reads together evaluate the kernel function at most once per unordered pair, at most N(N+1)/2 times in total; attached to two samples, element, sub-matrix and dense reads evaluate it at most once per (row, column) pair. An element, sub-matrix or diagonal read evaluates it only for the pairs it returns, and nothing is evaluated before the first read.",
 ['histories','inputs'],'all sequences of reads on all samples',
 'One test checks the counter after a single .full; no test counts calls across mixed reads.',
 [B],[('element cache keyed by ordered pair','KernelMatrix._eval_kernel')],['calls of the kernel function'])
p('C06','Cosine normalization divides every entry by the root of both self-similarities',
 "A normalized kernel matrix of one sample (from KernelMatrix or from the standalone operation) has the entries K[i,j] / sqrt(K[i,i] K[j,j]), and thus a unit diagonal; for two samples the entries are k(x_i,y_j) / sqrt(k(x_i,x_i) k(y_j,y_j)). A self-similarity that is zero (to the library's tolerance) raises KMNormError, a non-square one-sample matrix or lengths that do not fit raise ValueError, and an unknown method raises NotImplementedError.",
 ['inputs'],'all kernel matrices with positive diagonal, all sample pairs',
 'Tests check only that the diagonal is one in a single case and that calls do not fail.',
 [O,B],[('one-sample','operations.normalize_km'),('two-sample','operations.normalize_km_2sample'),('in KernelMatrix','KernelMatrix.normalize')],['normalize_km','normalize_km_2sample','KernelMatrix.full','KernelMatrix.normed_km'])
p('C07','Centering subtracts row and column means and adds the grand mean',
 "The centered version of a square matrix K has the entries K[i,j] - mean of row i - mean of column j + mean of all entries, so all its row and column sums vanish and centering it again changes nothing. The centered version offered by a KernelMatrix is that of its unnormalized matrix; centering is refused for non-square input (ValueError) and for matrices on two samples.",
 ['inputs'],'all square matrices of all sizes, all samples',
 'Tests check only the shape of the result.',
 [O,B],[('double centering','operations.center_km'),('cached centered matrix','KernelMatrix.center, centered')],['center_km','KernelMatrix.centered'])
p('C08','Frobenius products and centered alignment follow their definitions',
 "The Frobenius product of two equally shaped matrices is the sum of the products of corresponding entries and the norm is the root of the product with itself; unequal shapes raise ValueError. The centered alignment of two square matrices is <A,B>/(||A|| ||B||) of their centered versions (of the matrices as given, when declared centered already), hence symmetric in its arguments, one for a matrix with itself and unchanged when a matrix is scaled by a positive factor. When one of the norms is zero, it raises ValueError, or returns the value the caller asked for.",
 ['inputs'],'all pairs of matrices',
 'Tests compute one 2 x 2 product; the value of the alignment is never checked.',
 [O],[('product, norm','operations.frobenius_product, frobenius_norm'),('alignment','operations.alignment_centered')],['frobenius_product','frobenius_norm','alignment_centered'])
p('C09','Each numeric kernel computes its published formula and is symmetric',
 "For all real vectors x, y of equal length, with or without input checks, the kernels return: linear <x,y>; polynomial (b + gamma <x,y>)^degree; Gaussian exp(-|x-y|^2 / (2 sigma^2)); Laplacian exp(-gamma sum|x_k-y_k|); sigmoid tanh(offset + gamma <x,y>); chi-squared exp(-gamma sum (x_k-y_k)^2/(x_k+y_k)) over the k with x_k+y_k > 0 (non-negative x, y); Hadamard sum |x_k|^a |y_k|^a / (2(|x_k|^a + |y_k|^a)) over the k with a positive denominator (positive alpha). With input checks on, the value does not depend on the integer or floating-point type of the data; swapping x and y never changes the value.",
 ['inputs','configurations'],'all pairs of vectors of any length and all parameter values in the admissible range',
 'Tests check that a number is returned and that k(x,y)==k(y,x) on random positive vectors; no test compares any value to the formula.',
 [N,U],[('the seven __call__ methods','numeric_kernels'),('input conversion','utils.check_input_arrays')],['kernel(x, y)'])
p('C10','Kernels refuse invalid inputs and parameters instead of computing with them',
 "With input checks on (the default), every numeric kernel raises ValueError for inputs that are not convertible to numbers, are not one-dimensional (beyond singleton dimensions) or differ in length; the chi-squared kernel also refuses any negative feature value, in either argument and with or without checks. A Hadamard kernel with zero alpha can not be created, and a KernelMatrix can only be created from a kernel function object and a boolean normalization flag (TypeError otherwise).",
 ['inputs'],'all inputs and parameters',
 'Tests try two kinds of invalid values.',
 [N,U,B],[('input checks','utils.check_input_arrays, ensure_ndarray_1D, ensure_ndarray_size'),('parameter checks','constructors')],['kernel(x, y)','constructors'])
p('C11','A KernelSet only ever holds compatible matrices, in order of addition',
 "At any time all members of a KernelSet have the same number of samples as the set itself (the declared number, or that of the first member); an incompatible addition raises KMSetAdditionError and leaves the set as it was. Members keep the order and identity of their addition: indexing, iterating, take(), extend() and get_kernel_funcs() return exactly the requested members in the requested order, and out of range or negative indices raise IndexError. Plain symmetric arrays are accepted and represent themselves.",
 ['histories','inputs'],'all sequences of additions, extensions and selections, on sets of any size',
 'Tests check sizes and types of the results only, for three members.',
 [B],[('compatibility check','KernelSet.append, extend'),('selection','KernelSet.__getitem__, take, get_kernel_funcs, __iter__')],['KernelSet'],
 [dict(name='_km_set, _num_samples',meaning='members and their common number of samples',where='KernelSet')])
p('C12','Attaching or tagging a KernelSet reaches every member, and only as asked',
 "Attaching a KernelSet to a sample attaches every member to that very sample, and gives each member the attribute passed along, if any; a sample of a different size than the set already has raises ValueError before any member is touched. Setting an attribute on the set gives every member the single value, or the i-th member the i-th value, and a list of a wrong length raises ValueError; reading returns the members' values in order, with the fallback value for members that lack it.",
 ['inputs','histories'],'all sets (any number of members), samples, attribute names and values',
 'Tests use one attribute and three members and do not check the data members are attached to.',
 [B],[('bulk attach','KernelSet.attach_to'),('attributes','KernelSet.set_attr, get_attr, KernelMatrix.set_attr, get_attr')],['KernelSet.attach_to','KernelSet.set_attr','KernelSet.get_attr'])
p('C13','Composite kernels are the stated combinations of all members',
 "On a set of at least two kernel matrices, the sum kernel is sum_i w_i K_i (weights one by default), the product kernel the entry-wise product, the average kernel (1/n) sum_i K_i and the weighted average sum_i w_i K_i; linear_combination is sum_i w_i K_i for sets on one or two samples, with weights divided by their sum on request (RuntimeError if that sum is zero). A wrong number of weights raises ValueError, and the result is not available before fitting.",
 ['inputs'],'all sets of any number of kernel matrices of any size, all weights',
 'Tests only check that the attributes exist and that zero weights give a zero matrix.',
 [B,O],[('composites','SumKernel, ProductKernel, AverageKernel, WeightedAverageKernel .fit'),('linear combination','operations.linear_combination')],['composite_KM','full','linear_combination'])
p('C14','A KernelBucket holds one kernel per requested parameter value, in order',
 "A KernelBucket consists of the linear kernel followed by one kernel matrix for each requested value of polynomial degree, Gaussian sigma, Laplacian gamma, sigmoid gamma and sigmoid offset, in this order, each with exactly that parameter value and with the requested normalization; none for parameters set to None. Adding parametrized kernels later appends one per value, in order, skipping with a KernelMethodsWarning only values for which no kernel can be made. The named strategies give the documented value lists, and unknown strategies raise ValueError.",
 ['inputs','configurations'],'all lists of parameter values, all flags',
 'Tests check only that construction works and that invalid types are refused.',
 [S,F],[('population','KernelBucket.__init__, add_parametrized_kernels'),('strategies','make_kernel_bucket, config')],['KernelBucket','make_kernel_bucket'])
p('C15','Ranking scores each kernel on its own, and the optimal kernel has the top score',
 "Ranking a bucket returns one score per kernel, in the order of the bucket: the centered alignment of its matrix with the target kernel y y^T (0.0 where it is undefined because of a zero norm), or its best cross-validated score rescaled linearly so that the lowest is 0 and the highest 100 (all 0 when all are equal). The kernel found optimal is a member of the given bucket, attached to the given sample, whose score is the highest among those that could be computed. Unknown ranking methods raise NotImplementedError, anything but a KernelBucket raises TypeError.",
 ['inputs'],'all buckets, samples and targets',
 'The only test checks the number of dimensions of the scores for constant targets.',
 [R,U],[('alignment','ranking.alignment_ranking'),('cross-validation','ranking.CV_ranking, utils.min_max_scale'),('choice','ranking.find_optimal_kernel')],['rank_kernels','find_optimal_kernel'])
p('C16','Kernel machines learn on the training Gram matrix and predict from test x train',
 "Fitting a kernel machine trains the chosen support vector learner on the (normalized, if requested) kernel matrix of the training data with the given targets and sample weights, and predicting applies it to the kernel values between each test point and each training point, normalized in the same way. Hence predictions equal those of the plain learner with the equivalent precomputed kernel; they do not depend on earlier predictions, on other test points in the call, or on earlier fits, and predicting before fitting raises NotFittedError. Parameters are reported and set by name, and a refit follows the current ones.",
 ['inputs','histories'],'all data, targets, kernels, and sequences of fit and predict',
 'Tests check only the shape of the predictions.',
 [A],[('fit and predict','BaseKernelMachine.fit, predict'),('learner','ranking.get_estimator')],['KernelMachine','KernelMachineRegressor'])
p('C17','Optimal-kernel estimators train on the best kernel, leaving the bucket alone',
 "Fitting OptimalKernelSVC or OptimalKernelSVR ranks the kernels of the given bucket (or strategy) on the training data with the requested method, and trains a support vector machine with the matrix of the best kernel as precomputed kernel; predicting applies it to the kernel values between test and training points under that same kernel. The bucket passed by the user is not modified by fitting or predicting, repeated predictions agree, anything but a bucket or a known strategy raises ValueError, and predicting before fitting raises NotFittedError.",
 ['inputs','histories'],'all buckets, methods, data, and sequences of fit and predict',
 'Tests use a bucket with the linear kernel alone and check only the shape of the predictions.',
 [A,R],[('fit and predict','BaseOptimalKernelMachine.fit, predict'),('search','OptimalKernelSVC/SVR._find_optimal_kernel')],['OptimalKernelSVC','OptimalKernelSVR'])
p('C18','No computation modifies the data given to it',
 "Samples, vectors, matrices, weights, targets and value lists passed by the user to kernels, kernel matrices, sets, operations, rankings and estimators are never modified by any call. Kernel matrices in a set are not modified by combining, ranking or comparing them.",
 ['inputs','histories'],'all calls of the public API on all data',
 'No test compares inputs before and after a call.',
 [B,O,N,S,R,A,U],[('operations build new arrays','all modules')],['arguments after each call'])
p('C19','Pairwise similarity, ideal kernel and correlation follow their definitions',
 "The pairwise similarity of a bucket of n kernels is the symmetric n x n matrix whose (i, j) entry is the chosen metric (Pearson correlation of all entries, or centered alignment with 0 where a norm is zero) between the full matrices i and j, diagonal included. The ideal kernel of targets y is the matrix y_i * y_j, and the correlation of two kernel matrices is the Pearson correlation of their corresponding entries.",
 ['inputs'],'all buckets of any number of kernels, all targets',
 'Tests check shapes, and that a correlation lies in [-1, 1].',
 [S],[('pairwise_similarity','sampling.pairwise_similarity'),('ideal_kernel, correlation_km','sampling')],['pairwise_similarity','ideal_kernel','correlation_km'])
p('C20','The categorical kernel counts matching positions',
 "For two equally long vectors of strings, the match-count kernel returns the number of positions at which they hold equal values, divided by the length of the vectors when percentages are requested; it is symmetric and lies between 0 and the length (or 1). Vectors of different length or not one-dimensional raise ValueError, and anything but strings raises TypeError.",
 ['inputs'],'all pairs of categorical vectors',
 'Tests check that a number is returned for random strings, which practically never match.',
 [C],[('count','MatchCountKernel.__call__'),('checks','_check_categorical_arrays, _ensure_type_size')],['MatchCountKernel'])
p('C21','The PSD test accepts exactly the symmetric matrices without negative eigenvalues',
 "The positive semi-definiteness test returns True exactly for square, (numerically) symmetric arrays all of whose eigenvalues are at least minus the tolerance, and False for non-square or non-symmetric arrays and when the eigenvalues can not be computed; anything but an array raises TypeError.",
 ['inputs'],'all matrices and tolerances',
 'Tests try four matrices.',
 [O],[('is_positive_semidefinite','operations')],['is_PSD','is_positive_semidefinite'])
p('C22','Precomputed and constant kernel matrices behave as the matrix they stand for',
 "A precomputed kernel matrix is accepted only if real, two-dimensional and symmetric (ValueError otherwise), and then returns exactly the given matrix, its entries, its diagonal and its number of samples; invalid accesses raise KMAccessError. A constant kernel matrix of size n equals, in its full matrix, diagonal and any selection of distinct rows and columns, the constant everywhere; out of range, empty or malformed selections raise KMAccessError.",
 ['inputs'],'all matrices, sizes, constants and index objects',
 'Tests use one random matrix and few indices.',
 [B,U],[('KernelMatrixPrecomputed','base'),('ConstantKernelMatrix','base'),('symmetry check','utils.not_symmetric')],['KernelMatrixPrecomputed','ConstantKernelMatrix'])
p('C23','Failed or non-finite kernel computations are never passed off as results',
 "If the kernel function raises for some pair of points, reading the full matrix raises RuntimeError - on the first read and on every later read that meets such a failure - and no partially filled matrix is ever returned; once the kernel works again, reads return the right values. If a kernel matrix or its normalized version contains NaN or infinite values, a KernelMethodsWarning is issued when it is computed.",
 ['fault_sequences','inputs','histories'],'all failing pairs, all sequences of failing and succeeding reads, all kernels producing non-finite values',
 'The corresponding test is empty (pass).',
 [B,U],[('error handling during population','KernelMatrix._populate_fully'),('finiteness check','utils.contains_nan_inf')],['KernelMatrix.full','warnings'])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for q in P: jsonschema.validate(q,sch); assert len(q['title'])<=80
print(len(P))
