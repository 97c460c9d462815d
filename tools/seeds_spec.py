"""Specifications of the planted changes (see mkseeds.py)."""
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks,
                      demo=demo))


seed('c01-mirror', 'C01',
     [('base.py', 'if not self._two_samples and self.shape[0] == self.shape[1]:',
       'if self.shape[0] == self.shape[1]:')],
     'two different samples of the same size',
     'the lower triangle of a two-sample matrix mirrors the upper one', '''
X, Y = rs.rand(4, 3), rs.rand(4, 3)
km = KernelMatrix(PolyKernel(), normalized=False)
km.attach_to(X, sample_two=Y)
assert np.allclose(km.full, (1 + X @ Y.T) ** 3)
''')
seed('c02-norm-in-place', 'C02',
     [('base.py', "                self._normed_km = normalize_km(self._full_km, method=method)",
       "                self._normed_km = normalize_km(self._full_km, method=method)\n"
       "                self._full_km = self._normed_km")],
     'reading the normalized matrix before the centered one or the norm',
     'centered and frob_norm depend on whether the matrix was normalized before', '''
X = rs.rand(5, 3)
a = KernelMatrix(PolyKernel(), normalized=True)
a.attach_to(X)
first = a.frob_norm
b = KernelMatrix(PolyKernel(), normalized=True)
b.attach_to(X)
b.full
assert np.isclose(b.frob_norm, first)
assert np.allclose(b.centered, center_km((1 + X @ X.T) ** 3))
''')
seed('c03-slice-dim', 'C03',
     [('base.py', '_slice_index_list = index_obj_per_dim.indices(self.shape[dim])',
       '_slice_index_list = index_obj_per_dim.indices(self.shape[0])')],
     'a slice over the columns of a matrix on two samples, the second being larger',
     'columns beyond the number of rows are silently not selected', '''
X, Y = rs.rand(3, 3), rs.rand(6, 3)
km = KernelMatrix(LinearKernel(), normalized=False)
km.attach_to(X, sample_two=Y)
assert km[0, :].shape == (1, 6)
assert np.allclose(km[[0, 2], 1:], (X @ Y.T)[[0, 2], 1:])
''')
seed('c04-stale-norm', 'C04',
     [('base.py', "        for attr in ('_full_km', '_normed_km', '_frob_norm'):",
       "        for attr in ('_full_km', '_normed_km'):")],
     'norm read, then attached to new data, then norm read again',
     'the norm of the previous data is returned', '''
km = KernelMatrix(LinearKernel(), normalized=False)
X, Y = rs.rand(5, 3), rs.rand(4, 3)
km.attach_to(X)
km.frob_norm
km.attach_to(Y)
assert np.isclose(km.frob_norm, np.linalg.norm(Y @ Y.T))
''')
seed('c05-order', 'C05',
     [('base.py', '''        if idx_one > idx_two and not self._two_samples:
            idx_one, idx_two = idx_two, idx_one''',
       '''        if idx_one > idx_two and not self._two_samples \\
            and (idx_two, idx_one) in self._KM:
            idx_one, idx_two = idx_two, idx_one''')],
     'an element below the diagonal read before the one above it',
     'the kernel function is evaluated twice for one unordered pair', '''
class Counting(LinearKernel):
    n = 0
    def __call__(self, x, y):
        Counting.n += 1
        return super().__call__(x, y)
km = KernelMatrix(Counting(), normalized=False)
km.attach_to(rs.rand(4, 2))
km[3, 1]
km.full
assert Counting.n == 10, Counting.n
''')
seed('c06-yy-zero', 'C06',
     [('operations.py', '''        if np.isclose(diag_K_XX, 0.0).any() or \\
            np.isclose(diag_K_YY, 0.0).any():''',
       '''        if np.isclose(diag_K_XX, 0.0).any() or \\
            np.isclose(diag_K_YY, 0.0).all():''')],
     'two samples, some but not all points of the second have a zero self-similarity',
     'NaN is returned in place of KMNormError', '''
K = rs.rand(3, 2)
assert raises(KMNormError, normalize_km_2sample, K, np.ones(3), np.array([0., 1.]))
''')
seed('c07-asym', 'C07',
     [('operations.py', 'return Ic.dot(KM).dot(Ic)', 'return Ic.dot(KM.T).dot(Ic)')],
     'a square matrix that is not symmetric',
     'the centered matrix is transposed', '''
K = rs.rand(4, 4)
e = K - K.mean(0)[None, :] - K.mean(1)[:, None] + K.mean()
assert np.allclose(center_km(K), e)
''')
seed('c08-zero-one', 'C08',
     [('operations.py', '        kC_one = km_one\n', '        kC_one = center_km(km_one)\n')],
     'centered_already=True with a first matrix that is not centered',
     'the first matrix is centered though declared centered', '''
A, B = rs.rand(4, 4), rs.rand(4, 4)
e = (A * B).sum() / np.sqrt((A ** 2).sum() * (B ** 2).sum())
assert np.isclose(alignment_centered(A, B, centered_already=True), e)
''')
seed('c09-hadamard-eps', 'C09',
     [('numeric_kernels.py', 'valid_terms = denominator > 0', 'valid_terms = denominator > 1e-8')],
     'tiny feature values', 'terms with a small positive denominator are dropped', '''
x = np.array([1e-3, 2e-3])
k = HadamardKernel(alpha=3)
a = x ** 3
assert np.isclose(k(x, x), (a * a / (4 * a)).sum(), rtol=1e-6, atol=0)
''')
seed('c10-broadcast', 'C10',
     [('utils.py', '    if x.size != y.size:\n', '    if x.size != y.size and min(x.size, y.size) > 1:\n')],
     'one of the two vectors has length one, the other is longer',
     'a kernel value is computed by broadcasting in place of ValueError', '''
assert raises(ValueError, GaussianKernel(), np.array([1.0]), np.array([1.0, 2.0]))
''')
seed('c11-neg-index', 'C11',
     [('base.py', 'if any(indices < 0) or any(indices >= self.size):',
       'if all(indices < 0) or any(indices >= self.size):')],
     'take() with some negative and some valid indices',
     'members counted from the end are returned in place of IndexError', '''
ks = KernelSet([rs.rand(1, 1) for _ in range(3)])
assert raises(IndexError, ks.take, [0, -1])
''')
seed('c12-falsy-attr', 'C12',
     [('base.py', '''        return [self._km_set[index].get_attr(name, value_if_not_found)
                for index in range(self.size)]''',
       '''        return [self._km_set[index].get_attr(name) or value_if_not_found
                for index in range(self.size)]''')],
     'an attribute with a falsy value (0, empty string), read with a fallback',
     'the fallback is returned for members that have the attribute', '''
ks = KernelSet([KernelMatrix(LinearKernel()), KernelMatrix(PolyKernel())])
ks.attach_to(rs.rand(4, 2))
ks.set_attr('w', [0.0, 2.0])
assert ks.get_attr('w', value_if_not_found=7.0) == [0.0, 2.0]
''')
seed('c13-abs-sum', 'C13',
     [('operations.py', '        denom = weights.sum()\n', '        denom = np.abs(weights).sum()\n')],
     'norm_weights with weights of both signs',
     'the weights are not divided by their sum', '''
ks = KernelSet([KernelMatrix(LinearKernel(), normalized=False),
                KernelMatrix(PolyKernel(), normalized=False)])
X = rs.rand(4, 2)
ks.attach_to(X)
w = np.array([3.0, -1.0])
e = (3.0 * ks[0].full - ks[1].full) / 2.0
assert np.allclose(linear_combination(ks, w, norm_weights=True), e)
''')
seed('c14-dedup', 'C14',
     [('sampling.py', '        for val in values:\n', '        for val in dict.fromkeys(values):\n')],
     'a value list with a repeated value',
     'one kernel less than values requested', '''
kb = KernelBucket(poly_degree_values=(2, 3, 2), rbf_sigma_values=None,
                  laplace_gamma_values=None, sigmoid_gamma_values=None,
                  sigmoid_offset_values=None)
assert [km.kernel.degree for km in list(kb)[1:]] == [2, 3, 2]
''')
seed('c16-test-normalization', 'C16',
     [('algorithms.py', '''        self._km = KernelMatrix(self.k_func, name='test_km',
                                normalized=self.normalized)''',
       '''        self._km = KernelMatrix(self.k_func, name='test_km',
                                normalized=self.normalized and len(test_X) > 1)''')],
     'predicting a single point with a normalized kernel machine',
     'the test kernel is not normalized for single points', '''
X, y = rs.rand(20, 3) * 3, rs.rand(20)
m = KernelMachineRegressor(PolyKernel(degree=2), normalized=True).fit(X, y)
T = rs.rand(5, 3) * 3
assert np.allclose(m.predict(T), np.concatenate([m.predict(T[i:i + 1]) for i in range(5)]))
''')
seed('c17-shallow', 'C17',
     [('algorithms.py', '            self._k_bucket = deepcopy(self.k_bucket)',
       '            self._k_bucket = self.k_bucket')],
     'a bucket passed by the user and inspected after fitting',
     'the bucket of the user gets attached to the training data', '''
kb = make_kernel_bucket('linear_only')
X, y = rs.rand(20, 3), rs.randint(0, 2, 20)
OptimalKernelSVC(kb, method='align/corr').fit(X, y)
assert kb.num_samples is None and kb[0].num_samples is None
''')
seed('c18-weights-in-place', 'C18',
     [('operations.py', '        weights = weights / denom\n', '        weights /= denom\n')],
     'norm_weights with a float array of weights',
     "the caller's weights are modified", '''
ks = KernelSet([KernelMatrix(LinearKernel()), KernelMatrix(PolyKernel())])
ks.attach_to(rs.rand(4, 2))
w = np.array([3.0, 1.0])
linear_combination(ks, w, norm_weights=True)
assert list(w) == [3.0, 1.0]
''')
seed('c19-diagonal', 'C19',
     [('sampling.py', '''            pairwise_metric[idx_one, idx_two] = estimator(k_bucket[idx_one].full,
                                                          k_bucket[idx_two].full)''',
       '''            pairwise_metric[idx_one, idx_two] = 1.0 if idx_one == idx_two else \\
                estimator(k_bucket[idx_one].full, k_bucket[idx_two].full)''')],
     'alignment of a bucket having a matrix of zero norm once centered',
     'the similarity of such a matrix with itself is one, not zero', '''
kb = make_kernel_bucket('linear_only', normalize_kernels=False)
kb.add_parametrized_kernels(PolyKernel, 'degree', [0, 2])
kb.attach_to(rs.rand(6, 2))
assert pairwise_similarity(kb, metric='align')[1, 1] == 0.0
''')
seed('c20-truncate', 'C20',
     [('categorical.py', 'match_count = np.sum(vec_c==vec_d)',
       'match_count = np.sum(vec_c.astype(vec_d.dtype)==vec_d)')],
     'values of the first vector longer than all of the second',
     'strings are compared after truncation', '''
k = MatchCountKernel(return_perc=False)
assert k(np.array(['abc', 'x']), np.array(['ab', 'x'])) == 1
''')
seed('c21-relative', 'C21',
     [('operations.py', '        if any(eig_values < -tolerance):',
       '        if any(eig_values < -tolerance * max(1.0, eig_values[-1])):')],
     'a matrix with a large positive and a small negative eigenvalue',
     'the tolerance grows with the largest eigenvalue', '''
assert not is_PSD(np.diag([1e4, -1e-3]))
''')
seed('c22-constant-edge', 'C22',
     [('base.py', '''        if any([index >= self.num_samples or index < 0 for index in indices]):''',
       '''        if any([index > self.num_samples or index < 0 for index in indices]):''')],
     'the index equal to the number of samples',
     'an out of range selection of a constant matrix is not refused', '''
c = ConstantKernelMatrix(4, 2.0)
assert raises(KMAccessError, c.__getitem__, ([4], [0]))
''')
seed('c23-inf', 'C23',
     [('utils.py', '''    if (not np.isfinite(matrix).all()) \\
        or (np.isnan(matrix).any()):''',
       '''    if np.isnan(matrix).any() \\
        or np.isposinf(matrix).any():''')],
     'a kernel resulting in minus infinity',
     'no warning is issued', '''
class NegInf(LinearKernel):
    def __call__(self, x, y):
        return -np.inf
km = KernelMatrix(NegInf(), normalized=False)
km.attach_to(rs.rand(3, 2))
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    km.full
assert any(issubclass(i.category, KernelMethodsWarning) for i in w)
''')
seed('c15-float-targets', 'C15',
     [('ranking.py', '    target_kernel = np.outer(targets, targets)\n',
       '    target_kernel = np.outer(targets, np.abs(targets))\n')],
     'targets of both signs',
     'the target kernel is not y y^T', """
kb = make_kernel_bucket('light')
X = rs.rand(8, 2)
y = np.array([1, -1, 1, 1, -1, -1, 1, -1.0])
kb.attach_to(X)
e = [alignment_centered(km.full, np.outer(y, y), 0.0) for km in kb]
assert np.allclose(rank_kernels(kb, y, method='align/corr'), e)
""")
