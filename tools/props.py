SEY = 'seyfert/'
P('P02', 'Half-vectorisation keeps every independent entry exactly once',
  'Turning an n×n spectrum block into a vector lists each independent bin pair (all pairs for a cross spectrum, pairs i≤j for an auto one) exactly once, at every multipole, in one fixed order; turning an auto vector back reproduces the symmetric block. The number of entries is n(n+1)/2 or n·m accordingly.',
  ['inputs'], 'every number of bins, every number of multipoles, every block of real numbers',
  'the tests use a handful of bin numbers and compare against stored arrays', [SEY + 'fisher/linalg_tools.py', SEY + 'fisher/fisher_utils.py'],
  [('half-vectorisation and its inverse', SEY + 'fisher/linalg_tools.py')], [], ['returned arrays and index maps'], claimed=True,
  note='all inputs: symbolic n, multipoles and entries; floats as mathematical reals; numpy/pandas through the contracted shims of pyver/')
P('P03', 'Gaussian covariance of the data vector has the Wick form',
  'For every multipole, the covariance between any two entries of the data vector (spectrum of tracers A,B in bins i,j and spectrum of C,D in bins k,l) equals D_AC(ik)·D_BD(jl) + D_AD(il)·D_BC(jk), divided by 2l+1, where D are the given noise-included spectra of each pair of tracers; the matrix is symmetric. A spectrum stored with its two tracers in the opposite order gives the same covariance.',
  ['inputs', 'configurations'], 'every data vector of the two-point spectra, any bin numbers, any multipole grids, any spectra',
  'the tests compare one stored covariance for fixed bin numbers', [SEY + 'fisher/delta_cl.py', SEY + 'fisher/datavector.py', SEY + 'fisher/linalg_tools.py'],
  [('covariance block assembly', SEY + 'fisher/delta_cl.py'), ('block index order', SEY + 'fisher/linalg_tools.py')], [],
  ['the covariance array and its multipole grid'], claimed=True,
  note='all inputs for bin numbers, multipoles, spectra; the data vectors are an enumerated family (lists of keys over three tracers); floats as reals; numpy through the contracted shims')
P('P05', 'Fisher elements are the quadratic form summed once over each multipole',
  'At each multipole the Fisher element of parameters a, b is the derivative vector of a times the inverse covariance times the derivative vector of b, and the Fisher matrix is the sum over the selected multipoles, each taken exactly once. A probe whose auto-spectrum is in the data vector also contributes its own multipoles outside the common range, exactly once and to the elements with the same labels; no other probe contributes.',
  ['inputs', 'configurations'], 'every derivative, inverse covariance, multipole grid and data vector',
  'the tests check one stored case', [SEY + 'fisher/fisher_evaluator.py', SEY + 'fisher/fisher_utils.py'],
  [('per-multipole quadratic form', SEY + 'fisher/fisher_evaluator.py'), ('addition of the multipoles of a single probe', SEY + 'fisher/fisher_evaluator.py')], [],
  ['the returned per-multipole table and Fisher matrix'], claimed=True,
  note='all inputs for sizes and values; parameter name lists and data vectors enumerated; floats as reals; numpy/pandas through the contracted shims')
P('P06', 'Adding and subtracting Fisher matrices works label by label',
  'The sum (difference) of two Fisher matrices has as parameters the union of both sets, and its entry for parameters a, b is the sum (difference) of the entries the operands hold for a, b, an operand lacking either parameter counting as zero. The operands keep their parameters and values.',
  ['inputs', 'histories'], 'every pair of symmetric matrices over any two parameter sets in any order, any chain of operations',
  'tests add matrices with the same ordered labels', [SEY + 'fisher/fisher_matrix.py'],
  [('matrix addition and subtraction', SEY + 'fisher/fisher_matrix.py')], [], ['entries of the result and of the operands'], claimed=True,
  note='all inputs for values; the label sets / sequences of operations are enumerated families; floats as mathematical reals; numpy/pandas through the contracted shims of pyver/')
P('P07', 'Fixing, marginalising, errors and correlations agree with each other',
  'After any sequence of fixing parameters (dropping their rows and columns), marginalising over them (dropping them from the inverse) and adding priors (diagonal 1/σ²), the matrix holds the remaining parameters only, and the reported marginalised errors are the square roots of the diagonal of the inverse of the current matrix, labelled by parameter. Correlation coefficients are the inverse matrix scaled by those errors for the same labels. The figure of merit of a pair is the inverse square root of the determinant of that pair\'s block of the inverse.',
  ['inputs', 'histories'], 'every symmetric positive-definite matrix and every sequence of operations',
  'tests run single operations on one stored matrix', [SEY + 'fisher/fisher_matrix.py', SEY + 'fisher/fisher_analysis.py'],
  [('matrix operations and cached inverse', SEY + 'fisher/fisher_matrix.py')], [], ['errors, correlations, figures of merit returned'], claimed=True,
  note='all inputs for values; the label sets / sequences of operations are enumerated families; floats as mathematical reals; numpy/pandas through the contracted shims of pyver/')
P('P09', 'Parameter displacement grid is symmetric, ordered and consistent',
  'The displaced values of a parameter are fiducial·(1+ε·f) (or ε·f when the fiducial is zero) for a sorted symmetric set of displacements, numbered −n..n without gaps, step 0 being exactly the fiducial. In a flat universe, displacing one density parameter moves the complementary one so that their total is unchanged; no other parameter moves.',
  ['inputs'], 'every fiducial value, factor and displacement list', 'tests check one stored parameter file',
  [SEY + 'cosmology/parameter.py'], [('displacement and step grid', SEY + 'cosmology/parameter.py')], [], ['values, steps and displaced collections'], claimed=True,
  note='all inputs for values; the label sets / sequences of operations are enumerated families; floats as mathematical reals; numpy/pandas through the contracted shims of pyver/')
P('P10', 'Derivative by straight-line fit is exact on linear data and label consistent',
  'The numerical derivative of a spectrum with respect to a parameter is, entry by entry, the slope of the least-squares line through the spectrum values at the displaced parameter values, points being dropped from both ends until the fit reproduces every remaining value within the tolerance. For spectra exactly linear in the parameter the result is the exact slope, whatever the sign of the values, and constant spectra give zero.',
  ['inputs'], 'every grid of parameter values and every set of spectra', 'tests use one stored run',
  [SEY + 'derivatives/differentiator.py'], [('iterative linear fit', SEY + 'derivatives/differentiator.py')], [], ['derivative arrays'], claimed=True,
  note='all values, symbolic numbers of bins and multipoles; the number of displaced points is an enumerated family (3, 5, 7); floats as mathematical reals; numpy/pandas through the contracted shims of pyver/')
P('P12', 'Newton–Cotes integration is exact for low-degree polynomials on any grid',
  'The fixed-node quadrature is linear in the samples, acts along the requested axis only, uses every sample of an equally spaced grid of any length ≥ 2, and is exact for polynomials up to the degree of its rule. Integrating an array gives for each other index the integral of that slice.',
  ['inputs'], 'every number of samples, step, array of samples and axis', 'tests integrate a few functions on one grid size',
  [SEY + 'numeric/integration.py'], [('composite rule and its remainder panel', SEY + 'numeric/integration.py')], [], ['the value returned'],
  claimed=True, note='all inputs: symbolic length, step, samples; floats as reals; numpy through the contracted shims')
exec(open(os.path.join(ROOT, 'tools', 'props_more.py')).read()) if os.path.exists(os.path.join(ROOT, 'tools', 'props_more.py')) else None
