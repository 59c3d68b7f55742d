HOW.update({
 'P01': 'every spelling of a pair (short, long, alias, with and without separators) enumerated over all probes, plus arbitrary texts around them; postcondition: one ordered pair, or refusal',
 'P02': 'symbolic n, multipoles and entries; vecp/unvecp/vec against the index bijection i≤j; duplicates and completeness proved as facts about the position map',
 'P03': 'the full covariance builder on symbolic spectra and bin counts, data vectors enumerated; oracle is the Wick formula by labels, written independently of the block loop; reversed storage of a pair included',
 'P04': 'symbolic multipole arrays of different lengths (increasing is a precondition); filters and membership as symbolic sets; the joint matrix equals the entries at the positions of the common multipoles',
 'P05': 'per-multipole table and sum, symbolic sizes; exclusive multipoles as a set difference; labels checked through a pandas shim; whole evaluation is checked against callee contracts',
 'P06': 'operands with enumerated label sets (orders, overlaps) and symbolic values; entry by label; frame condition: the operands are unchanged',
 'P07': 'class invariant of a Fisher matrix (matrix, inverse, errors, correlation agree) established by every operation of every enumerated sequence; symbolic entries, matrix inverse as an uninterpreted function with its defining property',
 'P08': 'write then read through the HDF5 stand-in contracts and real files: postcondition equality of names, labels, order, values, after any previous content',
 'P09': 'symbolic fiducials, factors, displacement lists; postconditions on numbering, symmetry, order and complementary densities',
 'P10': 'symbolic spectra on 3/5/7 points; the line fit is given by its normal equations; exactness on lines, labels, and the trimming loop checked against an independently written rule',
 'P11': 'symbolic spectra and integrand, enumerated bins (also two-digit), pairs; integral is an uninterpreted linear functional applied to exactly the samples inside the bin',
 'P12': 'all orders 1–6, symbolic number of panels, remainder, step and samples, any axis; oracle: independently derived Newton–Cotes weights (exact rationals)',
 'P13': 'symbolic numbers of bins and edges; tiling, centres and widths, both spacings; pair ranges are the intersection',
 'P14': 'symbolic grids, kernels and spectra; integrals/splines are uninterpreted functionals applied to given samples, so the obligation is that exactly the right integrand on the right grid is integrated',
 'P15': 'normalisation, counts, shot noise and overlap for symbolic edges/samples (non-uniform grids), both kinds of distribution; stale splines covered',
 'P16': 'noise and error formula by pair and bin for symbolic spectra, densities, sky fractions; file noise and absent blocks; joint blocks against the P04 contract',
 'P17': 'bias value of every bin for every storage order and symbolic redshift; void models term by term including the arguments handed to the size function; two evaluations with changed parameters (history)',
 'P18': 'expansion, distance, growth, sigma8, power, stepwise recomputation after changed parameters; Boltzmann codes are external functions with recorded inputs',
 'P19': 'every list of up to three entries over the probes, any printing order; print/read round trip and equality',
 'P20': 'combination formulas by name over symbolic matrices; every enumerated name set, final results table by label',
 'P21': 'scratch run directories with every parameter/step combination enumerated; frame: the spectrum of (parameter, step) is used under that label only; scripts bin/* run with stubs of their numerical callees',
 'P22': 'symbolic contents written and read back through the HDF5/JSON contracts (and real files at run time), every optional attribute present/absent, every root, histories of two loads',
 'P23': 'enumerated configuration documents; probe combinations, settings, editor operations and their independence (frame) across objects of one process',
 'P24': 'percentage differences entry by entry and label by label; which quantities of two runs are compared with which; the reporting thresholds',
 'P25': 'run bookkeeping on scratch directories: every task list, outcome of external commands, linked and foreign files; commands compared after shell splitting',
 'P26': 'analysis objects and tables with symbolic matrices over enumerated names; each cell against its own matrix',
 'P27': 'unit conversions with symbolic values, names in TeX for every parameter, table text by cell',
 'P28': 'older HDF5 layouts and external text files written by the contract, then read by the code; values by label, both line styles, versions',
 'P29': 'drawing calls recorded panel by panel with symbolic covariances and ranges; objects of figures drawn by the real library read back (bounded)',
})
