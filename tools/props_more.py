ALLV = 'all inputs for values and sizes; enumerated families of label sets; floats as mathematical reals; numpy/pandas through the contracted shims of pyver/'
P('P20', 'A posteriori combinations and final results follow their names',
  'The combination named "X + Y - Z" is the label-wise sum and difference of exactly those matrices from left to right, whatever signs the names themselves contain; combinations with an absent operand are skipped. Final results for a cosmology first fix the parameters outside it, then fix or marginalise nuisance parameters at the requested stage; the reported errors are those of the resulting matrices and the given matrices stay unchanged.',
  ['inputs', 'configurations'], 'every set of matrices, every combination name, every order of marginalisation',
  'tests compare one stored forecast', [SEY + 'fisher/final_results_core.py', SEY + 'fisher/fisher_analysis.py', SEY + 'fisher/fisher_matrix.py'],
  [('combination by name', SEY + 'fisher/final_results_core.py'), ('results for a cosmology', SEY + 'fisher/final_results_core.py')], [],
  ['resulting matrices and error tables'], claimed=True, note=ALLV)

P('P04', 'Spectra are combined only at their common multipoles, never misaligned',
  'Spectra sampled at different multipoles are combined only at the multipoles all of them have, every value staying with its own multipole. The block for tracers (A,B) in a multi-tracer matrix is the stored spectrum of A and B, transposed in its bin indices when it is stored in the opposite order; a needed spectrum that is missing is refused and not replaced.',
  ['inputs', 'configurations'], 'every set of multipole grids, bin numbers and spectra', 'tests use one stored set of spectra',
  [SEY + 'fisher/fisher_utils.py', SEY + 'fisher/delta_cl.py', SEY + 'utils/array_utils.py'],
  [('intersection of multipoles', SEY + 'fisher/delta_cl.py'), ('multi-tracer blocks', SEY + 'fisher/delta_cl.py')], [],
  ['multi-tracer arrays and their multipoles'], claimed=True, note=ALLV)

P('P01', 'A name of a pair of tracers means one ordered pair in every spelling',
  'Each of the three spellings of an ordered pair of tracers is recognised, translates into the others and back, equals exactly the names meaning the same ordered pair, and finds the same stored spectrum; the reversed pair gives the same spectrum transposed in its bins. Names that are not exactly such a pair are refused, never taken for a pair they resemble.',
  ['inputs'], 'every ordered pair of tracers, every spelling of stored and asked names, every text', 'tests use a few names',
  [SEY + 'utils/shortcuts.py'], [('kinds of spelling and translation', SEY + 'utils/shortcuts.py'), ('lookup by equivalent key', SEY + 'utils/shortcuts.py')], [],
  ['parts, translations, equality, lookups and refusals'], claimed=True,
  note='all 16 pairs x spellings x lookups proved; the refusal of malformed names is a bounded run over an enumerated list, not proved')
P('P11', 'Analytic derivative by galaxy bias is the derivative of the spectrum',
  'For constant bias the derivative of a spectrum with respect to the bias of a bin is the spectrum over that bias in the row (and, for the second tracer, the column) of that bin, both for an auto-correlation, and zero elsewhere. For piecewise bias it is the part of the redshift integral inside that bin over the bias. With respect to a tracer outside the pair it is zero, and cases without an analytic form are refused.',
  ['inputs', 'configurations'], 'every spectrum, kernel, grid, bin edges and bias value', 'tests use one stored run with few bins',
  [SEY + 'derivatives/differentiator.py'], [('analytic bias derivative', SEY + 'derivatives/differentiator.py')], [], ['derivative arrays'], claimed=True,
  note='all sizes and values; the bin number of the parameter is taken from a list (0, 1, 2, 9, 10, 12) because it is read from text; quadrature is any linear rule with weights depending on the nodes; floats as reals')
P('P14', 'Spectra are the redshift integral of tracer kernels and Limber power',
  'Each spectrum of bins i and j at a multipole is the redshift integral of the two tracers\' weights c/(H r^2) times the matter power at k=(l+1/2)/r (smoothly cut for voids), one spectrum per pair of tracers, symmetric for an auto-correlation. The lensing weight is 3/2 Omm (H0/c)(1+z) r times the lensing efficiency integral, minus the intrinsic-alignment term when enabled. Unknown methods and mismatched tracers are refused.',
  ['inputs', 'configurations'], 'every number of bins, grid, multipole list, cosmological table and density', 'tests compare one stored forecast',
  [SEY + 'cosmology/c_ells.py', SEY + 'cosmology/kernel_functions.py', SEY + 'cosmology/weight_functions.py'],
  [('lensing weight', SEY + 'cosmology/weight_functions.py'), ('kernels', SEY + 'cosmology/kernel_functions.py'), ('Limber power and redshift integral', SEY + 'cosmology/c_ells.py')], [],
  ['weights, kernels, Limber power and spectra'], claimed=True,
  note='all sizes and values; lists of tracers enumerated; quadratures and splines are any linear rule whose weights depend on the nodes only (accuracy not claimed); exponentials, powers and logarithms uninterpreted with their algebraic laws; floats as reals')
P('P15', 'Redshift densities integrate to one and shot noise follows the counts',
  'The redshift distribution of each bin is the galaxy distribution seen through the instrument response, scaled to integrate to one; distributions given by the user are interpolated and vanish outside their domain. The galaxies per steradian of a bin are the integral of the distribution over the bin and the shot noise its inverse. Photometric-spectroscopic noise is the count in the shared interval over the product of the counts, zero when the bins are disjoint.',
  ['inputs'], 'every binning, distribution, response parameters and grid', 'tests compare stored tables for one binning',
  [SEY + 'cosmology/redshift_density.py'], [('normalisation and response', SEY + 'cosmology/redshift_density.py'), ('overlap of bins', SEY + 'cosmology/redshift_density.py')], [],
  ['densities, counts and noise arrays'], claimed=True, note='all sizes and values; integrals are any linear rule of the integrand on the interval; floats as reals; numpy/scipy through the contracted shims')
P('P16', 'Noise enters each spectrum once and errors follow the sky fraction',
  'The error of a spectrum is sqrt(1/(dl fsky)) times the spectrum plus its noise: the shot noise of the tracer on the bin diagonal of an auto-correlation (scaled by the squared ellipticity dispersion for lensing and by the sample sizes for reduced spectroscopic noise), nothing for cross-correlations. A sky fraction or noise given explicitly replaces the computed one. The multi-tracer blocks are assembled from these spectra at their common multipoles.',
  ['inputs', 'configurations'], 'every spectrum, noise, bin numbers, multipoles and sky fraction', 'tests compare one stored case',
  [SEY + 'fisher/delta_cl.py', SEY + 'cosmology/redshift_density.py'], [('noise and errors', SEY + 'fisher/delta_cl.py')], [], ['noise, errors and blocks'], claimed=True, note=ALLV)
P('P17', 'Each redshift bin uses its own current bias value',
  'In the constant model bin i has the value of parameter i at every redshift and in the piecewise model a redshift has the value of the bin containing it, whatever the order the values are stored in; the values used are the current ones, not the fiducial ones. The void models give their published functions of radius, growth and variance. A wrong number of values or an unknown model is refused.',
  ['inputs', 'histories'], 'every number of bins, storage order, value, edge and grid', 'tests use few bins in sorted order',
  [SEY + 'cosmology/bias.py', SEY + 'cosmology/weight_functions.py'], [('bias models', SEY + 'cosmology/bias.py'), ('values handed to the model', SEY + 'cosmology/weight_functions.py')], [],
  ['bias tables and weights'], claimed=True,
  note='all values, edges, grids; number of bins of the constant and piecewise models from a list (1, 2, 5, 11, 12) because names carry it as text; floats as reals; transcendental functions uninterpreted with their algebraic laws')
P('P19', 'Printed names of data vectors read back as the same vector',
  'A data vector prints as the list of its spectra, and reading any printed form back gives the same spectra in the same order. Two vectors are equal exactly when they list the same pairs in the same order. Lists in files are read line by line, skipping comments and blank lines.',
  ['inputs'], 'every list of ordered pairs of tracers in any spelling', 'tests print a few vectors', [SEY + 'fisher/datavector.py', SEY + 'fisher/fisher_utils.py'],
  [('parsing and printing', SEY + 'fisher/datavector.py')], [], ['names, entries, equality'], claimed=True,
  note='vectors of one or two entries in every spelling proved by complete case enumeration; longer vectors and files are bounded runs (bound in the evidence)')
P('P18', 'Expansion, distances, growth and power follow the current cosmology',
  'At every redshift E(z) is that of matter, curvature and w0-wa dark energy for the current parameters, H is 100 h E, the comoving distance is c/H0 times the integral of 1/E, and the growth is the square root of the ratio of the linear power to that of the first redshift. The densities handed to the power spectrum codes add up to the matter density with neutrinos counted once, and every row of the spectra read back belongs to its own redshift. Parameters outside their domain, or curvature in a flat universe, are refused.',
  ['inputs', 'configurations'], 'every value of the parameters, every redshift and wavenumber grid, every spectrum', 'tests compare one stored cosmology',
  [SEY + 'cosmology/cosmology.py', SEY + 'cosmology/power_spectrum.py', SEY + 'cosmology/boltzmann_solver.py'],
  [('background functions', SEY + 'cosmology/cosmology.py'), ('parameters and spectra of the codes', SEY + 'cosmology/boltzmann_solver.py')], [],
  ['background functions, tables, parameters handed over, spectra'], claimed=True,
  note='all values and grids; numbers of redshifts handed to CAMB from a list (1 to 460), file rewriting and amplitude tuning are bounded runs with a stand-in code; integrals are any linear rule; exponentials and powers uninterpreted with their algebraic laws; floats as reals')
P('P13', 'Multipole bins tile the requested range; pairs use common multipoles',
  'Linear bins have width one and cover every integer step of the range; logarithmic bins have edges in geometric progression, starting at the lowest and ending at the highest multipole with no gap or overlap. The bins of a pair of tracers are those of the two tracers lying in both of their ranges, each keeping its own width. Empty ranges, unknown spacings and incompatible multipole settings are refused.',
  ['inputs', 'configurations'], 'every range, number of bins and pair of increasing multipole grids', 'tests compare one stored grid',
  [SEY + 'utils/array_utils.py', SEY + 'config/probe_config.py', SEY + 'config/forecast_config.py'],
  [('bins of a range', SEY + 'utils/array_utils.py'), ('bins of a pair', SEY + 'config/forecast_config.py')], [], ['centres and widths of the bins'], claimed=True, note=ALLV)
P('P21', 'Every displaced spectrum is used at its own parameter and step',
  'Each job directory names one parameter and signed step and is read back as exactly these. Power spectra, angular spectra and derivatives of a step use the parameter at the value of that step, all others at the fiducial, and the cosmology of that step. The derivative by a parameter pairs the spectra of each of its steps with its value there, in whatever order files are listed; missing or ambiguous files are refused.',
  ['inputs', 'configurations', 'histories'], 'every listing order, set of varied parameters, number of displacements and spectra', 'tests read one stored run',
  [SEY + 'utils/filesystem_utils.py', SEY + 'utils/workspace.py', SEY + 'derivatives/differentiator.py', SEY + 'derivatives/cl_derivative.py',
   SEY + 'main/cl_core.py', SEY + 'main/cl_derivative_core.py', SEY + 'main/fisher_core.py', SEY + 'main/task_runners.py', 'bin/compute_cls', 'bin/compute_pmm', 'bin/compute_derivatives'],
  [('directory names', SEY + 'utils/filesystem_utils.py'), ('files of a parameter', SEY + 'derivatives/differentiator.py'), ('varied spectra', SEY + 'main/cl_core.py'), ('jobs', 'bin/compute_cls')], [],
  ['files read, parameter values used, values and spectra handed to the fit'], claimed=True,
  note='all values; numbers of displacements (1, 2, 7, 10, 12), listing orders and sets of parameters enumerated; directory names and job creation are bounded runs in scratch directories')
P('P08', 'Fisher matrices read back from files exactly as stored',
  'A stored Fisher matrix reads back with its name, the order of its parameters, its entries and the cosmological or nuisance kind of every parameter, and storing leaves it unchanged. Nothing derived from an earlier content survives reading a file. An existing file is refused, kept or replaced as asked, and the contents never mix.',
  ['inputs', 'histories'], 'every set and order of parameters, entries, names and write modes', 'tests use one stored matrix',
  [SEY + 'fisher/fisher_matrix.py'], [('writing', SEY + 'fisher/fisher_matrix.py'), ('reading', SEY + 'fisher/fisher_matrix.py')], [], ['matrix, labels, name and kinds read back'], claimed=True,
  note='all entries; sets and orders of parameters and names enumerated; HDF5 through a contracted stand-in for h5py in the proofs and the real library at run time; csv is a bounded run')
P('P22', 'What one stage stores is what the next stage reads',
  'Parameters, cosmologies, power spectra, densities, biases, weights, kernels, spectra, their covariances and derivatives read back from a file equal to what was stored, under any root, optional parts staying present or absent. Several objects in one file keep their own contents. An existing entry is never silently overwritten, and absent ones are refused.',
  ['inputs', 'configurations', 'histories'], 'every size and value of every stored object, every root and subset of optional parts', 'tests store a few objects of one run',
  [SEY + 'file_io/hdf5_io.py'] + [SEY + 'cosmology/' + f for f in ('cosmology.py', 'power_spectrum.py', 'parameter.py', 'redshift_density.py', 'bias.py', 'weight_functions.py', 'kernel_functions.py', 'c_ells.py')]
  + [SEY + 'fisher/delta_cl.py', SEY + 'derivatives/cl_derivative.py'],
  [('file interface', SEY + 'file_io/hdf5_io.py'), ('spectra', SEY + 'cosmology/c_ells.py'), ('covariances', SEY + 'fisher/delta_cl.py')], [], ['objects read back'], claimed=True,
  note='all sizes and values; roots and optional parts enumerated; HDF5 and JSON through contracted stand-ins in the proofs and the real libraries at run time')
P('P23', 'A forecast uses exactly the probes and settings of its configuration',
  'A configuration file yields exactly the probes marked present, each with its own settings, input files, multipoles, parameters and displacements, and nothing taken from another probe. Configurations compare equal only when nothing compared differs. Options of the editor change the entries they name and no other, and invalid configurations are refused.',
  ['inputs', 'configurations'], 'every subset of present probes and every value of their settings', 'tests read two stored files',
  [SEY + 'config/forecast_config.py', SEY + 'config/probe_config.py', SEY + 'config/main_config.py', ],
  [('probes of a forecast', SEY + 'config/forecast_config.py'), ('settings of a probe', SEY + 'config/probe_config.py'), ('editor', SEY + 'config/forecast_config.py')], [],
  ['probe configurations, files, parameters, edited documents, refusals'], claimed=True,
  note='all values of the numeric settings; sets of probes, files and options enumerated; JSON text through a contracted stand-in in the proofs and the real library at run time')
P('P24', 'Comparisons of forecasts report every difference, at its own label',
  'The percentage difference of two values is 200|x-y|/|x+y|: never negative, zero exactly when they are equal, and taken between entries of the same label whatever the order of storage. Comparing two runs applies it to corresponding quantities of their common keys, and every difference above the threshold is reported. Changing the basis of parameters multiplies a Fisher matrix by the Jacobian on both sides.',
  ['inputs'], 'every pair of tables, arrays and runs', 'tests compare one stored run with itself',
  [SEY + 'numeric/general.py', SEY + 'utils/general_utils.py', SEY + 'utils/run_loader.py', SEY + 'utils/comparison_utils.py', SEY + 'utils/ist_comparison.py', SEY + 'notebook_helpers/table_helpers.py'],
  [('differences', SEY + 'numeric/general.py'), ('comparison of runs', SEY + 'utils/run_loader.py'), ('comparison of tables', SEY + 'notebook_helpers/table_helpers.py')], [], ['differences reported and their labels'], claimed=True,
  note='all values and sizes in the proofs; comparison of whole runs, tables and spectra and the reports themselves are bounded runs (bound in the evidence)')
P('P26', 'Analyses and tables of forecasts hold exactly the matrices they are given',
  'An analysis contains exactly the Fisher matrices given or stored in the directory it is made from; sums, subsets and preparations of it leave those unchanged, and one that does not marginalise over nuisance parameters keeps them fixed. Ranges and confidence ellipses of parameters are those of the covariance. Tables over several runs, scenarios or codes hold in each row the values of that run, and a replaced matrix replaces everything reported about it.',
  ['inputs', 'configurations'], 'every set of matrices, parameters, runs and selections', 'tests load one stored run',
  [SEY + 'fisher/fisher_analysis.py', SEY + 'fisher/fisher_results.py', SEY + 'fisher/results_collector.py', SEY + 'notebook_helpers/table_helpers.py', SEY + 'notebook_helpers/load_helpers.py'],
  [('analysis', SEY + 'fisher/fisher_analysis.py'), ('tables over runs', SEY + 'fisher/results_collector.py'), ('rows and hybrid matrices', SEY + 'notebook_helpers/table_helpers.py')], [], ['matrices, ranges, ellipses and tables'], claimed=True,
  note='all entries of the matrices in the proofs; sets of matrices and parameters enumerated; tables over runs and LaTeX rows are bounded runs')
P('P25', 'A run executes exactly the tasks asked for and reports what happened',
  'A forecast runs exactly the tasks asked for, in order, each with one job per parameter and step it needs on the given configuration, whichever way the options are given; the others use the given directories. A failing job stops the run or is reported as failed, and statuses, counts, times and resources of the reports are those of the job directories. A run keeps its own copies of its inputs, and stored results are reused only from the same run.',
  ['inputs', 'configurations', 'histories', 'fault_sequences'], 'every set of tasks, options, job outcomes and directories', 'no test runs a task, a report or a program',
  [SEY + 'main/task_runners.py', SEY + 'main/report_maker.py', SEY + 'main/seyfert_core.py', SEY + 'main/orchestration.py', SEY + 'main/bsub_utils.py', SEY + 'utils/workspace.py', SEY + 'config/cmd_line.py',
   SEY + 'utils/dir_explorer.py', 'bin/run_seyfert', 'bin/job_submitter', 'bin/orchestrate_run', 'bin/evaluate_final_results'],
  [('tasks of a run', SEY + 'main/task_runners.py'), ('reports', SEY + 'main/report_maker.py'), ('directories of a run', SEY + 'utils/workspace.py'), ('several runs', SEY + 'main/orchestration.py')], [],
  ['tasks, commands, job directories, links, copies and reports'], claimed=True,
  note='options, tasks, outcomes and directory layouts enumerated over stated finite sets, job lists of any content stated in the evidence as bounded runs; commands and the batch system are stand-ins recording what they are given')
P('P27', 'Units, names and tables keep the meaning of what they write',
  'Unit conversions are mutually inverse and exact. Distinct parameters, probes and cosmologies have distinct TeX names, a name is found back from its TeX form, and substitutions in tables and legends replace whole names only. Tables, arrays and parameters are written with their values and labels, and directory names give back what they were made of.',
  ['inputs'], 'every value and every name of a parameter, probe, matrix and table', 'tests sample a few names and values',
  [SEY + 'utils/converters.py', SEY + 'utils/tex_utils.py', SEY + 'utils/general_utils.py', SEY + 'utils/table_utils.py', SEY + 'utils/filesystem_utils.py', SEY + 'utils/encoders.py'],
  [('units', SEY + 'utils/converters.py'), ('TeX names', SEY + 'utils/tex_utils.py'), ('tables', SEY + 'utils/table_utils.py')], [], ['values, names and files written'], claimed=True,
  note='all values of the conversions; names enumerated over stated lists; tables, encoders and array unions are bounded runs')
P('P28', 'External and older files are read as the quantities they state',
  'Spectra, power spectra, derivatives and Fisher matrices computed elsewhere are read with every entry at the bins, multipoles, parameters and displacements their file states, converted to the units and names used here, and missing or inconsistent files are refused. Files of older versions are read in the layout of the version that wrote them. A run loaded for comparison contains the spectra, cosmologies and derivatives of its own directories.',
  ['inputs', 'configurations'], 'every value, number of bins and multipoles, column order and file name', 'no test reads an external or older file',
  [SEY + 'file_io/ext_input.py', SEY + 'file_io/retro_comp.py', SEY + 'utils/ist_comparison.py', SEY + 'fisher/fisher_matrix.py', SEY + 'utils/run_loader.py'],
  [('external files', SEY + 'file_io/ext_input.py'), ('older files', SEY + 'file_io/retro_comp.py'), ('runs', SEY + 'utils/run_loader.py')], [], ['arrays, tables and labels read'], claimed=True,
  note='all entries of spectra and matrices in the proofs; column orders, versions and directories enumerated; text files and old layouts are bounded runs')
P('P29', 'Plots show every forecast at its own place and in its own colour',
  'In a triangle of contours every panel shows, for each forecast and confidence level, the ellipse or curve of the parameters of its column and row, in their ranges, and the upper panels are empty. A forecast has one colour of its own in all panels and in the legend. Bars, gains, grids of spectra and correlation maps show the values of the table or array they are given, at their own parameters and bins, with the settings and ranges asked for.',
  ['inputs', 'configurations'], 'every set of forecasts, parameters, settings and values', 'no test draws a plot',
  [SEY + 'fisher/fisher_plot.py', SEY + 'fisher/fisher_results.py', SEY + 'notebook_helpers/barplots.py', SEY + 'notebook_helpers/fom_gain_plots.py', SEY + 'notebook_helpers/contours.py', SEY + 'plot_utils/cl_plot.py', SEY + 'plot_utils/misc.py'],
  [('triangle of contours', SEY + 'fisher/fisher_plot.py'), ('plots of the results', SEY + 'fisher/fisher_results.py'), ('grids of spectra', SEY + 'plot_utils/cl_plot.py')], [], ['objects drawn'], claimed=True,
  note='values symbolic in the proofs of panels and ranges, with drawing calls recorded; numbers of forecasts and parameters enumerated; figures drawn by the real library, bars, grids and maps are bounded runs')
