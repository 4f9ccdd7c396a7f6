"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KDE, KER, UT, SA, PL = ('kalepy/' + nn for nn in ('kde.py', 'kernels.py', 'utils.py', 'sample.py', 'plot.py'))
INIT = 'kalepy/__init__.py'

PROPS = []


def prop(pid, title, statement, over, text, tests, mech, technique, note, files=None, observe=None):
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, tests=tests, mech=mech, technique=technique, note=note,
                      files=files or sorted(set(ww.split(':')[0] for _, ww in mech)), observe=observe))


prop('C01', 'Density is the weighted sum of normalized kernels at the data',
     'The density at any point equals the sum over data of weight times the normalized kernel, scaled by the smoothing matrix and centred on the datum; as a probability it is divided by the total weight. '
     'This holds for every kernel, number of dimensions, data set and way of specifying the evaluation points.',
     ['inputs', 'configurations'], 'every data set, kernel, bandwidth, covariance, weights and evaluation points',
     'tests compare a few 1D/2D data sets, mostly with the Gaussian kernel, to scipy or to the analytic shape',
     [('KDE.density', KDE + ':KDE.density'), ('kernel sum', KER + ':Kernel.density, _evaluate_numba')],
     'property-based testing against a direct-summation reference model',
     'values agree with an independent numpy summation (with bounds at the discontinuity of the box kernel) to 1e-7 relative on every generated case')
prop('C02', 'Bandwidth and covariance specifications give the documented smoothing',
     'The smoothing matrix is the (weighted, or given) covariance times the square of the bandwidths, for bandwidths given by rule name, number, list per dimension, or matrix, with diagonal and rescaling options applied; '
     'the rules of thumb depend on the effective number of data, from the weights, and on the dimension. Equivalent specifications give equal densities.',
     ['inputs', 'configurations'], 'every bandwidth specification, covariance, weights, diagonal flag and rescaling',
     'tests check a handful of scalar and named bandwidths for one data set',
     [('bandwidth parsing', KDE + ':KDE._set_bandwidth, _compute_bandwidth'), ('rules', KDE + ':KDE._scott_factor, _silverman_factor'), ('matrix', KER + ':Kernel.__init__')],
     'property-based testing against reference formulae and equivalent specifications',
     'smoothing matrix, effective count and densities agree with the formulae on every generated case')
prop('C03', 'Densities are non-negative, integrate to unity, and respect finite support',
     'A probability density is never negative, integrates over space to one (and a plain density to the total weight), and kernels of finite support give exactly zero beyond their extent around every datum. '
     'The kernels on their own are normalized in the same way, in every number of dimensions.',
     ['inputs', 'configurations'], 'every kernel, dimension, data set, weights and bandwidth',
     'tests integrate a few fixed cases of one and two dimensions',
     [('normalization', KER + ':Kernel.norm, _Distribution.norm'), ('kernel profiles', KER + ':Gaussian/Box/Parabola/Triweight._evaluate')],
     'property-based testing of integrals (exact quadrature or randomized lattices) and invariants',
     'integrals by quadrature whose error bound is part of the tolerance; supports are exact')
prop('C04', 'Reflecting boundaries confine the density and conserve its mass',
     'With reflecting boundaries the density inside is the sum of the plain density and of the mirror images across each boundary, exactly zero outside of any boundary, and for one reflected dimension containing all data the total stays unity (for kernels reaching only one boundary per side). '
     'Boundaries may be given per instance or call, one- or two-sided, in any subset of dimensions, or automatically.',
     ['inputs', 'configurations'], 'every data set, kernel and combination of boundaries per dimension',
     'tests check one sided cases for fixed uniform data',
     [('reflection', KER + ':Kernel.density'), ('boundary parsing', KER + ':_check_reflect'), ('defaults', KDE + ':KDE.density')],
     'property-based testing against a mirror-image reference model',
     'agreement with explicitly mirrored data on every case; integral for single reflected dimensions; known finding: no corner images for two reflected dimensions')
prop('C05', 'Selecting parameters projects the density onto exactly those parameters',
     'A density for chosen parameters equals that of an estimate built from those rows of the data (with the corresponding block of the smoothing matrix), in the order given, with reflection of those parameters only. '
     'Points returned, shapes, and single or repeated selections follow the selection.',
     ['inputs', 'configurations'], 'every subset and order of parameters, points, grids and boundaries',
     'tests marginalize one or two fixed parameters of fixed data',
     [('selection', KDE + ':KDE.density'), ('sub-matrix', KER + ':Kernel.density')],
     'differential property-based testing (projected KDE against a KDE of the selected data; numerical marginalization)',
     'compared with a reference density of the selected rows, and with the numerical integral over the other parameters')
prop('C06', 'Weights act like repeated data, and their overall scale cancels',
     'Integer weights give the same density as repeating the data, zero weights the same as dropping data, uniform weights the same as none; multiplying all weights by a constant changes no probability, and scales a plain density. '
     'The order of the data does not matter.',
     ['inputs'], 'every data set and set of weights',
     'tests compare weighted and unweighted estimates for a few random weights',
     [('weights', KDE + ':KDE.__init__'), ('density', KDE + ':KDE.density')],
     'metamorphic property-based testing', 'densities compared between equivalent weighted inputs to rounding')
prop('C07', 'Densities follow translations, rescalings and rotations of the data',
     'Shifting, rescaling per dimension, permuting dimensions, or applying any invertible linear map to data and points changes the density only by the corresponding Jacobian, for automatic as well as given bandwidths. '
     'The density is symmetric where the data are.',
     ['inputs'], 'every data set, kernel, and affine map',
     'no existing test transforms data',
     [('covariance scaling', KDE + ':KDE.__init__'), ('whitening', KER + ':Kernel.density, _evaluate_numba')],
     'metamorphic property-based testing', 'compares densities before and after generated affine maps, tolerance from the condition number')
prop('C08', 'Evaluation points and grids: shapes, order, and defaults',
     'Each value returned belongs to the point at the same position; grids have the outer-product shape with the first parameter first, and are equal to evaluating each of their points; automatic points are increasing and cover the data and the support. '
     'Points given as lists, tuples, or arrays, singly or many, 1D or 2D, are equivalent.',
     ['inputs', 'configurations'], 'every form, number, and shape of evaluation points',
     'tests use one or two grid shapes',
     [('points and grids', KDE + ':KDE.density, KDE.points'), ('edges', UT + ':parse_edges, _guess_edges')],
     'property-based testing of shape contracts and pointwise differential evaluation', 'grids compared pointwise; coverage of automatic points by invariants')
prop('C09', 'The CDF is monotonic, from zero to one, and matches the integrated density',
     'The cumulative distribution never decreases in any parameter, lies between zero and one and is constant beyond its range, and agrees with the integral of the density to the accuracy of its grid. '
     'Input forms and order of evaluation points do not matter.',
     ['inputs'], 'every data set, kernel, weights, dimension, grid and evaluation points',
     'tests compare for fixed 1D and 2D normal data at fixed points',
     [('cdf', KDE + ':KDE.cdf'), ('integration', UT + ':cumtrapz')],
     'property-based testing against exact kernel CDFs and an independent trapezoid reference', 'monotonicity and range exact; agreement within the discretization error')
prop('C10', 'Resampling returns valid, repeatable samples, and keeps chosen parameters',
     'Resampling gives the requested number of finite samples with the documented shape, each within the kernel of some datum of non-zero weight, with kept parameters taken exactly (jointly) from that datum, and within any reflecting boundaries. '
     'It is determined by the state of the random generator, and changes none of its inputs.',
     ['inputs', 'configurations'], 'every size, keep, reflect and squeeze argument, data set, kernel and weights',
     'tests check shapes for a few sizes and one or two kept parameters',
     [('resample', KDE + ':KDE.resample; kalepy/kernels.py:Kernel.resample'), ('keep', KER + ':Kernel._resample_clear')],
     'property-based testing of invariants of the samples', 'exact membership conditions on every sample')
prop('C11', 'Resampled values follow the estimated density',
     'Samples drawn from an estimate are independently distributed as its density, including weights, correlations between parameters, kernel shape, and the chunked drawing of large numbers of samples.',
     ['inputs', 'configurations'], 'every data set, kernel, weights and dimension',
     'tests apply a KS test to a few fixed data sets',
     [('resample', KER + ':Kernel._resample_clear'), ('kernel samples', KER + ':_sample_beta_kernel, Gaussian._sample'), ('covariance', UT + ':add_cov')],
     'property-based testing with goodness-of-fit tests (KS, chi-squared) against exact distributions', 'statistical: false alarm probability below 1e-10 per test; detects distortions of a few percent')
prop('C12', 'Reflected resampling follows the reflected density',
     'Samples drawn with reflecting boundaries are all inside of the boundaries, and are distributed as the density with those boundaries, including kept parameters and weights.',
     ['inputs', 'configurations'], 'every data set, kernel, weights and boundaries',
     'tests check that samples are inside for fixed cases',
     [('reflected resampling', KER + ':Kernel._resample_reflect, _reflect_data, _truncate_reflections')],
     'property-based testing with goodness-of-fit tests against exact distributions', 'statistical: false alarm probability below 1e-10 per test')
prop('C13', 'Each kernel distribution samples, evaluates and bounds consistently',
     'For every kernel and dimension, the evaluated function, its normalization, its samples, its grid and its inside test describe one distribution, symmetric about zero, with unit support if finite, and its samples are independent of each other; kernels are selected by name regardless of case and spaces, by class, or default.',
     ['inputs', 'configurations'], 'every kernel, dimension, sample size and point',
     'tests check 1D evaluation and samples',
     [('distributions', KER + ':_Distribution, Gaussian, Box, Parabola, Triweight'), ('selection', KER + ':get_distribution_class')],
     'property-based testing against closed forms and goodness-of-fit tests', 'evaluation exact; samples statistical with false alarm probability below 1e-10')
prop('C14', 'Grid sampling follows the density of the grid',
     'Samples from a density given on the edges of a grid fall in each bin in proportion to its mass, inside of that bin, and within it uniformly or following the linear gradient of density if interpolated; the count requested is the count returned, or follows from the total mass. '
     'Only bins with mass are sampled.',
     ['inputs', 'configurations'], 'every grid, density, mass, and sample size',
     'tests check histograms of a few fixed smooth densities',
     [('Sample_Grid', SA + ':Sample_Grid.sample, _random_bins'), ('within bins', SA + ':_intrabin_linear_interp, _grad_along')],
     'property-based testing with exact membership and goodness-of-fit tests', 'positions exact; distribution statistical with false alarm probability below 1e-10')
prop('C15', 'Scalars sampled along with grid samples belong to the sampled positions',
     'A scalar field sampled together with positions equals the value of its bin, or its interpolation at the position, for each sample; sampling in proportion to a portion conserves the target mass.',
     ['inputs', 'configurations'], 'every grid, scalar field, and sample size',
     'tests check one or two smooth fields',
     [('scalars', SA + ':Sample_Grid.sample'), ('proportional', SA + ':sample_grid_proportional')],
     'property-based testing against the interpolated field', 'each returned scalar compared with the field at its own position')
prop('C16', 'Outlier sampling splits mass between samples and centroids exactly',
     'Outlier sampling represents each bin above the threshold by one weighted centroid, with exactly its mass and inside of the bin, and draws individual samples, of unit weight, only from bins below the threshold, following their mass; the total weight follows the total mass.',
     ['inputs', 'configurations'], 'every grid, density, and threshold',
     'tests check total counts for fixed grids',
     [('Sample_Outliers', SA + ':Sample_Outliers.__init__, sample'), ('centroids', UT + ':centroids')],
     'property-based testing with exact membership and goodness-of-fit tests', 'masses and centroids exact; outliers statistical')
prop('C17', 'Trapezoid integrals, masses and cumulative sums are exact and consistent',
     'Integrating, converting densities to masses, and cumulative integration over edges in any number of dimensions are exact for multilinear functions, linear in the values, agree with each other and with iterated one-dimensional integrals, and respect the chosen axes.',
     ['inputs'], 'every array, set of edges and axes',
     'tests integrate fixed grids',
     [('integrals', UT + ':trapz_nd, trapz_dens_to_mass, cumtrapz, cumsum')],
     'property-based testing against iterated 1D reference integrals', 'agreement to rounding on every case')
prop('C18', 'Bin centres, midpoints, centroids and subdivisions lie where they should',
     'Midpoints are the (logarithmic) centres between neighbours along the chosen axis, centroids are the density weighted positions within each bin and always inside of it, and subdividing keeps every original edge while adding evenly spaced ones.',
     ['inputs'], 'every array of edges, densities and axes',
     'tests check short fixed arrays',
     [('positions', UT + ':midpoints, _midpoints_1d, centroids, subdivide, bins')],
     'property-based testing against reference formulae', 'agreement to rounding on every case')
prop('C19', 'Weighted quantiles are monotonic, order independent and correctly weighted',
     'Weighted quantiles interpolate the cumulative weight at the sorted values: they increase with the fraction, stay within the data, do not depend on order or on the scale of weights, agree with repeated values, and work along any axis; the inter-quartile range follows from them.',
     ['inputs'], 'every set of values, weights, fractions and axis',
     'tests check fixed percentiles of random data',
     [('quantiles', UT + ':quantiles, iqrange')],
     'property-based testing against an independent reference and metamorphic relations', 'agreement to rounding on every case')
prop('C20', 'Histograms count the weight in each bin, with the chosen normalization',
     'A histogram gives the total weight in every bin (the last including its upper edge), divided by the bin width if a density, and by the total weight if a probability; automatic bins include all of the data.',
     ['inputs', 'configurations'], 'every data set, weights, bins and normalization',
     'tests check fixed data',
     [('histogram', UT + ':histogram')], 'property-based testing against explicit counting', 'agreement to rounding on every case')
prop('C21', 'Edges: given edges are kept, automatic ones cover data and limits',
     'Edges given explicitly are used unchanged; counts of bins give that many; automatic edges are finite, increasing, cover the data or the given limits in every dimension, and their number stays within limits, independently per dimension (also if only some of the parameters are selected from limits for all).',
     ['inputs', 'configurations'], 'every specification of edges, limits and data',
     'tests check a few specifications for one data set',
     [('edges', UT + ':parse_edges, _get_edges_1d, _guess_edges, _parse_extrema')],
     'property-based testing of invariants and differential specification forms', 'exact for given edges; invariants for automatic edges')
prop('C22', 'Extrema, bounds selection and spacings are exact',
     'Extrema include all of the data, stretched, limited and combined with previous extrema as asked; selecting by bounds keeps exactly the points inside of all given bounds (or the complement); spacings run between their ends with the requested number or density.',
     ['inputs', 'configurations'], 'every data set, bounds, stretch and limits',
     'tests check fixed arrays',
     [('extrema', UT + ':minmax'), ('bounds', UT + ':bound_indices'), ('spacing', UT + ':spacing')],
     'property-based testing against reference formulae', 'agreement to rounding on every case')
prop('C23', 'Shapes of nested and jagged sequences are recognized correctly',
     'One-dimensional, regular and jagged nested sequences are told apart for lists, tuples and arrays of any nesting, and flattening keeps every element, in order; integers are recognized as such in any container.',
     ['inputs'], 'every nested sequence',
     'tests check a few nested lists',
     [('nesting', UT + ':really1d, isjagged, jshape, flatten, flatlen, isinteger')],
     'property-based testing over generated nested sequences against a recursive model', 'exact')
prop('C24', 'An estimate from a histogram is that of weighted bin centres',
     'An estimate constructed from a histogram has the density of data at the bin centres weighted by the counts, with the width of bins as the default bandwidth, in any number of dimensions, and passes other options on.',
     ['inputs', 'configurations'], 'every histogram, bins and options',
     'tests compare one and two dimensional fixed histograms',
     [('from_hist', KDE + ':KDE.from_hist')], 'property-based testing against a directly constructed reference', 'agreement to rounding on every case')
prop('C25', 'Results are independent of history, and nothing given is changed',
     'The result of any operation is the same (bitwise, for the same random state) whatever operations came before on that instance or on others, including refused calls, copies and plots. '
     'No operation changes the data, weights, edges or options it was given, the properties of the instance, or results that it returned before.',
     ['histories', 'inputs'], 'every sequence of density, CDF, resampling, point, sampler, plot and utility calls',
     'tests call each method once on a new instance',
     [('lazy points', KDE + ':KDE.points'), ('lazy CDF', KDE + ':KDE.cdf'), ('lazy inverse and norm', KER + ':Kernel.matrix_inv, Kernel.norm'), ('sampler state', SA + ':Sample_Grid')],
     'stateful property-based testing: generated histories against new instances', 'exact comparison of every operation of each generated history')
prop('C26', 'One-dimensional plots show the distribution of the chosen data',
     'Histograms are drawn with the heights, edges and orientation of the (weighted) counts, density curves with the density of the chosen parameter, carpets with one point at each datum (or a subset of the asked size, sized by weight), and confidence bands around the median enclose the given fractions. All components are drawn in the given color, or in the next color of the axes.',
     ['inputs', 'configurations'], 'every data set, weights, edges, parameter, normalization, rotation and choice of components',
     'tests only check that plotting does not raise',
     [('1D plots', PL + ':dist1d, hist1d, draw_hist1d, carpet, confidence')],
     'property-based testing of the drawn artists against reference models', 'positions and heights read back from the artists to rounding',
     observe=['artists of the matplotlib axes'])
prop('C27', 'Two-dimensional plots show the right distribution, contours and masks',
     'Two-dimensional histograms, scatter and medians are drawn with the values of the chosen parameters in the right orientation, hidden bins are those below the given value, and contours follow the levels of the density that enclose the given fractions. Points and medians have the given color (or the middle of the given colormap, or the next color), and histograms and contours the given colormap (or one matching the color).',
     ['inputs', 'configurations'], 'every data set, weights, edges, parameters, fractions, smoothing, padding and masks',
     'tests only check that plotting does not raise',
     [('2D plots', PL + ':dist2d, hist2d, contour, draw_hist2d, draw_contour2d'), ('levels', PL + ':_dfm_levels'), ('padding', PL + ':_pad_hist, _prep_hist')],
     'property-based testing of the drawn artists against reference models', 'values read back from the artists; each contour vertex is interpolated back to its level',
     observe=['artists of the matplotlib axes'])
prop('C28', 'Corner plots put each pair of parameters in its own panel',
     'In a corner plot every panel shows the parameters of its row and column, with matching labels, limits, targets and orientation, all in the given color and colormap, for any number of dimensions, origin and rotation. '
     'Limits include everything that was plotted, or are those given; plotting again does not depend on options of previous plots.',
     ['inputs', 'configurations', 'histories'], 'every number of parameters, origin, rotation, limits, weights and sequence of plotting calls',
     'tests only check that plotting does not raise',
     [('corner', PL + ':Corner, corner'), ('limits', PL + ':_set_corner_axes_extrema')],
     'property-based testing of the drawn artists over sequences of plotting calls', 'panels read back from the axes and compared with the rows of the data',
     observe=['axes and artists of the figure'])
prop('C29', 'Adding and removing covariance are exact and mutually inverse',
     'Adding a covariance to uncorrelated data and removing it again restores the data, removing the sample covariance leaves unit variances without correlations, matrices times their inverses give the identity, and keeping a variable removes exactly its correlations.',
     ['inputs'], 'every positive definite matrix and data set',
     'tests check fixed 2D and 3D matrices',
     [('covariance', UT + ':add_cov, rem_cov, matrix_invert, cov_keep_vars')],
     'property-based testing of round trips and identities', 'to rounding, scaled with the condition number')
prop('C30', 'Invalid input is refused, and never silently accepted',
     'Empty or malformed data, weights of another length or that are negative, not finite or all zero, unknown or wrongly shaped bandwidths and kernels, boundaries out of order or of another number of dimensions, parameters out of range, points, edges, grids or histograms of inconsistent shape, '
     'quantile fractions beyond [0, 1], and plots of data, weights, edges, labels, limits or targets that do not match raise an exception, instead of giving some result; the instance stays usable.',
     ['inputs', 'configurations'], 'every valid call with one generated inconsistency',
     'tests check a few wrong shapes',
     [('construction', KDE + ':KDE.__init__, _set_bandwidth'), ('density', KDE + ':KDE.density'), ('boundaries', KER + ':_check_reflect'), ('sampler', SA + ':Sample_Grid.__init__'), ('utilities', UT + ':parse_edges, quantiles'), ('plots', PL + ':Corner')],
     'property-based testing with injected inconsistencies (negative testing)', 'every kind of listed inconsistency on generated valid inputs')
prop('C31', 'Top-level functions and equivalent input types give equal results',
     'The top-level functions give exactly the results of constructing an estimate and calling its methods, passing all options on; data, weights, points and options of equal values in other containers or number types give equal results.',
     ['inputs', 'configurations'], 'every data set, options, and container or number type of each argument',
     'tests compare a few calls with arrays of floats',
     [('API', INIT + ':density, pdf, resample'), ('conversion', KDE + ':KDE.__init__, KDE.density')],
     'differential property-based testing', 'exact equality (or rounding of the lower precision type)')

prop('C32', 'Text summaries report the statistics and values of the data',
     'A string of statistics contains the requested average, standard deviation and (weighted) percentiles of the data, or of their logarithm, each rounded to the given or an adequate format and labelled by its percentage; '
     'a string of an array contains its first and last values, as many as requested.',
     ['inputs', 'configurations'], 'every array of numbers, percentiles, format, and choice of statistics',
     'tests compare the strings of a few fixed arrays',
     [('statistics', UT + ':stats_str, stats'), ('arrays', UT + ':array_str')],
     'property-based testing by parsing the text back, against the statistics', 'every number in the text is parsed and compared, to half a unit of its last digit')

ROOT = os.path.join(HERE, 'pbt', 'props')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for pp in PROPS:
            assert len(pp['title']) <= 80, pp['title']
            anchors = dict(files=sorted(set(sum([[ff] for ff in pp['files']], []))), mechanism=[dict(name=nn, where=ww) for nn, ww in pp['mech']], hook_needed=None)
            if pp['observe']:
                anchors['observe_at'] = pp['observe']
            fh.write(json.dumps(dict(id=pp['pid'], title=pp['title'], statement=pp['statement'], quantifier=dict(over=pp['over'], text=pp['text']),
                                     why_tests_cant=pp['tests'], anchors=anchors)) + '\n')
    checks, missing = [], []
    for pp in PROPS:
        if not os.path.exists(os.path.join(ROOT, pp['pid'].lower() + '.py')):
            missing.append(dict(property=pp['pid'], reason='the check is not built yet'))
            continue
        checks.append(dict(property=pp['pid'], quick_cmd='./run.sh ' + pp['pid'], thorough_cmd='./run.sh %s thorough' % pp['pid'], technique=pp['technique'],
                           level='exploration', level_note=pp['note'] + '; explored over seeded random cases generated by Hypothesis, assuming the reference models of pbt/ref.py'))
    man = dict(version=1, setup_cmd='true', checks=checks, not_applicable=missing,
               notes='Python sources are used directly from /repo (nothing to build). Hypothesis is loaded from the sandbox\'s python tooling. '
                     'Known findings and fixed defects: known_findings.txt. A failing case is replayed by ./run.sh --replay FILE.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')
    print(len(checks), 'checks', [mm['property'] for mm in missing])


if __name__ == '__main__':
    main()
