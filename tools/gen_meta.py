"""Writes properties.jsonl and MANIFEST.json from one source.  Run:  python3 tools/gen_meta.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), hook=None, state=(), tech='', note='',
         level='model_checking'):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                          observe_at=list(observe), hook_needed=hook))
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, (id, statement.count('. '))
    P.append((d, tech, note, level))


prop('C01', 'Every pair of objects in range is counted exactly once, in its own bin',
     'With exact binning, a two-point correlation over any catalog(s), coordinate system, metric and bin type counts every pair of distinct objects whose separation (and line-of-sight separation) is in range exactly once, in the bin its separation belongs to, whatever tree was built over the points. Pair count, summed weight, mean separation and mean log separation of every bin are those of that set of pairs (both orders for directional 2-d bins), zero- and negative-weight objects included. Catalogs whose total is reported as the number of possible pairs report exactly that total.',
     ['inputs', 'configurations'], 'every catalog pair (any layout, duplicates, collinear, clumped, weights of either sign), metric, bin type and tree option',
     'The tests compare to brute force on a handful of random catalogs with one seed each, mostly Euclidean Log binning and positive weights; the pruning and splitting decisions depend on the geometry of each pair of cells.',
     ['include/BinType.h', 'include/Metric.h', 'src/Corr2.cpp', 'include/Cell.h', 'src/Cell.cpp', 'src/Field.cpp'],
     [('dual-tree recursion: recurse on both children, drop when too small/large, stop at single bin', 'src/Corr2.cpp process2/process11'),
      ('tooSmallDist/tooLargeDist/isRSqInRange/singleBin', 'include/BinType.h'),
      ('DistSq, isRParInsideRange, isRParOutsideRange per metric', 'include/Metric.h'),
      ('cell size and center from splitting', 'include/Cell.h, src/Cell.cpp')],
     ['npairs, weight, meanr, meanlogr, tot of a correlation after process()'],
     tech='TLC: exhaustive model checking of the dual-tree walk (PairWalk.tla) + TLC trace acceptance of complete recorded runs of the real code against PairSpec.tla',
     note='PairWalk is exhaustive on small integer point sets; the code is bound to PairSpec by recorded runs over random geometries (quick 5.6k, thorough 75k).')
prop('C02', 'Field values enter with the right product, spin phase and sign',
     'With exact binning, each pair contributes to its bin the weighted product of its two field values, a complex spin-s value first being rotated to the direction of the line joining the pair, measured locally at each object on the sky. The reported correlation function (real and imaginary; plus and minus components for complex times complex) is the weighted mean over the pairs in the bin, for every combination of count, scalar and spin 0-4 fields. It does not depend on which side of the 0/360 degree line, the poles or the origin the objects lie.',
     ['inputs', 'configurations'], 'every pair of catalogs of every supported field combination, coordinate system and metric',
     'Tests use smooth analytic shear patterns at small angles or few positions; sign conventions for each spin, order of fields and coordinate system only show for particular directions and values.',
     ['src/Corr2.cpp', 'include/ProjectHelper.h', 'src/Cell.cpp', 'treecorr/corr2base.py'],
     [('Project for Flat/Sphere/ThreeD', 'include/ProjectHelper.h'), ('directProcess11 and xi accumulation per data type', 'src/Corr2.cpp DirectHelper'),
      ('normalisation by weight', 'treecorr/*correlation.py _finalize')],
     ['xi, xi_im, xip, xip_im, xim, xim_im after process()'],
     tech='TLC trace acceptance of complete recorded runs against the projection semantics in PairSpec.tla',
     note='17 field combinations x coordinates x metrics; known finding: Periodic metric does not wrap the projection direction.')
prop('C03', 'bin_slop bounds the binning error of every pair',
     'With a non-zero bin slop, every pair whose separation is in range by more than the allowed slop is counted exactly once, no pair out of range by more than the allowed slop is counted, and no pair lands further from its own bin than the documented fraction of a bin. This holds for every catalog geometry and every tree. The total count and weight stay within the bounds these pairs allow in every cumulative range of bins.',
     ['inputs', 'configurations'], 'every catalog, bin_slop in (0, few], bin type, tree option',
     'Tests compare a few seeded catalogs to brute force within ad-hoc percentage tolerances, which a systematically wrong slop can satisfy.',
     ['include/BinType.h', 'src/Corr2.cpp', 'treecorr/corr2base.py'],
     [('singleBin tolerance tests', 'include/BinType.h'), ('b = bin_size*bin_slop', 'treecorr/corr2base.py __init__')],
     ['npairs per bin, cumulative'],
     tech='TLC: exhaustive model checking of the single-bin test (SlopWalk.tla) + TLC trace acceptance of complete recorded runs against SlopOut.tla: every interval of bins must hold between the pairs that have to be there and those that may be',
     note='Euclidean, Arc, Periodic; Log, Linear, TwoD; bin_slop 0.1-3 and default, angle_slop 0.02-1; clumps placed at bin edges; meanr inside its bin; rotation of complex fields bounded by angle_slop.')
prop('C04', 'Results do not depend on threads, tree shape or search options',
     'With exact binning, processing the same data gives the same results (to floating-point rounding) for every number of threads, split method, minimum and maximum top-level tree depth, brute-force choice and for catalogs served from or bypassing the field cache. Objects may be given in any order. No schedule of the worker threads can lose or duplicate a contribution.',
     ['schedules', 'configurations', 'inputs'], 'every interleaving of worker threads over top-level cells and every option combination',
     'A test run sees one schedule and one or two option sets; a lost update or a doubly processed top cell shows only for particular thread/top-cell splits.',
     ['src/Corr2.cpp', 'src/Corr3.cpp', 'src/Field.cpp', 'treecorr/config.py'],
     [('omp parallel with thread-local accumulator and critical merge', 'src/Corr2.cpp process'), ('top-level cells', 'src/Field.cpp')],
     ['all arrays of a correlation after process()'],
     tech='TLC: PairWalk.tla (threads, top cells, merge) over all interleavings + TLC trace acceptance of option sweeps of the real code',
     note='2-pt and 3-pt option sweeps on the same data.')
prop('C05', 'Splitting catalogs into patches never changes a correlation',
     'Dividing one or both catalogs into any number of patches, including empty and single-object ones, or passing a list of catalogs instead of one, gives the same final correlation as the undivided data, in memory-saving mode or not. The stored partial result of every pair of patches is the correlation between just those patches, and together the partial results account for every pair exactly once. Local patch selection gives the same total for cross-correlations as the global selection.',
     ['inputs', 'configurations', 'histories'], 'every assignment of objects to patches, with low_mem on or off, patch_method local or global, from memory or files',
     'Tests use a few k-means patchings of smooth catalogs, where skipped or doubled patch pairs that contribute nothing are invisible.',
     ['treecorr/corr2base.py', 'treecorr/catalog.py', 'src/Corr2.cpp'],
     [('_process_all_auto/_process_all_cross', 'treecorr/corr2base.py'), ('trivially-zero patch pair test', 'treecorr/corr2base.py _trivially_zero; src/Corr2.cpp TriviallyZero'),
      ('get_patches low_mem', 'treecorr/catalog.py'), ('results dictionary', 'treecorr/corr2base.py')],
     ['final arrays and results[(i,j)]'],
     tech='TLC: PatchProc.tla exhaustive over patch assignments + TLC trace acceptance of patched runs (totals and every results entry) against PairSpec',
     note='results entries are checked pair set by pair set.')
prop('C06', 'Processing with several MPI ranks equals serial processing',
     'For every number of ranks, division of patch pairs between ranks and order in which the partial results arrive, processing with a communicator produces on rank 0 the same correlation, per-patch results and covariance as serial processing. Every patch pair is processed by exactly one rank. No rank waits forever.',
     ['schedules', 'configurations'], 'every rank count, patch pattern and arrival order',
     'MPI tests in this environment cannot run under mpirun; the mock runs one patch pattern with 2-4 ranks.',
     ['treecorr/corr2base.py', 'treecorr/corr3base.py'],
     [('is_my_job', 'treecorr/corr2base.py, corr3base.py'), ('send/recv accumulation', 'treecorr/corr2base.py _process_all_*')],
     ['rank-0 arrays and results keys'],
     tech='TLC: MpiProc.tla over all interleavings of work, sends and receives (buffered and rendezvous, several rounds), liveness included + TLC trace acceptance (MpiTrace.tla) of runs on a simulated communicator under random schedules',
     note='simulated communicator (threads) in place of mpi4py, which is not installed.')
prop('C07', 'Covariance estimates follow their definitions over the patches',
     'For every patch configuration, weights and number of patches, the jackknife, sample, marked-bootstrap and bootstrap covariance estimates (and the design matrix they come from) equal their published definitions applied to the partial results of the patches: leave-one-out, single-patch or resampled subsets of patch pairs, with each pair of patches weighted as selected. Multi-statistic covariances stack the same subsets. Patches that contribute nothing are treated consistently in all of them.',
     ['inputs', 'configurations'], 'every patch layout, statistic list, method, cross_patch_weight and function applied to the statistics',
     'Tests compare jackknife to a hand computation on one or two smooth catalogs, and bootstrap only statistically.',
     ['treecorr/corr2base.py', 'treecorr/corr3base.py'],
     [('estimate_multi_cov and _cov_*', 'treecorr/corr2base.py'), ('_jackknife_pairs, _sample_pairs, _bootstrap_pairs', 'treecorr/corr2base.py, corr3base.py')],
     ['cov, estimate_cov, build_cov_design_matrix, varxi'],
     tech='TLC trace acceptance against CovOut.tla, which defines each estimator over the set of per-patch-pair results',
     note='bootstrap checked by replaying the recorded random draw.')
prop('C08', 'Count estimators combine data and randoms by the stated formulas',
     'The natural, Landy-Szalay, compensated and cross estimators formed from data-data, data-random, random-data and random-random counts, with the counts normalised by the total possible (weighted) pairs or triangles, equal their formulas in every bin, including when patches or total weights differ between catalogs. Variances and covariances come from the same combination applied to every resampling. Calculating one estimator never changes the counts and can be repeated or replaced.',
     ['inputs', 'histories', 'configurations'], 'every data/random catalog set, patch layout and order of calculate calls',
     'Tests use one data set per estimator; missing dr/rd symmetry, normalisation per patch and repeated calls are not sampled.',
     ['treecorr/nncorrelation.py', 'treecorr/nnncorrelation.py', 'treecorr/corr2base.py'],
     [('calculateXi, _calculate_xi_from_pairs', 'treecorr/nncorrelation.py'), ('calculateZeta', 'treecorr/nnncorrelation.py'), ('_add_tot', 'treecorr/nncorrelation.py, nnncorrelation.py')],
     ['xi, varxi, cov, zeta'],
     tech='TLC trace acceptance of recorded estimates against EstOut.tla, which states the estimators over the recorded counts', note='NN and NNN.')
prop('C09', 'Randoms are subtracted correctly from count-field correlations',
     'The compensated estimator of a count-field correlation is the raw correlation minus that of the randoms, bin by bin, in the result, in every patch resampling and in the covariance. It can be calculated again with other or no randoms and always starts from the raw data. The raw values stay available.',
     ['inputs', 'histories'], 'every catalog with patches in data and randoms that may or may not coincide',
     'Tests compute it once for one layout per class.',
     ['treecorr/nkcorrelation.py', 'treecorr/ngcorrelation.py', 'treecorr/nzcorrelation.py'],
     [('calculateXi(rk/rg/..)', 'treecorr/n?correlation.py'), ('_calculate_xi_from_pairs', 'treecorr/n?correlation.py')],
     ['xi, raw_xi, varxi, cov'],
     tech='TLC trace acceptance of recorded estimates against NxOut.tla, which states the compensation over the recorded parts', note='NK, NZ, NV, NG, NT, NQ.')
prop('C10', 'Accumulating results in steps equals doing it at once',
     'Processing data in several calls without re-initialising, finalising only at the end, or adding two compatible unfinalised correlations, gives the same result as processing everything in one go; a cleared correlation behaves like a new one. Adding a correlation of another class or with other bins is refused and leaves the target unchanged. This holds for every history of process, add, clear, copy and finalise calls.',
     ['histories', 'inputs'], 'every sequence of process/add/clear/copy/finalise calls',
     'Tests exercise one add and one two-step sequence per class.',
     ['treecorr/corr2base.py', 'treecorr/corr3base.py', 'treecorr/nncorrelation.py', 'src/Corr2.cpp'],
     [('process(initialize, finalize), _clear, __iadd__, _sum', 'treecorr/*correlation.py')],
     ['all arrays, results, tot'],
     tech='TLC: Accum.tla state machine checked exhaustively; behaviours generated from it by TLC (AccumGen) replayed on real correlations, whose recorded states are judged against it (AccumOut)', note='histories of 12 operations on 3 objects and 3 pieces of data.')
prop('C11', 'Catalog memory management and copying are invisible',
     'A catalog behaves identically whether its data are in memory, not yet loaded, unloaded and reloaded from file, copied or pickled, and whichever of its attributes is asked for first. Patches obtained from it always hold exactly its own objects. No sequence of load, unload, copy, pickle and access operations changes any value.',
     ['histories', 'inputs'], 'every order of access, load, unload, copy, pickle, get_patches and clear_cache operations on in-memory and file catalogs',
     'Tests try single fixed sequences.',
     ['treecorr/catalog.py'],
     [('lazy load, unload, __getstate__', 'treecorr/catalog.py'), ('get_patches, _get_patch_index', 'treecorr/catalog.py')],
     ['columns, sumw, nobj, patches'],
     tech='TLC: CatLife.tla state machine checked exhaustively; behaviours generated from it by TLC (CatLifeGen) replayed on real catalogs, every observation judged by CatLifeOut/CatLifeTrace against CatInput', note='arrays and files; select, combine, copy, pickle, unload, get_patches, write/read_patches; two known findings about patch numbers without objects')
prop('C12', 'Catalog input means what was given',
     'Every accepted combination of columns, units, weights, weight positions, flags, row ranges, sign flips and file format produces the catalog of exactly the selected rows, converted to the documented internal form, in order; from arrays or from ASCII, FITS or HDF5 files alike. Rows flagged, out of range, or not a number contribute nothing. Inconsistent input is refused.',
     ['inputs', 'configurations'], 'every combination of column, unit, flag, row-range and file options',
     'Tests sample options one at a time.',
     ['treecorr/catalog.py', 'treecorr/reader.py'],
     [('__init__, _read_file, _finish_input, select', 'treecorr/catalog.py'), ('readers', 'treecorr/reader.py')],
     ['x,y,z,ra,dec,r,w,wpos,fields,patch,nobj,sumw'],
     tech='TLC trace acceptance: the whole input table and options of every catalog, and all its public columns and numbers, are judged by CatInput.tla (rows, units, flags, NaN, weights, patches, refusals)', note='Parquet cannot run here (pyarrow needs NumPy 2); values of kept rows that hold a NaN are not judged')
prop('C13', 'Patches partition the catalog and survive a round trip',
     'Every object belongs to exactly one patch: the one whose center is nearest when centers are given, or the one it was assigned. Selecting a single patch while reading a file yields exactly the objects that a full read assigns to it. Patch centers and patch files written out and read back give the same patches.',
     ['inputs', 'configurations', 'histories'], 'every set of centers (ties included), catalogs and file round trip',
     'Tests use generic positions without ties and one file layout.',
     ['treecorr/catalog.py', 'src/KMeans.cpp', 'treecorr/field.py'],
     [('_set_patches, SelectPatch', 'src/KMeans.cpp, treecorr/catalog.py'), ('write_patches/read_patches, write/read_patch_centers', 'treecorr/catalog.py')],
     ['patch arrays, patch_centers, files'],
     tech='TLC trace acceptance: labels, centers, single-patch reads and patch files of recorded runs judged by PatchAssign.tla', note='ties up to 1e-12 left open except that all reads must agree')
prop('C14', 'The field cache never returns the wrong field',
     'A field obtained from a catalog always corresponds to the requested kind, sizes, splitting options and coordinates and to the current data, whatever was requested, cached, evicted, resized or cleared before. The cache holds at most its configured number of fields, dropping the least recently used first. Its size can be changed at any time without losing validity.',
     ['histories', 'configurations'], 'every sequence of field requests, resizes and clears',
     'Tests run a few fixed sequences.',
     ['treecorr/util.py', 'treecorr/catalog.py'],
     [('LRU_Cache', 'treecorr/util.py'), ('getNField.. resize_cache, clear_cache, field', 'treecorr/catalog.py')],
     ['identity and content of returned fields, cache size'],
     tech='TLC: LruCache.tla exhaustive, LruLinks.tla (linked-list code) refines it; TLC-generated behaviours (LruGen.tla) replayed on LRU_Cache; recorded Catalog histories accepted by FieldOut.tla', note='')
prop('C15', 'Neighbour counts and lists are exact',
     'Counting or listing the objects of a field within a separation of a given point returns exactly the objects within that separation, in any coordinates and units. The list contains each index once. It does not depend on the tree.',
     ['inputs', 'configurations'], 'every catalog, point, radius, tree options',
     'Tests use one catalog and a few points.',
     ['src/Field.cpp', 'treecorr/field.py'],
     [('countNear/getNear', 'src/Field.cpp')], ['count_near, get_near results'],
     tech='TLC: exhaustive model checking of the tree descent (NearWalk.tla) + TLC trace acceptance of recorded queries against NearOut.tla', note='')
prop('C16', 'K-means patches are a proper nearest-center partition',
     'Running k-means on a field labels every object with exactly one patch number in range, every object with its nearest center as returned, whatever the initialisation, tree and algorithm. Each iteration of the standard algorithm moves every center to the weighted mean of its objects (a patch without objects keeps its center) and never increases the inertia, stopping by the documented rule. Initial centers are distinct while distinct points suffice, and results for the same random generator are reproducible.',
     ['inputs', 'configurations'], 'every catalog, patch count, initialisation, seed and algorithm',
     'Tests check quality statistics on large random catalogs.',
     ['src/KMeans.cpp', 'treecorr/field.py'],
     [('KMeansInitTree/Rand/KMPP, KMeansRun, KMeansAssign', 'src/KMeans.cpp')], ['patches, centers of run_kmeans and its three parts, Catalog(npatch=)'],
     tech='TLC: exhaustive model of the candidate culling (KMeansCull.tla); trace acceptance of recorded refinement steps and runs against KMeansOut.tla', note='means on the sphere are judged to third order in the patch extent (the code averages cell centers); alternate algorithm: labels only')
prop('C17', 'Sampled pairs are real, distinct pairs in the requested range',
     'Sampling pairs from a correlation returns only pairs of objects whose separation is in the requested range, with the right separations, each at most once, and min(n, number of such pairs) of them. With enough room it returns all of them. Every pair has a chance of being selected.',
     ['inputs', 'configurations', 'schedules'], 'every catalog, range, n and seed',
     'Tests check a few n values on one catalog.',
     ['src/Corr2.cpp', 'treecorr/corr2base.py'], [('sample_pairs / samplePairs', 'treecorr/corr2base.py, src/Corr2.cpp')],
     ['i1,i2,sep'], tech='TLC: Sampler.tla (reservoir sampling over accepted cell pairs, exact selection counts) exhaustive + trace acceptance of recorded samples against SampleOut.tla', note='quick 900 recorded samples; with cat1 is cat2 both orders are distinct pairs')
prop('C18', 'Writing and reading a correlation preserves it',
     'A correlation written to any supported format and read back reproduces all its arrays, metadata, covariance and (when written) per-patch results, so that estimates and further combination give the same answers. The precision option only limits ASCII digits. Reading never needs parameters beyond the file name for files written by the same version.',
     ['inputs', 'configurations', 'histories'], 'every class, format, binning, with or without covariance, patch results and randoms',
     'Tests cover each class with one or two formats.',
     ['treecorr/corr2base.py', 'treecorr/corr3base.py', 'treecorr/writer.py', 'treecorr/reader.py'],
     [('write/_write/from_file/_read', 'treecorr/corr2base.py, corr3base.py')], ['all arrays and attributes after reading'],
     tech='TLC: RoundTrip.tla model of write/read with stale state (and a variant that must fail) + TLC-generated histories (RoundTripGen) replayed on the real classes, judged by RoundTripOut.tla', note='every class, format, per-patch results, covariances; reading into used objects; continuing to process what was read.')
prop('C19', 'Copies are independent and equal',
     'Copying, deep-copying or pickling a correlation gives an object equal to the original in every observable, and later operations on either never affect the other. Two correlations are equal exactly when their class, binning options and all accumulated arrays agree.',
     ['histories'], 'every history of operations on original and copy',
     'Tests compare right after the copy only.',
     ['treecorr/corr2base.py', 'treecorr/corr3base.py'], [('copy, __getstate__, __eq__', 'treecorr/corr2base.py, corr3base.py, *correlation.py')],
     ['arrays, results, cov of both objects'],
     tech='TLC: AccumRefs.tla (sharing of per-patch results between copies) refines Accum.tla; behaviours of Accum with copies, generated by TLC, replayed on real correlations and judged against it (AccumOut)', note='copy(), copy.deepcopy and pickle; copy.copy is a shallow copy in the sense of Python and shares arrays.')
prop('C20', 'Every triangle in range is counted once in its bin with the right product',
     'With exact binning, a three-point correlation counts every triangle of distinct objects whose shape is in range exactly once in the bin of its shape (for each order considered, in the ordered and unordered cross-correlations), with weight, mean sides, opening angle and the projected product of the three field values. It holds for all bin types, coordinate systems and field combinations. The number of triangles does not depend on tree or options.',
     ['inputs', 'configurations'], 'every set of catalogs, bin type, ordering and tree option',
     'Tests use brute force on a few seeded small catalogs.',
     ['src/Corr3.cpp', 'include/BinType.h', 'include/ProjectHelper.h', 'treecorr/corr3base.py'],
     [('process3/12/111, singleBin for LogRUV, LogSAS', 'src/Corr3.cpp, include/BinType.h'), ('ProjectX', 'include/ProjectHelper.h')],
     ['ntri, weight, meand*, meanu.., zeta or gam*'],
     tech='TLC: exhaustive model checking of the walk over one, two and three cells (TriWalk.tla) + TLC trace acceptance of complete recorded runs against the triangle semantics in TriSpec.tla', note='NNN, KKK, GGG; LogRUV and LogSAS; 3-9 objects per catalog. Known finding: Periodic metric does not wrap the projection directions.')
prop('C21', 'Patches never change a three-point correlation',
     'Dividing catalogs into any patches, with either patch method, gives the same three-point correlation as undivided data, and the per-patch-triple results add up to it. Resampled estimates follow the same definitions as for two points. Memory-saving mode changes nothing.',
     ['inputs', 'configurations'], 'every assignment of objects to patches',
     'Tests use one patching of one catalog.',
     ['treecorr/corr3base.py'], [('_process_all_auto/cross12/cross', 'treecorr/corr3base.py')], ['final arrays and results'],
     tech='TLC trace acceptance of complete recorded runs against TriPatchOut.tla (the triangles of TriSpec.tla, distributed over patch triples)', note='global and local patch methods, one/two/three catalogs, undivided next to divided, low_mem, empty patches; rows of results keyed by patch triple must hold exactly their triangles.')
prop('C22', 'Multipole expansion agrees with direct triangle counting',
     'The multipole coefficients computed from shells around each point equal the Fourier sums over all triangles, so converting to angle bins gives the same values as summing the coefficients at the bin centers. Weights, counts and all field combinations agree. This holds for every catalog and coordinate system.',
     ['inputs', 'configurations'], 'every catalog set, max_n and binning',
     'Tests compare a few catalogs.',
     ['src/Corr3.cpp', 'treecorr/corr3base.py'], [('multipole accumulation', 'src/Corr3.cpp BaseMultipoleScratch, calculateGn, calculateZeta'), ('toSAS', 'treecorr/*correlation.py')],
     ['weight_n, zeta_n, gam*_n, toSAS'],
     tech='TLC trace acceptance of complete recorded runs against TriSpec.tla (coefficients = sums over triangles) and MulOut.tla (conversion to angle bins)', note='NNN, KKK, GGG; max_n 0-6; toSAS and default LogSAS runs with patches. Known findings: Periodic phases, coincident objects.')
prop('C23', 'Bin parameters derive consistently from any valid subset',
     'Giving any accepted combination of range, bin count and bin size yields the same derived binning by the documented rules: edges, nominal centers, slop; any other combination is refused. The derived bins tile the range exactly. It holds with all units, for two- and three-point binnings.',
     ['inputs', 'configurations'], 'every subset of parameters, value and unit',
     'Tests check particular values.',
     ['treecorr/corr2base.py', 'treecorr/corr3base.py'], [('__init__ derivations', 'treecorr/corr2base.py, corr3base.py')], ['nbins, bin_size, min/max, edges, rnom, b'],
     tech='TLC: BinParamsMC.tla (every subset of parameters on a small grid, exhaustively) + TLC trace acceptance of real constructions against BinParams.tla', note='phi_bin_size is in radians whatever phi_units; Linear with negative min_sep not constrained.')
prop('C24', 'Configuration-driven runs equal the same calls in Python',
     'Running from a configuration (dict or YAML/JSON file, command line overrides, aliases) computes and writes the same results as the equivalent explicit calls, for every class of output named. Unknown or invalid parameters are refused; values are converted by type. Keyword arguments take precedence over the configuration.',
     ['configurations', 'inputs'], 'every parameter dictionary and statistic choice',
     'Tests run one configuration per class.',
     ['treecorr/config.py', 'treecorr/exec_corr2.py', 'treecorr/exec_corr3.py'],
     [('parse_value, check_config, merge_config', 'treecorr/config.py'), ('corr2, corr3', 'treecorr/exec_corr2.py, exec_corr3.py')], ['returned values and output files'],
     tech='TLC: ConfigMC.tla exhaustive over small configurations + TLC trace acceptance (ConfigTrace.tla) of parameter texts, checks and merges of configurations, and of corr2/corr3 runs from dict, YAML, JSON, parameter file and command line compared with the explicit calls', note='values with a meaning the documentation leaves open (floats for integers, explicit None) are not generated.')
prop('C25', 'Writing and reading a catalog preserves it',
     'A catalog written to any supported format and read back has the same objects, positions, weights, fields and patches, up to the ASCII precision. Optional columns are written exactly when they carry information. It holds for any coordinate system and set of fields.',
     ['inputs', 'configurations'], 'every combination of columns and format',
     'Tests write a handful of column sets.',
     ['treecorr/catalog.py', 'treecorr/writer.py', 'treecorr/reader.py'], [('Catalog.write, read', 'treecorr/catalog.py'), ('writers', 'treecorr/writer.py')], ['columns after round trip'],
     tech='TLC trace acceptance: column names, order and values of the written file (read independently) and the catalog read back, judged by CatWrite.tla over CatInput.tla', note='ASCII, FITS and HDF5; Parquet cannot run here')
prop('C26', 'Derived aperture statistics follow their formulas',
     'Aperture-mass, tophat and normalised statistics computed from a correlation equal the documented discrete sums over its bins with the documented kernels, for every aperture radius, and their variances propagate the bin variances. Calling them never changes the accumulated data. Any choice of kernel family and radius list is honoured.',
     ['inputs', 'configurations'], 'every correlation, kernel and radius',
     'Tests compare to analytic integrals with percent-level tolerance.',
     ['treecorr/ggcorrelation.py', 'treecorr/ngcorrelation.py', 'treecorr/nncorrelation.py'],
     [('calculateMapSq, calculateGamSq, calculateNMap, calculateNapSq', 'treecorr/*correlation.py')], ['returned arrays'],
     tech='TLC trace acceptance against Derived.tla: the documented discrete sums with the documented kernels (general Schneider-Kilbinger-Lombardi kernel for any k1,k2,k3)', note='MapSq, GamSq, NMap, NapSq, Norm, Map3 and the written files.')

import sys
sys.path.insert(0, V)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, *_ in P:
        f.write(json.dumps(d) + '\n')
built = [d['id'] for d, *_ in P if os.path.exists(os.path.join(V, 'props', d['id'].lower() + '.py'))]
man = dict(version=1, setup_cmd='/opt/venv/bin/python -m vt.build',
           checks=[dict(property=d['id'], quick_cmd='/opt/venv/bin/python check.py %s --tier quick' % d['id'],
                        thorough_cmd='/opt/venv/bin/python check.py %s --tier thorough' % d['id'],
                        technique=t, level=lv, level_note=n or 'see DESIGN.md') for d, t, n, lv in P if d['id'] in built],
           not_applicable=[dict(property=d['id'], reason='the specification and conformance driver for this property are not built yet') for d, *_ in P if d['id'] not in built])
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
print('claimed', built)
