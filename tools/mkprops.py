#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, q, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=['package/inference/'+f for f in files],
            state=[dict(name=a, meaning=b, where='package/inference/'+c) for a,b,c in state],
            mechanism=[dict(name=a, where='package/inference/'+b) for a,b in mech],
            observe_at=list(observe), hook_needed=None)))

prop('C01','Parameter roles and role lists agree after every history',
 'After any sequence of parameter operations (assign/fix, vary, linear or log step, refused operations included), every parameter that has been used is in exactly one of the fixed, varying and stepping lists of its inference, exactly once, and that list is the one named by its status. Re-declaring a parameter in the role it already has keeps its place in the list; a parameter entering a role goes to the end of that list and the order of the others is unchanged. A parameter has a stepping direction recorded exactly when it is stepping, and any change that adds, removes or re-declares a stepping parameter puts every stepping parameter back at its first step, heading forward.',
 ['histories','inputs'],'All histories of role changes over any number of parameters, from every reachable state.',
 'The tests walk a handful of fixed two- or three-parameter sequences; a lost or duplicated list entry only shows after particular role transitions with other parameters present.',
 ['pie/inference_base.py','pie/param.py','pie/realparam.py'],
 [('_on_param_status_change','pie/inference_base.py'),('_set_status','pie/param.py'),('reset_steps','pie/inference_base.py')],
 [('fixed_params/varying_params/stepping_params','ordered role lists','pie/inference_base.py'),('stepping_info','direction per stepping parameter','pie/inference_base.py')],
 ['fixed_params','varying_params','stepping_params','stepping_info'])

prop('C02','A bounded parameter never takes a value outside its allowed range',
 'Once a parameter has an allowed range, setting a varying parameter, fixing it to a value, or starting it varying with a start value succeeds exactly when the value lies in the closed range, and then the parameter has exactly that value; otherwise the call raises a range error and the value is unchanged. Declaring steps succeeds only if both given ends lie in the closed range; a refused declaration raises a range error and leaves value, status and stepping state unchanged. Setting the value of a parameter that is not varying is always refused and changes nothing.',
 ['inputs','histories'],'All ranges, values, current values and statuses.',
 'Tests try one inside and one outside value; the closed end points and state after a refusal are not sampled.',
 ['pie/realparam.py','pie/param.py'],
 [('set_value/fix/vary/range/linstep/logstep','pie/realparam.py'),('_set_value','pie/param.py')],
 [('lo, hi, bounded','allowed range','pie/realparam.py')],['get_value','ParamRangeError'])

prop('C03','Unbounded access maps the real line into the range, invertibly',
 'Setting a varying parameter through its unbounded (logistic) coordinate always leaves its value inside the closed allowed range, strictly increasing in the coordinate, with coordinate zero giving the middle of the range and coordinates too large for the exponential giving the corresponding end. Reading the unbounded coordinate back after setting it returns the coordinate that was set, and setting the coordinate that was read leaves the value unchanged (up to rounding). Unbounded access is refused, without changing anything, for parameters that are not varying.',
 ['inputs'],'All ranges lo<hi, all real coordinates, all interior values.',
 'No test reads a coordinate back; a wrong sign or exchanged end still produces values inside the range.',
 ['pie/realparam.py'],[('_unbounded_get_value/_unbounded_set_value','pie/realparam.py')])

prop('C04','A stepping parameter visits exactly the declared step values',
 'A parameter declared to step linearly (logarithmically) from lo to hi in n points takes, at step index i, the i-th of the n equally spaced (geometrically spaced) values, starting at exactly lo and reaching exactly hi at index n-1, whatever mix of forward, backward, first and last moves led there. Stepping past either end raises a range error and leaves index and value unchanged, and stepping a parameter that is not stepping is refused.',
 ['histories','inputs'],'All lo, hi (same sign for log), n>=2, and all sequences of next/previous/first/last moves.',
 'Tests step through one short grid forward; backward moves after partial forward walks and the exact end points are not covered.',
 ['pie/realparam.py'],[('linstep/logstep/next_step/prev_step/first_step/last_step','pie/realparam.py')],
 [('step_num, steps, slo, shi, delta/fac','stepping state','pie/realparam.py')])

prop('C05','Grid traversal visits every grid point exactly once, then stops and resets',
 'Starting from the reset state, repeatedly advancing an inference with any number of stepping parameters visits every combination of step indices exactly once, changing exactly one parameter by exactly one step at each advance (first-declared parameter fastest, zig-zag). The advance after the last combination raises the stop signal, and leaves every stepping parameter at its first step, heading forward. The reported index tuple and shape always list, in declaration order, the current index and number of steps of each stepping parameter.',
 ['histories','inputs'],'Any number of stepping parameters with any numbers of steps.',
 'Tests run two parameters with fixed sizes; the zig-zag order for three or more parameters and odd/even or one-point axes is not sampled.',
 ['pie/inference_base.py','pie/realparam.py'],[('next_step/reset_steps/step_nums/step_shape','pie/inference_base.py')])

prop('C06','Every grid result cell holds the score at that grid point',
 'Evaluating an inference on its stepping grid returns an array with one axis per stepping parameter, in declaration order, whose every cell equals the score (with varying parameters: the score optimised at that point) evaluated with the stepping parameters at that cell\'s step values; no cell is left unset. With varying parameters, the reported best value and index are the best (largest when maximising, smallest when minimising) cell of the array, and the companion array of best-fit values holds, per cell, the optimised varying parameters for that cell.',
 ['inputs','configurations'],'All grids, score functions, extremisation directions and optimisers\' results.',
 'A test compares one grid of a fixed model; a cell written at the wrong index or a wrong running optimum for minimisation passes.',
 ['pie/inference_base.py','pie/containers.py'],[('do_grid/fit','pie/inference_base.py'),('ScalarGrid/VectorGrid','pie/containers.py')])

prop('C07','Scores are the documented statistics of the data and the model',
 'For a Gaussian-sampled data set, chi-squared is the sum over all data of ((value - predicted signal)/sigma) squared, with the prediction evaluated at the current parameter values and the datum\'s location, and the log likelihood is minus half of it; several data sets add up. The chi-squared inference scores the chi-squared, the maximum-likelihood inference the log likelihood, and the Bayesian inference the log likelihood plus the log prior. The function handed to optimisers sets the varying parameters, in declaration order, to its argument and returns the score for minimised and minus the score for maximised statistics.',
 ['inputs','configurations'],'All data, any number of data and data sets, all model functions (scalar or vectorised signal) and parameter values.',
 'Tests fit a model and look at one number; a dropped datum, cached stale prediction or wrong sign shows only on particular data.',
 ['pie/gaussian.py','pie/chisqr.py','pie/maxlike.py','pie/bayes.py','pie/inference_base.py'],
 [('get_prdxns/chisqr/log_like','pie/gaussian.py'),('score','pie/chisqr.py'),('score','pie/maxlike.py'),('score/_logp_func','pie/bayes.py'),('_score','pie/inference_base.py')])

prop('C08','Simulating data in one inference never changes the shared original data',
 'Whatever simulation operations (whole set, single datum, additional data) are performed through one inference instance, the original data arrays given to the predictor, and the data seen by every other instance using that predictor, are unchanged. Simulated values equal the prediction at the (possibly replaced) location plus sigma times the drawn standard normal deviate, for all data or exactly for the chosen or added data, leaving the other data alone; the number of data follows, and arrays of the wrong length are refused.',
 ['inputs','histories'],'All data, replaced locations/sigmas, all sequences of simulations over several instances.',
 'Tests use a single instance; aliasing of the shared arrays is visible only with a second instance or a later reload.',
 ['pie/gaussian.py','pie/predictor.py'],[('localize_data/changing_data/sim/sim1/set_data','pie/gaussian.py'),('Predictor.__get__','pie/predictor.py')],
 [('_locns,_vals,_sigmas','shared original data','pie/gaussian.py')])

prop('C09','Parameter snapshots are independent copies and restore exactly',
 'A snapshot of the parameters stores every parameter\'s current value under its name and is not affected by later changes of the parameters. Restoring a snapshot gives every parameter exactly its stored value and keeps its role; restoring while some parameter is stepping is refused with a parameter error.',
 ['inputs','histories'],'All values, any mix of fixed and varying roles.',
 'Tests take a snapshot and print it; independence and exact restoration under other roles is not checked.',
 ['pie/inference_base.py','pie/containers.py','pie/realparam.py'],[('get_params/set_params','pie/inference_base.py'),('ParamValues.store','pie/containers.py'),('copy_value','pie/realparam.py')])

prop('C10','Minimisers return a consistent, never-worse point',
 'Every minimiser (bracketing, line search, direction-set) returns a function value that is the function evaluated at the returned point, and it is not larger than the value at any starting point it was given; the initial bracket it hands on really brackets, with a middle point between the outer ones and not higher than either. The one-dimensional search never evaluates or returns a point outside its bracket, returns the smallest of all the values it saw, and, for a function with a single minimum in the bracket, ends within twice its tolerance (relative to the point, plus 1e-10) of that minimum; and the starting point given by the caller is not modified.',
 ['inputs','programs'],'All objective functions, starting points, directions and tolerances for which the search returns.',
 'Tests minimise two or three smooth functions; bookkeeping errors in rarely taken branches (parabolic limit, degenerate steps) are not reached.',
 ['utils/nrmin.py'],[('MinBracket/brent/LineFunc/linmin/powell','utils/nrmin.py')])

prop('C11','A fit reports and leaves the model at the optimum it found',
 'Fitting varying parameters returns values and a statistic such that the model, when evaluated at the returned values, scores exactly the returned statistic, the returned values are those the model is left at, and the statistic is not worse than at the starting values. This holds with and without mapping of the parameter bounds, for maximised and minimised statistics; fixed parameters are not changed.',
 ['inputs','configurations'],'All models, start values, step scales, mapped or unmapped bounds, both directions.',
 'Tests compare the best fit with a loose tolerance; they never check that the model state and returned values agree.',
 ['pie/inference_base.py','utils/nrmin.py'],[('optimize/fit/_score','pie/inference_base.py')])

prop('C12','Grid quadrature above a threshold integrates the tabulated function',
 'For any table of values on a unit-spaced grid, the one-dimensional routine returns the integral of the piecewise linear interpolant over the part of the range where it exceeds the critical value; the two-dimensional routine does this along every row and combines the rows by the trapezoid rule. With a critical value below every tabulated value this is the full (product) trapezoid rule, and with one at or above all of them it is zero. For a non-negative table the result is not negative and never increases when the critical value is raised. The table is not modified, and repeating a call repeats its result.',
 ['inputs'],'All grid sizes, tabulated values and critical values.',
 'Tests use a few analytic functions on a fixed grid with wide tolerance; the partial-cell branches are each reached for few values.',
 ['grid/_gridquad.f'],[('qgt1d/qgt2d','grid/_gridquad.f')])

prop('C13','Highest-density region levels enclose the requested probability',
 'For any tabulated log density on a grid of at least two points per axis (and any log density function, tabulated on such a grid), linear or logarithmic in each axis: the reported log normalisation is the log of the trapezoid integral of the density (in the stepping variables: p(log x) on a logarithmic axis) and the fraction above a log level, relative to the tabulated maximum, is the integral of the density where it exceeds that level divided by the normalisation. The critical level returned for a requested probability (or number of standard deviations of a one-dimensional normal) is within the tolerance, in log level, of one that encloses that fraction above it, so larger probabilities get lower levels; the probability, log ratio and absolute level are recorded, and a failure to find a level raises instead of returning one. In one dimension the interval bounds reported are exactly the points, in order, where the interpolated log density (in the stepping variable) crosses the level; more than ten of them raises. The tabulated arrays given by the user are not modified.',
 ['inputs'],'All densities, grids, steppings, tolerances and probability levels in (0,1).',
 'Tests check a Gaussian at three levels.',
 ['grid/hpd.py','grid/hpdgrid.py','grid/_gridquad.f','utils/numutils.py'],[('HPD1D/HPD2D','grid/hpd.py'),('HPDGrid1D/HPDGrid2D','grid/hpdgrid.py'),('xvalues','grid/_gridquad.f'),('zbracket','utils/numutils.py')])

prop('C14','Refined interval lists stay an ordered tiling of the range',
 'After any sequence of updates, the intervals of a self-refining one-dimensional list are in increasing order, contiguous and cover exactly the original range, each with the step that divides its (log) length by its number of steps. An update never makes the spacing coarser anywhere, leaves it as it was outside the given sub-range widened to the neighbouring grid points, and inside makes it at least as fine as asked (for a request more than five times finer than the points there: the number of points asked for over the widened sub-range); a sub-range off the list is refused without effect. The point counts agree with the intervals, and looking up an abscissa or a point number gives the interval (and point within it) that holds it.',
 ['histories','inputs'],'All ranges and all sequences of sub-range updates.',
 'Tests run one update sequence.',
 ['grid/grid1d.py'],[('BasicInterval/RefinedIntervalList1D.update/merge','grid/grid1d.py')])

prop('C15','The list of labelled maxima holds exactly the best entries offered',
 'After any sequence of offered (label, value) pairs, the list is sorted from largest to smallest value, never longer than its capacity, contains only offered pairs whose value is within the allowed range below the largest, and lacks an admissible offered pair only if the list is full of entries at least as large.',
 ['histories','inputs'],'All sequences of updates, capacities and dynamic ranges.',
 'Tests insert one sequence.',
 ['grid/grid1d.py'],[('LabeledMaxList.update','grid/grid1d.py')])

prop('C16','One-dimensional grid integrals are the trapezoid rule of the stored samples',
 'A one-dimensional grid\'s (log) trapezoid integral equals the trapezoid rule applied to its stored points (to their exponentials, returned as a log, without overflow however large the logs), and the m-th moment the same with weight x to the m. The integrals of a grid made of several grids are the sums over the parts (moments weighted by the integrals), and a sub-grid at grid points carries the same samples. The samples are the function values at the equally (or log-equally) spaced points from the lower to the upper end; evaluating step by step or all at once stores the same samples and offers the same maxima.',
 ['inputs','histories'],'All grids of any size and stored values.',
 'Tests integrate one Gaussian with tolerance.',
 ['grid/grid1d.py'],[('SampledIntvl/Grid1D integration methods','grid/grid1d.py')])

prop('C17','On/off source-detection results follow from one signal distribution',
 'For given on/off counts and exposures, the posterior probabilities of 0..n_on signal counts are non-negative and sum to one, and the marginal distribution of the signal rate is the mixture of gamma densities with those weights, for scalar and array arguments alike. Any single count probability equals the corresponding entry of the full array, and nothing a caller does with returned arrays or in what order results are requested changes later results.',
 ['inputs','histories'],'All counts, exposures, signal values and orders of requests.',
 'Tests evaluate a few counts; zero counts, integer arrays and cached results reused are not sampled.',
 ['count/onoff.py','count/_cbmlike.f'],[('OnOff methods','count/onoff.py'),('sigctp','count/_cbmlike.f')])

prop('C18','On/off likelihood series and Poisson terms match their formulas',
 'The compiled routines return, to rounding, what they document. The log marginal likelihood is the logarithm of the sum of a run of consecutive terms of the finite series around the largest one, which ends on each side at the last term there is or at one not above the cutoff times the largest; the number of terms returned is that of the run, and the derivative is that of this sum with respect to the signal rate. At zero signal it is the first term and its derivative, also with no counts. An error is flagged exactly when the largest term is outside exp(-700)..exp(700), and otherwise the results are finite. The offset is the logarithm of a term of the series near the estimated peak. The Poisson probability is exp(-m) m^n/n! whatever was evaluated before. Vector versions agree element by element with the scalar ones and leave their arguments alone.',
 ['inputs','histories'],'All counts, rates, exposures, offsets, cutoffs and call orders.',
 'Tests compare a few values.',
 ['count/_cbmlike.f','count/onoff.py'],[('slmlike/slmliked/vslmlike/slml_offset/vslml_offset/ppois','count/_cbmlike.f')])

prop('C19','Derivative step scales change the log density by the requested amount',
 'The step finder returns, per parameter, a step for which the log density drops below its maximum by the requested amount to within the tolerance (an absolute difference of log density), with all other parameters at their mode, or raises an error; a density that is undefined at the trial point never counts as success, the density is evaluated only with one parameter away from the mode, and the caller\'s mode and starting steps are not modified, also when the density raises.',
 ['inputs','programs'],'All log density functions, modes, starting steps and requested drops.',
 'Tests use one Gaussian.',
 ['deriv/obsinfo.py','deriv/_obsinfo.f'],[('dllsteps','deriv/obsinfo.py'),('pk_scales','deriv/_obsinfo.f')])

prop('C20','The observed information matrix is exact for quadratic log densities',
 'For any quadratic log density the observed-information routine returns the exact symmetric matrix of second derivatives (with the sign that makes it positive at a maximum) for any non-zero step sizes and any number of extrapolation steps, with error estimates that vanish; one extrapolation step also removes the effect of a fourth-order term. It evaluates the density only where at most two parameters are away from the mode, and leaves the caller\'s mode and steps unmodified, also when the density raises. The returned matrices are always symmetric.',
 ['inputs','programs'],'All dimensions, quadratic forms, steps and iteration counts.',
 'Tests use one 2-D case.',
 ['deriv/obsinfo.py','deriv/_obsinfo.f'],[('obsinfo','deriv/obsinfo.py'),('ninfol','deriv/_obsinfo.f')])

prop('C21','Cubature rules integrate polynomials of their degree exactly, anywhere',
 'For every integrand, each two-dimensional rule (on the square, on any rectangle, on the plane with Gaussian weight, and the normal-distribution average of any tabulated rule for any location and scale) returns a fixed linear combination of the integrand at the nodes of the rule, mapped affinely to the region, and this integrates every polynomial up to the degree of the rule exactly (to rounding). Nodes of square and rectangle rules lie inside the region. Constructing and using integrators, in any order, never alters the tabulated rules or other integrators.',
 ['inputs','histories'],'All rectangles, locations and scales, all rules, all integrands and all polynomials of the degree, any order of constructions.',
 'Tests integrate a few functions.',
 ['integrate/cub2d.py','integrate/_cub2d_auto.py'],[('square*/rect*/NormWtCub2D','integrate/cub2d.py'),('rule tables and functions','integrate/_cub2d_auto.py')])

prop('C22','Adaptive integration never passes off a failed integration as a result',
 'The adaptive integrators pass the integrand, limits, tolerances and evaluation budget (for adapt: maxfac times the size of its basic rule) given by the caller to the underlying routine, with a workspace at least as large as it requires, and return its integral, error estimate and number of evaluations unchanged when it reports success. For every other outcome the routine reports, and for dimensions or keys it does not support, the call raises an error; it never returns a value, or None. The limits given by the caller are not modified.',
 ['inputs','fault_sequences'],'All limits, tolerances, budgets, dimensions, keys and failure codes.',
 'Tests integrate a Gaussian successfully; failure codes and budget factors are never exercised.',
 ['integrate/adapt.py','integrate/adapt_vec.py','integrate/dchhre.f'],[('adapt','integrate/adapt.py'),('adapt_vec','integrate/adapt_vec.py'),('DCHHRE','integrate/dchhre.f')])

prop('C23','Log-sum accumulation equals the log of the sum',
 'Accumulating any sequence of log terms yields the log of the sum of their exponentials (to rounding), without overflow for any magnitudes, independent of how many terms were accumulated, and flags or bookkeeping never drop a term.',
 ['inputs','histories'],'All sequences of terms.',
 'Tests sum a few terms.',
 ['utils/numutils.py'],[('LogSummer','utils/numutils.py')])

prop('C24','Linear and log steppers yield exactly the requested sequence',
 'The linear (log) stepper generators yield exactly n values, equally (geometrically) spaced, the first equal to the lower and the last to the upper end, in that order; the enumerating variants pair value i with index i, and every yielded value lies within the ends.',
 ['inputs'],'All ends (positive for log) and all n>=2.',
 'Tests list one short sequence.',
 ['utils/numutils.py'],[('lin_stepper/log_stepper/enum variants','utils/numutils.py')])

prop('C25','Backing up a file never loses its contents',
 'Backing up or safely opening a file for writing keeps the previous contents of that name under the first backup name, and the contents of the first backup under the second, for every starting set of files; the contents of a second backup disappear only when a first backup takes its place, and no other file is touched. Stopping at any point between file operations loses neither the contents of the file nor those of the first backup. The new file is opened fresh under exactly the requested name.',
 ['crash_points','inputs','histories'],'All directory states, all crash points between file-system operations, and repeated use.',
 'No test creates files at all.',
 ['utils/ioutils.py'],[('backup/safe_open','utils/ioutils.py')])

prop('C26','Array and attribute stores give back what was stored',
 'Values stored by attribute in a store and saved are returned equal when the store is re-opened under the same name, with or without the file-name suffix; names never stored raise an attribute error, and saving keeps every previously saved entry that was not replaced. The contents listing names exactly the stored entries, each once. (Names that start with an underscore or are methods of the store itself, and arrays of Python objects, are excluded.)',
 ['inputs','histories'],'All names, values and sequences of store, save and re-open.',
 'No test saves a store.',
 ['utils/ioutils.py'],[('ArrayStore/AttrStore','utils/ioutils.py')])

prop('C27','Saved random-number state is restored exactly',
 'Saving the random-number state and later restoring it from the file makes the generator produce the same numbers that followed the save, whatever was drawn in between, and saving does not disturb the generator. Saving keeps the state previously saved under that name with the suffix .1 and its predecessor with .2, and touches no other file.',
 ['histories','inputs'],'All generator states and draws.',
 'No test saves or restores the state.',
 ['utils/rng.py'],[('save_rng/restore_rng','utils/rng.py')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P: f.write(json.dumps(p)+'\n')
    for p in P: assert len(p['title'])<=80, p['id']
    print(len(P), 'properties')
