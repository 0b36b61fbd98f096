import json
P=[]
def p(id,title,statement,over,qtext,why,files,symbols,mech,observe,hook=None,state=None):
    anchors={"files":files,"symbols":symbols}
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=anchors,mechanism_=mech,observe_=observe,hook_=hook))
M='src/sympkf/model/model.py'; K='src/sympkf/symbolic/pkfcas.py'; U='src/sympkf/symbolic/util.py'
FD='src/sympkf/symbolic/finite_difference.py'; MB='src/sympkf/symbolic/model_builder.py'; MBF='src/sympkf/symbolic/model_builder_FD.py'
MBM='src/sympkf/symbolic/model_builder_manifold.py'; R='src/sympkf/symbolic/random.py'
TB='src/sympkf/symbolic/templates/body_FDModelBuilder.py'; TF='src/sympkf/symbolic/templates/footer.py'; TH='src/sympkf/symbolic/templates/header.py'
BU='src/sympkf/dynamics/burgers.py'; DY='src/sympkf/symbolic/dynamics.py'

p('C01','Parallel ensemble forecast equals member-by-member integration',
 "For any model, ensemble, time window, saved times and number of workers, an ensemble forecast returns for each saved time exactly the list of states that integrating each member alone would give: one entry per member, in member order. This holds whatever order the workers finish in, however members are batched onto workers, and whether parallel execution is on or off. The model and the caller's states are left unchanged.",
 ['schedules','inputs','configurations'],'every worker schedule, completion order, batching, pool size, ensemble, window and saved-time selection',
 'No existing test runs the numerical model or a worker pool at all; a test that does sees one schedule of one pool.',
 [M],['Model.ensemble_forecast','Model._forecast','Model.forecast','Parallel.run'],
 [('ordered map over members','Parallel.run'),('per-saved-time gather','Model.ensemble_forecast')],['return value of ensemble_forecast(parallel=True/False)','model attributes and caller arrays after the call'])
p('C02','Ensemble faults are reported: no hang, no silent loss',
 "If a member's integration raises, a worker process dies, or workers cannot be started, an ensemble forecast ends by raising an error within a bounded number of steps: it never blocks forever and never returns an incomplete, padded or misattributed result. No worker process outlives the call. The same model can run the ensemble again at once, with correct results.",
 ['fault_sequences','schedules','crash_points'],'every fault kind (member error, unpicklable error, worker kill, fork failure, caller interrupt) at every member, evaluation and schedule point',
 'No test injects a worker or member failure; the failure point and the schedule around it are unbounded.',
 [M],['Parallel.run','Model.ensemble_forecast'],[('worker pool life cycle','Parallel.run')],['outcome of the call (value, exception, no progress)','live workers after the call','result of an immediate second call'])
p('C03','Tangent-linear forecasts and propagator matrices are aligned and exact',
 "A tangent-linear forecast returns the unperturbed reference trajectory and, for each perturbation in input order and each saved time, the difference between perturbed and reference trajectories divided by the perturbation size. The propagator matrix of a linear model applied to a state gives the forecast of that state over the window. Both hold under any scheduling of the workers.",
 ['schedules','inputs'],'every worker schedule, linear and nonlinear trends, perturbation lists and windows',
 'Neither operation is exercised by any test; misaligned members or a transposed matrix pass unnoticed on symmetric or single-member samples.',
 [M],['Model.forecast_tl','LinearModel.make_M'],[('ensemble run of perturbed states','Model.forecast_tl'),('ensemble run of the canonical basis','LinearModel.make_M')],['return values of forecast_tl and make_M'])
p('C04','Stopping at any point and restarting from a saved state changes nothing',
 "An integration that crashes at any point and is resumed from the last saved state on a newly built model yields the same later states as an uninterrupted one. For every time scheme these are the states the scheme prescribes for the trend, with step sizes taken from the window. A state recorded at a saved time never changes afterwards, and the dictionary and array forms of a forecast agree.",
 ['crash_points','histories','inputs'],'every crash point, partition of the window into segments, time scheme, time-dependent trend and saved-time selection',
 'No test integrates a model; restart equivalence quantifies over all crash points and histories.',
 [M],['Model.forecast','Model.predict','Model._euler','Model._rk2','Model._rk4','Model._leapfrog','Model._time_splitting'],
 [('one-step schemes driven by consecutive window entries','Model.forecast')],['returned trajectories, before and after later integrations'])
p('C05','A failed or interrupted integration leaves the model reusable',
 "If the trend raises or the user interrupts an integration at any point, the model, its selected time scheme and the caller's initial state are left as they were: repeating the forecast on the same model gives the result of an undisturbed model. A rejected time-scheme name leaves the previously selected scheme in force.",
 ['fault_sequences','histories','crash_points'],'every interruption point in sequences of forecasts, ensemble forecasts, trend evaluations and scheme changes',
 'No test fails a trend or interrupts an integration, and the point of failure is arbitrary.',
 [M,TF,TB],['Model.forecast','Model.predict','Model.ensemble_forecast','Model.set_time_scheme'],[('integration state kept in local variables','Model.forecast')],['results of later calls on the same model','caller arrays'])
p('C06','One model instance can serve concurrent threads',
 "Threads that concurrently evaluate trends or integrate states with one shared model instance, a generated model included, each obtain exactly what they would obtain alone, under any interleaving.",
 ['schedules','inputs'],'every interleaving of two or more threads using one model instance for trend, forecast, predict or serial ensemble forecast',
 'No test uses threads; one run of real threads samples a handful of interleavings.',
 [M,TB,TF],['generated trend and index methods','Model.forecast'],[('lazily filled index table','index in the FD template'),('per-call output arrays','trend in the footer template')],['values returned to each thread'])
p('C07','PKF equations are exact for every univariate dynamics and error ensemble',
 "For any univariate evolution equation, the expectation, error, normalised-error, variance, standard-deviation and metric equations produced are exact: for every finite centred ensemble of error fields they hold when their statistics are replaced by those of the ensemble (mean to second order in the error, error to first order). The only expectation terms left in them are ones that mean, variance and metric cannot express, and exactly these are reported as unclosed. None of this depends on the iteration order of unordered collections.",
 ['inputs','programs','schedules'],'every univariate dynamics, error ensemble and hash/iteration order of sets',
 'The only derivation test compares one 1-D Burgers system, under one fixed hash seed.',
 [K,R,U],['SymbolicPKF.expectation_system','SymbolicPKF.variance_system','SymbolicPKF.error_system','SymbolicPKF.epsilon_system','SymbolicPKF.std_system','SymbolicPKF.metric_system','SymbolicPKF.unclosed_terms'],
 [('Reynolds decomposition and Taylor truncation','SymbolicPKF'),('internal closure and univariate substitution','SymbolicPKF')],['equations returned by the PKF object'])
p('C08','Multivariate PKF equations are exact, cross-covariances included',
 "For any system of coupled evolution equations, the expectation, error, variance, cross-covariance and metric equations produced are exact: for every finite centred ensemble of error fields they hold when their statistics are replaced by those of the ensemble. There is one cross-covariance equation per pair of fields. None of this depends on the iteration order of unordered collections.",
 ['inputs','programs','schedules'],'every coupled system of two or more fields, error ensemble and hash/iteration order of sets',
 'No test derives a multivariate system.',
 [K,R,U],['SymbolicPKF.cross_covariance_system','SymbolicPKF.internal_closure','SymbolicPKF.get_covariance'],[('pairwise closure','SymbolicPKF.internal_closure')],['equations returned by the PKF object'])
p('C09','Metric, diffusion and aspect forms describe the same dynamics',
 "The metric, diffusion and aspect forms of a PKF system describe one dynamics: when the tensors are related by aspect = inverse of metric = twice the diffusion tensor, corresponding equations give the same trends. Each form holds one evolution equation for every mean field, variance, cross-covariance and independent tensor component, and involves only the tensor it is named after. An external closure applies to all three forms.",
 ['inputs','programs','schedules','histories'],'every uni- or multivariate dynamics, closure, order of requesting the forms, and iteration order of sets',
 'One diffusion equation of one 1-D system is compared; the aspect form and multivariate forms are untested.',
 [K],['SymbolicPKF.in_metric','SymbolicPKF.in_diffusion','SymbolicPKF.in_aspect'],[('tensor change of variable','SymbolicPKF.in_diffusion/in_aspect')],['equations of the three forms'])
p('C10','A PKF object answers independently of the history of requests',
 "What a PKF object returns for any of its systems, unclosed terms or closures does not depend on which were requested before, in what order, or how often: it equals what a newly built object would return. Requesting them does not alter the dynamics the object was built from, nor other PKF objects built from the same dynamics.",
 ['histories','inputs','schedules'],'every sequence of requests on one or several PKF objects sharing dynamics',
 'The single derivation test requests each system once in one order.',
 [K,U],['SymbolicPKF lazily computed properties'],[('memoised systems','SymbolicPKF')],['values returned by each request'])
p('C11','An interrupted derivation can be resumed on the same object',
 "If an exception (user interrupt, memory exhaustion, recursion limit) strikes at any point while a PKF object is computing one of its systems, later requests on the same object return the complete, correct systems that a never-interrupted object returns.",
 ['fault_sequences','crash_points','histories'],'every interruption point of every request, once or repeatedly',
 'No test interrupts a derivation; the points are thousands per request.',
 [K],['SymbolicPKF lazily computed properties','Field.internal_closure','UnivariateTree'],[('results published only when complete','SymbolicPKF')],['values returned by requests after the interruption'])
p('C12','Concurrent requests on one PKF object are consistent',
 "Threads that concurrently request systems from one shared PKF object each receive the complete, correct systems that a single-threaded caller receives, under any interleaving.",
 ['schedules','histories'],'every interleaving of two or more threads requesting systems from one object',
 'No test uses threads.',
 [K],['SymbolicPKF lazily computed properties','UnivariateTree'],[('results published only when complete','SymbolicPKF')],['values returned to each thread'])
p('C13','Closures take effect at once, completely, and only where set',
 "After any sequence of requests and closure settings, every form of the system and the reported unclosed terms are those of a newly built object given all the closures set so far, later ones overriding earlier ones for the same term. Setting a closure on one object changes neither another object nor a dictionary supplied by the caller, and a setting that is interrupted takes effect in every form or in none.",
 ['histories','inputs'],'every interleaving of closure settings and requests over several objects',
 'One test sets one closure once, after reading no closed form.',
 [K],['SymbolicPKF.set_closure','SymbolicPKF.closure','SymbolicPKF.in_metric','SymbolicPKF.in_diffusion','SymbolicPKF.in_aspect','SymbolicPKF.unclosed_terms'],[('cache reset on closure change','SymbolicPKF.set_closure')],['systems after each step','caller dictionaries'])
p('C14','Correlation-model closures are exact and independent of call history',
 "The closure terms obtained from a correlation model (heterogeneous Gaussian or local Gaussian) up to a given order are the derivatives at zero separation of that correlation function, in one and several dimensions; the local-Gaussian model has the metric it is written with, and the metric form expresses them with the metric in place of the model parameter. The answer for a given order is the same whatever expansions or closures were requested, or interrupted, before.",
 ['histories','fault_sequences','inputs'],'every sequence of expansion/closure requests of various orders, with interruptions, on one closure object',
 'The closure classes have no test.',
 [K],['Closure','LocGaussianClosure','Closure.taylor','Closure.closure_by_order','Closure.closure','Closure.in_metric_by_order'],[('memoised Taylor expansion and closures','Closure')],['returned dictionaries'])
p('C15','Code generation is reproducible across processes',
 "Generating code from the same equations in different processes, whatever the hash seed, gives the same program: the same source text, the same position of every prognostic function in the state and of every exogenous function in the user-supplied list. A state saved by one process can therefore be continued by code regenerated in another with the same result.",
 ['configurations','schedules','crash_points'],'every hash seed / set iteration order of the generating processes, and crash-restart between them',
 'The suite runs under one fixed hash seed and renders no template.',
 [MB,U,MBF,TF,TH],['ModelBuilder.code','ModelBuilder.exogenous_functions','PDESystem'],[('enumeration of symbol sets','ModelBuilder')],['generated source, class attributes and trajectories'])
p('C16','Generated models compute the trend of the equations they come from',
 "For every system of evolution equations, the trend computed by the generated finite-difference model converges at second order to the right-hand sides on the periodic grid, for every shape, lengths, constants, constant functions and time-dependent exogenous functions, and commutes with grid shifts; the manifold back-end gives the right-hand side exactly when its base space differentiates exactly. The grid a model exposes (x, dx, X) is the periodic grid its arrays are read on. This holds for any set iteration order at generation and any history of earlier evaluations on the model instance.",
 ['programs','inputs','histories','schedules'],'every evolution system, grid, parameter set, set order at generation and history of use of the instance',
 'No test renders or runs generated code.',
 [MB,MBF,MBM,TB,TF,TH,FD,BU],['FDModelBuilder','ManifoldModelBuilder','generated trend and index methods','Burgers'],[('ordered substitution of derivatives','ModelBuilder'),('periodic index table','index in the FD template')],['trend(t, state) of generated instances'])
p('C17','Finite differencing is order-independent, on-grid and second-order consistent',
 "Replacing the derivatives of any expression by finite differences gives an expression without derivatives, using only whole grid displacements, that tends to the original at second order in each grid step. The result, and the code rendered from it, do not depend on the iteration order of unordered collections or on coordinate names.",
 ['inputs','schedules','configurations'],'every expression with mixed partial derivatives, coordinate naming and set iteration order',
 'Two pure 1-D derivatives of fixed order are tested, under one hash seed and one naming.',
 [FD,U],['finite_difference','finite_difference_system','PDESystem.finite_difference','code_finite_difference','Code','get_function_coordinates'],[('substitution by decreasing order','finite_difference')],['finite-difference expressions and rendered code'])
p('C18','Module export is all-or-nothing under I/O faults',
 "When writing a generated module returns normally, the file holds the complete program and defines the same model as executing the code directly. If writing fails with an I/O error it raises and reports no success, and if it fails or the process dies at any point, an importable file at the target is either the previous complete module or the new complete one. The same holds when another process exports to the same name meanwhile. A later attempt without faults succeeds.",
 ['crash_points','fault_sequences'],'every crash point, short write, disk-full, I/O and permission error during the export',
 'No test writes a module; fault points are arbitrary.',
 [MB],['ModelBuilder.write_module'],[('file write','ModelBuilder.write_module')],['bytes at the target path, exception, printed message, module_name/module_file'])
p('C19','The univariate substitution tree is complete and correct at every degree',
 "For any sequence of requests of increasing, decreasing or repeated degree, interrupted or not, the substitution tree of a field up to a degree rewrites every product moment of two derivatives of the normalised error of that total degree or less in terms of moments of the normalised error with one of its derivatives. Every rule is an identity for all error ensembles, in one or more dimensions, whatever the iteration order of unordered collections.",
 ['histories','fault_sequences','inputs','schedules'],'every request sequence, interruption point, dimension and set iteration order',
 'The tree has no direct test; one derivation uses one low degree in 1-D.',
 [K],['UnivariateTree','PartialOrderDerivative.all_of_degree','SymbolicPKF.subs_tree'],[('level-by-level dynamic programming','UnivariateTree')],['the dictionaries returned for each degree'])
p('C20','Results do not depend on the state of the computer-algebra caches',
 "Losing, shrinking or disabling the memoisation caches of the computer-algebra system at any moment of a session (before importing user symbols, between requests or in the middle of a derivation) changes no derived system, set of unclosed terms, finite-difference expression or generated trend.",
 ['fault_sequences','histories','configurations'],'every cache-eviction point in any session of derivations and code generation',
 'Every test runs with warm caches in a short-lived process.',
 [K,U,R,FD,MB],['Field','UnivariateTerm.is_univariate','SymbolicPKF','PDESystem'],[('comparison of symbolic objects','pkfcas')],['derived systems and generated trends'])
# not applicable
NA_why='Existing tests check a few fixed expressions.'
p('C21','The expectation operator is linear, idempotent and commutes with derivatives',
 "The expectation operator is linear over deterministic factors, leaves deterministic expressions unchanged, is idempotent, and commutes with every derivative and integral with respect to deterministic coordinates.",
 ['inputs'],'every random or deterministic expression',NA_why,[R],['Expectation','israndom'],[('eval rules','Expectation.eval')],['value of Expectation(expr)'])
p('C22','Equation arithmetic preserves solutions',
 "Adding, subtracting, negating or scaling equations and isolating a term yield equations with the same solutions as the operation prescribes on both sides.",
 ['inputs'],'every pair of equations and factor',NA_why,[U],['Eq'],[('side-wise operations','Eq')],['resulting equations'])
p('C23','Symbols of a system are classified by their role',
 "Every function or symbol of a system of evolution equations is classified exactly once as prognostic, constant in time, exogenous, coordinate, constant or trainable, according to whether its time derivative is given and to what it depends on.",
 ['inputs','programs'],'every system of equations',NA_why,[U],['PDESystem'],[('set differences of atoms','PDESystem')],['attributes of PDESystem'])
p('C24','Vector calculus operators match their definition',
 "Gradient and divergence in a coordinate system equal their definition, and incompatible fields are rejected.",
 ['inputs'],'every field and coordinate system',NA_why,[U],['CoordinateSystem'],[('gradient/div','CoordinateSystem')],['returned expressions'])
p('C25','Symbol names map to distinct valid identifiers',
 "Names of fields, constants and coordinates, including LaTeX ones, are rendered as valid identifiers, and names that differ stay different.",
 ['inputs'],'every name that can occur in a system',NA_why,['src/sympkf/symbolic/tool.py',MB],['clean_latex_name'],[('character replacement','clean_latex_name')],['identifiers in generated code'])
import collections
schema=json.load(open('/root/.vp/PROPERTIES.schema.json'))
out=[]
for q in P:
    d={k:q[k] for k in('id','title','statement','quantifier','why_tests_cant','anchors')}
    a=d['anchors']
    ap=schema['properties']['anchors']['properties']
    a=dict(files=a['files'])
    if 'symbols' in ap: a['symbols']=q['anchors']['symbols']
    a['mechanism']=[{'name':n,'where':w} for n,w in q['mechanism_']]
    a['observe_at']=q['observe_']
    a['hook_needed']=None
    d['anchors']=a
    out.append(d)
with open('properties.jsonl','w') as f:
    for d in out: f.write(json.dumps(d,ensure_ascii=False)+'\n')
for d in out:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
