import json
O="stochopy/optimize/"; S="stochopy/sample/"
DE,PSO,CPSO,NA,CMA,VD=[O+x for x in ("de/_de.py","pso/_pso.py","cpso/_cpso.py","na/_na.py","cmaes/_cmaes.py","vdcma/_vdcma.py")]
COM=O+"_common.py"; HLP=O+"_helpers.py"; CC=O+"cpso/_constraints.py"; DC=O+"de/_constraints.py"; MC=O+"cmaes/_constraints.py"
STR=O+"de/_strategy.py"; MCMC=S+"mcmc/_mcmc.py"; HMC=S+"hmc/_hmc.py"; SCOM=S+"_common.py"; SH=S+"_helpers.py"
BASE="stochopy/_common.py"; BEN="stochopy/factory/benchmark.py"
P=[]
def p(id,title,st,over,text,why,files,mech,obs):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs)))
T="The tests run one 2-D Rosenbrock problem per method with fixed seeds and compare the final point with recorded numbers; "
p("C01","The reported optimum was really evaluated, with the value it returned there",
 "The point in an optimization result, and in every callback state, is one of the points the objective was evaluated at so far. The value reported with it is exactly the value the objective returned at that point (with the Penalize constraint only the point is promised, the value may carry the penalty).",
 ["inputs","configurations"],"every optimizer, objective, initial population, seed, updating mode, strategy, constraint and worker setting",
 T+"they never compare the reported pair with the evaluations made, and one objective returning floats cannot show an aliased or truncated pair.",
 [DE,CPSO,NA,CMA,VD,COM],[("selection copies point and value together",COM+": selection_sync, selection_async"),("result assembly",DE+", "+CPSO+", "+NA+", "+CMA+", "+VD)],["result x and fun","callback state x and fun","arguments and return values of the objective"])
p("C02","The best value found is never lost",
 "For DE, PSO, CPSO and NA the value reported in the result and in each callback is the smallest objective value returned so far in the run, hence it never increases. For CMA-ES and VD-CMA it is the smallest (penalised) value of the current generation.",
 ["inputs","configurations","histories"],"every sequence of objective values, any magnitude, restart, updating mode and constraint",
 T+"an elitism slip shows only for particular orders of values, ties, or particles restarted by the competitive rule.",
 [COM,DE,CPSO,NA,CMA,VD],[("greedy selection",COM+": selection_sync, selection_async"),("restart of the worst particles",CPSO+": restart")],["result fun","callback fun","values returned by the objective"])
p("C03","Infeasible points are neither evaluated nor reported under a constraint handler",
 "With the Random (DE), Shrink (PSO, CPSO) or Penalize (CMA-ES, VD-CMA) constraint, and always for NA, the objective is only called inside the bounds when the initial population is. The result, the callback population and the recorded history stay inside them too.",
 ["inputs","configurations"],"every box, initial population inside it, draw and objective; for Penalize also an initial mean outside",
 T+"the Rosenbrock boxes are symmetric and the recorded runs hardly leave them.",
 [DC,CC,MC,NA],[("resampling",DC+": Random"),("velocity shrinking",CC+": Shrink"),("clipping",MC+": Penalize"),("Voronoi cell clipped to the box",NA+": mutation")],["points the objective receives","result x","callback population","xall"])
p("C04","Termination: bounded, prompt and truthfully reported",
 "A run performs between 1 and maxiter iterations and ends at the first iteration whose best value is at or below ftol; the status, success flag and message tell the criterion that held. The flatness criteria of CMA-ES and VD-CMA depend only on differences of the objective values seen.",
 ["inputs","configurations"],"every xtol, ftol, maxiter, objective value sequence and initial population",
 T+"all of them stop by ftol or maxiter in the recorded way.",
 [COM,DE,CPSO,NA,CMA,VD],[("stopping tests",COM+": selection_sync, selection_async"),("loop control",DE+", "+CPSO+", "+NA),("convergence tests",CMA+": converge")],["nit","status","success","message","callback sequence"])
p("C05","Evaluations, iterations and callbacks are counted truthfully",
 "The callback runs once per iteration, with nit counting 1, 2, ... up to the result's nit; nfev equals the number of objective calls made so far, popsize of them per iteration. Each call receives a one-dimensional array of the right length and the extra arguments unchanged.",
 ["inputs","configurations"],"every optimizer, updating mode, backend, constraint, extra arguments and stopping iteration",
 T+"one callback-count test per method looks at the number of callbacks alone.",
 [COM,DE,CPSO,NA,CMA,VD],[("objective wrapper",COM+": optimizer"),("result assembly",DE+", "+CPSO+", "+NA+", "+CMA+", "+VD)],["objective calls","callback states","nfev, nit"])
p("C06","The recorded history shows what was evaluated, in user units",
 "With return_all the result and every callback hold, per iteration, ceil(verbosity * popsize) individuals of the population (or one best when verbosity is 0) with the objective value of each recorded point. The history has exactly nit iterations and is absent without return_all.",
 ["inputs","configurations"],"every optimizer, verbosity, popsize, stopping iteration and box",
 T+"no test reads xall or funall.",
 [DE,CPSO,NA,CMA,VD],[("history arrays",DE+", "+CPSO+", "+NA+", "+CMA+", "+VD)],["xall, funall in result and callbacks"])
p("C07","Parallel evaluation changes nothing",
 "With several workers or MPI ranks a seeded run gives the result, history and callbacks of the serial deferred run, on every rank and for every order in which tasks run. Each individual is evaluated exactly once across workers and ranks, and all ranks take part in the same collective operations.",
 ["schedules","inputs","configurations"],"every task order, number of workers or ranks, population size and objective",
 T+"parallel runs are compared for one seed and the scheduler's choice of order; MPI is not run.",
 [COM],[("joblib and MPI wrappers",COM+": optimizer")],["result per rank","objective calls per rank","collectives entered"])
p("C08","A seed determines the run",
 "Two runs with the same seed and inputs evaluate the same points and return the same result, whatever was drawn, run or held in memory before. Without a seed, seeding the global generator beforehand has the same effect.",
 ["inputs","histories","configurations"],"every method, option set, preceding run and content of uninitialised memory",
 T+"each seed is run once per process, from a fresh state.",
 [DE,CPSO,NA,CMA,VD,MCMC,HMC],[("seeding",DE+", "+CPSO+", "+NA+", "+CMA+", "+VD+", "+MCMC+", "+HMC)],["points evaluated","result","history"])
p("C09","The caller's data is left alone",
 "No run modifies the bounds, initial guess, step size, arguments or options the caller passed, whether lists or arrays of any number type. The best point handed to a callback does not change after the callback returns, and the result shares no memory with the caller's inputs.",
 ["inputs","configurations","histories"],"every method, option set and container or number type of the inputs",
 T+"they pass fresh literals and never look at them again.",
 [DE,CPSO,NA,CMA,VD,MCMC,HMC],[("handling of x0",DE+", "+CPSO+", "+NA),("handling of stepsize",MCMC+", "+HMC)],["the objects passed in, after the call","points kept by a callback"])
p("C10","The initial population is the one asked for",
 "An initial population or sample given as x0 is evaluated first, in order and unchanged, whatever sequence type holds it. Without x0 the initial population of DE, PSO, CPSO and NA lies in the box and is a Latin hypercube sample: in every variable each of popsize equal strata of the bounds holds exactly one individual.",
 ["inputs","configurations"],"every x0, box, popsize and draw",
 T+"x0 is given once per method as a float array.",
 [COM,DE,CPSO,NA,MCMC,HMC],[("Latin hypercube",COM+": lhs"),("use of x0",DE+", "+CPSO+", "+NA)],["first points the objective receives"])
p("C11","DE trials are mutants of distinct others, crossed with the parent",
 "Every trial takes each component from its parent or from base + F * (differences) formed with distinct individuals other than the parent, as the strategy prescribes, with at least one component from the mutant. A trial replaces its parent only when it is not worse, and a strictly better trial always does.",
 ["inputs","configurations"],"every population, permutation, crossover draw, F, CR, strategy and updating mode",
 T+"the trajectories of three seeds cannot show a wrong index set or a lost forced component.",
 [DE,STR,COM],[("index permutation",DE+": delete_shuffle_sync, delete_shuffle_async"),("strategies",STR),("crossover",DE+": de_sync, de_async"),("selection",COM+": selection_sync, selection_async")],["points evaluated","callback population"])
p("C12","Particles move by the PSO law; only CPSO restarts, and never the best",
 "A particle's displacement is w * v + c1 * r1 * (own best - x) + c2 * r2 * (swarm best - x), shrunk towards zero along its direction by the Shrink constraint as little as feasibility asks. PSO never teleports a particle; CPSO may reset only the worst particles, uniformly in the box with zero velocity, and never the best one.",
 ["inputs","configurations","histories"],"every swarm, weight, draw, box and objective",
 T+"recorded trajectories exercise one set of weights, and no restart is observed.",
 [CPSO,CC,PSO],[("velocity update",CPSO+": mutation"),("shrinking",CC+": Shrink"),("restart",CPSO+": restart")],["points evaluated","callback population"])
p("C13","NA samples inside the neighbourhood cells of its best points",
 "Every new point of the Neighbourhood Algorithm lies in the Voronoi cell (distances relative to the box) of one of the nr best points found before, clipped to the box, and the nr cells are served in turn. A variable with equal bounds does not disturb the cells.",
 ["inputs","configurations"],"every set of previous points, objective value order, draw and box",
 T+"the recorded run cannot tell a point just outside a cell.",
 [NA],[("random walk in the cell",NA+": mutation")],["points evaluated"])
p("C14","CMA-ES and VD-CMA recombine the best parents with logarithmic weights",
 "The mean of a generation is the weighted mean of the int(muperc * popsize) best individuals of the previous one, with positive weights proportional to log(mu + 1/2) - log(rank), summing to one. The first generation is centred on x0 (or on a point in the box) with the initial sigma relative to the box.",
 ["inputs","configurations"],"every order of values, draw, x0, box, muperc and sigma",
 T+"the recorded optimum does not pin the intermediate means.",
 [CMA,VD],[("recombination",CMA+", "+VD)],["points evaluated with null perturbations"])
p("C15","Optimizers depend on the order of objective values only",
 "Replacing the objective by an increasing function of it, with both tolerances out of reach, leaves the points evaluated by DE, PSO, CPSO, NA, CMA-ES and VD-CMA unchanged (without Penalize).",
 ["inputs","configurations"],"every sequence of values and every increasing transformation",
 T+"each objective is run once.",
 [COM,DE,CPSO,NA,CMA,VD],[("selection by comparison",COM),("ranking",CMA+", "+VD+", "+NA)],["points evaluated"])
p("C16","Units do not matter: runs commute with an affine change of variables",
 "Shifting and scaling the bounds, x0 and objective's argument together moves the evaluated points and the result in the same way, for every optimizer except through xtol and the CPSO restart radius, and for MCMC.",
 ["inputs","configurations"],"every shift, positive scale per variable, box, objective and draw",
 T+"one box per problem is used.",
 [DE,CPSO,NA,CMA,VD,COM,MCMC],[("standardisation",CMA+", "+VD+", "+NA),("step scaling",MCMC)],["points evaluated","result x"])
p("C17","MCMC follows the Metropolis rule on consecutive blocks of variables",
 "Each proposal changes only the current block of max(1, int(perc * ndim)) consecutive variables, and blocks cover every variable in turn. A proposal is accepted exactly when log(u) is below the decrease of the objective, and a rejected one repeats the previous sample and value.",
 ["inputs","configurations"],"every ndim, perc, step size, draw and objective",
 T+"two recorded runs with perc 1 are compared.",
 [MCMC],[("block loop and acceptance",MCMC)],["points evaluated","xall, funall"])
p("C18","HMC integrates by leapfrog and accepts on the energy difference",
 "From the previous sample and a momentum draw a proposal is obtained by half, full and half leapfrog steps along the gradient: the user's, called with the extra arguments, or central differences of the given step. It is accepted exactly when log(u) is below the decrease of potential plus kinetic energy.",
 ["inputs","configurations"],"every momentum, gradient, step size, number of steps and draw",
 T+"no test passes a gradient, and acceptance is seen for one seed.",
 [HMC],[("leapfrog and acceptance",HMC),("gradient",HMC+": numerical_gradient")],["points evaluated","points the gradient receives","xall, funall"])
p("C19","Samplers report the best sample and truthful statistics",
 "The reported x and fun are the sample with the smallest value among all samples, the first one included, in the result and in every callback. xall and funall pair each sample with its value for exactly the samples so far, nit and HMC's nfev count, and accept_ratio is the fraction of accepted proposals over samples.",
 ["inputs","configurations"],"every acceptance pattern, objective, maxiter and constraint",
 T+"the best point of one recorded run is compared.",
 [MCMC,HMC],[("result assembly",MCMC+", "+HMC)],["result","callbacks"])
p("C20","Samplers with the Reject constraint never leave the box",
 "With constraints='Reject' every sample, and every point at which the density is evaluated for acceptance, lies inside the bounds when the initial sample does; feasible proposals are treated as without the constraint.",
 ["inputs","configurations"],"every box, step size, draw and objective",
 T+"no test uses Reject.",
 [SCOM,MCMC,HMC],[("feasibility test",SCOM+": in_search_space")],["xall","points evaluated"])
p("C21","Invalid parameters are refused before anything is evaluated",
 "A parameter outside its documented domain raises an exception before the objective, gradient or callback is called once, and every value inside is accepted: population size of DE, PSO, CPSO and NA (DE: what the strategy needs), mutation, recombination, inertia, acceleration constants, competitivity, sigma, muperc, nrperc, perc, leap-frog steps, the shapes of bounds, x0 and step size, the names of methods, options, strategies, updating modes, constraints and backends, and the callables. Verbosity, tolerances and iteration counts are not covered.",
 ["inputs","configurations"],"every value of each scalar parameter, inside and outside its range",
 T+"no test passes an invalid value.",
 [DE,CPSO,NA,CMA,VD,MCMC,HMC,COM],[("argument checks",DE+", "+CPSO+", "+NA+", "+CMA+", "+VD+", "+MCMC+", "+HMC)],["exception or result","objective calls"])
p("C22","Valid problems run to completion",
 "Every combination of valid parameters runs to completion without an exception and evaluates, reports and returns only finite numbers: small populations, one iteration, one variable, integer or list inputs, boxes with a fixed variable, constant objectives, any fraction of parents.",
 ["inputs","configurations"],"every method and valid option set of small size; objective, draws and boxes arbitrary",
 T+"default-like options on a 2-D float problem.",
 [DE,CPSO,NA,CMA,VD,MCMC,HMC],[("the algorithms",DE+", "+CPSO+", "+NA+", "+CMA+", "+VD+", "+MCMC+", "+HMC)],["exception or result"])
p("C23","All entry points run the same algorithm with the same defaults",
 "minimize and sample with a method name do what the method's own function does with the same options, every option reaching the parameter it names; options left out take the documented default. PSO is CPSO without competitivity.",
 ["inputs","configurations"],"every method, option and value",
 T+"each method is called one way.",
 [HLP,SH,PSO,CPSO],[("dispatch",HLP+": minimize; "+SH+": sample"),("positional forwarding",PSO+": minimize")],["points evaluated","result"])
p("C24","Benchmark functions have the documented minimum",
 "Every benchmark function computes the function it is named after at every point and in any dimension: it is never below its minimum (zero; within 2e-4 per variable for Styblinski-Tang), attains it at the known minimiser, and accepts lists, tuples and integer or float arrays without modifying them.",
 ["inputs"],"every point and dimension",
 "No test checks the functions but Rosenbrock through the optimizers.",
 [BEN],[("the functions",BEN)],["function values"])
p("C25","Results are dictionaries and objects at once",
 "Every key of a result is readable, settable and deletable as an attribute and as an item with one shared value; reading a missing name raises AttributeError as an attribute and KeyError as an item, dir lists the keys, a copy is an equal result, and the printed form shows every key except the histories.",
 ["inputs","histories"],"every sequence of attribute and item operations",
 "No test touches the mapping behaviour.",
 [BASE],[("attribute access",BASE+": BaseResult")],["result attributes and items","repr, dir"])
p("C26","Observing a run does not change it",
 "Passing a callback, asking for the history or choosing a verbosity changes neither the points evaluated nor the result; the objective returning Python floats, numpy scalars or integers of equal value does not either.",
 ["inputs","configurations"],"every method, objective, callback, return_all and verbosity",
 T+"observers are only used to count.",
 [DE,CPSO,NA,CMA,VD,MCMC,HMC],[("bookkeeping",DE+", "+CPSO+", "+NA+", "+CMA+", "+VD+", "+MCMC+", "+HMC)],["points evaluated","result"])
p("C27","Variables with equal bounds stay fixed",
 "A variable whose lower and upper bounds are equal keeps exactly that value in every evaluated point, in the population given to the callback, in the result and in the history of every optimizer, with or without x0 or constraints, and the value at which it is fixed does not influence the other variables.",
 ["inputs","configurations"],"every method with such a variable in any position",
 T+"no test has such a box.",
 [COM,DE,CPSO,NA],[("degenerate normalisation",NA),("initialisation",COM+": lhs")],["points evaluated","result x","history"])
p("C28","CMA-ES and VD-CMA adapt shape and step size by their equations",
 "Between two generations CMA-ES changes its covariance (rank-one and rank-mu update, evolution path stalled on long steps) and step size (cumulative path length) as published, so that every individual is the mean plus sigma times a normal vector of that covariance. VD-CMA does so for the covariance D(I+vv')D along the natural gradient, with two-point step-size adaptation along the last step of the mean.",
 ["inputs","histories"],"every order of the objective values over several generations",
 T+"tests compare a final point with a fixed tolerance, which many wrong update rules still reach.",
 [CMA,VD],[("adaptation",CMA+": cmaes"),("adaptation",VD+": vdcma, pvec_and_qvec, ngv_ngd")],["points evaluated"])
p("C29","Penalize charges infeasible individuals only, by their distance to the box",
 "With constraints='Penalize' CMA-ES and VD-CMA evaluate the projection of every individual on the box, and the run ranks individuals by that value plus a penalty: none for a feasible one, otherwise the squared distance to the box weighted by the published boundary weights. Both sides of the box count alike: a reflected problem gives the reflected run.",
 ["inputs","histories"],"every objective value and rank over several generations; means inside and outside the box",
 T+"one run with a fixed tolerance, in which the weights hardly matter.",
 [CMA,VD],[("Penalize","stochopy/optimize/cmaes/_constraints.py: Penalize")],["points evaluated","funall"])
p("C30","A longer run starts with the shorter one",
 "For the same problem, options and seed, a run with a larger maxiter evaluates the same points as the run with the smaller one for as long as that one lasts, and its callbacks and histories start with the same entries; a run that stopped before its maxiter is not changed by a larger one. (The competitive CPSO is excluded, as its restarts are scheduled relative to maxiter.)",
 ["inputs","histories"],"every draw and objective value; pairs of run lengths, for every optimizer and sampler",
 T+"they run each configuration once with one maxiter.",
 [DE,PSO,CPSO,NA,CMA,VD,MCMC,HMC],[("iteration loops",DE+", "+CPSO+", "+NA+", "+CMA+", "+VD+", "+MCMC+", "+HMC)],["points evaluated","callback states","result and histories of both runs"])
p("C31","The caller's exceptions reach the caller",
 "An exception raised by the objective, the gradient or the callback leaves minimize or sample unchanged, as the same exception, and stops the run: none of the caller's functions is called again. Nothing stays behind: the next call behaves as if the failed one had not been made.",
 ["inputs","fault_sequences"],"every call of every function of the caller as the one that fails, several kinds of exception, serial and threads",
 T+"no test makes a function of the caller fail.",
 [COM,HLP,BASE,SCOM,SH,DE,CPSO,NA,CMA,VD,MCMC,HMC],[("evaluation",BASE+": parallelize"),("entry points",HLP+": minimize"),("entry points",SH+": sample")],["exception raised by minimize or sample","calls of the caller's functions","the next run"])
p("C32","An infinite objective value is the worst one",
 "An objective that returns +inf at some points runs to the end, and these points are treated as any point with a very large value: they are never preferred to a finite one, and the run is the one a very large finite value gives in their place (without the CMA-ES boundary penalty, which is measured by the spread of the values). No point evaluated, point reported or value reported is undefined because of them.",
 ["inputs","histories"],"every subset of infinite evaluations among the first ones; every large value in their place",
 T+"the recorded objectives are finite everywhere.",
 [COM,DE,CPSO,NA,CMA,VD,MC,MCMC,HMC],[("selection",COM+": selection_sync, selection_async"),("competitive restart",CPSO+": restart"),("penalty",MC+": Penalize"),("acceptance",MCMC+", "+HMC)],["points evaluated","result","histories"])
p("C33","Mirrored or renumbered problems give the mirrored or renumbered runs",
 "Renumbering the variables of a problem or mirroring some of them, together with the random draws that belong to them, renumbers and mirrors the run of DE, PSO, CPSO, VD-CMA, MCMC and HMC: no coordinate, side of the box or direction is treated differently. NA commutes with mirroring all variables. (CMA-ES is excluded: eigenvectors have no preferred sign.)",
 ["inputs","histories","configurations"],"draws, objective values and ranks; several mirrorings and permutations per method",
 T+"they run each problem in one orientation only.",
 [COM,DE,CPSO,NA,VD,MCMC,HMC],[("moves and constraints",DE+", "+CPSO+", "+NA+", "+VD+", "+MCMC+", "+HMC)],["points evaluated","result","history"])
p("C34","The form in which inputs are given does not matter, only the numbers",
 "Bounds, x0 and step sizes given as lists, tuples, integer, strided, transposed or read-only arrays, and counts and options given as Python or numpy numbers of any kind, give the run of the same numbers given as plain float arrays and Python numbers: nothing is truncated, reinterpreted or refused.",
 ["inputs","configurations"],"every method with every such form of bounds, x0, step size, counts and options",
 T+"they give each input in a single form.",
 [COM,HLP,DE,CPSO,NA,CMA,VD,SH,MCMC,HMC],[("entry points",HLP+": minimize"),("entry points",SH+": sample"),("initialisation",DE+", "+CPSO+", "+NA+", "+CMA+", "+VD+", "+MCMC+", "+HMC)],["points evaluated","result","history","callbacks"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x["title"]) for x in P))
