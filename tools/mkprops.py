#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook="none: public interfaces only",state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe],"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
C="src/main/cxx/core/"
p("C01","Fits are reproducible under every evaluation schedule",
  "With the same arguments, model definition and data, a fit produces the same result (every value and every byte of the output), no matter in which order or with what overlap the individuals of a generation are evaluated concurrently. The cost computed for an individual depends on that individual alone and is attributed to that individual. Selection starts only after every individual of the generation has been evaluated.",
  ["schedules","inputs"],"all interleavings and completion orders of the concurrent cost evaluations; all seeds and model definitions",
  "The tests run a handful of fits once, under whatever schedule the machine happens to choose, and compare one number with two decimals.",
  [C+"optimize.h",C+"model.h",C+"section.h"],
  [("fork/join evaluation of a population",C+"optimize.h optimize()"),("concurrent evaluation of two steps along a principal axis",C+"optimize.h postopti()"),("const cost evaluation without shared scratch data",C+"model.h Model::cost(), section.h Section::cost()")],
  "order of objective calls and returns, returned optimizer state, program output")
p("C02","Every generation applies the CMA-ES update exactly",
  "After each generation the mean, the two cumulation paths, the covariance matrix, the global step size and (at every update of the decomposition) the principal axes and local step sizes are those the CMA-ES recurrences give for the previous state and the rank-weighted best individuals of that generation. Individuals are drawn as mean plus global step size times rotated, scaled normal deviates. This holds for any dimension, number of parents, population size, update modulus and generation.",
  ["histories","inputs","configurations"],"all reachable optimizer states, generations, configurations and seeds",
  "The tests only check that a few benchmark functions converge for one seed; an optimizer with a wrong constant, path or weight converges on those too.",
  [C+"optimize.h",C+"optimizer.h",C+"optimizer.cxx"],
  [("sampling, recombination, covariance and step size adaption",C+"optimize.h optimize()"),("state carried between generations",C+"optimizer.h Optimizer::Result")],
  "optimizer state after 1, 2, ..., K generations from the same seed, and the arguments and values of all objective calls",
  state=[("xw","mean"),("C","covariance matrix"),("B,d","principal axes and local step sizes"),("ps,pc","cumulation paths"),("s","global step size"),("g","generation")])
p("C03","Only the ranking of costs steers the search",
  "The search uses objective values only to rank the individuals of a generation: any strictly increasing transformation of the objective leaves every individual, every state and the result (except the reported fitness value and the uncertainties derived from it) unchanged. Maximizing a function yields the same search as minimizing its negative, and the best individuals in the requested direction are always the ones recombined.",
  ["inputs","histories"],"all objective functions, order-preserving transformations and histories",
  "The tests minimize or maximize fixed functions and look only at the final point.",
  [C+"optimize.h",C+"optimizer.h"],
  [("indirect partial sorting by fitness",C+"optimize.h Index_Compare, optimize()"),("direction of the comparison",C+"optimizer.h minimize(), maximize()")],
  "sequence of individuals, states and results of paired runs")
p("C04","The search never leaves the prior bounds",
  "Every individual evaluated by a constrained search, the mean of every generation and the returned parameter values satisfy lower bound <= value <= upper bound for every parameter. Values that violate a bound are never passed to the objective function during the search, and redrawing concerns only the offending coordinate of the principal axes system.",
  ["inputs","histories","configurations"],"all bounds, step sizes, seeds, dimensions and generations, including bounds that nearly always reject",
  "The tests never inspect the individuals; bound violations only shift a result slightly.",
  [C+"optimize.h",C+"model.h"],
  [("rejection sampling against the constraint",C+"optimize.h optimize()"),("inclusive bounds",C+"model.h Bounded_Constraint"),("bounds of the model parameters",C+"model.h Model::get_constraint()")],
  "arguments of all objective calls during a constrained search, returned values")
p("C05","A search stops at the first generation that satisfies a stop rule",
  "A search runs generation by generation until the first one in which the best and a non-selected individual are equally fit (underflow), or the scaled variances all fall below the accuracy goal (optimized), or the stop generation is reached; the status flags and generation number tell which. A search with a larger stop generation passes through exactly the same states, the reported fitness is the objective value at the returned parameter values, and neither tracing nor the trace modulus changes the search.",
  ["histories","configurations"],"all objective functions, accuracy goals, stop generations and trace moduli",
  "The tests check single converging runs; stop rules at their boundaries, underflow and truncated runs are not tested.",
  [C+"optimize.h",C+"optimizer.h",C+"runner.h"],
  [("termination tests and generation counter",C+"optimize.h optimize()"),("tracer",C+"runner.h Runner::Tracer")],
  "state, flags and generation number of prefix runs; calls of the tracer")
p("C06","Every run ends with the documented outcome",
  "For every command line and every model definition the fitting programs terminate normally: exit status 0 if and only if the optimization converged, 1 on underflow, 2 when stopped, 8 on invalid arguments, 16 on an input or numerical failure, 0 with a usage message when called without arguments. Messages, blocks present in the output and the result agree with that status, an error never leaves a result behind, and every argument takes effect as documented.",
  ["inputs","fault_sequences","programs"],"all argument vectors, model definitions and data files, including malformed, missing and numerically degenerate ones",
  "The tests run six well-formed fits that converge.",
  [C+"runner.h",C+"runner.cxx",C+"exitcodes.h","src/main/cxx/apps/curcuma.cxx","src/main/cxx/apps/oregano.cxx","src/main/cxx/apps/mascada.cxx","src/main/cxx/apps/azafran.cxx",C+"model.h",C+"optimizer.cxx",C+"optimize.h"],
  [("argument parsing, exit codes, message block",C+"runner.h Runner::run(), runner.cxx"),("mapping of exceptions to exit codes","src/main/cxx/apps/*.cxx main()"),("exceptions of concurrent evaluations",C+"optimize.h")],
  "exit status, standard output and standard error of the programs")
p("C07","A model definition means what it says",
  "A model definition yields one section per brace block and one line per line entry, in order; exactly the parameters flagged as optimized and not referring to another one are optimized, their initial values are the midpoints and their initial steps the half widths of their (ordered) bounds, and constant parameters keep the given value. A referring parameter always has the value, status and uncertainty of the parameter at the end of its chain of references, whatever the order of definition. Comments and blank lines have no effect.",
  ["inputs"],"all well-formed model definitions, reference graphs and layouts",
  "The tests use five fixed definitions; reference chains, permuted bounds and unusual layouts are not tested.",
  [C+"model.h",C+"readline.h",C+"readline.cxx"],
  [("parsing",C+"model.h Model::get(), readline.h read()"),("indexing of unique parameters and dereferencing",C+"model.h Model::get()"),("mapping of parameter vectors to values",C+"model.h cost(), set(), get_initial_parameter_values()")],
  "parsed model: parameter count, initial values, steps, bounds, cost and reported values for given parameter vectors")
p("C08","An ill-formed model definition is always rejected",
  "Duplicate section or line identifiers, missing or unreadable data files, an empty data range, missing numbers, a block without an opening brace, references to unknown identifiers, references of a parameter to itself or into a cycle, and a definition without any section are all reported as an error and never fitted. Parsing terminates for every input and leaves no partly defined model behind.",
  ["inputs"],"all inputs, in particular every reference graph",
  "No test feeds an ill-formed definition.",
  [C+"model.h",C+"section.cxx",C+"readline.h"],
  [("error states of the parser",C+"model.h Model::get(), Model::parse()"),("reference resolution",C+"model.h Model::get()")],
  "exception or error status of the parser, exit status of the programs")
p("C09","A result file preserves what produced it",
  "The command line, model definition, trace log, fitted data and messages can each be extracted from a result file, and are line by line what the run was given or reported; running the extracted command on the extracted model reproduces the result. Extraction copies exactly the lines between the markers of the requested block, for any number and arrangement of blocks, including markers of former versions, and nothing else.",
  ["inputs","histories"],"all texts, block arrangements and repeated extract-and-run cycles",
  "The tests extract and run six well-behaved files once and look at one number.",
  ["src/main/cxx/apps/ecom.cxx","src/main/cxx/apps/edat.cxx","src/main/cxx/apps/elog.cxx","src/main/cxx/apps/emes.cxx","src/main/cxx/apps/emod.cxx",C+"runner.cxx",C+"model.h"],
  [("block extraction","src/main/cxx/apps/e{com,dat,log,mes,mod}.cxx main()"),("embedding of the command and the model",C+"runner.cxx write_command_line(), model.h Model::get()")],
  "output of the extraction tools")
p("C10","Spectra are read and written faithfully",
  "Reading a spectrum keeps exactly the data rows within the requested (inclusive) wavelength range, in order, up to the first blank line; comment rows are ignored, a missing uncertainty is one, a missing mask is valid, and a malformed row or an empty range is an error. Writing a spectrum and reading it back preserves wavelength, flux, uncertainty, mask and the number of sections, and the written columns are consistent with each other.",
  ["inputs"],"all spectrum files, ranges, masks and sequences of sections",
  "The tests read five well-formed files and never re-read what was written.",
  [C+"section.cxx",C+"section.h"],
  [("reading and writing of sections",C+"section.cxx Section::get(), Section::put()"),("sequences of sections",C+"section.cxx operator>>, operator<<")],
  "sections read from generated files, rows written")
p("C11","Masked data never influence a fit",
  "Changing flux or uncertainty of a masked data point changes neither the cost nor the continuum nor the number of valid data points nor any other data point's residual. Masking an interval affects exactly the data points inside the closed interval, masks accumulate irrespective of order, and the cost is taken over the unmasked points only.",
  ["inputs"],"all spectra, masks, models and values at masked points",
  "The tests use fixed masks and data and compare total costs with two decimals.",
  [C+"section.cxx",C+"section.h",C+"model.h"],
  [("mask",C+"section.cxx Section::mask()"),("restriction of sums to valid data",C+"section.cxx continuum(), cost(), valid_data_count(); section.h cost()")],
  "cost, continuum, residuals and counts of sections with altered masked points")
p("C12","The cost is half the chi-square of the best continuum fit",
  "The cost of a parameter vector is the sum over all sections of half the sum of squared residuals of the valid data points, where the modelled flux is the continuum times the absorption term and the continuum is the linear combination of the requested number of Legendre polynomials (over the section's wavelength range) that minimizes that sum; with zero polynomials the continuum is one. The same values are obtained whether the cost is computed during the search or reported afterwards.",
  ["inputs"],"all sections, numbers of polynomials, models and parameter vectors",
  "The tests compare final costs of five fits, with two decimals.",
  [C+"section.cxx",C+"section.h",C+"model.h"],
  [("normal equations of the continuum",C+"section.cxx Section::continuum()"),("cost",C+"section.h Section::cost(), apply(); model.h Model::cost()")],
  "cost and columns of sections and models")
p("C13","Instrumental broadening is a normalized Gaussian convolution",
  "The absorption term is the transmission exp(-optical depth) convolved with a Gaussian whose full width at half maximum is the central wavelength divided by the resolution, truncated at four half widths: for piecewise linear transmission on an evenly spaced grid the convolution is exact, a constant transmission stays constant up to the truncated wings, and the result is linear in the transmission. When the data spacing exceeds the half width the transmission is sampled more finely, and the reported optical depth and transmission are those at the data points.",
  ["inputs"],"all resolutions (under- and oversampled), wavelength grids and optical depth functions",
  "The tests never look at the convolved spectrum; an error in the kernel, the edges or the sampling changes costs only slightly.",
  [C+"section.h",C+"section.cxx"],
  [("convolution and supersampling",C+"section.h Section::convolute()"),("line spread function primitives",C+"section.cxx primitive(), supersample()")],
  "optical depth, transmission and absorption columns of sections to which a known function is applied")
p("C14","Line profiles follow their physical definitions",
  "The optical depth of a line is determined by rest wavelength, oscillator strength, redshift, velocity, broadening velocity and column density as documented (Doppler profile truncated at four widths, pseudo-Voigt approximations with damping, many-multiplet shift of the rest wavelength); it is symmetric about its center, proportional to oscillator strength and column density, and integrates to the documented line strength. The optical depth of several lines is the sum over all lines, and with zero variation of the fine-structure constant the many-multiplet profile equals the Doppler profile.",
  ["inputs"],"all parameter values and wavelengths",
  "The tests evaluate profiles at a few parameter values.",
  [C+"profiles.h",C+"profiles.cxx"],
  [("profile functions",C+"profiles.cxx, profiles.h"),("superposition",C+"profiles.h Superposition")],
  "values of the profile functions")
p("C15","Parameter uncertainties are those of the fit",
  "After convergence every optimized parameter's uncertainty is the square root of its variance in the adapted covariance matrix, rescaled by the geometric mean of the steps along the principal axes for which the cost rises by one half; for a quadratic cost whose covariance has been learned it equals the standard error. The steps are probed in opposite directions until bracketed, no uncertainty is reported when the search did not converge, and the search result itself is not changed.",
  ["inputs","histories"],"all objective functions and converged states",
  "The tests check uncertainties of no more than a few benchmark functions, if any.",
  [C+"optimize.h",C+"optimizer.h"],
  [("curvature along principal axes",C+"optimize.h postopti()"),("only after convergence",C+"optimizer.h Optimizer::optimize()")],
  "uncertainties and the objective calls after the search")
p("C16","Optimizer configuration depends only on the final settings",
  "Whatever the order and number of configuration calls, an optimizer built from the same final problem dimension, parent number, population size and other settings uses the same recombination weights, learning rates and damping, namely the documented functions of dimension and parent number. Setting the parent number sets the population size to twice that number, restoring the defaults restores every documented default, and a configuration that cannot work (no parents, or no individuals beyond the parents) is refused.",
  ["histories","configurations"],"all sequences of configuration calls",
  "The tests configure optimizers in one order each.",
  [C+"optimizer.h",C+"optimizer.cxx"],
  [("builder",C+"optimizer.cxx Optimizer::Builder")],
  "getters of the builder after arbitrary call sequences; behaviour of the built optimizer")
p("C17","Random number streams are the published ones, for every seed",
  "For every seed (or array of seeds) and every position in the stream the generators MELG19937-64, MT19937 (32 and 64 bit), MT11213 (a and b) and PCG-32 produce the published sequence of words, and the uniform deviates derived from it lie in the closed unit interval and use the documented number of leading bits. Two generators never influence each other, and a copy continues the stream from where it was taken.",
  ["inputs","histories"],"all seeds, seed arrays, stream positions (across state regenerations) and interleavings of generators",
  "The tests compare the first few words for one seed.",
  [C+"random.h"],
  [("state recurrences and seeding",C+"random.h Melg, Mersenne_Twister, Pcg")],
  "words and uniform deviates drawn")
p("C18","Normal deviates are the polar transform of the uniform stream",
  "Normal deviates are produced in pairs by the polar method: each accepted pair of uniforms inside the unit disk (excluding its center) yields exactly two deviates, in order, none is skipped or repeated, and rejected pairs leave no trace. The stream is determined by the seed alone, for every seed and every position.",
  ["inputs","histories"],"all uniform streams, including those with rejected and boundary pairs",
  "No test looks at normal deviates.",
  [C+"deviates.h"],
  [("polar method",C+"deviates.h Normal_Deviate")],
  "deviates drawn from scripted and seeded uniform streams")
p("C19","Eigendecompositions are correct and independent of history",
  "For every symmetric matrix given by one triangle (the lower one in row-major order), each decomposition yields ascending eigenvalues and orthonormal eigenvectors that reproduce the matrix. The input matrix is not changed, the other triangle is ignored, and the result does not depend on earlier decompositions done with the same object.",
  ["inputs","histories"],"all symmetric matrices (degenerate, indefinite, badly scaled, dimension one), and sequences of decompositions",
  "The tests decompose one fixed matrix per dimension.",
  [C+"decompose.h",C+"decompose.cxx"],
  [("LAPACK drivers",C+"decompose.cxx D_Decompose, R_Decompose, X_Decompose")],
  "eigenvalues and eigenvectors")
p("C20","Adaptive integration refines where the error is and adds up exactly",
  "The integral is the sum of the rule results of intervals that always partition the whole domain: each refinement bisects an interval with the largest error estimate, reused function values are those of the right abscissas, and refinement stops as soon as the total error estimate is below the goal or the maximum number of refinements is reached. Polynomials within the rules' degree are integrated exactly whatever the number of refinements, for every admissible pair of rules, integrals over infinite domains transform accordingly, and the convolution of a transmission with an instrumental function is the infinite integral of their product.",
  ["inputs","histories"],"all integrands, domains, rule pairs, goals and refinement sequences",
  "The tests integrate a few smooth functions with default settings, where wrong reused values are masked by the error goal.",
  [C+"integrator.h",C+"profiles.h"],
  [("partition and refinement",C+"integrator.h Partition, Part"),("infinite domains",C+"integrator.h integrate_positive_infinite() ..."),("convolution",C+"profiles.h Convolutor")],
  "abscissas requested from the integrand and the value returned")
p("C21","Wavelength conversions are exact, inverse and row-preserving",
  "Conversion between air and vacuum wavelengths follows the documented dispersion formulas, and converting vacuum to air wavelengths and back (with the same formula) restores them (above 2000 Angstrom, where the formulas apply); the barycentric correction multiplies wavelengths by the relativistic Doppler factor of the given velocity. Every input row after the skipped ones yields exactly one output row in the same order, with its flux and uncertainty unchanged; malformed input is an error and produces no output.",
  ["inputs"],"all wavelengths, velocities, numbers of skipped rows and files",
  "The conversion programs have no tests.",
  ["src/main/cxx/util/airtovac.cxx","src/main/cxx/util/vactoair.cxx","src/main/cxx/util/helicorr.cxx",C+"equations.cxx",C+"equations.h",C+"base.h",C+"dataio.cxx"],
  [("dispersion formulas",C+"equations.h, equations.cxx"),("Newton's method, redshift",C+"base.h solve(), redshift()"),("reading and writing",C+"dataio.cxx")],
  "output and exit status of airtovac, vactoair and helicorr; dispersion functions")
p("C22","Merging flux and uncertainty files pairs corresponding rows",
  "Merging a flux file and an uncertainty file over the same wavelengths outputs, for every row after the skipped ones, the wavelength and flux with the uncertainty of the corresponding row. Files of different length, unreadable or malformed files and a wrong number of arguments are errors reported by the exit status, without any output.",
  ["inputs"],"all pairs of files, numbers of skipped rows and argument vectors",
  "The merging program has no tests.",
  ["src/main/cxx/apps/ezip.cxx",C+"dataio.cxx"],
  [("argument handling and merging","src/main/cxx/apps/ezip.cxx main()"),("two-column reader and writer",C+"dataio.cxx get(), put()")],
  "output and exit status of ezip")
p("C23","The result table reports the fitted model faithfully",
  "The parameter tables list every section and every line once, with the final values of its own parameters, the uncertainty for exactly those that were optimized (also by reference), and the wavelength range, number of valid data points and cost of the section as given by the fitted data in the same file. The observed wavelength and the equivalent width follow from the tabulated parameters as documented, and the cost of the sections adds up to the fitness of the result.",
  ["inputs"],"all models, parameter vectors and uncertainties",
  "The tests search the output for one or a few costs.",
  [C+"model.h",C+"profiles.h"],
  [("tables",C+"model.h Model::put(), put_parameter()"),("assignment of values and uncertainties",C+"model.h Model::set()"),("equivalent width",C+"profiles.h Equivalent_Width_Calculator")],
  "HTML tables and data block of result files")
p("C24","Batch scripts never lose an original and report failures",
  "Applying a command to a list of files (none of which is the backup of another) replaces each file by the command's output for that file and leaves no backup behind when everything succeeded; whenever any step fails or the run is interrupted before all files have been replaced, the unmodified original of every file still exists under its own or its backup name, and the failure is reported. Re-running a result file runs the recorded command on the recorded model, stores the output, and succeeds only if every expected cost occurs in the result.",
  ["crash_points","fault_sequences","inputs"],"all points at which a step can fail or the script can be killed, and all lists of distinct files",
  "The scripts are only exercised by successful fits.",
  ["src/main/scripts/foreach","src/main/scripts/erun"],
  [("backup, apply, move, clean up","src/main/scripts/foreach"),("extract, run, compare","src/main/scripts/erun")],
  "file system contents and exit status after runs with injected failures and kills")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
