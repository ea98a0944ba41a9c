#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Calendar dates are a faithful, ordered image of the Gregorian calendar",
  "For every representable day (1970-01-01 up to the maximum date) the year/month/day, the Excel serial number, the day of week, the weekend flag and the ISO text of a date all denote the same Gregorian day, and building a date from any of these forms gives back the same date. Date ordering, differences and day stepping agree with the number of days between the dates, and a year/month/day or serial outside the representable range yields an invalid date, never a different valid one.",
  ["inputs"], "every representable day, every conversion between its forms, and out-of-range constructions around both ends",
  "The tests convert a handful of dates; the formulas are century- and month-arithmetic with boundary cases (leap centuries, year ends) they never visit.",
  ["dal/time/date.cpp", "dal/time/date.hpp", "dal/time/dateutils.cpp"],
  [("serial <-> civil conversion", "dal/time/date.cpp"), ("text parsing", "dal/time/dateutils.cpp")], "public date functions")

p("C02", "Month arithmetic clips to month ends exactly",
  "Adding any number of months (positive, zero or negative) to a date lands in the month that many months away, on the same day of month or on that month's last day if it is shorter; with end-of-month preservation requested, a month-end stays a month-end. The number of days in a month, the end of a date's month and the nominal maturity of a standard period follow the same calendar.",
  ["inputs"], "every date, month shift, preservation flag and standard period whose result is representable",
  "Tests sample a few shifts; year wrap, negative shifts, February and end-of-month combinations are combinatorial.",
  ["dal/time/date.cpp", "dal/time/periodlength.cpp"],
  [("month stepping and clipping", "dal/time/date.cpp"), ("nominal maturity", "dal/time/periodlength.cpp")])

p("C03", "Date-times keep their clock reading, order and text",
  "A date-time built from a date and any hour:minute:second of the day reports that same hour, minute and second in its accessors and its text, parsing that text gives the same date-time, and millisecond counts round-trip exactly to the date-time they came from. Ordering, subtraction and forward shifts of date-times agree with elapsed time, carrying into following days, and clock readings outside the day are rejected.",
  ["inputs"], "every second of the day, on any date; millisecond counts; forward shifts",
  "Tests use three clock readings; the stored day fraction makes truncation errors appear only at particular seconds.",
  ["dal/time/datetime.cpp", "dal/time/datetime.hpp", "dal/time/datetimeutils.cpp"],
  [("fraction to h:m:s", "dal/time/datetime.cpp"), ("text parsing", "dal/time/datetimeutils.cpp")])

p("C04", "Day-count fractions follow their published conventions",
  "For every pair of dates with start no later than end, each day-count convention (ACT/360, ACT/365F, ACT/ACT ISDA, 30/360 US with its month-end and end-of-February rules, ACT/365L) returns the fraction its rule defines, and the call always returns. ACT/365L with annual coupons divides by 366 exactly when a 29 February lies after the start and up to the nominal end; otherwise its divisor is the length of the nominal end's year.",
  ["inputs"], "all pairs of dates, all conventions, annual and non-annual contexts",
  "One pair of dates per convention is tested and ACT/365L not at all.",
  ["dal/time/daybasis.cpp", "dal/time/daybasis.hpp"], [("day count rules", "dal/time/daybasis.cpp")])

p("C05", "Business-day rolling and counting agree with the holiday calendars",
  "A day is a business day for a set of holiday centers exactly when it is a declared working weekend day of some center, or a weekday that is a holiday of none of them; rolling forward (backward) gives the first such day on or after (before) the date and counting gives the number of such days in the half-open interval. This is independent of the order, repetition and case in which the centers are named and of which combinations were used before. Registering a center rejects duplicates, unsorted lists, weekend holidays and weekday working-weekends without altering existing centers, and concurrent registrations of different centers all take effect.",
  ["inputs", "histories", "schedules"], "every calendar content, center combination, date pair, and registration history (sequential or concurrent)",
  "Tests use the two built-in Chinese calendars and a few dates; the counting shortcut by whole weeks, merged centers and caching of combinations are not explored.",
  ["dal/time/holidays.cpp", "dal/time/holidaydata.cpp"],
  [("rolling and counting", "dal/time/holidays.cpp"), ("center registry", "dal/time/holidaydata.cpp")])

p("C06", "Date increments land on the day their text describes",
  "Applying a parsed date increment forward or backward gives the day its text describes: n years/months/weeks/calendar or business days (then rolled to a business day of its holiday centers when it names any), or the next/previous IMM, monthly IMM or CDS date strictly beyond the start, or the end of the start's own month (forward) or of the previous month (backward), and compound increments apply their parts left to right. Quarterly IMM and CDS steps always land on a March/June/September/December roll date, and malformed increment text is rejected.",
  ["inputs"], "every start date, every increment text in the documented grammar, both directions",
  "Tests step from one date in a quarter month; non-quarter months, roll days and holiday interaction are untested.",
  ["dal/time/dateincrement.cpp"], [("increment parsing and stepping", "dal/time/dateincrement.cpp")])

p("C07", "Generated schedules cover start to maturity with the right adjustments",
  "A generated schedule starts at the start date and ends at the maturity, its interior dates are obtained by repeatedly stepping the tenor from the start (forward generation) or back from the maturity (backward generation) while staying inside the period, and it is strictly increasing. Business-day adjusted schedules are those dates rolled to business days with duplicates removed; unsupported rules, and tenors that do not advance, are rejected.",
  ["inputs", "configurations"], "every start, maturity, tenor, generation direction, calendar and supported convention",
  "A few schedules are tested; stubs, coincident maturity, holidays merging two dates and backward stubs are not.",
  ["dal/time/schedules.cpp"], [("date generation", "dal/time/schedules.cpp")])

p("C08", "Scripts are parsed by the published grammar or rejected, never misread",
  "A script event is accepted exactly when it is a sentence of the scripting grammar and the resulting statement tree has the grammar's precedence, associativity, comparison and if/then/else structure, independent of letter case and spacing. Anything else is rejected with an error: no token is silently dropped or reinterpreted, and parsing never crashes or hangs.",
  ["inputs", "programs"], "every token sequence",
  "Tests parse a few dozen well-formed scripts; malformed sequences and operator mixes are unbounded.",
  ["dal/script/parser.hpp", "dal/script/parser.cpp"], [("recursive descent parser", "dal/script/parser.cpp")], "tree dump of a parsed event")

p("C09", "Interpreted script evaluation follows the language semantics",
  "Evaluating a product on a scenario gives every variable the value defined by executing its statements in event-date then textual order: expressions, comparisons and boolean connectives with their usual meaning, only the taken branch of a conditional executed, assignments overwriting, and PAYS adding the amount divided by that date's numeraire. Every evaluation starts from the same initial variable values, so evaluating other scenarios before, in any number, never changes the result.",
  ["programs", "inputs", "histories"], "every script of the language, scenario, and history of earlier evaluations with the same evaluator",
  "Tests evaluate a few fixed products; operator nesting, branch structure and evaluator reuse are unbounded.",
  ["dal/script/visitor/evaluator.hpp", "dal/script/event.hpp", "dal/script/event.cpp"],
  [("tree evaluator", "dal/script/visitor/evaluator.hpp"), ("product evaluation", "dal/script/event.hpp")])

p("C10", "Compiled evaluation equals interpreted evaluation",
  "For every product, scenario and history of earlier evaluations, evaluating the compiled form gives the same variable values as evaluating the script by interpretation, including constant folding, constants defined by macros, nested conditionals and conditions that fold to constants. Compilation and compiled evaluation never read or write outside their own working storage.",
  ["programs", "inputs", "histories"], "every script of the language, scenario, preprocessing mode and evaluation history",
  "Tests compare two or three products; the instruction stream's jumps, stack use and folded cases are combinatorial.",
  ["dal/script/visitor/compiler.hpp", "dal/script/visitor/constprocessor.hpp", "dal/script/event.cpp"],
  [("compiler and stream evaluator", "dal/script/visitor/compiler.hpp"), ("constant folding", "dal/script/visitor/constprocessor.hpp")])

p("C11", "Preprocessing never changes what a script computes",
  "Variable domain analysis, always-true/always-false condition pruning and if-processing leave the value of every variable on every scenario unchanged: a condition is removed only if it has the same truth value on all scenarios that reach it (values within rounding distance of zero and undefined arithmetic such as a logarithm of a negative number aside). Scripts evaluate identically with and without the domain analysis, in interpreted and compiled form.",
  ["programs", "inputs"], "every script and every scenario with admissible (positive) spots",
  "Tests check the domains of a few conditions; soundness is a claim about all scenarios and program shapes.",
  ["dal/script/visitor/domainproc.hpp", "dal/script/visitor/constcondprocessor.hpp", "dal/script/visitor/ifprocessor.hpp"],
  [("domain analysis", "dal/script/visitor/domainproc.hpp"), ("condition pruning", "dal/script/visitor/constcondprocessor.hpp")])

p("C12", "Fuzzy evaluation is the smoothed semantics and agrees away from boundaries",
  "In fuzzy mode each comparison yields a degree of truth that is 0 or 1 outside its smoothing half-width and piecewise linear inside (a comparison of discrete-valued variables is smoothed between its neighbouring possible values), connectives combine degrees by product, probabilistic sum and complement, and a conditional sets every variable it touches to the degree-weighted average of the two branches. Hence on scenarios where no condition is inside its smoothing width, fuzzy and crisp evaluation give identical values, for every operator including inequality and for nested conditionals.",
  ["programs", "inputs"], "every script, scenario, smoothing width (default or per condition) and nesting depth",
  "Tests value two smoothed products to Monte Carlo accuracy; individual operators and nesting are not compared with the definition.",
  ["dal/script/visitor/fuzzy.hpp"], [("fuzzy evaluator", "dal/script/visitor/fuzzy.hpp")])

p("C13", "Product construction orders, expands and splits events correctly",
  "Building a product turns its table of rows into events: numeric rows become named constants, other non-date rows textual macros applied to later rows irrespective of case, schedule rows expand to one event per schedule period with their begin/end placeholders replaced, and rows on the same date are joined in row order; malformed schedules, duplicate definitions and definitions after the first dated row are rejected. Events are processed in date order, those before the evaluation date are applied once as history and those on or after it form the simulated timeline at act/365 times, and preprocessing gives the same product however often it is requested.",
  ["inputs", "configurations", "histories"], "every event table, evaluation date and order of schedule parameters",
  "Tests build few products with one schedule layout and no reprocessing.",
  ["dal/script/event.cpp", "dal/script/event.hpp"], [("event table parsing", "dal/script/event.cpp")])

p("C14", "Monte Carlo results do not depend on threads, batching or schedule",
  "A simulation's aggregate value is the sum over path numbers 0..n-1 of the payoff on the path driven by that path number's random vector, so value and sensitivities are the same (up to summation rounding) for every number of worker threads, every task interleaving and, for values, whether the script is compiled or interpreted; repeating the call repeats the result. If evaluating any path or setting up any task fails, the call reports the failure instead of returning a number.",
  ["schedules", "configurations", "inputs", "fault_sequences"], "every thread count, task-to-thread assignment, path count, generator and product",
  "Tests run one configuration on the default pool and compare loosely with closed forms.",
  ["dal/script/simulation.hpp", "dal/script/simulation.cpp"], [("batch tasks", "dal/script/simulation.hpp")])

p("C15", "The thread pool runs every task exactly once and never strands a waiter",
  "Every task submitted to a running pool is executed exactly once, by a worker or a waiting thread, tasks are taken up in submission order, and a task handle becomes ready with the task's result or its exception. Waiting actively on a handle always terminates with the task done and reports whether the waiter ran any task, from several client threads and also inside tasks for the tasks they spawned, with any number of workers including none; no interleaving deadlocks. Stopping the pool lets running tasks finish and drops those not taken up (their handles report a broken promise), and starting it again leaves it fully usable, with as many threads as asked (clipped to the processors) numbered distinctly from 1, every other thread being number 0.",
  ["schedules", "histories"], "every interleaving of submitters, workers, active waiters, stop and restart",
  "Unit tests exercise one interleaving per run of a few tasks.",
  ["dal/concurrency/threadpool.hpp", "dal/concurrency/threadpool.cpp", "dal/concurrency/concurrentqueue.hpp"],
  [("task queue hand-off", "dal/concurrency/concurrentqueue.hpp"), ("worker loop and active wait", "dal/concurrency/threadpool.hpp")])

p("C16", "The concurrent queue is a linearizable FIFO with prompt interruption",
  "Under any interleaving of pushes, blocking pops and try-pops, each pushed item is returned at most once, items come out in push order, a try-pop fails only when the queue is empty or interrupted, and a blocking pop waits only while the queue is empty and not interrupted. While interrupted, every blocked or new blocking pop returns without an item, and after a reset the queue delivers again; clearing empties it at one instant.",
  ["schedules", "histories"], "every interleaving of producers, consumers, interrupt and reset",
  "Tests push and pop from at most two threads on one schedule.",
  ["dal/concurrency/concurrentqueue.hpp"], [("mutex and condition variable protocol", "dal/concurrency/concurrentqueue.hpp")])

p("C17", "Random streams are reproducible and positionable",
  "A generator's output depends only on its kind, seed, dimension, precision and how many vectors were drawn: skipping to path n makes the next vector equal to the (n+1)-th vector of a fresh generator drawn the same way (uniform or normal), at any point of its life, and a clone is a fresh generator of identical kind, seed, dimension and precision. Uniforms lie strictly inside (0,1), consecutive uniform vectors alternate with their antithetic mirror images, and the combined multiple-recursive generator follows its published recurrence.",
  ["histories", "inputs"], "every generator kind, seed, dimension and interleaving of draws, skips and clones",
  "Tests check one even skip in dimension one with uniforms and moments of long streams.",
  ["dal/math/random/pseudorandom.cpp", "dal/math/random/pseudorandom.hpp"], [("skip-ahead", "dal/math/random/pseudorandom.cpp")])

p("C18", "The Brownian bridge is an orthonormal reordering of its driver",
  "For every number of steps, the bridge maps each driver vector linearly to increments by an orthonormal transformation, so independent standard normals stay independent standard normals, with the first driver component determining the terminal value. Skipping and cloning position the bridge exactly as its driver.",
  ["inputs", "histories"], "every dimension and driver stream",
  "Tests compare sample moments for one dimension.",
  ["dal/math/random/brownianbridge.cpp", "dal/math/random/brownianbridge.hpp"], [("bridge construction", "dal/math/random/brownianbridge.cpp")])

p("C19", "Automatic differentiation returns the exact derivatives of the recorded program",
  "After back-propagation from any result of any recorded computation, the adjoint of each input and intermediate equals the derivative of that result with respect to it, however the computation is split into statements, reuses variables, mixes constants or updates in place, wherever each elementary operation is differentiable. Propagating in two stages through a marked position gives the same adjoints as one full sweep, accumulating over repeated re-recordings from the mark, and multi-result propagation gives for each result what a single-result run gives.",
  ["programs", "histories"], "every straight-line program over the supported operations, every mark position and number of results",
  "Tests differentiate a dozen fixed expressions.",
  ["dal/math/aad/expr.hpp", "dal/math/aad/node.hpp", "dal/math/aad/tape.cpp", "dal/math/aad/aad.hpp"],
  [("expression recording", "dal/math/aad/expr.hpp"), ("propagation", "dal/math/aad/aad.cpp")])

p("C20", "Recording storage grows, marks and rewinds without losing or corrupting entries",
  "The block storage behind recordings behaves as a sequence: entries keep their address and contents until rewound past, iteration in either direction visits exactly the live entries in order whatever the fill level of a block, rewinding to a mark leaves exactly the entries recorded before it, and a full rewind or clear empties it. Multi-entry reservations are contiguous, and reuse after a rewind never disturbs older live entries.",
  ["histories"], "every sequence of append, reserve, mark, rewind, rewind-to-mark and clear, at every block boundary",
  "Tests fill one or two patterns with a single block size.",
  ["dal/math/aad/blocklist.hpp"], [("block list", "dal/math/aad/blocklist.hpp")])

p("C21", "The object repository stores, replaces, finds and erases by its rules",
  "Adding an object returns a tag from which the same object is fetched until it is erased; adding with a replacement policy erases exactly the earlier objects that policy names (none, same type and name when the name is non-empty, same type and name, or same type), and nothing else ever disappears. Searching by pattern returns exactly the stored objects whose tag matches, erasing by pattern or by object removes exactly those and reports how many, and the size always equals the number of stored objects.",
  ["histories"], "every sequence of adds (types, names, policies), fetches, finds and erases",
  "Tests add and erase a couple of objects with the default policy.",
  ["dal/storage/_repository.cpp", "dal/storage/_repository.hpp", "public/src/repository.cpp"], [("repository", "dal/storage/_repository.cpp")])

p("C22", "Global dates default, override and restore like a stack",
  "The evaluation and accounting dates read back the last value set, or today's date if never set, independently of each other; a scoped override is visible exactly inside its scope, nests in any order of dates and depth, and on leaving the scope (normally or by exception) the previous value is back. Environment lookups see the innermost entry of the requested kind and entries disappear with their scope.",
  ["histories"], "every sequence and nesting of sets, overrides and scope exits, including exits by exception",
  "Tests set one date once.",
  ["dal/storage/globals.cpp", "dal/storage/globals.hpp", "dal/utilities/environment.hpp"],
  [("date store and scoped override", "dal/storage/globals.cpp"), ("environment stack", "dal/utilities/environment.hpp")])

p("C23", "Saving and loading an object graph preserves contents and sharing",
  "Writing any storable object, or a collection of objects, to its text or tabular archive form and reading it back yields an object of the same type, name and field values, with the number and order of collection entries kept; an object referenced several times is written once and comes back as one shared object. Archives with missing mandatory fields, dangling references or unknown types are rejected. (Date-times to the second; text that itself spells a number or a date is outside for JSON, and the tabular form keeps no trailing blanks; its file form holds single-line text without commas.)",
  ["inputs", "histories"], "every object graph of the storable types, with arbitrary sharing and field sizes including empty",
  "Tests round-trip one small object per type.",
  ["dal/storage/json.cpp", "dal/storage/splat.cpp", "dal/storage/archive.cpp", "dal/storage/bag.cpp"],
  [("JSON archive", "dal/storage/json.cpp"), ("tabular archive", "dal/storage/splat.cpp")])

p("C24", "Dictionaries and settings text behave as case-insensitive maps",
  "A dictionary holds each key once, comparing keys without regard to case, spaces, tabs and underscores: inserting an existing key is rejected and leaves the dictionary unchanged, lookups of present keys return their value and of absent keys fail or give the blank or default value as asked. Its text form lists entries so that parsing gives back the same keys with equal numbers, dates, date-times and strings, for non-blank keys and text without the separators '=' and ';' (booleans come back as text), and malformed text is rejected.",
  ["inputs", "histories"], "every insertion history, key spelling and value kind",
  "Tests insert two or three keys.",
  ["dal/utilities/dictionary.cpp", "dal/utilities/dictionary.hpp", "dal/string/strings.cpp", "dal/math/cellutils.cpp"],
  [("dictionary", "dal/utilities/dictionary.cpp"), ("string condensing", "dal/string/strings.cpp")])

p("C25", "Historical fixings are found exactly when recorded",
  "A fixing lookup returns precisely the value recorded for that index name and time and fails (or reports absence when asked quietly) for any other; FX fixings recorded for the inverse pair are returned inverted. Derived history queries (clamped expectation, range and all-in-range probabilities) follow their definitions on the recorded values. Fixings stored globally are kept: storing appends or overwrites exactly the given times, and concurrent stores from several threads lose nothing.",
  ["inputs", "histories"], "every recorded history, lookup time and direction",
  "Tests look up one or two fixings.",
  ["dal/indice/fixings.cpp", "dal/indice/index.cpp", "dal/indice/index/fx.cpp", "dal/indice/indexpath.cpp"],
  [("fixing lookup", "dal/indice/fixings.cpp"), ("fx inversion", "dal/indice/index/fx.cpp")])

p("C26", "Multi-axis containers address each cell uniquely",
  "A report or n-dimensional array of any shape maps distinct in-range coordinates to distinct cells, so a written value is read back at exactly that coordinate until overwritten; growing a report along its first axis or resizing an array keeps every value whose coordinate is still in range. Out-of-range report access and unknown axes are rejected; matrices keep the cells still in range when resized and their row, column, transposed and flattened views show the same cells; formatting a matrix into a table places each block where the layout says.",
  ["inputs", "histories"], "every shape, write/read/resize history",
  "Tests use one or two shapes.",
  ["dal/risk/report.cpp", "dal/math/ndarray.hpp", "dal/math/ndarray.cpp", "dal/math/matrix/matrixs.hpp"],
  [("strides", "dal/math/ndarray.cpp"), ("report addressing", "dal/risk/report.cpp")])

p("C27", "Curves and interpolators reproduce and integrate their knots exactly",
  "Linear interpolation in one and two dimensions returns the knot value at knots, the linear (bilinear) blend between them and the edge value outside; piecewise constant and piecewise linear curves return their on-or-after (left/right) knot values, and their integrals are additive, continuous and equal to the exact area under the function for every date including knots and outside the range. Cubic splines pass through their knots, are twice continuously differentiable and honour their end conditions. Discount factors are the exponential of minus the integral between the two dates, times the base curve's. Non-empty, and unsorted or mismatched knots are rejected (linear interpolators accept repeated ones).",
  ["inputs"], "every knot set, value set and evaluation point",
  "Tests evaluate single points of single curves.",
  ["dal/math/interp/interp.hpp", "dal/math/interp/interp2d.hpp", "dal/curve/piecewiseconstant.cpp", "dal/curve/piecewiselinear.cpp"],
  [("linear interpolation", "dal/math/interp/interp.hpp"), ("curve integrals", "dal/curve/piecewiselinear.cpp")])

p("C28", "Linear solvers invert the matrices they decompose",
  "For every well-conditioned dense symmetric, banded or tridiagonal system, multiplying a vector by the stored matrix (from either side, into a fresh vector or the operand itself) gives the matrix-vector product, solving and then multiplying returns the right-hand side, element access inside the matrix returns what was set with zero outside the band, and matrix products, transposes, quadratic forms and conjugate gradients agree with the definitions. Input that is not positive definite is rejected by the Cholesky decompositions. Semi-definite solves, decompositions of bands wider on one side and indices outside the matrix are outside.",
  ["inputs", "histories"], "every size, bandwidth and well-conditioned integer matrix in range, every sequence of sets, multiplications and solves",
  "Tests solve one system per solver.",
  ["dal/math/matrix/banded.cpp", "dal/math/matrix/cholesky.cpp", "dal/math/matrix/sparse.cpp", "dal/math/matrix/bcg.cpp"],
  [("decompositions", "dal/math/matrix/banded.cpp")])
p("C29", "Asset models follow their parameters",
  "For every set of model parameters, product dates and draws, the Black-Scholes and Dupire models produce the path the parameters define: the time line covers every product date with gaps cut into equal steps no longer than the model's maximum, each step uses the volatility at its start (linear in time and log-spot, flat outside the grid), the numeraire and discounts follow the rate, and the spot at each date is what the draws imply. A copy of a model is independent of the original and follows its own parameters; the published parameters and labels match; with differentiated numbers the sensitivities of any sum over the path are its derivatives in every published parameter.",
  ["inputs", "histories"], "every grid, date line, walk, bump and copy sequence in range",
  "Tests price a few options statistically, where errors of this kind hide in the noise, and never read the path.",
  ["dal/model/blackscholes.hpp", "dal/model/dupire.hpp", "dal/model/utilities.hpp", "dal/model/factory.hpp", "dal/math/interp/interp.hpp"],
  [("step by step volatility", "dal/model/dupire.hpp"), ("exact lognormal steps", "dal/model/blackscholes.hpp")])
p("C30", "Root searches keep a bracket and reach a zero",
  "For every monotone function searched from a guess, and every function with a sign change searched from a bracket, each point the search asks for after a sign change is known lies inside the current bracket, the bracket always keeps a sign change, the width it reports is the bracket's, and it converges to within tolerance of a zero in a bounded number of evaluations.",
  ["inputs", "histories"], "every polygon in range, bent, scaled and discontinuous, every guess and bracket",
  "Tests search two smooth functions from one guess each.",
  ["dal/math/rootfind.cpp", "dal/math/rootfind.hpp"],
  [("the bracketing search", "dal/math/rootfind.cpp")])
p("C31", "Option formulas obey the relations between options",
  "For every forward, strike, volatility and option type, the normal and lognormal formulas give prices that satisfy put-call parity, are monotone and convex in strike, increase with volatility, equal the payout at zero volatility, scale (or translate) with their arguments and lie within their no-arbitrage bounds; their greeks and adjoint sensitivities are the derivatives of the price; an implied volatility reprices the option, and prices no volatility can give are rejected; jump prices are the Poisson mixture; the normal distribution and its inverse agree with each other.",
  ["inputs"], "every forward, strike and volatility in range (signs included for the normal model), guesses for implied volatilities within about a third of the answer",
  "Tests check single quotes.",
  ["dal/math/distribution/black.cpp", "dal/math/distribution/base.hpp", "dal/math/distribution/utils.cpp", "dal/math/analytics/vanilla.hpp", "dal/math/specialfunctions.cpp"],
  [("lognormal distribution", "dal/math/distribution/black.cpp"), ("implied volatility", "dal/math/distribution/utils.cpp")])
p("C32", "Finite differences are exact on quadratics and time steps solve their system",
  "For every increasing grid of nodes, the first and second difference operators are exact on polynomials of degree up to two at interior nodes, a time step of any implicitness solves the linear system that defines it with the end values kept, meshes are strictly increasing with the requested ends, size, distances and required point, and the stretching map, its inverse and its slopes agree.",
  ["inputs"], "every uneven line of nodes, coefficients and implicitness in range; every mesh end, size and density in range",
  "Tests roll one option back on one uniform grid.",
  ["dal/math/pde/fd1d.cpp", "dal/math/pde/finitedifference.cpp", "dal/math/pde/meshers/concentrating1dmesher.cpp", "dal/math/pde/pde.cpp"],
  [("difference operators", "dal/math/pde/finitedifference.cpp")])
p("C33", "Fits reach the optimum that defines them",
  "For every increasing grid, weights and tightness, smoothing returns the minimiser of its objective (each value balanced between its datum and its neighbours); and for every underdetermined system with a solution near the guess, the search returns a point meeting every tolerance, which for linear functions is the solution nearest to the guess in the weight norm.",
  ["inputs"], "every problem in range built around an exact answer",
  "Tests fit one or two problems and compare with loose tolerances.",
  ["dal/math/smooth.cpp", "dal/math/optimization/underdetermined.cpp"],
  [("smoothing", "dal/math/smooth.cpp"), ("underdetermined search", "dal/math/optimization/underdetermined.cpp")])

p("C34", "Local-volatility calibration recovers the diffusion behind a surface",
  "For every implied-volatility surface produced by a known diffusion (without rates), calibration returns a grid that contains the requested spots and times with no gap above the requested steps, whose volatility at every spot within two and a half standard deviations (of the at-the-money call) is the diffusion's local volatility; outside that band it takes the value of the nearest grid spot inside, and where no grid spot is inside, the value at today's spot. A view of risk laid on the surface shifts the implied volatilities by its interpolated spreads, and the calibration in differentiated numbers returns the sensitivities to those spreads.",
  ["inputs"], "every surface, grid, step and view of risk in range",
  "One test calibrates one surface and looks at its shape; risk views are never built.",
  ["dal/model/dupire.hpp", "dal/model/ivs.hpp", "dal/model/ivs.cpp", "dal/model/utilities.hpp", "dal/math/interp/interp2d.hpp"],
  [("calibration", "dal/model/dupire.hpp"), ("local volatility and risk views", "dal/model/ivs.hpp"), ("grids", "dal/model/utilities.hpp")])
p("C35", "Index names read back as the index they name, or are rejected",
  "For every equity index (with a delivery date, a delay or neither) and every exchange rate, reading its name gives an index of the same kind with the same name, whatever the case of the letters, the same delivery at every fixing time, and so does copying it; a text that is not such a name (brackets missing or out of order, unknown kind, trailing or misplaced text, an unreadable date) is rejected, never read as some other index.",
  ["inputs"], "every index and every damaged name",
  "Tests read four well-formed names.",
  ["dal/indice/indexparse.cpp", "dal/indice/parser/equity.cpp", "dal/indice/parser/fx.cpp", "dal/indice/parser/init.cpp", "dal/indice/index/equity.cpp", "dal/indice/index/fx.cpp"],
  [("dispatch by kind", "dal/indice/indexparse.cpp"), ("equity names", "dal/indice/parser/equity.cpp"), ("exchange rates", "dal/indice/parser/fx.cpp")])
p("C36", "Errors carry exactly the notes in force where they are raised",
  "Whatever the history of scopes entered, left and unwound by errors, in any number of threads, the message of an error consists of its place and text followed by the notes in force in the raising thread at that moment, outermost first, each with the value its variable has then; notes of other threads or of scopes already left never appear, and requirements that are met raise nothing.",
  ["inputs", "histories", "schedules"], "every history of scopes, values and errors, and every interleaving of threads",
  "Tests raise single errors in one thread.",
  ["dal/utilities/exceptions.hpp", "dal/utilities/exceptions.cpp"],
  [("notes and messages", "dal/utilities/exceptions.cpp"), ("raising macros", "dal/utilities/exceptions.hpp")])
p("C37", "Value stacks are last-in first-out through growth, copies and moves",
  "For every history of pushes, pops, takes, writes below the top, resets, clears, copies and moves, and every initial capacity, a stack holds exactly the values pushed and not yet popped: size, top, indexed access and iteration show them from the last pushed to the first, a copy is independent of its source, a cleared or moved-from stack is empty and usable, and a fixed-size stack rejects what does not fit.",
  ["inputs", "histories"], "every history and capacity, for numbers and strings",
  "Tests push and pop a few values within the initial capacity.",
  ["dal/math/stacks.hpp"],
  [("growing and fixed stacks", "dal/math/stacks.hpp")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
