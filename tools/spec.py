"""The properties, in one place; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""

V = "src/finoptions/vanillaoptions.py"
B = "src/finoptions/base.py"
A = "src/finoptions/basic_american_options/__init__.py"
T = "src/finoptions/binomial_tree_options/__init__.py"
H = "src/finoptions/heston_nandi_options/__init__.py"
M = "src/finoptions/monte_carlo_options/__init__.py"
MI = "src/finoptions/monte_carlo_options/mc_innovations.py"
MP = "src/finoptions/monte_carlo_options/mc_paths.py"
MY = "src/finoptions/monte_carlo_options/mc_payoffs.py"
S3 = "src/finoptions/spread_options/bitree3d.py"
SK = "src/finoptions/spread_options/spreadapprox.py"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, level="model_checking", technique="", note="", state=(), observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, level=level, technique=technique, note=note, na=na))


EXACT = "Every case of the listed finite space is executed on the code in /repo/src and compared with an independent reference model; nothing between or beyond the listed points is covered."

prop("C01", "European GBS/Black-Scholes/Black-76 prices equal the lognormal expectation",
     "For every spot, strike, time, interest rate, cost of carry and volatility, call() and put() of GBSOption, BlackScholesOption and Black76Option return the discounted expectation of the payoff under a lognormal price with mean S*exp(b*t) (Black-76: FT) and log-standard-deviation sigma*sqrt(t), to the accuracy of the normal-distribution polynomial the package documents (about 1e-7 of S and K). "
     "It makes no difference whether numbers are given as int, float or numpy scalars, or whether the option was constructed with the values or had them set with set_param.",
     ["inputs", "configurations"], "all valuations of a (S/K, K, t, r, b, sigma) lattice including b = 0, b = r, negative rates, one day to ten years, 1% to 300% volatility, deep in/at/out of the money",
     "The tests price three parameter sets; the formula has sign, carry and scale regimes they never enter.",
     [V, B], [("closed form call/put", V + " GBSOption.call, put"), ("normal distribution polynomial", B + " _Base._CND"), ("futures mapping b=0, S=FT", V + " Black76Option.__init__")],
     technique="explicit-state enumeration of a parameter lattice, implementation vs reference model", note=EXACT)

prop("C02", "Miltersen-Schwartz prices follow from the model's volatility structure",
     "For every maturity pair t <= T, volatilities, correlations (positive definite) and mean-reversion speeds, MiltersenSchwartzOption.call() and put() equal Pt times the lognormal expectation whose variance is the time integral of the squared instantaneous volatility of log futures and whose mean is FT times exp of minus the integrated covariance with the bond.",
     ["inputs"], "lattice over (t,T), three volatilities (including zero ones), kappaE, kappaF, every positive definite correlation triple of a grid, strikes from far out to far in the money",
     "The tests use a single documented parameter set.",
     [V], [("closed-form variance and covariance integrals", V + " MiltersenSchwartzOption.call/put")],
     technique="explicit-state enumeration of a parameter lattice, implementation vs quadrature model", note=EXACT)

prop("C03", "Put-call parity holds in every European engine",
     "For the same parameters, call() - put() equals the discounted forward minus the discounted strike in every European engine: GBS, Black-Scholes, Black-76, Miltersen-Schwartz, the CRR, JR, Tian and trinomial lattices, the two-asset lattice payoffs that have a parity, Kirk's spread approximation, Heston-Nandi and Monte Carlo with the same innovations. "
     "On a lattice the forward is the lattice's own expected terminal price.",
     ["inputs", "configurations"], "parameter lattices and lattice depths 1..30 for every European engine",
     "The tests compare a call and a put with separate literals at one point per class.",
     [V, T, S3, SK, H, M], [("call and put are priced by one routine with z = +1/-1", T + " _calc_price; " + S3 + " _calc_price"), ("put by parity", H + " HestonNandiOption.put")],
     technique="explicit-state enumeration; parity invariant in every state", note=EXACT)

prop("C04", "Prices respect no-arbitrage bounds, monotonicity, convexity and homogeneity",
     "In every engine with a meaningful probability measure, a call price lies between its no-arbitrage lower and upper bounds, does not fall when the underlying rises or the strike falls, is convex in both and scales with (S, K); puts mirror this, European prices do not fall with volatility, and two-asset payoffs are monotone in the assets and strikes as their payoff is.",
     ["inputs", "configurations"], "every pair of neighbouring points on S x K grids (and two-asset grids) for every engine, style and depth",
     "Relations between prices at different inputs cannot be seen by tests that pin single values.",
     [V, T, A, S3, SK], [("pricing routines", "call/put of every class")],
     technique="explicit-state enumeration; relational invariants on every pair of neighbouring states", note=EXACT + " The American approximations are held to the bounds only up to their approximation error.")

prop("C05", "Analytic greeks are the derivatives of the price in every cost-of-carry regime",
     "delta, gamma, vega, theta, rho, lambda and cost-of-carry sensitivity of the GBS family, called singly or through greeks(), equal the partial derivatives of the price: theta is minus the derivative in t, lambda is delta*S/price, rho moves b together with r unless b is zero (then r alone), for calls and puts alike.",
     ["inputs", "configurations"], "parameter lattice over K, S/K, t, r, b (0, r, tiny, negative, above r), sigma; each greek singly and bundled",
     "Tests check one parameter set with b != 0; sign and regime errors elsewhere are invisible.",
     [V], [("closed-form greeks", V + " GBSOption.delta/theta/vega/rho/lamb/gamma/c_of_c/greeks")],
     technique="explicit-state enumeration, implementation vs differentiated reference model", note=EXACT)

prop("C06", "Finite-difference greeks are the derivatives of the option's own price",
     "For every option class, delta, gamma, vega, theta, rho and lambda computed numerically (method='fdm' in the GBS family, the default elsewhere; one value per asset for spread options) and the greeks() bundle equal the derivative of that object's own call or put price in the named parameter, with every other parameter at its current value, however that value was reached; computing them changes nothing in the option.",
     ["inputs", "histories"], "every class x every single (and many pairs of) deviation from base parameters, reached by construction and by set_param",
     "Tests compare a few literals at one point per class and never after a parameter change.",
     [B, V, A, T, S3, SK], [("copy, set one parameter, reprice", B + " GreeksFDM._make_partial_der"), ("per-class overrides", A + ", " + S3 + ", " + SK)],
     technique="explicit-state enumeration of option states, implementation vs derivative of fresh objects' prices", note=EXACT)

prop("C07", "Implied volatility inverts the pricing function",
     "volatility(price, call) returns the volatility at which the model reproduces the given price: pricing at any volatility and inverting the result gives that volatility back (to what the price resolves), for calls and puts, scalars and arrays, with or without verbose output and whatever volatility the option object currently holds; the option itself is unchanged.",
     ["inputs", "histories"], "lattice of true volatilities, moneyness, maturities, rates and carries; every prior sigma state (absent or other value); scalar and array prices",
     "Tests invert two prices.",
     [B, A], [("root search on the model price", B + " Option._volatility, _func"), ("per-class entry points", V + " GBSOption.volatility; " + A + " RollGeskeWhaleyOption.volatility")],
     technique="explicit-state enumeration; round trip through the real pricer in every state", note=EXACT)

prop("C08", "Array parameters give exactly the elementwise scalar results",
     "Passing arrays for any subset of a vanilla option's parameters (GBS, Black-Scholes, Black-76, Miltersen-Schwartz) gives, for prices and greeks and implied volatilities, element by element what separate options with the scalar values give, with the shape of the input, for every array length and regardless of which elements are alike or in which cost-of-carry regime each lies.",
     ["inputs", "configurations"], "every subset of parameters given as arrays, lengths 1..7, mixed regimes inside one array",
     "Tests use arrays for one or two parameters of fixed length.",
     [V, B], [("numpy broadcasting through the closed forms", V), ("array-size helpers", B + " _check_array, _max_array"), ("elementwise root search", B + " _volatility")],
     technique="exhaustive enumeration of array/scalar argument shapes, implementation vs itself elementwise", note=EXACT)

prop("C09", "set_param is history-independent: an option is its parameters",
     "After any sequence of set_param calls (in any order, with repeats, with other queries in between) an option behaves exactly like a freshly constructed option with the final parameters, get_params() reports exactly those, and parameters that were not named keep their values.",
     ["histories"], "breadth-first closure over all set_param events on every class with small per-parameter domains, states hashed on the full object state",
     "Tests call set_param once or not at all.",
     [B, V, A, T, S3, SK], [("re-initialisation from get_params", B + " Option.set_param"), ("parameter maps", "get_params of every class"), ("futures rename", V + " Black76Option.set_param")],
     technique="explicit-state BFS over operation histories with state hashing, implementation vs fresh object", note=EXACT)

prop("C10", "Queries are pure and objects are independent",
     "Pricing, greeks, implied volatility, tree, plot and report calls change neither the option nor the arrays and dictionaries passed in or returned, give the same answer when repeated in any order, and nothing done to one option, to a copy of it, or to a returned value affects any other option.",
     ["histories"], "all operation sequences up to the depth bound over two objects of a class (and pairs of different classes), with mutation of returned containers and of input arrays as operations",
     "Tests build one object and call one method.",
     [B, V, A, T, S3, SK, H, M], [("deep copy", B + " Derivative.copy"), ("no module or class level caches", "all modules")],
     technique="exhaustive enumeration of operation sequences on interacting objects, implementation vs isolated fresh objects", note=EXACT)

prop("C11", "European lattice prices are the discounted expectation over all lattice paths",
     "For every number of steps, the European price from the CRR, JR, Tian and trinomial trees equals the discounted probability-weighted sum of the payoff over every path of that model's published lattice (moves and probabilities).",
     ["inputs", "configurations"], "depths 1.. with full path enumeration, larger depths by node recursion; parameter lattice",
     "Tests pin one price per model at n = 5 or 50.",
     [T], [("lattice parameters", T + " _calc_price of each class"), ("backward induction", T + " _euro")],
     technique="exhaustive enumeration of all lattice paths as the model, implementation replayed on each lattice", note=EXACT)

prop("C12", "American lattice prices are the optimal-stopping value on the lattice",
     "For every number of steps, the American price from the CRR, JR, Tian and trinomial trees equals the value of the best exercise rule over all stopping rules on that lattice, so it is never below immediate exercise or the European price of the same lattice, and equals the European price when early exercise is never worthwhile.",
     ["inputs", "configurations"], "every exercise policy on small lattices, node dynamic programming on larger ones; parameter lattice incl. b < 0, b > r, r = 0",
     "Tests pin one American price per model.",
     [T], [("comparison of continuation with exercise at each node", T + " _amer")],
     technique="exhaustive enumeration of exercise policies / node states as the model, implementation replayed", note=EXACT)

prop("C13", "Returned trees and plots show the value at every node",
     "call(tree=True) and put(tree=True) return the matrix of option values of every node (column = time step, CRR family: upper triangle with the highest price in row 0; trinomial: time along the columns centred on the middle row), whose root is the price, whose last column is the payoff and each other entry the (early-exercise adjusted) discounted expectation of its successors; plot() annotates each node with that number.",
     ["inputs", "configurations"], "all four models, both styles, call and put, every depth up to the bound",
     "Tests compare one 6x6 matrix.",
     [T], [("matrix fill", T + " _euro/_amer, TrinomialTreeOption._calc_price, _reshape"), ("annotation", T + " BiTreePlotter, TriTreePlotter")],
     technique="explicit-state enumeration: every lattice node state compared with the model's node value", note=EXACT)

prop("C14", "Independent engines converge to each other",
     "Lattice prices converge with the number of steps to the closed-form European price (error at most proportional to 1/n), the four lattices agree with one another for American options, the two-asset lattice agrees with Kirk's approximation and with the exact exchange-option value, and special cases of one engine equal the other (GBS with b = 0 is Black-76, Monte Carlo on the complete binomial innovation set is the JR lattice, Heston-Nandi with alpha = beta = 0 is Black-Scholes).",
     ["inputs", "configurations"], "parameter lattice x depths; every pair of engines that price the same contract",
     "Tests compare engines only with stored numbers.",
     [V, T, S3, SK, H, M], [("pricing routines", "all engines")],
     technique="explicit-state enumeration; cross-engine agreement invariant", note=EXACT)

prop("C15", "Two-asset lattice prices each of the nine payoffs exactly",
     "For every payoff type (spread, max, min, dual strike, reverse dual strike, portfolio, exchange, relative performance, product), option style, quantities, strikes, correlation and depth, BionomialSpreadAllTypes and its max/min/spread wrappers return the discounted expectation (American: optimal-stopping value) of that payoff over every path of the four-branch lattice, and the returned tree holds the node values.",
     ["inputs", "configurations"], "9 payoffs x call/put x European/American x depths x quantities x strikes x correlations",
     "Tests pin a handful of payoffs with unit quantities.",
     [S3], [("payoff switch", S3 + " _payoff"), ("node recursion", S3 + " _calc_price"), ("wrappers fixing the payoff", S3 + " BionomialMaxOption, BionomialMinOption, BionomialSpreadOption")],
     technique="exhaustive enumeration of all lattice paths/nodes as the model, implementation replayed", note=EXACT)

prop("C16", "Spread identities: Kirk's formula, exchange options, max + min",
     "SpreadApproxOption returns Kirk's formula for every input (exactly the exchange-option value for K = 0), a max option plus a min option is worth the two single-asset options, swapping the assets swaps max/min roles consistently, and quantities act only through Q*S.",
     ["inputs"], "two-asset parameter lattice including K = 0, negative carries, |rho| up to 1, unequal quantities",
     "Tests pin one Kirk price.",
     [SK, S3], [("Kirk's formula", SK + " call/put"), ("payoff switch", S3 + " _payoff")],
     technique="explicit-state enumeration, implementation vs reference model and algebraic identities", note=EXACT)

prop("C17", "Barone-Adesi-Whaley and Bjerksund-Stensland approximations behave as published",
     "For every non-negative interest rate, both American approximations always terminate with a finite price, reduce to the European price for calls with b >= r, return intrinsic value where they report immediate exercise, and stay within their published accuracy of the American lattice price; BAW is never below the European price and Bjerksund-Stensland's put is its call under the published put-call transformation with a consistent trigger price.",
     ["inputs"], "parameter lattice over S/K, t, r, b, sigma including r = 0, b < 0, b > r, deep in/out of the money, short and long maturities",
     "Tests check two prices each.",
     [A], [("critical price Newton iteration", A + " _bawKc, _bawKp"), ("quadratic approximation", A + " BAWAmericanApproxOption.call/put"), ("flat-boundary formula", A + " BSAmericanApproxOption")],
     technique="explicit-state enumeration with termination monitor, implementation vs published closed forms and lattice model", note=EXACT)

prop("C18", "Roll-Geske-Whaley prices the American call with one dividend",
     "RollGeskeWhaleyOption.call() equals the value of an American call on a stock paying one known dividend D at td (the compound-option expectation over the cum-dividend price), is at least the escrowed-dividend European value and at most the stock price, equals that European value exactly when is_call_optimal() is False, and is_call_optimal() is D > K*(1-exp(-r*(t-td))).",
     ["inputs"], "parameter lattice over S/K, t, td, r, D, sigma on both sides of the exercise condition",
     "Tests pin one price and its greeks.",
     [A, B], [("critical price bisection and bivariate normal", A + " RollGeskeWhaleyOption.call; " + B + " _CBND")],
     technique="explicit-state enumeration, implementation vs quadrature of the exercise decision at the dividend date", note=EXACT)

prop("C19", "Heston-Nandi option values equal the risk-neutral GARCH expectation",
     "For every spot, strike, number of days, daily rate and stationary GARCH parameters, HestonNandiOption.call() and put() equal the discounted risk-neutral expectation of the payoff under the daily GARCH recursion, delta() and gamma() are its derivatives in S, and the value depends on the risk premium only through gamma + lambda + 1/2.",
     ["inputs"], "parameter lattice x 1..4 days with the innovation grid of every day enumerated",
     "Tests pin one price.",
     [H], [("characteristic function recursion and Fourier inversion", H + " _fHN, HestonNandiOption")],
     technique="exhaustive enumeration of a Gauss-Hermite innovation grid as the model, implementation compared in every parameter state", note=EXACT)

prop("C20", "hngarch_sim applies the GARCH recursion to exactly the given innovations",
     "For every innovation sequence (n and n_start being the lengths of the sequences given), hngarch_sim returns the Heston-Nandi GARCH(1,1) returns started at the stationary variance; burn-in innovations are run first and dropped, so splitting a sequence into burn-in and series returns the tail of the unsplit result, inputs are left unchanged and without given innovations it uses n + n_start standard normal draws.",
     ["inputs", "histories"], "every innovation sequence over a small alphabet up to the length bound, every burn-in split, several parameter sets and number types",
     "Tests run one random sequence.",
     [H], [("recursion", H + " hngarch_sim")],
     technique="exhaustive enumeration of innovation histories, implementation vs reference recursion", note=EXACT)

prop("C21", "hngarch_fit filters, scores and reports the model it estimated",
     "The likelihood used by the fit is the exact Gaussian likelihood of the GARCH filter for the given return series; hngarch_fit returns estimates whose likelihood is not worse than at the start values, with z, h, persistence, long-run variance and model parameters all those of the reported estimate (gamma is zero if symmetric), prints only if trace is set, and leaves its input unchanged.",
     ["inputs", "configurations"], "every return series over a small alphabet up to the length bound x parameters x symmetric/trace; fits of a listed set of series",
     "Tests check two likelihood values.",
     [H], [("filter and likelihood", H + " _llhHNGarch"), ("back-transformation and reporting", H + " hngarch_fit")],
     technique="exhaustive enumeration of short return histories, implementation vs reference filter; invariant on each fit result", note=EXACT)

prop("C22", "Monte Carlo loops compose innovations, variates, paths and payoffs as specified",
     "MonteCarloOption.call() and put() return one mean discounted payoff per loop, each computed from a fresh sample of that loop (doubled by its negative if antithetic, then shifted and scaled to mean 0 and standard deviation 1 if standardization), with user supplied innovation, path and payoff classes called with the option's own parameters; trace prints each loop's value and running average without changing results, and an infinite loop mean is reported with a warning.",
     ["inputs", "configurations", "fault_sequences"], "every sequence of innovation batches up to the bound from a small alphabet, all flag combinations, shapes and loops",
     "Tests use one fixed innovation set with a single flag setting.",
     [M], [("simulation loop", M + " MonteCarloOption._sim_mc"), ("trace output", M + " _print_trace")],
     technique="exhaustive enumeration of innovation histories and flag combinations, implementation vs reference loop", note=EXACT)

prop("C23", "Wiener paths and payoffs price every innovation path exactly",
     "WienerPath turns each innovation into the log-increment (b - sigma^2/2)*dt + sigma*sqrt(dt)*eps, PlainVanillaPayoff values each path at its terminal price and ArithmeticAsianPayoff at the mean of the prices after each step, calls and puts, discounted at r over t, for every batch shape.",
     ["inputs"], "every innovation path over a small alphabet up to the length bound, every batch shape, parameter lattice",
     "Tests use one batch.",
     [MP, MY], [("increments", MP + " WienerPath.generate_path"), ("payoffs", MY)],
     technique="exhaustive enumeration of all innovation paths, implementation vs reference model", note=EXACT)

prop("C24", "Sobol innovations are finite and well-shaped whatever the sampler returns",
     "NormalSobolInnovations.sample_innovation() always returns a finite (mc_paths, path_length) array that is the normal quantile of the sampler's points: a sample containing a point 0 or 1 is discarded and redrawn, the unscrambled sequence drops its first point and continues with the next one, each call of a scrambled sampler draws a new sample, and supplied eps replace the sample.",
     ["fault_sequences", "configurations"], "every sequence of good/faulty sampler answers up to the bound; every (mc_paths, path_length) shape of a grid",
     "Faulty samples (0 or 1) occur with negligible probability in a test.",
     [MI], [("redraw loop", MI + " sample_innovation"), ("unscrambled shift", MI + " _get_sobol")],
     technique="exhaustive enumeration of environment answers (sampler faults) on the real code", note=EXACT)

prop("C25", "Reports name the right model and the current parameters and prices",
     "summary(), str() and repr() of every option show the class's own title or name, every current parameter with its value, and the prices that call() and put() return at that moment; summary(printer=False) returns the text it would print, printing changes nothing, and Bjerksund-Stensland and Roll-Geske-Whaley reports include their trigger price and exercise flag.",
     ["histories", "configurations"], "every class x parameter state x report form, after construction and after set_param, missing sigma",
     "Tests never read a report.",
     [B, A, T, S3], [("report text", B + " Option.summary, __repr__; overrides in " + A + ", " + T + ", " + S3)],
     technique="explicit-state enumeration of option states; report parsed and compared with the state", note=EXACT)

prop("C26", "Concurrent use of options from several threads gives the sequential results",
     "Threads that price, compute greeks, copy or report on separate options, or only query a shared option, each get exactly the results they would get alone, for every interleaving.",
     ["schedules"], "all interleavings of two threads at source-line granularity up to the preemption bound",
     "Tests are single threaded.",
     [B, V, A, T, S3, SK, H, M], [("no shared mutable state between objects; greeks work on copies", B + " GreeksFDM._make_partial_der")],
     technique="stateless model checking: preemption-bounded exhaustive interleavings of real threads under a controlled scheduler", note="Complete up to the stated preemption bound at traced-line granularity inside finoptions; preemptions inside numpy/scipy C calls are not modelled.")

prop("C27", "Unusable requests are refused, not answered wrongly",
     "An option without sigma refuses pricing, greeks and reports needing it but still inverts prices; numeric rho with a cost of carry that moves with r is refused in the GBS family; array parameters are refused by the classes that cannot price arrays; unknown parameters, unknown exercise styles, numbers of steps that are zero or fractional, and market prices that no volatility reproduces (above or below every model price, negative) are refused, unknown payoff numbers and an unknown `method` never yield a number; after a refusal the option answers as before.",
     ["inputs", "histories"], "every class x every refusable request x state",
     "Tests check two refusals.",
     [B, V, A], [("sigma check", V + " GBSOption._check_sigma"), ("array check", B + " _check_array"), ("string check", B + " _check_string")],
     technique="explicit-state enumeration of request x state; refusal table as the model", note=EXACT)

prop("C28", "Monte Carlo estimates converge to the true price",
     "With real Sobol innovations the mean of MonteCarloOption.call() converges to the closed-form price as paths and loops grow.",
     ["inputs"], "distribution of random scrambles", "Needs statistics over unbounded samples.",
     [M, MI], [("simulation loop", M)], na="A statement about a probability distribution over random scrambles: exhaustive exploration cannot enumerate it and sampling is another family. The deterministic content (loops, paths, payoffs, sampler handling) is decided by C22, C23, C24.")

prop("C29", "hngarch_fit is statistically consistent",
     "On simulated Heston-Nandi GARCH data the estimates approach the true parameters as the series grows.",
     ["inputs"], "distribution of random series and long optimisations", "Needs statistics over unbounded samples.",
     [H], [("maximum likelihood", H + " hngarch_fit")], na="Statistical consistency is a limit statement over random data; bounded exhaustive exploration cannot decide it. The deterministic content of the fit is decided by C20 and C21.")

prop("C30", "Lattice prices are time consistent",
     "Every node of a lattice before expiry is an option of its own: the value call(tree=True)/put(tree=True) shows at a node equals the price of a fresh option of the same class that starts with the node's prices of the underlying, the remaining time and the remaining steps, in the CRR, JR, Tian and trinomial lattices and in all nine two-asset payoffs, European and American, call and put. An American option with more steps of the same length is never worth less.",
     ["inputs", "configurations"], "every node of every lattice up to a depth x style x side x parameter set; every pair (n, n+1) of American lives at fixed step length",
     "Tests look at one tree; that all sub-trees agree with independent options is a relation between thousands of prices.",
     [T, S3, B], [("backward induction", T + " _calc_price of each class"), ("two-asset induction", S3 + " _calc_price"), ("step length and probabilities", T + " constructors of dt, u, d, p")],
     technique="explicit-state enumeration of all lattice nodes, each replayed as a fresh option on the real code", note=EXACT)

prop("C31", "Prices and sensitivities do not depend on the unit of time",
     "Measuring time in another unit (every time multiplied by c; rates, costs of carry and mean reversions divided by c; volatilities divided by the square root of c, those of rates by the power 3/2 of c) leaves every price unchanged in every engine; in the GBS family the analytic greeks transform accordingly (theta divided by c, rho and cost-of-carry sensitivity multiplied by c, vega by its square root), implied volatility transforms like a volatility, and a Monte Carlo estimate on the same innovations is unchanged.",
     ["inputs", "configurations"], "every class x valuation x unit (days, months, centuries, ...)",
     "No test prices one contract in two units; a hidden calendar constant shows only in the comparison.",
     [V, B, A, T, S3, SK, M], [("time enters through r t, b t, sigma^2 t only", "every pricing routine")],
     technique="explicit-state enumeration of class x valuation x time unit; relational invariant on the real code", note=EXACT)

prop("C32", "Symmetries between calls, puts, forwards and discounting hold",
     "A call on S struck at K with rate r and cost of carry b has the price of a put on K struck at S with rate r-b and carry -b, in GBSOption (with the matching relations between their greeks), in the Bjerksund-Stensland approximation and in the CRR and trinomial lattices, European and American. European prices depend on S and b only through the forward: GBSOption, Black76Option on that forward, Kirk's spread approximation, the two-asset lattices and plain vanilla Monte Carlo agree with the same option on forwards without carry. With the forward fixed, the interest rate of a European option (closed form, lattice, two-asset lattice, Monte Carlo) only discounts, and MiltersenSchwartzOption is proportional to the bond price.",
     ["inputs", "configurations"], "parameter lattices over moneyness, time, rate, carry and volatility for every engine concerned",
     "Each identity links two classes or two regimes of one class; tests never compare classes with each other.",
     [V, A, T, S3, SK], [("closed forms", V + " GBSOption.call/put, Black76Option"), ("put from transformed call", A + " BSAmericanApproxOption.put"), ("lattice induction", T + " _calc_price")],
     technique="explicit-state enumeration of a parameter lattice; symmetry relations between real options", note=EXACT)

prop("C33", "Representation of numbers and way of passing them make no difference",
     "Whole numbers given as int, float, numpy float64, int64 or int32, for one, two or all parameters, give the same prices, greeks, trees, exercise flag and implied volatility in every class, and answers are real numbers, never cut off to integers. Positional, mixed and keyword arguments in any order, a constructor call with the numbers reported by get_params(), and set_param one by one from another option give the same option.",
     ["inputs", "configurations"], "every class x whole-number valuation x assignment of representations to one, two or all parameters; every rotation of keywords and every positional/keyword split",
     "Tests pass floats by keyword; dtype and argument-order faults need the other combinations.",
     [V, B, A, T, S3, SK, H, M], [("constructors and set_param", B + " _Base, get_params/set_param"), ("array allocation in lattices", T + " _calc_price; " + S3), ("numeric coercion", B + " _check_array, _max_array")],
     technique="explicit-state enumeration of representation assignments per constructor; all observables compared on the real code", note=EXACT)

prop("C34", "Copies and pickled options are the same option and independent",
     "An option cloned by copy(), copy.copy, copy.deepcopy (alone or inside a container) or pickle, at any point of its history and any number of times, answers every query as the original does; an option opened in another process and sent back does too. Later changes of the original or of a clone (other than a shallow copy.copy, which shares by definition) change only that object.",
     ["histories", "configurations"], "every class x history x chain of up to two clone methods x later change of any parameter of either object",
     "A clone that still refers to its original, or loses state, shows only after a particular sequence of clone, change and query.",
     [B, V, A, T, S3, SK, H, M], [("copy", B + " _Base.copy"), ("helper objects bound to an option", B + " _GreeksFDM; constructors of the classes")],
     technique="exhaustive enumeration of history x clone chain x later change on real objects, against options built afresh", note="Every listed history is executed on the code in /repo/src; chains longer than two clones are not covered.")

prop("C35", "An interrupted query leaves no trace",
     "When a query, report, plot, copy or refused request on an option is stopped at any point (Ctrl-C, memory running out, an exception of a user-supplied Monte Carlo innovation, path or payoff class), the option, other options of its class and the global numpy and warning settings are as before: the same query asked again and every other query give the answers of an undisturbed option. An interrupted set_param that is repeated gives the option with the new value. Failures of user classes reach the caller.",
     ["crash_points", "configurations"], "every class x every query, report, plot, copy, set_param x every source line it executes (first, second and last execution of each) x kind of fault",
     "Tests never interrupt a call; scratch state left on an option shows only at particular crash points.",
     [B, V, A, T, S3, SK, H, M], [("perturbed copies for numerical derivatives", B + " GreeksFDM._make_partial_der"), ("implied volatility works on a copy", B + " _volatility, _func"), ("simulation loop", M + " _sim_mc"), ("parameters set by re-initialisation", B + " Option.set_param")],
     technique="exhaustive fault injection at every crash point of every query on the real code", note="Faults strike between source lines of finoptions; lines executed very often are interrupted at the first, second and last execution.")
