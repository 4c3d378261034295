prop("C01", "Expressions evaluate to exactly what their coefficients say",
     "A linear or quadratic expression or objective evaluates, at every point and for every supported coefficient and "
     "point format (dict by name or index, list, array, sparse matrix), to the constant plus the sum of coefficient times "
     "variable product; the array, dictionary, upper-triangular and symmetric views describe the same function. Reading or "
     "setting one coefficient sees or changes exactly that coefficient, and malformed input is rejected instead of "
     "misread.",
     ["inputs"], "all coefficients, points and formats", "tests use a handful of fixed matrices and points; a wrong "
     "coordinate, a lost duplicate or truncated coefficient needs the right combination of format and value",
     [Q + "problems/linear_expression.py", Q + "problems/quadratic_expression.py", Q + "problems/quadratic_objective.py"],
     [("LinearExpression / QuadraticExpression coefficient handling", Q + "problems/linear_expression.py"),
      ("triangularisation", Q + "problems/quadratic_expression.py")])
prop("C02", "Gradients are the exact derivatives",
     "The gradient reported for a linear expression, a quadratic expression or an objective at any point equals the "
     "vector of partial derivatives of the function that evaluation computes, whatever format the coefficients or "
     "the point were given in.",
     ["inputs"], "all coefficients and points", "tests check one matrix at one point",
     [Q + "problems/linear_expression.py", Q + "problems/quadratic_expression.py", Q + "problems/quadratic_objective.py"],
     [("evaluate_gradient", Q + "problems/quadratic_expression.py")])
prop("C03", "The feasibility verdict and reported violations are exact",
     "A point is reported feasible exactly if it satisfies every variable bound and every linear and quadratic "
     "constraint in its stated sense; the violated variables and constraints reported are exactly those that the point "
     "violates.",
     ["inputs"], "all points, bounds, coefficients, right-hand sides, senses", "tests try a few points of one program",
     [Q + "problems/quadratic_program.py", Q + "problems/constraint.py"],
     [("get_feasibility_info / is_feasible", Q + "problems/quadratic_program.py")])
prop("C04", "Names, indices and elements agree after any history of edits",
     "After any sequence of successful and failing additions of variables and additions or removals of constraints, "
     "every variable and constraint has a unique name, lookup by name and by position return the same element, counts "
     "per type are right, and default bounds and types are as requested. A failed edit raises the library's error and "
     "leaves the program as it was.",
     ["histories", "inputs"], "all edit histories of bounded length with arbitrary bounds and coefficients",
     "tests run a few fixed histories; a stale index needs a specific order of failing edits",
     [Q + "problems/quadratic_program.py", Q + "problems/variable.py"],
     [("name/index bookkeeping", Q + "problems/quadratic_program.py")])
prop("C05", "Substituting variables keeps the problem equivalent",
     "Replacing variables by constants or by multiples of other variables gives a program whose objective, constraints "
     "and bounds, at every assignment of the remaining variables, equal those of the original program at the "
     "corresponding full assignment. It is reported infeasible exactly if a constant constraint or bound cannot hold, "
     "and contradictory or malformed substitutions are rejected.",
     ["inputs"], "all programs within the bounds, all constants, factors and points",
     "tests substitute a few fixed numbers; sign and bound handling depend on the sign of factors and on which "
     "terms vanish", [Q + "problems/quadratic_program.py"],
     [("substitute_variables", Q + "problems/quadratic_program.py")])
prop("C06", "Inequality-to-equality conversion keeps the problem equivalent",
     "Converting inequalities to equalities with slack variables keeps objective, variables and equality constraints; a "
     "point satisfies the original constraints exactly if some admissible slack values satisfy the converted ones, and the "
     "interpretation of a converted solution returns the original variables. It is rejected as infeasible only if "
     "a constraint cannot be satisfied within the variable bounds.",
     ["inputs", "configurations"], "all coefficients, bounds, right-hand sides, senses, slack modes, points",
     "tests convert a few constraints; slack range errors show up only for certain signs and at the extreme points",
     [Q + "converters/inequality_to_equality.py"], [("InequalityToEquality", Q + "converters/inequality_to_equality.py")])
prop("C07", "Integer-to-binary conversion covers exactly the integer range",
     "Encoding integer variables in binary ones represents every integer of a variable's range and nothing outside, "
     "whatever the bounds; objective and constraints of the converted program at every bit assignment equal "
     "those of the original program at the interpreted values, and other variables are kept.",
     ["inputs"], "all bounds and ranges up to the stated size, all coefficients, all bit assignments",
     "tests use a few ranges; cross terms, negative bounds and non-power-of-two ranges need specific combinations",
     [Q + "converters/integer_to_binary.py"], [("IntegerToBinary", Q + "converters/integer_to_binary.py")])
prop("C08", "Penalty conversion adds exactly penalty times squared violation",
     "Moving linear equality constraints into the objective yields, at every point, the original objective plus (when "
     "minimising) or minus (when maximising) the penalty times the sum of squared residuals, with the same variables, "
     "no linear constraints and the same quadratic constraints. The automatically chosen penalty for binary problems with integral data is large enough "
     "that no infeasible point beats or ties a feasible one.",
     ["inputs"], "all objectives, constraints, penalties, points", "tests compare a few numbers",
     [Q + "converters/linear_equality_to_penalty.py"],
     [("LinearEqualityToPenalty", Q + "converters/linear_equality_to_penalty.py")])
prop("C09", "The QUBO form has the same optima as the problem",
     "The unconstrained binary problem produced from a compatible problem (linear constraints, binary and bounded integer "
     "variables) has only binary variables, no constraints and the same objective sense; interpreting any of its optima "
     "gives an optimal feasible solution of the original problem whenever one exists, with the original objective "
     "value. Incompatible problems are rejected with an explanation.",
     ["inputs", "configurations"], "all objectives, right-hand sides and bounds within the bounds, all bit assignments",
     "tests solve a few problems; a wrong intermediate step only moves the optimum for particular data",
     [Q + "converters/quadratic_program_to_qubo.py", Q + "converters/inequality_to_equality.py",
      Q + "converters/integer_to_binary.py", Q + "converters/linear_equality_to_penalty.py"],
     [("QuadraticProgramToQubo", Q + "converters/quadratic_program_to_qubo.py")])
QPF = Q + "problems/quadratic_program.py"
OA = Q + "algorithms/optimization_algorithm.py"
MEO = Q + "algorithms/minimum_eigen_optimizer.py"
prop("C10", "The Ising operator's energies are the objective values",
     "The operator and offset produced from an unconstrained binary program have, on every computational basis state "
     "(qubit i holding variable i), energy plus offset equal to the objective value of that assignment, negated for "
     "maximisation; all terms are diagonal. Programs with other variables or constraints are refused.",
     ["inputs"], "all coefficients, both senses, all assignments", "tests compare one operator; square, cross and "
     "cancelling terms interact in the offset and in the single-qubit terms", [QPF],
     [("to_ising", QPF)], level_note=" and qiskit's Pauli operator classes")
prop("C11", "A program read from an Ising operator has its energies",
     "The program built from a diagonal one- and two-body operator and an offset has binary variables, minimises, and its "
     "objective at every assignment equals the operator's energy plus the offset, whichever way the sum is written and "
     "whether squares are kept or made linear; to_ising followed by from_ising restores the (signed) objective, and "
     "nothing of what the program held before remains. Operators that are not of this form are refused.",
     ["inputs"], "all coefficients, scale factors, offsets, operator forms and assignments",
     "tests read two fixed operators", [QPF], [("from_ising", QPF)],
     level_note=" and qiskit's Pauli operator classes")
prop("C12", "Translation to a docplex model and back keeps the problem",
     "The docplex model made from a quadratic program has the same variables with types and bounds, the same objective "
     "with sense, and the same constraints with name, sense and meaning at every point; reading that model back gives an "
     "equivalent program.",
     ["inputs"], "all bounds, coefficients, right-hand sides and points", "tests round-trip one program and compare text",
     [QPF], [("to_docplex / from_docplex", QPF)], level_note=" (docplex itself is executed)")
prop("C13", "A docplex model is read with its exact meaning or refused",
     "Reading a docplex model gives a program with the same variables, objective and constraints at every point, however "
     "the model's expressions are written (terms on both sides, repeated or cancelling terms, constants, products); a "
     "model element that a quadratic program cannot express is refused with an error and never dropped silently.",
     ["inputs"], "all coefficient values, expression shapes within the grammar, points",
     "tests read a few models; sides, signs and type detection depend on the shape of both expressions", [QPF],
     [("from_docplex", QPF)], level_note=" (docplex itself is executed)")
prop("C14", "An eigensolver-based optimizer's result is consistent and best",
     "Whatever state the eigensolver returns, every sample is a solution of the given problem in its own variables, with "
     "the true objective value and status; the result is the best of the samples (feasible ones first), its value "
     "and status are those of the given problem at that point, and raw samples belong to the converted problem.",
     ["inputs"], "all objectives, all real amplitudes, all sampled states, both senses, all converter settings",
     "tests use the exact ground state, in which only one basis state occurs", [MEO, OA],
     [("solve", MEO), ("_eigenvector_to_solutions / _interpret / _interpret_samples", OA)],
     level_note=" and the eigensolver replaced by an arbitrary state")
prop("C15", "Sample probabilities are those of the measured basis states",
     "The probability of every sample is the total squared amplitude (relative, for unnormalised counts) of exactly the "
     "basis states that are interpreted as that solution, with qubit i giving variable i; the probabilities add up to "
     "one, and the correlation of two variables is the probability that their values are equal minus the probability that "
     "they differ.",
     ["inputs"], "all amplitudes, state formats, sets of basis states",
     "tests look at a uniform state or at one basis state; bit order and merging need asymmetric states", [OA, MEO],
     [("_eigenvector_to_solutions, _interpret_samples, get_correlations", OA)],
     level_note=" and the eigensolver replaced by an arbitrary state")
prop("C16", "Continuous optimizers pose the right problem and report its best answer",
     "SLSQP and COBYLA are given, at every point, the objective (negated for maximisation) with its exact gradient, and "
     "constraints and bounds that together hold exactly at the feasible points; start points lie within the (clipped) "
     "bounds. The reported solution is the trial with the best objective value in the problem's own sense, with its true "
     "value and feasibility status; problems with other variables are refused; CPLEX answers are passed on unchanged, and a run without solution is "
     "reported as a failure.",
     ["inputs", "configurations"], "all coefficients, points, senses, trial outcomes",
     "tests compare one optimum; a wrong sign or a wrong best trial only shows for some senses and orders of the trials",
     [Q + "algorithms/slsqp_optimizer.py", Q + "algorithms/cobyla_optimizer.py", Q + "algorithms/multistart_optimizer.py",
      Q + "algorithms/cplex_optimizer.py"],
     [("multi_start_solve", Q + "algorithms/multistart_optimizer.py"), ("solve", Q + "algorithms/slsqp_optimizer.py")],
     level_note=" and the local solvers replaced by stand-ins")
prop("C17", "Recursive elimination keeps the problem and returns its solution",
     "In every step of the recursive optimizer the strongest correlated pair is merged with the sign of its correlation, "
     "and the reduced problem's objective at every assignment equals the QUBO objective at the assignment extended by the "
     "replacements, until the requested size is reached. The result is the extension of the last solution with its true "
     "value and status in the given problem, which is left unchanged.",
     ["inputs", "histories"], "all objective coefficients, all correlations, all final solutions, both senses",
     "tests run one problem with exact solvers; equal/opposite merges and their order depend on the samples",
     [Q + "algorithms/recursive_minimum_eigen_optimizer.py", QPF],
     [("RecursiveMinimumEigenOptimizer.solve", Q + "algorithms/recursive_minimum_eigen_optimizer.py")],
     level_note=" and the inner optimizers replaced by arbitrary samples")
prop("C18", "ADMM solves the stated block problems and returns the best iterate",
     "In every iteration the binary, continuous and relaxation subproblems handed to the inner optimizers are the blocks of "
     "the augmented Lagrangian of the (minimised) problem with the current multipliers, rho and other blocks; multipliers, "
     "rho, residuals and the recorded history follow the documented updates. The result is the iterate of least merit, "
     "interpreted in the original variables with its true value; objectives that mix discrete and continuous variables "
     "are refused.",
     ["inputs", "histories"], "all objective coefficients, all answers of the inner optimizers, all merit orders",
     "tests compare final answers of a converging heuristic, which hides wrong terms, histories and updates",
     [Q + "algorithms/admm_optimizer.py"], [("ADMMOptimizer", Q + "algorithms/admm_optimizer.py")],
     level_note=" and the inner optimizers replaced by arbitrary answers")
A = Q + "applications/"
prop("C19", "Graph applications state exactly the named graph problem",
     "For max-cut, graph partition, stable set, vertex cover and clique, an assignment is feasible exactly if it is a "
     "solution of the named problem on the given graph (however it was given), the objective is the cut weight or the "
     "number of chosen nodes in the right sense, interpretation returns exactly the chosen nodes (or both sides), and "
     "drawing colors the sides apart. The caller's graph is not changed and unsupported results are refused.",
     ["inputs", "configurations"], "all graphs within the bounds, all weights, all assignments",
     "tests use one graph and its optimum", [A + "max_cut.py", A + "graph_partition.py", A + "stable_set.py",
     A + "vertex_cover.py", A + "clique.py", A + "graph_optimization_application.py"],
     [("to_quadratic_program / interpret", A)], level_note=" (networkx and docplex are executed)")
prop("C20", "Set and number applications state exactly the named problem",
     "For exact cover, set packing, number partitioning and knapsack, an assignment is feasible exactly if it is a solution "
     "of the named problem on the given data, the objective is the number of subsets or total value in the right sense, and "
     "interpretation returns exactly the chosen subsets, numbers or items. sample_most_likely returns an assignment of "
     "largest count or amplitude, with qubit i giving variable i.",
     ["inputs"], "all numbers, all set families within the bounds, all assignments", "tests use one instance each",
     [A + "exact_cover.py", A + "set_packing.py", A + "number_partition.py", A + "knapsack.py",
      A + "optimization_application.py"],
     [("to_quadratic_program / interpret", A)], level_note=" (docplex is executed)")
prop("C21", "Routing applications: feasible points are the tours, with their lengths",
     "For the travelling salesman and vehicle routing problems an assignment is feasible exactly if it is a tour (a set of "
     "routes through the depot, one per vehicle, visiting every other node once), its objective is the total edge weight, "
     "and interpretation returns that tour (those routes); for other assignments interpretation loses no chosen edge.",
     ["inputs", "configurations"], "all weights, all assignments, depots and vehicle numbers within the bounds",
     "tests check one optimum; sub-routes and depots other than 0 are not reached",
     [A + "tsp.py", A + "vehicle_routing.py"], [("to_quadratic_program / interpret", A)],
     level_note=" (networkx and docplex are executed)")
prop("C25", "Instances are read or drawn with exactly the data they should contain",
     "Reading a G-set file gives the symmetric matrix of its edge weights; reading a TSPLIB file with Euclidean coordinates "
     "gives the complete graph whose weights are the rounded distances, whatever the spacing of the header and the order of "
     "the nodes, and other problem or distance types are refused. Random routing instances have positions within the "
     "requested range, the rounded distances as weights and the requested vehicles and depot, and depend only on the seed.",
     ["inputs"], "all weights, coordinates and random outcomes within the bounds", "no test reads a file; tests draw one seed",
     [A + "max_cut.py", A + "tsp.py"], [("parse_gset_format", A + "max_cut.py"), ("parse_tsplib_format", A + "tsp.py")],
     level_note=" and the file replaced by symbolic tokens")
prop("C22", "Conversion and solving leave the given problem unchanged",
     "Converting a problem, substituting variables, building its Hamiltonian or solving it with any optimizer leaves the "
     "problem as it was, and later changes to the original or the converted problem do not show in the other. A converter "
     "or optimizer that has been used for one problem, or whose settings were changed, gives for the next the result of "
     "one created afresh with those settings.",
     ["inputs", "histories"], "all problems within the bounds, all answers of solvers",
     "tests convert fresh problems with fresh converters and do not look at the original afterwards",
     [Q + "converters", Q + "algorithms", Q + "problems"],
     [("convert / interpret", Q + "converters"), ("solve", Q + "algorithms")],
     level_note=" and external solvers replaced by arbitrary answers")
prop("C23", "Grover search encodes the problem and reports the best value measured",
     "GroverOptimizer encodes exactly the objective of the problem minus the current threshold, amplifies exactly the "
     "assignments with values below it, stops only after the "
     "stated number of iterations without improvement or when all values are seen, and returns the best assignment that "
     "any of its circuit runs measured, with its true value, as the best of its samples, for both senses and both kinds "
     "of simulators.",
     ["inputs", "histories", "schedules"], "all integer objectives within the bounds, all sequences of measurements and "
     "random choices", "tests sample a few seeded runs on fixed problems",
     [Q + "algorithms/grover_optimizer.py"], [("GroverOptimizer.solve", Q + "algorithms/grover_optimizer.py")],
     level_note=" and the quadratic form circuit, the quantum device and the random generator replaced by arbitrary answers")
prop("C24", "Warm started QAOA uses the pre-solutions and reports its runs truthfully",
     "The warm start optimizer hands the (relaxed) problem to its pre-solver, starts one QAOA run per requested solution in "
     "the state and with the mixer that solution prescribes, and aggregates the runs' samples: every reported sample is an "
     "assignment of the problem with its true value, status and mean probability, and the best of them is the result.",
     ["inputs"], "all objectives, pre-solutions and measured states within the bounds",
     "tests check the optimum of one problem with a simulator",
     [Q + "algorithms/warm_start_qaoa_optimizer.py"],
     [("WarmStartQAOAOptimizer.solve / MeanAggregator", Q + "algorithms/warm_start_qaoa_optimizer.py")],
     level_note=" and QAOA and its circuits replaced by models")
prop("C26", "Goemans-Williamson relaxes the max-cut problem and reports cuts truthfully",
     "For a program of the documented max-cut form the optimizer hands the semidefinite relaxation of exactly that graph to "
     "the solver, rounds its solution by random hyperplanes, and reports exactly the generated cuts (each once if asked "
     "for, best first if asked for) with their true cut value; a failed relaxation is reported as failure and other "
     "variable types are refused.",
     ["inputs", "schedules"], "all weights, all hyperplane outcomes within the bounds",
     "tests run one graph with one seed", [Q + "algorithms/goemans_williamson_optimizer.py"],
     [("GoemansWilliamsonOptimizer.solve", Q + "algorithms/goemans_williamson_optimizer.py")],
     level_note=" and the semidefinite solver and random generator replaced by arbitrary answers")
