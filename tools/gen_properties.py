# Writes /verif/properties.jsonl (kept as a script so that the file stays well formed).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Compiling keeps the objective's value at every assignment",
 "For every expression built from numbers, binary and spin variables, sums and products, and for every assignment of its variables, the minimum of the compiled quadratic model over its auxiliary variables, plus the model's constant, equals the value of the expression at that assignment. Arithmetic is taken as exact in the coefficient type.",
 ["inputs"],"all expressions (any size, degree, sharing of terms, coefficient signs) x all assignments x every order in which the compiler may pick the products it replaces",
 "The tests compile three quadratic expressions and never one of degree three or more, so order reduction is not exercised at all; the claim is over all polynomials and all 2^n assignments.",
 ["src/expr.rs","src/model.rs","src/expanded.rs","src/compiled.rs"],
 [("translation to a multilinear polynomial","src/expr.rs to_model; src/model.rs Add/Mul"),("polynomial ring operations","src/expanded.rs AddAssign/MulAssign"),("order reduction loop","src/compiled.rs reduce_order"),("substitution gadgets","src/compiled.rs generate_replace"),("selection of the product to replace","src/expanded.rs count_qubit_subsets, get_subsets")],
 [("Expanded","finite map from sets of variables to coefficients","src/expanded.rs"),("CompiledModel","polynomial, constraints and number of auxiliaries used","src/compiled.rs")],
 ["Expr::compile","the model handed to a solver generator by SimpleSolver"])

p("C02","Compiled models are quadratic, complete and free of foreign variables",
 "Compiling any expression ends with a model in which no term has more than two distinct variables. Every variable that occurs in the expression can be read back from a solution of the compiled model, no other label can, and auxiliary variables are never confused with the user's variables or with each other.",
 ["inputs"],"all expressions, including those of degree three and more, with shared products, cancelling or zero coefficients, no variables, or one variable",
 "Tests never compile anything of degree above two, with no variable or with a single one.",
 ["src/compiled.rs","src/expanded.rs","src/wrapper.rs","src/solve.rs","src/solution.rs"],
 [("fresh ancilla counter","src/wrapper.rs Builder::ancilla"),("order reduction loop","src/compiled.rs reduce_order"),("label to index map","src/solve.rs solve_with_constraints, src/expanded.rs get_qubits")],
 [("Builder.ancillas","number of auxiliaries handed out so far","src/wrapper.rs")],
 ["Expr::compile","SimpleSolver::get_qubits","SolutionView::keys/get"])

p("C03","A product of any length is reduced exactly",
 "For every d >= 3, every coefficient and every assignment, compiling a single product of d distinct variables gives a quadratic model whose minimum over the auxiliaries equals coefficient times product. It uses floor((d-1)/2) auxiliaries when the coefficient is positive and one when it is negative.",
 ["inputs"],"all degrees d, both coefficient signs, all 2^d assignments",
 "No test compiles a product of three or more variables; enumerating assignments cannot cover every d.",
 ["src/compiled.rs"],
 [("gadgets for positive, even and odd, and negative terms","src/compiled.rs generate_replace")],
 [],["Expr::compile","the model handed to a solver generator"])

p("C04","Coefficient algebra keeps the value of symbolic coefficients",
 "When coefficients made of numbers and placeholders are added, multiplied and normalised while an expression is compiled, the value of every coefficient of the compiled model, under every valuation of the placeholders, equals the value that the expression prescribes.",
 ["inputs"],"all coefficient expressions (nested sums and products of numbers and placeholders) x all valuations",
 "One test checks the shape of one expansion; none evaluates a simplified coefficient.",
 ["src/expr.rs","src/expanded.rs"],
 [("normalisation","src/expr.rs StaticExpr::simplify, expand_add, expand_mul, get_cross"),("evaluation","src/expr.rs StaticExpr::calculate"),("merging of like terms","src/expanded.rs AddAssign/MulAssign")],
 [("StaticExpr","coefficient as sum/product tree","src/expr.rs")],
 ["CompiledModel::feed_dict then the model handed to a solver generator"])

p("C05","Sign decisions on symbolic coefficients hold for all placeholder values",
 "A coefficient containing placeholders is treated as having a definite sign only if it has that sign, or is zero, for every non-negative valuation of the placeholders. Hence, for every non-negative valuation fed into a compiled model of any degree, the minimum over the auxiliaries still equals the value of the expression.",
 ["inputs"],"all coefficient expressions x all non-negative valuations of placeholders",
 "No test combines placeholders with terms of degree three; a valuation where the decision is wrong need not be among the samples.",
 ["src/expr.rs","src/compiled.rs","src/expanded.rs"],
 [("sign analysis","src/expr.rs StaticExpr::is_positive"),("bound of the absolute value","src/expr.rs StaticExpr::magnitude"),("grouping of terms by sign","src/expanded.rs count_qubit_subsets")],
 [],["Expr::compile, CompiledModel::feed_dict, model handed to a solver generator"])

p("C06","Feeding placeholders is substitution",
 "Feeding a dictionary into an expression replaces every occurrence of each listed placeholder by its number, wherever it occurs (also inside constraints and penalties), and changes nothing else. Feeding a compiled model gives the model that compiling the substituted expression would give; placeholders that are left over are rejected.",
 ["inputs"],"all expressions, all dictionaries (partial, total, with unused keys)",
 "No test feeds a placeholder.",
 ["src/expr.rs","src/compiled.rs","src/expanded.rs","src/model.rs","src/wrapper.rs"],
 [("substitution in expressions","src/expr.rs Expr::feed_dict"),("substitution in coefficients","src/expr.rs StaticExpr::feed_dict"),("compiled model","src/compiled.rs feed_dict; src/expanded.rs feed_dict/drop_placeholder; src/model.rs Constraint::feed_dict")],
 [],["Expr::feed_dict","CompiledModel::feed_dict"])

p("C07","Operators build the expression they denote",
 "For all expressions and numbers, the operators + - * and unary minus, between expressions and between an expression and a number on either side, the power with a natural exponent, and the compound assignments += -= *= ^= yield an expression whose value at every assignment is the sum, difference, product, negation or power of the operands' values.",
 ["inputs"],"all operands, all exponents (including 0 and 1), all assignments and placeholder values, all seven number types",
 "One test multiplies by two numbers without looking at the result; compound assignment is never used.",
 ["src/expr.rs"],
 [("operator impls","src/expr.rs impl Neg/Add/Sub/Mul, impl_binary_op!"),("power","src/expr.rs impl BitXor"),("compound assignment","src/expr.rs impl_assign_op!")],
 [],["Expr operators"])

p("C08","Constraints and penalties enter the energy as declared",
 "In the model of an expression, a labelled constraint contributes its expression times the weight of its label at the place where it stands, and the penalty of an expression-with-penalty is added once to the total energy, unscaled, wherever that expression occurs in sums and products. Every declared constraint is kept for checking, exactly once per occurrence.",
 ["inputs"],"all nestings of sums, products, constraints and penalties (constraints themselves free of nested ones) x all assignments x all weights",
 "One test and one doc example add constraints as top-level summands; penalties are never used.",
 ["src/expr.rs","src/model.rs"],
 [("translation","src/expr.rs to_model"),("combination of models","src/model.rs Add, Mul, add_penalty, add_constraint, to_compiled")],
 [("Model","objective, penalties and constraints","src/model.rs")],
 ["SimpleSolver::solve_with_constraints","the model handed to a solver generator"])

p("C09","A constraint is reported violated exactly when its value is not zero",
 "For every assignment of the variables, the constraints reported as unsatisfied are exactly those whose expression evaluates to a value of magnitude 1e-4 or more at that assignment, each reported once per declaration.",
 ["inputs"],"all constraint expressions (binary and spin variables, sums, products, fed placeholders), all assignments, all number types",
 "Tests only assert that some run ends with no violated constraint.",
 ["src/model.rs","src/expr.rs","src/compiled.rs"],
 [("evaluation of the constraint","src/expr.rs Expr::calculate"),("threshold","src/model.rs Constraint::is_satisfied"),("filter","src/compiled.rs get_unsatisfied_constraints")],
 [],["third component of SimpleSolver::solve_with_constraints"])

p("C10","The model given to a solver has the energies of the compiled polynomial",
 "For every compiled model and every assignment of all its variables, the weights handed to the solver plus the reported constant give the value of the compiled polynomial, where solver index i stands for one fixed variable in both directions.",
 ["inputs"],"all polynomials of degree at most two, all assignments, all weights of constraints, any number of variables",
 "Tests check the outcome of the stochastic solver on three tiny models.",
 ["src/expanded.rs","src/compiled.rs","src/solve.rs"],
 [("weights","src/expanded.rs generate_qubo"),("index map","src/solve.rs with_solver/solve_with_constraints")],
 [],["model handed to a solver generator; energy returned by SimpleSolver"])

p("C11","A quadratic model stores one weight per unordered pair of nodes",
 "In a fixed-size quadratic model every unordered pair of nodes (and every single node) has its own weight, initially zero: adding a weight for (i, j) changes the weight of {i, j} by exactly that amount, in either order of i and j, and no other weight. Indices outside of the model are rejected.",
 ["inputs","histories"],"all sizes, all index pairs, all sequences of additions",
 "The single model test builds no weights; three weights are added elsewhere. Aliasing of two pairs shows only for particular sizes and pairs.",
 ["annealers/src/model.rs"],
 [("triangular index","annealers/src/model.rs FixedSingleQuadricModel::get_index, get_index_unchecked"),("update and lookup","annealers/src/model.rs add_weight, get_weight, get_weight_unchecked")],
 [("matrix","packed lower triangle","annealers/src/model.rs FixedSingleQuadricModel")],
 ["FixedSingleQuadricModel::add_weight","get_weight"])

p("C12","Every product of a fixed-size model is enumerated exactly once",
 "For a fixed-size quadratic model of n nodes, enumerating the products gives every single node and every unordered pair of distinct nodes exactly once and nothing else; enumerating the neighbours of node u gives exactly the products that contain u, once each. This holds for every n, including 0 and 1.",
 ["inputs"],"all model sizes n >= 0 and all nodes u",
 "One test lists the products for n = 4; neighbours are not tested.",
 ["annealers/src/model.rs"],
 [("iterators","annealers/src/model.rs Prods::next, Neighbors::next")],
 [("Prods","position of the enumeration","annealers/src/model.rs")],
 ["SingleModelView::prods","SingleModelView::neighbors"])

p("C13","A packed state behaves as a vector of booleans",
 "For every length, a packed state built from booleans returns exactly them, bit by bit, as a vector and by iteration; setting or flipping one bit changes that bit as asked and no other, and never the length. Positions at or beyond the length are rejected.",
 ["inputs","histories"],"all lengths (any number of bytes), all positions, all sequences of operations",
 "No test targets the packed state; solver tests use at most 25 bits with random content.",
 ["annealers/src/repr.rs"],
 [("bit addressing","annealers/src/repr.rs get/set/flip and their unchecked forms"),("conversion","annealers/src/repr.rs from_vec, to_vec, iter")],
 [("state","bytes holding the bits","annealers/src/repr.rs BinaryRepr")],
 ["BinaryRepr"])

p("C14","Solution energy and local field follow the model",
 "For every model and state, the energy of a solution is the sum over all products of weight times the product of the node values (1/0 for binary, +1/-1 for spin, the two given values otherwise). The local field at a node is the energy change caused by flipping that node, and computing either leaves the state unchanged.",
 ["inputs"],"all models (dense and sparse), all states, the three node types, all number types",
 "Energies are only looked at through the outcome of the stochastic solver; the local field is never read.",
 ["annealers/src/solution.rs","annealers/src/model.rs","annealers/src/node.rs","annealers/src/set.rs"],
 [("energy","annealers/src/solution.rs calculate_energy"),("local field","annealers/src/solution.rs calculate_local_field"),("products of node values","annealers/src/model.rs SingleModelView::calculate_prod; annealers/src/node.rs")],
 [],["SingleSolution::calculate_energy, with_energy, calculate_local_field, with_local_field"])

p("C15","The annealer decides every flip on the true energy change",
 "Given a state, a schedule and a number of sweeps, the annealer visits all variables in index order for every sweep of every schedule entry beta, and flips a variable exactly if the true change of the model energy D at the current state is at most 0 or exp(-D*beta) exceeds a uniform draw, except that it never flips when D is above 44.36142/beta. The length of the state never changes.",
 ["inputs","histories"],"all quadratic models whose nodes are numbered 0..n-1 (the order the annealer declares), initial states, schedules, sweep counts and random streams",
 "The incremental bookkeeping goes wrong only after particular flip sequences; tests look at the final state of a stochastic run on tiny models.",
 ["classical_solver/src/algo.rs","classical_solver/src/sa.rs"],
 [("initial and incremental energy differences","classical_solver/src/algo.rs simulated_annealing, calculate_flip_cost"),("entry point","classical_solver/src/sa.rs solve_with_rng")],
 [("energy_diffs","energy change of flipping each variable in the current state","classical_solver/src/algo.rs")],
 ["simulated_annealing","SimulatedAnnealer::solve_with_rng"])

p("C16","What the solver returns is self-consistent",
 "Whatever samples the underlying solver produces, the assignment returned is one of them, with the lowest model energy of its generation; the energy returned is the model's energy of that assignment including the constant, the reported labels are those violated by that same assignment, and every variable of the model has the sampled value. As soon as a new best sample of an iteration violates no labelled constraint it is returned.",
 ["inputs","histories"],"all compiled models, all sequences of samples returned by a solver, all settings of iterations, generations and samples",
 "Tests use the built-in annealer on models where one answer is expected and look at few of the returned parts.",
 ["src/solve.rs","src/solution.rs"],
 [("selection loop","src/solve.rs solve_with_constraints"),("view of the solution","src/solution.rs SolutionView")],
 [],["SimpleSolver::solve_with_constraints, solve; SolutionView"])

p("C17","Node sets are canonical",
 "Building a node set from nodes in any order yields the same set; it contains exactly the given nodes, lists them in ascending order once each, and its length is their number. A pair-sized set rejects anything that is not one or two nodes.",
 ["inputs"],"all vectors and sets of node numbers, for the pair, ordered-set and vector representations (vectors keep repeated nodes)",
 "Only used indirectly by the enumeration test for n = 4.",
 ["annealers/src/set.rs"],
 [("construction and access","annealers/src/set.rs NodeSet and its impls")],
 [],["NodeSet::from_vec, from_set, from_it, iter, len, contains, into_set, into_vec"])

p("C18","A sparse model accumulates weights per product",
 "After any sequence of additions, a sparse model holds for every product added the sum of its weights; its nodes are exactly the nodes of those products, its products are listed once each, and the neighbours of a node are exactly the products containing it.",
 ["histories"],"all sequences of additions to quadratic and higher-order models",
 "Sparse models are not tested.",
 ["annealers/src/model.rs"],
 [("accumulation","annealers/src/model.rs SingleModel::add_weight"),("views","annealers/src/model.rs impl SingleModelView for SingleModel")],
 [("inner, nodes","weights per product and set of nodes","annealers/src/model.rs SingleModel")],
 ["SingleModel"])

p("C19","Structured views list every pair of nodes exactly once",
 "Viewing an unstructured solver as a structured one lists its nodes 0, 1, 2, ... up to its capacity, without end if it has none, and lists every unordered pair of distinct nodes exactly once, all pairs among the first k nodes before any pair with a later node. After the last pair the listing stays ended.",
 ["inputs"],"all capacities (0, 1, any, unbounded) and all prefixes of the listing",
 "One test lists the pairs of three nodes and stops polling at the first end.",
 ["annealers/src/solver.rs"],
 [("pair enumeration","annealers/src/solver.rs UnstructuredEdgeIter::next"),("wrapper","annealers/src/solver.rs AsStructuredSolverGeneratorWrapper")],
 [("UnstructuredEdgeIter","next pair and nodes seen","annealers/src/solver.rs")],
 ["StructuredSolverGenerator::nodes, prods"])

p("C20","Coefficient types convert and compare without surprises",
 "For each of the seven coefficient types, conversion to a wider type keeps the value, conversion from i32 and to f64 is exact where the value is representable, absolute value, minimum and maximum are the mathematical ones (a NaN operand of minimum and maximum gives the other operand), and every integer counts as finite while NaN and infinities do not.",
 ["inputs"],"all values of all seven types and all pairs of types",
 "No test calls these functions directly.",
 ["annealers/src/variable.rs"],
 [("Real impls","annealers/src/variable.rs impl_real_as_f64!"),("conversions","annealers/src/variable.rs impl_convert_force!, impl_all!")],
 [],["Real, ConvertFrom, ConvertTo, ConvertForce, ConvertWith"])

p("C21","The annealer runs the schedule it was configured with",
 "An annealer configured with an explicit schedule uses exactly that schedule; configured with a count, alone or with a range, it uses a schedule of exactly that many entries; and in both cases it makes the configured number of sweeps for each entry.",
 ["configurations","inputs"],"all schedules, counts, ranges, sweep settings and models",
 "Tests use the default settings only and cannot see the schedule.",
 ["classical_solver/src/beta.rs","classical_solver/src/sa.rs"],
 [("schedule generation","classical_solver/src/beta.rs generate_schedule, generate_beta_schedule"),("hand-over","classical_solver/src/sa.rs generate, solve_with_rng")],
 [("beta_schedule, sweeps_per_round","what the annealer will run","classical_solver/src/sa.rs SimulatedAnnealer")],
 ["SimulatedAnnealerGenerator::generate, SimulatedAnnealer::solve_with_rng"])

p("C22","Constraint weights share the configured strength by failures",
 "In every model a solver is given, the weight of a constraint label is the configured strength times its points over the total of all points (converted to the coefficient type). In each iteration every label starts with ten points, and a label gains one point for each of its constraints violated by a generation's best sample that improves on the best energy of that iteration so far.",
 ["histories","inputs"],"all models with constraints, all sequences of samples, all strengths, integer and floating coefficients",
 "Tests never look at the weights; with the integer types the share used to be rounded to zero unnoticed.",
 ["src/solve.rs"],
 [("points and weights","src/solve.rs solve_with_constraints")],
 [("phdict, size","points per label and their total","src/solve.rs")],
 ["models handed to a solver generator by SimpleSolver"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
