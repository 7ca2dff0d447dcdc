"""writes properties.jsonl and MANIFEST.json (single source for both)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/andromede/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, technique, note):
    P.append(dict(rec=dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[S+f for f in files],
            mechanism=[dict(name=n, where=S+w) for n, w in mech],
            observe_at=observe, hook_needed=None)),
        technique=technique, note=note))

p("C01", "The textual expression language means what its grammar says, or is rejected",
  "Every string of the documented expression language is read as the mathematical expression it denotes: usual precedence and left associativity, unary minus, decimal numbers, comparisons, time shifts and evaluations of names and of parenthesised expressions, windowed and full time sums, expectations, port fields and sums over connections, whatever the white space and redundant parentheses. Names which are neither a variable nor a parameter of the model, unknown functions or characters and malformed strings raise a parse error, and never yield an expression.",
  ["inputs"], "all strings: random well-formed expressions of any nesting and layout, and mutations of them that leave the language",
  "The parsing tests compare about 40 fixed strings; precedence and associativity depend on how operators nest.",
  ["expression/parsing/parse_expression.py", "expression/parsing/antlr/ExprParser.py"],
  [("parse_expression", "expression/parsing/parse_expression.py"), ("grammar rules", "expression/parsing/antlr/ExprParser.py")],
  ["parse_expression"],
  "runtime oracle: parsed expressions evaluated against an independent reading of the grammar, on generated strings",
  "differential oracle on generated strings; the reference reading of the grammar (own precedence parser) is trusted")

p("C02", "Building expressions with Python operators denotes the same arithmetic",
  "Combining expressions and numbers with + - * / unary minus, comparisons, shift, eval, time_sum, expec and sum_connections, with a number on either side, yields an expression whose evaluation equals the arithmetic result of the operation on the operands' values, and a comparison of the requested sense. Operands are never modified, so an expression may be reused in several others; anything which is neither a number nor an expression is rejected with a TypeError.",
  ["inputs", "programs"], "all sequences of operations building a DAG of shared expressions, evaluated at all values",
  "Tests build a dozen fixed expressions and rarely put numbers on the left or reuse operands.",
  ["expression/expression.py", "expression/evaluate.py"],
  [("operator overloading", "expression/expression.py"), ("EvaluationVisitor", "expression/evaluate.py")],
  ["ExpressionNode operators", "evaluate"],
  "runtime oracle: shadow arithmetic of each operation plus operand-snapshot monitor",
  "shadow evaluation with exact rationals; dyadic values so that float results are exact")

p("C03", "Rewriting an expression preserves its meaning; equality is structural",
  "Copying an expression, attaching a component to it and replacing parameters by values produce an expression with the same value, degree and time and scenario dependency, over the requested component or values only, and leave the original untouched. Printing an expression yields a text with the same value and names every identifier. Two expressions, constraints, variables, port definitions or models are equal exactly when every part matches (operators, names, bounds, structure, and numbers within the given tolerance), equality is reflexive and symmetric, and changing any single part makes them different.",
  ["inputs"], "all expressions and models, and all single-point changes of them",
  "Tests compare a few hand-written pairs; a forgotten field of one node type is only visible on expressions which differ there.",
  ["expression/copy.py", "expression/equality.py", "expression/context_adder.py", "expression/evaluate_parameters.py", "expression/print.py", "expression/visitor.py", "model/model.py", "model/variable.py", "model/constraint.py"],
  [("CopyVisitor", "expression/copy.py"), ("EqualityVisitor", "expression/equality.py"), ("ContextAdder", "expression/context_adder.py"), ("ParameterResolver", "expression/evaluate_parameters.py"), ("PrinterVisitor", "expression/print.py")],
  ["copy_expression", "expressions_equal", "add_component_context", "resolve_parameters", "print_expr", "Model.__eq__"],
  "runtime oracle: meaning compared before/after each rewriting; equality monitored on single-point mutants",
  "mutants are made by one change of an independent expression tree; the context (operational/investment) of variables and constraints is outside equality by design")

p("C04", "Degree analysis never lets a non-linear or non-constant expression through",
  "The computed degree of an expression equals its polynomial degree with respect to variables and port fields (without simplification: a product by a null constant keeps the degree), whatever the nesting of arithmetic, time and scenario operators; an expression is constant exactly when it contains no variable or port field with a non-null degree, and linear exactly when its degree is at most one. A division by an expression containing variables is always refused.",
  ["inputs"], "all expressions, including products and divisions hidden under time and scenario operators",
  "Tests check nine expressions; wrong degrees hide under nested operators.",
  ["expression/degree.py", "expression/scenario_operator.py"],
  [("ExpressionDegreeVisitor", "expression/degree.py")],
  ["compute_degree", "is_linear", "is_constant"],
  "runtime oracle: degree compared with an independent one, and with finite differences of the evaluated expression",
  "syntactic degree (no simplification of x-x), as documented by the code")

p("C05", "Time and scenario dependency of expressions is computed exactly",
  "The computed dependency of an expression on time and on scenario is the union of that of the variables and parameters it reads, except that evaluating at a time step or summing over all time steps removes the time dependency, and an expectation removes the scenario dependency. Consequently an expression reported independent of time (resp. scenario) takes the same value at all time steps (resp. scenarios) of any problem.",
  ["inputs", "configurations"], "all expressions over variables and parameters of all four structures",
  "Tests check about ten combinations; a wrong shortcut only shows for particular orders of operands.",
  ["expression/indexing.py", "expression/indexing_structure.py"],
  [("TimeScenarioIndexingVisitor", "expression/indexing.py")],
  ["compute_indexation"],
  "runtime oracle: reference dependency and value invariance over time steps and scenarios",
  "dependency is syntactic, as the code intends")

p("C06", "Linear expressions form an exact algebra and operations have no side effects",
  "Sums, differences, opposites, products by a constant and divisions by a constant of linear expressions, in place or not, have at every point the value of the same operation on their operands' values, with one term per variable instance and no null term. The right-hand operand (and, for operations not in place, the left one) is never modified nor shares state with the result; multiplying two non-constant expressions, dividing by a non-constant or by zero is refused.",
  ["inputs", "histories"], "all sequences of operations over a pool of shared linear expressions",
  "Tests check single operations on fresh operands; aliasing shows only when a result or operand is reused.",
  ["simulation/linear_expression.py"],
  [("LinearExpression operators", "simulation/linear_expression.py")],
  ["LinearExpression"],
  "runtime monitor: shadow values of a pool of expressions checked after every operation of random histories",
  "expressions built from terms on distinct variables; exact dyadic arithmetic")

p("C07", "Operators expand and linearise to the value of the expression they denote",
  "For every linear expression and block of T time steps and S scenarios, expanding its time and scenario operators and linearising it at a given time step and scenario yields the coefficients and constant it denotes: a shift reads the shifted time step, an evaluation the given one, a windowed sum runs over both bounds included, a full sum over all T time steps, an expectation is the mean over all S scenarios, nested in any order, with parameters taken at the time step and scenario they are read at. Products of variables, divisions by variables, non-integer shifts and time bounds depending on time or scenario are refused.",
  ["inputs", "configurations"], "all linear expressions of any nesting, all T, S and structures of variables and parameters",
  "Tests expand about fifteen fixed expressions; nesting of operators is where meanings diverge.",
  ["expression/operators_expansion.py", "simulation/linearize.py", "simulation/optimization.py"],
  [("OperatorsExpansion", "expression/operators_expansion.py"), ("LinearExpressionBuilder", "simulation/linearize.py")],
  ["expand_operators", "linearize_expression"],
  "runtime oracle: linearised coefficients compared with a direct denotational evaluation",
  "shifting or window-summing an already evaluated x[k] is excluded (known finding), evaluating an evaluated expression is refused by design")

p("C08", "The problem holds exactly the decision variables of the system and their domains",
  "A problem contains exactly one solver variable per model variable of each component or node, per time step of the block if the variable depends on time and per scenario if it depends on scenario, under its documented name, and no other one. Its bounds are the values of the bound expressions with the data of its own component, time step and scenario (infinite when absent), and it is integer exactly when declared integer or boolean; a lower bound above the upper bound is refused.",
  ["inputs", "configurations"], "all systems, data, block lengths, numbers of scenarios and problem selections",
  "Tests check the number of variables and a few bounds on a handful of systems.",
  ["simulation/optimization.py", "simulation/strategy.py", "model/variable.py"],
  [("_create_variables", "simulation/optimization.py")],
  ["build_problem", "solver model"],
  "runtime monitor on build_problem: solver model read back and compared with an independent reference",
  "generated systems of up to 5 components, 6 time steps, 4 scenarios; names of components chosen so that solver names cannot collide (known finding)")

p("C09", "Every constraint is posed, exactly, at every time step and scenario",
  "For each constraint of each component the problem contains exactly one row per time step and scenario on which its expression or bounds depend, and no other row. Each row has the coefficients the expression denotes at that time step and scenario, its constant part moved to the bounds, and the bounds evaluated with the same component, time step and scenario; comparisons a <= b, a >= b and a = b hold in the requested sense, and one-sided bounds stay one-sided.",
  ["inputs", "configurations"], "all systems, constraints, data, block lengths and numbers of scenarios",
  "Tests solve about 30 small systems and look at the objective; a wrong or missing row is often not binding there.",
  ["simulation/optimization.py", "model/constraint.py", "expression/context_adder.py"],
  [("_create_constraints, make_constraint", "simulation/optimization.py"), ("Constraint", "model/constraint.py")],
  ["build_problem", "solver model"],
  "runtime monitor on build_problem: rows read back and compared with an independent reference",
  "as C08")

p("C10", "The objective is the sum of all contributions, weighted as requested",
  "The problem minimises the sum, over all components and nodes, of their operational and investment contributions (only the investment ones in a master problem, only the operational ones in a subproblem), multiplied by the probability of the tree node when there is one. Contributions of several terms or components on the same variable add up and constant parts are kept, so the objective value of any point equals the sum of the contributions evaluated there.",
  ["inputs", "configurations"], "all systems, objectives, data, strategies and probabilities",
  "Tests compare the optimum of small systems whose objectives have one or two terms.",
  ["simulation/optimization.py", "simulation/strategy.py"],
  [("_create_objective", "simulation/optimization.py"), ("strategies", "simulation/strategy.py")],
  ["build_problem", "solver objective"],
  "runtime monitor on build_problem: objective read back and compared with an independent reference",
  "as C08")

p("C11", "Ports carry exactly the definitions of the connected components",
  "A port field read by a component equals the definition given by the component at the defining end of the connection, evaluated with that component's own variables and parameters, and a sum over connections equals the sum over all connections of that port, zero when there is none, whatever the order and direction of the connections. A connection is accepted exactly when both ports exist with the same type and each field is defined at exactly one end; reading a field of a port with no or several connections without summing is refused.",
  ["inputs", "configurations"], "all networks of connected components, including several connections per port and components of the same model",
  "Tests use stars around one node; swapped ends, several fields and components of the same model are rarely combined.",
  ["expression/port_resolver.py", "simulation/optimization.py", "study/network.py", "model/port.py"],
  [("_register_connection_fields_definitions", "simulation/optimization.py"), ("PortResolver", "expression/port_resolver.py"), ("PortsConnection validation", "study/network.py")],
  ["resolve_port", "PortsConnection", "build_problem"],
  "runtime monitor: rows of connected systems compared with a reference; acceptance oracle for connections",
  "definitions and readers generated at random, over/under-connected ports included")

p("C12", "Blocks are independent windows: absolute data, cyclic borders",
  "A problem built on a block of absolute time steps reads time-dependent data at those absolute time steps, wherever they start and even if they are not contiguous, and never at another one. Time operators wrap around inside the block: a shift beyond either border reads the step modulo the block length, so the problem depends neither on the data outside the block nor on the block identifier, and rotating the block's data rotates the problem.",
  ["inputs", "configurations"], "all blocks (start, length, gaps), shifts of any size and sign",
  "Tests use blocks starting at zero with shifts of one or two steps.",
  ["simulation/optimization.py", "simulation/time_block.py", "study/data.py"],
  [("block_timestep_to_absolute_timestep", "simulation/optimization.py"), ("get_component_variable", "simulation/optimization.py")],
  ["build_problem", "data access log"],
  "runtime monitor: access log of data reads plus comparison with reference and metamorphic rotations",
  "CYCLE border management (the only one implemented)")

p("C13", "Data are read as given, for the right component, time step and scenario",
  "A parameter's value at a time step and scenario is the one in its data: the constant, the line of the time series, the column of the scenario series, or the line and column of the matrix loaded from its file, the column being chosen by the scenario group of the parameter (or else of its component) when a scenario builder is given. A problem is refused when the data of a parameter of a component or node are missing or depend on time or scenario although the parameter does not; ill-shaped series, missing files, constants given as names, series given as numbers, and years defined twice or missing are refused instead of defaulted.",
  ["inputs", "configurations"], "all data files, shapes, flags, scenario groups and builders",
  "Tests load a few files; mixed groups, nodes and wrong shapes are barely sampled.",
  ["study/data.py", "study/resolve_components.py", "study/parsing.py"],
  [("get_value, check_requirement", "study/data.py"), ("build_data_base, build_scenarized_data_base", "study/resolve_components.py"), ("requirements_consistency", "study/data.py")],
  ["DataBase", "build_data_base", "build_scenarized_data_base"],
  "runtime oracle: every value of generated files and builders read back; acceptance oracle on faulty data (fault injection)",
  "files as written by the tools themselves (white-space separated)")

p("C14", "Libraries resolve completely, in any order, or are refused",
  "Resolving a set of libraries yields every library with every model as written: parameters, variables with type, structure and bounds, ports with the type they name, port definitions, constraints, binding constraints and objective, with documented defaults. The result depends neither on the order of the files nor of the dependencies, port types are visible exactly to the library and those depending on it directly or indirectly, and circular or missing dependencies, port types or models defined twice, unknown types, fields or keys are refused.",
  ["inputs", "configurations"], "all sets of libraries, dependency graphs and orders",
  "Tests resolve four fixed dependency graphs.",
  ["model/resolve_library.py", "model/parsing.py", "model/library.py"],
  [("resolve_library", "model/resolve_library.py"), ("InputLibrary", "model/parsing.py")],
  ["parse_yaml_library", "resolve_library"],
  "runtime oracle: resolved models compared with the written ones over random dependency graphs and orders; faulty libraries",
  "sibling dependencies exporting the same port type id count as defined twice unless identical")

p("C15", "A study in YAML files builds the same problem as the same study in Python",
  "Loading libraries, system and series from files and building a problem yields the same variables, rows and objective as building the same models, components, nodes, connections and data with the Python API. Components refer to their models by library and model identifier, so models of the same name in different libraries stay distinct; unknown libraries, models or components in a system are refused.",
  ["inputs", "programs"], "all systems expressible in YAML",
  "Tests load about ten YAML systems and compare optima.",
  ["study/parsing.py", "study/resolve_components.py", "model/resolve_library.py", "main/main.py"],
  [("resolve_system, build_network, build_data_base", "study/resolve_components.py")],
  ["parse_yaml_components", "resolve_system", "build_network", "build_data_base", "build_problem"],
  "runtime oracle: solver models of the YAML route, the Python route and the reference compared",
  "as C08, restricted to what YAML can express (no investment context, no boolean variables)")

p("C16", "Reported outputs are the solver's values, correctly indexed and compared",
  "After solving, the reported value of each variable of each component equals the solver's value at the same scenario and time step, in the documented shape (number, list per scenario, list of scenarios of time steps), and the reported values satisfy the constraints and reproduce the objective. Setting a value and reading it back gives the same value; two outputs are equal (or close within given tolerances) exactly when all non-ignored components and variables are present in both with equal (close) values of the same shape, symmetrically.",
  ["inputs", "histories"], "all solved problems, and all assignments and comparisons of outputs",
  "Tests compare a few fixed outputs.",
  ["simulation/output_values.py"],
  [("OutputValues", "simulation/output_values.py"), ("BendersSolution", "simulation/output_values.py")],
  ["OutputValues", "solver.Solve"],
  "runtime oracle: outputs checked against the solver and an independent feasibility/objective evaluation; comparison oracle",
  "solver (SCIP/GLOP) trusted for its own values, with numerical tolerance")

p("C17", "The decomposed problem is equivalent to the whole one",
  "The decomposition of an investment study has one master with all investment and coupling variables and constraints of all tree nodes, and one subproblem per node and block with its operational and coupling ones; at any point, the costs of master and subproblems add up to the probability-weighted cost of the whole, and every constraint appears in the problems its context selects, for all tree nodes, with the same rows, bounds, integrality and constants. The structure file lists, for the master and each subproblem, exactly the shared investment variables with the column they have in the exported problem, and the exported files describe the same problems as the solver holds, up to the digits OR-Tools writes; the options written beside them give every subproblem the weight 1 and let the solver reach the optimum.",
  ["inputs", "configurations"], "all studies with investment contexts, trees, blocks and scenarios",
  "Tests check three decompositions with one or two candidates.",
  ["simulation/benders_decomposed.py", "simulation/optimization.py", "simulation/strategy.py"],
  [("build_benders_decomposed_problem", "simulation/benders_decomposed.py"), ("fusion_problems", "simulation/optimization.py"), ("export_structure", "simulation/benders_decomposed.py")],
  ["build_benders_decomposed_problem", "export_structure", "initialise"],
  "runtime monitor: master, subproblems, structure and MPS files read back and compared with an independent reference",
  "investment rows use time- and scenario-independent variables (masters are built on a dummy block); exported files parsed by an own MPS reader, up to the six digits OR-Tools writes; columns of variables without coefficient are not judged")

p("C18", "Decision trees weight and couple their nodes, and do not interfere",
  "The absolute probability of a node is the product of its own and its ancestors', and a study is refused when the probabilities of the children of some node do not add up to one or a probability is outside [0, 1]. Each declared coupling appears in the master as: capacity of the child minus its increment equals the capacity of the parent (zero at the root), for every node of the tree and no other; building or coupling one tree never changes another one, and components or variables which do not exist are refused.",
  ["inputs", "histories"], "all trees, probabilities, couplings, and sequences of trees in the same process",
  "Tests build two trees; state leaking between trees shows only in histories of several trees.",
  ["simulation/decision_tree.py", "simulation/benders_decomposed.py"],
  [("DecisionTreeNode", "simulation/decision_tree.py"), ("_add_coupling_constraints", "simulation/decision_tree.py")],
  ["DecisionTreeNode", "build_benders_decomposed_problem"],
  "runtime monitor over histories of several trees: master read back against the declared couplings",
  "trees built with parent= (top-down), as documented by the examples")

p("C19", "Building is deterministic and leaves its inputs unchanged",
  "Building the same system twice, in the same process, in another one or under another hash seed, gives the same problem, byte for byte once exported, as well as the same structure file and converted studies. Building, solving, exporting or replicating never changes the models, networks, data, trees or problems made before, nor converting the files of a study, so they can be reused for other blocks, scenarios or strategies in any order.",
  ["histories", "configurations"], "all sequences of builds over shared models, networks and databases; all hash seeds",
  "Tests build each system once in one process.",
  ["simulation/optimization.py", "simulation/benders_decomposed.py", "model/resolve_library.py", "study/network.py"],
  [("build_problem", "simulation/optimization.py")],
  ["build_problem", "export_as_mps", "export_structure"],
  "runtime monitor: input snapshots around histories of builds; exports compared across processes and hash seeds",
  "hash seeds sampled; single-threaded code (no race detector applies)")

p("C20", "The Antares converter translates every object of the study, once",
  "Converting an Antares study yields one node per area, and one component of the right model with its own parameter values and series for each renewable, thermal cluster, storage and link, and one load, wind or solar component for each area whose series is not empty nor all zero, connected to the area (both areas for a link) it belongs to, and nothing else, except the objects listed as replaced by the battery template, which become one battery per area that defines all its objects. Referenced series files exist with the study's values, and the input matrices of the study are left untouched. The command line converts the study it is given into the directory it is given, or fails.",
  ["inputs", "configurations"], "all studies: areas, links, clusters, storages, series, batteries",
  "Tests convert one fixture study with one object of each kind.",
  ["input_converter/src/converter.py", "input_converter/src/utils.py", "input_converter/src/main.py", "input_converter/src/data_preprocessing/binding_constraints.py"],
  [("AntaresStudyConverter", "input_converter/src/converter.py")],
  ["convert_study_to_input_study", "process_all", "series files"],
  "runtime oracle: converted system compared with an independent translation of randomly generated studies",
  "studies made with antares_craft on a scratch directory; identifiers of load, wind and solar components are a known finding")

p("C21", "Thermal and battery preprocessing computes the documented series",
  "For each scenario and hour, the series written for a thermal cluster are: minimal generation = min(modulation x units x capacity, available power); minimal and maximal units = those powers divided by the unit capacity, rounded up; maximal variations = positive part of the difference (backward: current minus previous, forward: previous minus current) of maximal units with the previous hour of the same period, the first hour following the last one of its period. The parameters of a battery are the weights, series, maxima, products and quotients its template requests.",
  ["inputs", "configurations"], "all clusters, modulations, availabilities, periods and numbers of scenarios",
  "Tests use one scenario, one period and near-constant series.",
  ["input_converter/src/data_preprocessing/thermal.py", "input_converter/src/data_preprocessing/dataclasses.py", "input_converter/src/data_preprocessing/binding_constraints.py"],
  [("ThermalDataPreprocessing", "input_converter/src/data_preprocessing/thermal.py"), ("Operation.execute", "input_converter/src/data_preprocessing/dataclasses.py")],
  ["generate_component_parameter", "Operation.execute", "written files"],
  "runtime oracle: written files compared with a plain per-hour computation",
  "antares_craft matrices stand-ins and real studies; series lengths up to 8760")

p("C22", "The PyPSA converter translates the network without loss or refuses it",
  "Converting a PyPSA network yields one component per bus, load, generator, link, storage unit, store and supported global constraint, with each parameter equal to its constant or to the series written for it (infinite values clamped), fixed capacities as equal minimal and maximal capacities without investment cost, and connected to its bus (both for a link). Global constraints are connected to every generator, store and storage unit with a carrier; networks with lines, transformers, quadratic costs, unit commitment, inactive or non-cyclic objects, weighted snapshots, investment periods or other kinds of global constraints are refused instead of converted differently, and the resulting problem has the optimal cost of the network.",
  ["inputs", "configurations"], "all PyPSA networks within the supported features, and networks just outside",
  "Tests convert a few networks and need the PyPSA solver for comparison.",
  ["pypsa_converter/pypsa_converter.py", "pypsa_converter/utils.py", "libs/pypsa_models/pypsa_models.yml"],
  [("PyPSAStudyConverter", "pypsa_converter/pypsa_converter.py")],
  ["PyPSAStudyConverter", "to_gems_study", "series files", "build_problem"],
  "runtime oracle: converted systems compared field by field with the network, and their optimum with an independent LP",
  "real pypsa imported with a stand-in for scipy (not installed); reference LP written from the PyPSA documentation; ramp limits, fixed dispatch, modular capacities and multi-bus links are outside what the converter reads")

p("C23", "A system written to YAML is read back identical",
  "Writing any converted or programmatically built system to a YAML file and reading it back gives an equal system: same identifiers, models, parameter values (numbers and series names, including infinite, tiny and large numbers and non-ASCII or numeric-looking names), flags, scenario groups and connections. Unknown keys in a system or library file are refused instead of ignored, and both spellings with hyphens and underscores are accepted.",
  ["inputs"], "all systems",
  "Tests write and compare three systems.",
  ["input_converter/src/utils.py", "pypsa_converter/utils.py", "study/parsing.py", "utils.py"],
  [("transform_to_yaml", "input_converter/src/utils.py"), ("ModifiedBaseModel", "utils.py")],
  ["transform_to_yaml", "parse_yaml_components"],
  "runtime oracle: round trip of generated systems through real files",
  "PyYAML trusted")

p("C24", "Invalid models are rejected when created, valid ones kept as given",
  "Creating a model is refused when an objective is not linear or depends on time or scenario, when a port definition names an unknown port or field or contains a comparison, another port field or a variable already attached to a component, when two ports, variables, parameters, constraints or port definitions share a name, when the bound of a variable or constraint contains a variable, or when a constraint has both a comparison and bounds, a lower bound of plus infinity or an upper bound of minus infinity; valid models are accepted as they are. Creating a copy with changes changes nothing else, and models and their parts are equal exactly when their contents are (their context aside).",
  ["inputs"], "all models, valid or with one defect anywhere in an expression",
  "Tests check about ten invalid models; the defect is usually at the top of the expression.",
  ["model/model.py", "model/constraint.py", "model/variable.py", "model/port.py"],
  [("Model.__post_init__", "model/model.py"), ("Constraint.__post_init__", "model/constraint.py"), ("_PortFieldExpressionChecker", "model/port.py")],
  ["model", "Constraint", "Variable", "port_field_def"],
  "runtime oracle: acceptance compared with an independent validity decision on generated valid models and single-defect mutants",
  "defects are injected at random depth of generated expressions")

p("C25", "The shipped model libraries implement their documented equations",
  "For every system of components of the shipped libraries (Antares legacy models, PyPSA models, reference models), the optimum of the problem equals that of the documented equations written directly: balance of areas with spillage and unsupplied energy, flow limits of links, unit commitment with minimal up and down times and start-up costs, storage levels with efficiencies and cyclic borders, renewables, loads and emissions. In particular every component respects the balance, capacity and level limits at every hour and scenario of the solution.",
  ["inputs", "configurations"], "all data and topologies over the shipped libraries",
  "Tests solve about fifteen studies with fixed data, most of them over one area.",
  ["libs/antares_historic/antares_historic.yml", "libs/pypsa_models/pypsa_models.yml", "libs/reference_models/andromede_v1_models.yml"],
  [("model equations", "libs/antares_historic/antares_historic.yml")],
  ["build_problem", "solution"],
  "runtime oracle: optimum and solution checked against directly written equations",
  "equations of the libraries at the pinned commit are the reference; LP solved by the same solver family")

p("C26", "The command line computes the study, and failures leave no trace",
  "Running the command line on libraries, system, series, duration and number of scenarios prints the status and the optimal cost of the corresponding problem, and refuses inconsistent arguments, libraries with the same identifier and missing files with an error. Running an external solver, whether it succeeds, fails, is missing or cannot be started, runs it in the study's directory with the written options, returns its exit code, restores the working directory, and reads a solution, as of the kind of this run, only when the command succeeded and a solution file is there; a failed run leaves the former solution.",
  ["inputs", "fault_sequences"], "all studies and arguments, and all ways an external command can fail",
  "Tests run the parsing functions on one study and no external command.",
  ["main/main.py", "study/parsing.py", "simulation/runner.py", "simulation/benders_decomposed.py", "utils.py"],
  [("main_cli", "main/main.py"), ("parse_cli", "study/parsing.py"), ("CommandRunner.run", "simulation/runner.py")],
  ["main_cli stdout", "CommandRunner.run", "working directory"],
  "runtime monitor with fault injection: command line and runner executed on scratch studies with failing commands",
  "a missing executable counts as return code 0, as the code documents")

done = json.load(open(V + "/tools/claimed.json"))
with open(V + "/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["rec"]["title"]) <= 80, (x["rec"]["id"], len(x["rec"]["title"]))
        f.write(json.dumps(x["rec"]) + "\n")
man = dict(version=1, setup_cmd="/opt/venv/bin/python /verif/tools/setup_check.py",
  checks=[], not_applicable=[],
  notes="No hooks in /repo: monitors observe public entry points from /verif (wrapping, read-back of the solver model, input snapshots). Sanitizers and race detectors do not apply: /repo is pure, single-threaded Python.")
for x in P:
    i = x["rec"]["id"]
    if i in done:
        man["checks"].append(dict(property=i, quick_cmd=f"/opt/venv/bin/python /verif/run.py {i}",
            thorough_cmd=f"/opt/venv/bin/python /verif/run.py {i} --thorough", technique=x["technique"], level="exploration",
            level_note=x["note"]))
    else:
        man["not_applicable"].append(dict(property=i, reason="check not built yet"))
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
