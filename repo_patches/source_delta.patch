From e2d9548b2f5cf89252080672b83eb849561ff787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:00 +0000
Subject: [PATCH 01/37] fix: subtracting an expression from a number returned
 their sum

---
 src/andromede/expression/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/expression/expression.py b/src/andromede/expression/expression.py
index ec91591..9043c77 100644
--- a/src/andromede/expression/expression.py
+++ b/src/andromede/expression/expression.py
@@ -62,7 +62,7 @@ class ExpressionNode:
 
     def __rsub__(self, lhs: Any) -> "ExpressionNode":
         lhs = _wrap_in_node(lhs)
-        return lhs + self
+        return lhs - self
 
     def __mul__(self, rhs: Any) -> "ExpressionNode":
         return _apply_if_node(rhs, lambda x: MultiplicationNode(self, x))
-- 
2.43.0


From 3e7264170a661ca23185acb63bbb4b53abd19197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:30 +0000
Subject: [PATCH 02/37] fix: multiplying linear expressions modified the right
 operand or shared its terms

---
 src/andromede/simulation/linear_expression.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/andromede/simulation/linear_expression.py b/src/andromede/simulation/linear_expression.py
index 4421761..c4a681d 100644
--- a/src/andromede/simulation/linear_expression.py
+++ b/src/andromede/simulation/linear_expression.py
@@ -378,16 +378,18 @@ class LinearExpression:
             elif is_close_abs(const_expr.constant, 1, EPS):
                 _copy_expression(left_expr, self)
             else:
-                left_expr.constant *= const_expr.constant
-                for term_key, term in left_expr.terms.items():
-                    left_expr.terms[term_key] = Term(
-                        term.coefficient * const_expr.constant,
+                # rhs must be left untouched: only self may be modified
+                multiplier = const_expr.constant
+                _copy_expression(left_expr, self)
+                self.constant *= multiplier
+                for term_key, term in self.terms.items():
+                    self.terms[term_key] = Term(
+                        term.coefficient * multiplier,
                         term.component_id,
                         term.variable_name,
                         term.time_index,
                         term.scenario_index,
                     )
-                _copy_expression(left_expr, self)
         return self
 
     def __mul__(self, rhs: "LinearExpression") -> "LinearExpression":
@@ -434,5 +436,5 @@ class LinearExpression:
 
 
 def _copy_expression(src: LinearExpression, dst: LinearExpression) -> None:
-    dst.terms = src.terms
+    dst.terms = dict(src.terms)
     dst.constant = src.constant
-- 
2.43.0


From bec3a4a977f2c909abce831119831a1ff39cf5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:30 +0000
Subject: [PATCH 03/37] fix: constraints were not instantiated over the time
 steps and scenarios of their bounds

---
 src/andromede/simulation/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 0a4eba0..2c9a5c7 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -423,8 +423,8 @@ def _compute_indexing(
 ) -> IndexingStructure:
     return (
         context.compute_indexing(constraint.expression)
-        or context.compute_indexing(constraint.lower_bound)
-        or context.compute_indexing(constraint.upper_bound)
+        | context.compute_indexing(constraint.lower_bound)
+        | context.compute_indexing(constraint.upper_bound)
     )
 
 
-- 
2.43.0


From 4feab9acdf3f7a0123a1da324a3235a8a2c827be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:30 +0000
Subject: [PATCH 04/37] fix: time operators on parenthesized expressions were
 silently parsed to nothing

---
 .../expression/parsing/parse_expression.py    | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/andromede/expression/parsing/parse_expression.py b/src/andromede/expression/parsing/parse_expression.py
index 1dc3c3e..b720034 100644
--- a/src/andromede/expression/parsing/parse_expression.py
+++ b/src/andromede/expression/parsing/parse_expression.py
@@ -147,6 +147,25 @@ class ExpressionNodeBuilderVisitor(ExprVisitor):
             return shifted_expr
         return shifted_expr.shift(time_shift)
 
+    # Visit a parse tree produced by ExprParser#timeIndexExpr.
+    def visitTimeIndexExpr(
+        self, ctx: ExprParser.TimeIndexExprContext
+    ) -> ExpressionNode:
+        expr = ctx.expr(0).accept(self)  # type: ignore
+        eval_time = ctx.expr(1).accept(self)  # type: ignore
+        return expr.eval(eval_time)
+
+    # Visit a parse tree produced by ExprParser#timeShiftExpr.
+    def visitTimeShiftExpr(
+        self, ctx: ExprParser.TimeShiftExprContext
+    ) -> ExpressionNode:
+        shifted_expr = ctx.expr().accept(self)  # type: ignore
+        time_shift = ctx.shift().accept(self)  # type: ignore
+        # specifics for (x + y)[t] ...
+        if expressions_equal(time_shift, literal(0)):
+            return shifted_expr
+        return shifted_expr.shift(time_shift)
+
     def visitTimeSum(self, ctx: ExprParser.TimeSumContext) -> ExpressionNode:
         shifted_expr = ctx.expr().accept(self)  # type: ignore
         from_shift = ctx.from_.accept(self)  # type: ignore
-- 
2.43.0


From a71a7cac82918c71ba78507704f57d992a9e4b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:30 +0000
Subject: [PATCH 05/37] fix: unknown characters in expressions were ignored
 instead of being rejected

---
 .../expression/parsing/parse_expression.py    | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/andromede/expression/parsing/parse_expression.py b/src/andromede/expression/parsing/parse_expression.py
index b720034..def6d2f 100644
--- a/src/andromede/expression/parsing/parse_expression.py
+++ b/src/andromede/expression/parsing/parse_expression.py
@@ -10,9 +10,11 @@
 #
 # This file is part of the Antares project.
 from dataclasses import dataclass
-from typing import Set
+from typing import Any, Set
 
 from antlr4 import CommonTokenStream, InputStream
+from antlr4.error.ErrorListener import ErrorListener
+from antlr4.error.Errors import ParseCancellationException
 from antlr4.error.ErrorStrategy import BailErrorStrategy
 
 from andromede.expression import ExpressionNode, literal, param, var
@@ -261,6 +263,24 @@ class AntaresParseException(Exception):
     pass
 
 
+class _BailErrorListener(ErrorListener):  # type: ignore
+    """
+    Rejects the whole expression when it contains unknown characters,
+    instead of ignoring those characters.
+    """
+
+    def syntaxError(
+        self,
+        recognizer: Any,
+        offendingSymbol: Any,
+        line: int,
+        column: int,
+        msg: str,
+        e: Any,
+    ) -> None:
+        raise ParseCancellationException(msg)
+
+
 def parse_expression(expression: str, identifiers: ModelIdentifiers) -> ExpressionNode:
     """
     Parses a string expression to create the corresponding AST representation.
@@ -268,6 +288,7 @@ def parse_expression(expression: str, identifiers: ModelIdentifiers) -> Expressi
     try:
         input = InputStream(expression)
         lexer = ExprLexer(input)
+        lexer.addErrorListener(_BailErrorListener())
         stream = CommonTokenStream(lexer)
         parser = ExprParser(stream)
         parser._errHandler = BailErrorStrategy()
-- 
2.43.0


From d7dc0abfff262e582eb2e8291df057ec524738bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:53 +0000
Subject: [PATCH 06/37] fix: an expectation overrode the scenarios of the
 expectations nested in it

---
 src/andromede/expression/operators_expansion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/andromede/expression/operators_expansion.py b/src/andromede/expression/operators_expansion.py
index 13e2d40..37c3cb5 100644
--- a/src/andromede/expression/operators_expansion.py
+++ b/src/andromede/expression/operators_expansion.py
@@ -226,12 +226,14 @@ class ApplyScenario(CopyVisitor):
     scenario: int
 
     def pb_parameter(self, node: ProblemParameterNode) -> ExpressionNode:
-        if isinstance(node.scenario_index, NoScenarioIndex):
+        # a scenario which is already fixed (nested expectations) must not change
+        if not isinstance(node.scenario_index, CurrentScenarioIndex):
             return node
         return dataclasses.replace(node, scenario_index=OneScenarioIndex(self.scenario))
 
     def pb_variable(self, node: ProblemVariableNode) -> ExpressionNode:
-        if isinstance(node.scenario_index, NoScenarioIndex):
+        # a scenario which is already fixed (nested expectations) must not change
+        if not isinstance(node.scenario_index, CurrentScenarioIndex):
             return node
         return dataclasses.replace(node, scenario_index=OneScenarioIndex(self.scenario))
 
-- 
2.43.0


From 24df77d908d0a5aeee8d935d8be4634c6a957d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:53 +0000
Subject: [PATCH 07/37] fix: the scenario group of a parameter leaked to the
 next parameters of the component

---
 src/andromede/study/resolve_components.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/andromede/study/resolve_components.py b/src/andromede/study/resolve_components.py
index e9f5291..6198f2c 100644
--- a/src/andromede/study/resolve_components.py
+++ b/src/andromede/study/resolve_components.py
@@ -216,14 +216,11 @@ def build_scenarized_data_base(
     scenarizations = _resolve_scenarization(scenario_builder_data)
 
     for comp in input_comp.components:
-        scenarization = None
-        if comp.scenario_group:
-            scenarization = scenarizations[comp.scenario_group]
-
         # This idiom allows mypy to 'ignore' the fact that comp.parameter can be None
         for param in comp.parameters or []:
-            if param.scenario_group:
-                scenarization = scenarizations[param.scenario_group]
+            scenarization = None
+            if scenario_group := param.scenario_group or comp.scenario_group:
+                scenarization = scenarizations[scenario_group]
             param_value = _build_data(
                 param.time_dependent,
                 param.scenario_dependent,
-- 
2.43.0


From 315dcdcf9a2f86a6a5f8fe01073ea78029ea18b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:53 +0000
Subject: [PATCH 08/37] fix: parameters of nodes were missing in scenarized
 databases

---
 src/andromede/study/resolve_components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/study/resolve_components.py b/src/andromede/study/resolve_components.py
index 6198f2c..4c06ea1 100644
--- a/src/andromede/study/resolve_components.py
+++ b/src/andromede/study/resolve_components.py
@@ -215,7 +215,7 @@ def build_scenarized_data_base(
     database = DataBase()
     scenarizations = _resolve_scenarization(scenario_builder_data)
 
-    for comp in input_comp.components:
+    for comp in input_comp.components + input_comp.nodes:
         # This idiom allows mypy to 'ignore' the fact that comp.parameter can be None
         for param in comp.parameters or []:
             scenarization = None
-- 
2.43.0


From e366fecc756ca1e2667b42fb345c6abc4766fe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:53 +0000
Subject: [PATCH 09/37] fix: data consistency of nodes was not checked

---
 src/andromede/study/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/study/data.py b/src/andromede/study/data.py
index f89537c..b1eb983 100644
--- a/src/andromede/study/data.py
+++ b/src/andromede/study/data.py
@@ -257,7 +257,7 @@ class DataBase:
             raise KeyError(f"Index {index} not found.")
 
     def requirements_consistency(self, network: Network) -> None:
-        for component in network.components:
+        for component in network.all_components:
             for param in component.model.parameters.values():
                 data_structure = self.get_data(component.id, param.name)
 
-- 
2.43.0


From 4bc44a47023396caacc9afff918fafbb96712508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:53 +0000
Subject: [PATCH 10/37] fix: setting an output variable kept values of its
 former size

---
 src/andromede/simulation/output_values.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/andromede/simulation/output_values.py b/src/andromede/simulation/output_values.py
index c832148..af4fe65 100644
--- a/src/andromede/simulation/output_values.py
+++ b/src/andromede/simulation/output_values.py
@@ -101,6 +101,7 @@ class OutputValues:
         @value.setter
         def value(self, values: Union[float, List[float], List[List[float]]]) -> None:
             size_s, size_t = 1, 1
+            self._value = {}
 
             if isinstance(values, list):
                 size_s = len(values)
-- 
2.43.0


From 8b480314fe4389184d3b7907df4fc45a49ede2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:53 +0000
Subject: [PATCH 11/37] fix: working directory was not restored when the
 external command could not be run

---
 src/andromede/simulation/runner.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/andromede/simulation/runner.py b/src/andromede/simulation/runner.py
index ac52a04..252c954 100644
--- a/src/andromede/simulation/runner.py
+++ b/src/andromede/simulation/runner.py
@@ -45,13 +45,15 @@ class CommandRunner:
             return 0
 
         os.chdir(self.emplacement)
-        res = subprocess.run(
-            [self.current_dir / self.command, *self.arguments],
-            stdout=sys.stdout,
-            stderr=subprocess.DEVNULL,  # TODO For now, to avoid the "Invalid MIT-MAGIC-COOKIE-1 key" error
-            shell=False,
-        )
-        os.chdir(self.current_dir)
+        try:
+            res = subprocess.run(
+                [self.current_dir / self.command, *self.arguments],
+                stdout=sys.stdout,
+                stderr=subprocess.DEVNULL,  # TODO For now, to avoid the "Invalid MIT-MAGIC-COOKIE-1 key" error
+                shell=False,
+            )
+        finally:
+            os.chdir(self.current_dir)
 
         return res.returncode
 
-- 
2.43.0


From e7215afde4865ee0017613b3024aefa1b66dd9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:55 +0000
Subject: [PATCH 12/37] fix: coupling constraints of a decision tree leaked to
 all trees of the process

---
 src/andromede/simulation/decision_tree.py | 35 +++++++++++------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/andromede/simulation/decision_tree.py b/src/andromede/simulation/decision_tree.py
index 9c1ffb1..23533d8 100644
--- a/src/andromede/simulation/decision_tree.py
+++ b/src/andromede/simulation/decision_tree.py
@@ -55,14 +55,19 @@ class DecisionTreeNode(NodeMixin):
         parent: Optional["DecisionTreeNode"] = None,
         children: Optional[Iterable["DecisionTreeNode"]] = None,
         prob: float = 1.0,
-        coupling_network: Network = Network("_Coupler"),
-        coupling_info: CouplingInfo = CouplingInfo(),
+        coupling_network: Optional[Network] = None,
+        coupling_info: Optional[CouplingInfo] = None,
     ) -> None:
         self.id = id
         self.config = config
         self.network = network
-        self.coupling_network = coupling_network
-        self.coupling_info = coupling_info
+        # Each node has its own coupling objects, so that trees are independent
+        self.coupling_network = (
+            coupling_network if coupling_network is not None else Network("_Coupler")
+        )
+        self.coupling_info = (
+            coupling_info if coupling_info is not None else CouplingInfo()
+        )
         self.parent = parent
 
         if prob < 0 or 1 < prob:
@@ -155,19 +160,13 @@ class DecisionTreeNode(NodeMixin):
         variables: List[Variable] = []
         constraints: List[Constraint] = []
 
-        """
-        Here and below, we use (and mostly abuse!) of the fact that
-        both coupling_network and coupling_info attributes are initialized,
-        or bounded, at the function definition since they are default arguments!
-        It allows us to not iterate over the tree, since all nodes share the same
-        coupling_network and coupling_info objects.
-
-        However, IT IS BAD DESIGN!
-        But for now it will suffice since the inner workings will change once
-        Thomas has changed the AST instantiation
-        TODO Update this once the new AST is merged
-        """
-        for var_name in self.coupling_info.variables:
+        coupling_variables: Set[str] = set()
+        coupling_constraints: Dict[str, ExpressionNode] = {}
+        for node in self.traverse():
+            coupling_variables.update(node.coupling_info.variables)
+            coupling_constraints.update(node.coupling_info.constraints)
+
+        for var_name in sorted(coupling_variables):
             variables.append(
                 # TODO For now, unbounded positive float variable
                 float_variable(
@@ -178,7 +177,7 @@ class DecisionTreeNode(NodeMixin):
                 ),
             )
 
-        for cst_name, expr in self.coupling_info.constraints.items():
+        for cst_name, expr in coupling_constraints.items():
             constraints.append(
                 Constraint(
                     name=cst_name,
-- 
2.43.0


From 585e840f24e4632e1ed9c36c40295db7a091dcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:29 +0000
Subject: [PATCH 13/37] fix: constant part of the objectives was lost when
 merging master problems

---
 src/andromede/simulation/optimization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 2c9a5c7..cec7d8c 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -847,4 +847,6 @@ def fusion_problems(
             if obj_coeff != 0:
                 root_objective.SetCoefficient(root_var, obj_coeff)
 
+        root_objective.SetOffset(root_objective.offset() + objective.offset())
+
     return root_master
-- 
2.43.0


From 27fe49454063fb5ab0da4caa883773137383deba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:29 +0000
Subject: [PATCH 14/37] fix: integer variables became continuous when merging
 master problems

---
 src/andromede/simulation/optimization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index cec7d8c..23c8594 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -815,7 +815,9 @@ def fusion_problems(
             # If variable not already in coupler, we add it
             # Otherwise we update its upper and lower bounds
             if var.name() not in root_vars:
-                root_var = root_master.solver.NumVar(var.lb(), var.ub(), var.name())
+                root_var = root_master.solver.Var(
+                    var.lb(), var.ub(), var.integer(), var.name()
+                )
                 root_master.context._solver_variables[var.name()] = SolverVariableInfo(
                     var.name(),
                     len(root_master.context._solver_variables),
@@ -825,6 +827,7 @@ def fusion_problems(
                 root_var = root_vars[var.name()]
                 root_var.SetLb(var.lb())
                 root_var.SetUb(var.ub())
+                root_var.SetInteger(var.integer())
                 root_master.context._solver_variables[
                     var.name()
                 ].is_in_objective = context._solver_variables[
-- 
2.43.0


From d7065329c20d7086da3c600507ddc4024012acec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:29 +0000
Subject: [PATCH 15/37] fix: coupling constraints of a single-node decision
 tree were dropped

---
 src/andromede/simulation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 23c8594..8fa8143 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -791,7 +791,7 @@ def build_problem(
 def fusion_problems(
     masters: List[OptimizationProblem], coupler: OptimizationProblem
 ) -> OptimizationProblem:
-    if len(masters) == 1:
+    if len(masters) == 1 and coupler.solver.NumConstraints() == 0:
         # Nothing to fusion. Just past down the master
         return masters[0]
 
-- 
2.43.0


From 53a788edc78bd5233f84ddd9cde773d940802aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:29 +0000
Subject: [PATCH 16/37] fix: models with different objectives or port
 definitions compared equal

---
 src/andromede/model/model.py | 23 +++++++++++++++++++++++
 src/andromede/model/port.py  |  8 ++++++++
 2 files changed, 31 insertions(+)

diff --git a/src/andromede/model/model.py b/src/andromede/model/model.py
index 741a4fb..ff6b7ba 100644
--- a/src/andromede/model/model.py
+++ b/src/andromede/model/model.py
@@ -21,6 +21,7 @@ from typing import Any, Dict, Iterable, Optional
 
 from andromede.expression import ExpressionNode
 from andromede.expression.degree import is_linear
+from andromede.expression.equality import expressions_equal_if_present
 from andromede.expression.indexing import IndexingStructureProvider, compute_indexation
 from andromede.expression.indexing_structure import IndexingStructure
 from andromede.model.constraint import Constraint
@@ -142,6 +143,28 @@ class Model:
         # Shallow copy
         return replace(self, **changes)
 
+    def __eq__(self, other: Any) -> bool:
+        if not isinstance(other, Model):
+            return False
+        return (
+            self.id == other.id
+            and self.constraints == other.constraints
+            and self.binding_constraints == other.binding_constraints
+            and self.inter_block_dyn == other.inter_block_dyn
+            and self.parameters == other.parameters
+            and self.variables == other.variables
+            and expressions_equal_if_present(
+                self.objective_operational_contribution,
+                other.objective_operational_contribution,
+            )
+            and expressions_equal_if_present(
+                self.objective_investment_contribution,
+                other.objective_investment_contribution,
+            )
+            and self.ports == other.ports
+            and self.port_fields_definitions == other.port_fields_definitions
+        )
+
 
 def model(
     id: str,
diff --git a/src/andromede/model/port.py b/src/andromede/model/port.py
index cf1951f..14e79bf 100644
--- a/src/andromede/model/port.py
+++ b/src/andromede/model/port.py
@@ -25,6 +25,7 @@ from andromede.expression import (
     ParameterNode,
     VariableNode,
 )
+from andromede.expression.equality import expressions_equal
 from andromede.expression.expression import (
     AllTimeSumNode,
     BinaryOperatorNode,
@@ -85,6 +86,13 @@ class PortFieldDefinition:
     def replicate(self, /, **changes: Any) -> "PortFieldDefinition":
         return replace(self, **changes)
 
+    def __eq__(self, other: Any) -> bool:
+        if not isinstance(other, PortFieldDefinition):
+            return False
+        return self.port_field == other.port_field and expressions_equal(
+            self.definition, other.definition
+        )
+
 
 def port_field_def(
     port_name: str, field_name: str, definition: ExpressionNode
-- 
2.43.0


From d91dcaf67c93cdff134bddad045c602bd35a51c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:29 +0000
Subject: [PATCH 17/37] fix: a library could not depend on a preloaded library

---
 src/andromede/model/resolve_library.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/andromede/model/resolve_library.py b/src/andromede/model/resolve_library.py
index 10f3285..9f7e59a 100644
--- a/src/andromede/model/resolve_library.py
+++ b/src/andromede/model/resolve_library.py
@@ -64,6 +64,7 @@ def resolve_library(
         dict((l.id, l) for l in preloaded_libs) if preloaded_libs else {}
     )
 
+    preloaded_lib_ids: Set[str] = set(output_lib_dict) - set(yaml_lib_dict)
     remaining_lib_ids: List[str] = list(yaml_lib_dict)
     treated_lib_ids: Set[str] = set()
     import_stack: List[str] = []
@@ -86,7 +87,9 @@ def resolve_library(
                 output_lib_dict, treated_lib_ids, cur_yaml_lib, current_lib
             )
 
-            remaining_dependencies = set(cur_yaml_lib.dependencies) - treated_lib_ids
+            remaining_dependencies = (
+                set(cur_yaml_lib.dependencies) - treated_lib_ids - preloaded_lib_ids
+            )
 
             if remaining_dependencies:
                 _add_dependencies_to_stack(import_stack, remaining_dependencies)
-- 
2.43.0


From 62ddb3098b5d41eb5eb9a6e3d8ddb0abca716766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:29 +0000
Subject: [PATCH 18/37] fix: conflicting port types of two dependencies were
 resolved in an arbitrary order

---
 src/andromede/model/resolve_library.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/andromede/model/resolve_library.py b/src/andromede/model/resolve_library.py
index 9f7e59a..576c4bb 100644
--- a/src/andromede/model/resolve_library.py
+++ b/src/andromede/model/resolve_library.py
@@ -115,7 +115,12 @@ def _add_resolved_dependent_port_types_to_current_lib(
 ) -> None:
     done_dependencies = set(cur_yaml_lib.dependencies) & treated_lib_ids
     for done_lib in done_dependencies:
-        current_lib.port_types.update(output_lib_dict[done_lib].port_types)
+        port_types = output_lib_dict[done_lib].port_types
+        for port_id in current_lib.port_types.keys() & port_types.keys():
+            # The same port type may be inherited through several dependencies
+            if current_lib.port_types[port_id] != port_types[port_id]:
+                raise Exception(f"Port(s) : {port_id} is(are) defined twice.")
+        current_lib.port_types.update(port_types)
 
 
 def _update_treated_libs_and_import_stack(
-- 
2.43.0


From 61dda1c8d05d786d520f6c1805e333a46aa2841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:16 +0000
Subject: [PATCH 19/37] fix: constraints without variables were dropped when
 merging master problems

---
 src/andromede/simulation/optimization.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 8fa8143..2a72c28 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -811,6 +811,13 @@ def fusion_problems(
         context = master.context
         objective = master.solver.Objective()
 
+        for cstr in master.solver.constraints():
+            # Also keeps constraints without any variable: they may be infeasible
+            key = f"{master.name}_{cstr.name()}"
+            root_constraints[key] = root_master.solver.Constraint(
+                cstr.Lb(), cstr.Ub(), key
+            )
+
         for var in master.solver.variables():
             # If variable not already in coupler, we add it
             # Otherwise we update its upper and lower bounds
@@ -836,14 +843,9 @@ def fusion_problems(
 
             for cstr in master.solver.constraints():
                 coeff = cstr.GetCoefficient(var)
-                # If variable present in constraint, we add the constraint to root
+                # If variable present in constraint, we add it to root's constraint
                 if coeff != 0:
-                    key = f"{master.name}_{cstr.name()}"
-                    if key not in root_constraints:
-                        root_constraints[key] = root_master.solver.Constraint(
-                            cstr.Lb(), cstr.Ub(), key
-                        )
-                    root_cstr = root_constraints[key]
+                    root_cstr = root_constraints[f"{master.name}_{cstr.name()}"]
                     root_cstr.SetCoefficient(root_var, coeff)
 
             obj_coeff = objective.GetCoefficient(var)
-- 
2.43.0


From e1c9b738a09a87fe692fdf677e144405c86a2867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:16 +0000
Subject: [PATCH 20/37] fix: the predecessor of the first hour was not the last
 hour of its period

---
 .../input_converter/src/data_preprocessing/thermal.py         | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/andromede/input_converter/src/data_preprocessing/thermal.py b/src/andromede/input_converter/src/data_preprocessing/thermal.py
index d2be8aa..38e6e5f 100644
--- a/src/andromede/input_converter/src/data_preprocessing/thermal.py
+++ b/src/andromede/input_converter/src/data_preprocessing/thermal.py
@@ -79,9 +79,7 @@ class ThermalDataPreprocessing:
             indices // period
         ) * period
 
-        previous_indices = np.where(
-            indices == 0, 0, np.minimum(previous_indices, max_valid_index)
-        )
+        previous_indices = np.minimum(previous_indices, max_valid_index)
         variation = pd.DataFrame()
         if direction == Direction.BACKWARD:
             variation = nb_units_max.reset_index(drop=True) - nb_units_max.iloc[
-- 
2.43.0


From b2f341e28bf626f82574f7798423754d4b8ac03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:16 +0000
Subject: [PATCH 21/37] fix: thermal variations were computed with a null
 period by default

---
 src/andromede/input_converter/src/data_preprocessing/thermal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/input_converter/src/data_preprocessing/thermal.py b/src/andromede/input_converter/src/data_preprocessing/thermal.py
index 38e6e5f..693e9e8 100644
--- a/src/andromede/input_converter/src/data_preprocessing/thermal.py
+++ b/src/andromede/input_converter/src/data_preprocessing/thermal.py
@@ -101,7 +101,7 @@ class ThermalDataPreprocessing:
         return self.series_path / Path(f"{component_id}").with_suffix(suffix)
 
     def generate_component_parameter(
-        self, parameter_id: str, period: int = 0
+        self, parameter_id: str, period: int = DEFAULT_PERIOD
     ) -> InputComponentParameter:
         if parameter_id not in self._prepro_parameter_functions:
             raise ValueError(f"Unsupported parameter_id: {parameter_id}")
-- 
2.43.0


From e77a0276fb84bd6a1e91caf8318c2ab56b1310b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:36 +0000
Subject: [PATCH 22/37] fix: the first area without a battery hid the batteries
 of the next areas

---
 .../input_converter/src/converter.py          | 63 +++++++++----------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/src/andromede/input_converter/src/converter.py b/src/andromede/input_converter/src/converter.py
index 5a9ca67..74e4d7b 100644
--- a/src/andromede/input_converter/src/converter.py
+++ b/src/andromede/input_converter/src/converter.py
@@ -615,40 +615,39 @@ class AntaresStudyConverter:
         self.logger.info("Converting binding constraints to component list...")
 
         bc_data = read_yaml_file(BC_CONFIG_PATH).get("template")
-        try:
-            for area in valid_areas.values():
-                data_with_area: dict = self._match_area_pattern(bc_data, area.id)
-                bcp = BindingConstraintsPreprocessing(self.study)
-
-                components.append(
-                    InputComponent(
-                        id=data_with_area["component"]["id"],
-                        model=data_with_area["model"],
-                        parameters=[
-                            InputComponentParameter(
-                                id=str(param.get("id")),
-                                time_dependent=bool(param.get("time-dependent")),
-                                scenario_dependent=bool(
-                                    param.get("scenario-dependent")
-                                ),
-                                value=bcp.convert_param_value(
-                                    param.get("id"), param.get("value")
-                                ),
-                            )
-                            for param in data_with_area["component"]["parameters"]
-                        ],
-                    )
+        for area in valid_areas.values():
+            data_with_area: dict = self._match_area_pattern(bc_data, area.id)
+            bcp = BindingConstraintsPreprocessing(self.study)
+
+            try:
+                component = InputComponent(
+                    id=data_with_area["component"]["id"],
+                    model=data_with_area["model"],
+                    parameters=[
+                        InputComponentParameter(
+                            id=str(param.get("id")),
+                            time_dependent=bool(param.get("time-dependent")),
+                            scenario_dependent=bool(param.get("scenario-dependent")),
+                            value=bcp.convert_param_value(
+                                param.get("id"), param.get("value")
+                            ),
+                        )
+                        for param in data_with_area["component"]["parameters"]
+                    ],
                 )
-                connections.append(
-                    InputPortConnections(
-                        component1=data_with_area["component"]["id"],
-                        port1="injection_port",
-                        component2=area.id,
-                        port2="balance_port",
-                    )
+            except (KeyError, FileNotFoundError):
+                # This area does not define all the objects of the model
+                continue
+
+            components.append(component)
+            connections.append(
+                InputPortConnections(
+                    component1=data_with_area["component"]["id"],
+                    port1="injection_port",
+                    component2=area.id,
+                    port2="balance_port",
                 )
-        except (KeyError, FileNotFoundError) as e:
-            return components, connections
+            )
 
         return components, connections
 
-- 
2.43.0


From 3637535997c27771610dd3d6717169d11df53793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:36 +0000
Subject: [PATCH 23/37] fix: inactive PyPSA stores and storage units were
 converted as active ones

---
 src/andromede/pypsa_converter/pypsa_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/andromede/pypsa_converter/pypsa_converter.py b/src/andromede/pypsa_converter/pypsa_converter.py
index 4e97462..5bfa718 100644
--- a/src/andromede/pypsa_converter/pypsa_converter.py
+++ b/src/andromede/pypsa_converter/pypsa_converter.py
@@ -112,7 +112,7 @@ class PyPSAStudyConverter:
         if not (all((self.pypsa_network.links["active"] == 1))):
             raise ValueError(f"Converter supports only Links with active = 1")
         ### PyPSA components : Storage Units
-        if not (all((self.pypsa_network.links["active"] == 1))):
+        if not (all((self.pypsa_network.storage_units["active"] == 1))):
             raise ValueError(f"Converter supports only Storage Units with active = 1")
         if not (all((self.pypsa_network.storage_units["sign"] == 1))):
             raise ValueError(f"Converter supports only Storage Units with sign = 1")
@@ -125,7 +125,7 @@ class PyPSAStudyConverter:
         ):
             raise ValueError(f"Converter supports only Storage Units with linear cost")
         ### PyPSA components : Stores
-        if not (all((self.pypsa_network.links["active"] == 1))):
+        if not (all((self.pypsa_network.stores["active"] == 1))):
             raise ValueError(f"Converter supports only Stores with active = 1")
         if not (all((self.pypsa_network.stores["sign"] == 1))):
             raise ValueError(f"Converter supports only Stores with sign = 1")
-- 
2.43.0


From a448c4546f031add4e990f7f301480f250192c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:17 +0000
Subject: [PATCH 24/37] fix: minimal thermal generation merged all scenarios
 into one

---
 .../input_converter/src/data_preprocessing/thermal.py       | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/andromede/input_converter/src/data_preprocessing/thermal.py b/src/andromede/input_converter/src/data_preprocessing/thermal.py
index 693e9e8..d94a7bd 100644
--- a/src/andromede/input_converter/src/data_preprocessing/thermal.py
+++ b/src/andromede/input_converter/src/data_preprocessing/thermal.py
@@ -49,10 +49,8 @@ class ThermalDataPreprocessing:
         nominal_capacity: float = self.thermal.properties.nominal_capacity
         scaled_modulation: pd.Series = modulation_data * nominal_capacity * unit_count
         #  min(min_gen_modulation * unit_count * nominal_capacity, p_max_cluster)
-        min_values: pd.Series = pd.concat([scaled_modulation, series_data], axis=1).min(
-            axis=1
-        )
-        return min_values.to_frame(name="p_min_cluster")
+        # for each scenario, i.e. each column of the series
+        return series_data.astype(float).clip(upper=scaled_modulation, axis=0)
 
     def _compute_nb_units_min(self) -> pd.DataFrame:
         p_min_cluster: pd.DataFrame = self._compute_p_min_cluster()
-- 
2.43.0


From 1cffa9703a12cebf59956d1064c10f0d175fcf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:51 +0000
Subject: [PATCH 25/37] fix: multiplications and divisions in time shifts were
 not left-associative

---
 src/andromede/expression/parsing/parse_expression.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/andromede/expression/parsing/parse_expression.py b/src/andromede/expression/parsing/parse_expression.py
index def6d2f..111b5f7 100644
--- a/src/andromede/expression/parsing/parse_expression.py
+++ b/src/andromede/expression/parsing/parse_expression.py
@@ -208,8 +208,16 @@ class ExpressionNodeBuilderVisitor(ExprVisitor):
     # Visit a parse tree produced by ExprParser#shiftMuldiv.
     def visitShiftMuldiv(self, ctx: ExprParser.ShiftMuldivContext) -> ExpressionNode:
         left = ctx.shift_expr().accept(self)  # type: ignore
-        right = ctx.right_expr().accept(self)  # type: ignore
-        op = ctx.op.text  # type: ignore
+        return self._left_muldiv(left, ctx.op.text, ctx.right_expr())  # type: ignore
+
+    def _left_muldiv(
+        self, left: ExpressionNode, op: str, right_ctx: ExprParser.Right_exprContext
+    ) -> ExpressionNode:
+        # The grammar groups "b * c" in "a / b * c", we need "(a / b) * c"
+        if isinstance(right_ctx, ExprParser.RightMuldivContext):
+            left = self._left_muldiv(left, op, right_ctx.right_expr(0))  # type: ignore
+            return self._left_muldiv(left, right_ctx.op.text, right_ctx.right_expr(1))  # type: ignore
+        right = right_ctx.accept(self)  # type: ignore
         if op == "*":
             return left * right
         elif op == "/":
-- 
2.43.0


From ef1461ae7216d54271048bf5fc1c2ae8678e731c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:03 +0000
Subject: [PATCH 26/37] fix: missing values of series were read as NaN

---
 src/andromede/study/data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/andromede/study/data.py b/src/andromede/study/data.py
index b1eb983..dec25ea 100644
--- a/src/andromede/study/data.py
+++ b/src/andromede/study/data.py
@@ -139,13 +139,17 @@ def load_ts_from_txt(
         timeseries_with_extension = timeseries_name + ".txt"
         ts_path = path_to_file / timeseries_with_extension
     try:
-        return pd.read_csv(ts_path, header=None, sep=r"\s+")
+        ts_dataframe = pd.read_csv(ts_path, header=None, sep=r"\s+")
 
     except FileNotFoundError:
         raise FileNotFoundError(f"File '{timeseries_name}' does not exist")
     except Exception:
         raise Exception(f"An error has arrived when processing '{ts_path}'")
 
+    if ts_dataframe.isna().any(axis=None):
+        raise ValueError(f"Some values are missing in '{ts_path}'")
+    return ts_dataframe
+
 
 def dataframe_to_time_series(ts_dataframe: pd.DataFrame) -> Dict[TimeIndex, float]:
     if ts_dataframe.shape[1] != 1:
-- 
2.43.0


From 2db00117e593a3a514f5b791958735142cebf506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:23 +0000
Subject: [PATCH 27/37] fix: port types defined twice in a library silently
 replaced each other

---
 src/andromede/model/resolve_library.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/andromede/model/resolve_library.py b/src/andromede/model/resolve_library.py
index 576c4bb..5b83ab1 100644
--- a/src/andromede/model/resolve_library.py
+++ b/src/andromede/model/resolve_library.py
@@ -139,6 +139,10 @@ def _resolve_lib(
         raise Exception(
             f"Port(s) : {str(current_lib.port_types.keys() & port_types_dict.keys())} is(are) defined twice."
         )
+    port_type_ids = [p.id for p in port_types]
+    for id in port_type_ids:
+        if port_type_ids.count(id) > 1:
+            raise Exception(f"Port type {id} is defined twice")
     current_lib.port_types.update(port_types_dict)
 
     cur_yaml_lib_model_ids = [model.id for model in cur_yaml_lib.models]
-- 
2.43.0


From 921352e1840c5303af32dd227ea73884b7728dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:40 +0000
Subject: [PATCH 28/37] fix: objects of a model with the same name silently
 replaced each other

---
 src/andromede/model/model.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/andromede/model/model.py b/src/andromede/model/model.py
index ff6b7ba..0e8d3e0 100644
--- a/src/andromede/model/model.py
+++ b/src/andromede/model/model.py
@@ -17,7 +17,7 @@ defining parameters, variables, and equations.
 """
 import itertools
 from dataclasses import dataclass, field, replace
-from typing import Any, Dict, Iterable, Optional
+from typing import Any, Dict, Iterable, List, Optional
 
 from andromede.expression import ExpressionNode
 from andromede.expression.degree import is_linear
@@ -166,6 +166,14 @@ class Model:
         )
 
 
+def _check_unique_names(kind: str, names: List[str]) -> None:
+    for name in names:
+        if names.count(name) > 1:
+            raise ValueError(
+                f"2 {kind} have the same name inside the model, it's not authorized : {name}"
+            )
+
+
 def model(
     id: str,
     constraints: Optional[Iterable[Constraint]] = None,
@@ -191,19 +199,27 @@ def model(
                 raise ValueError(
                     f"2 ports have the same name inside the model, it's not authorized : {port_name}"
                 )
+    constraints = list(constraints or [])
+    binding_constraints = list(binding_constraints or [])
+    parameters = list(parameters or [])
+    variables = list(variables or [])
+    port_fields_definitions = list(port_fields_definitions or [])
+    _check_unique_names("constraints", [c.name for c in constraints])
+    _check_unique_names("binding constraints", [c.name for c in binding_constraints])
+    _check_unique_names("parameters", [p.name for p in parameters])
+    _check_unique_names("variables", [v.name for v in variables])
+    _check_unique_names(
+        "port field definitions", [str(d.port_field) for d in port_fields_definitions]
+    )
     return Model(
         id=id,
-        constraints={c.name: c for c in constraints} if constraints else {},
-        binding_constraints={c.name: c for c in binding_constraints}
-        if binding_constraints
-        else {},
-        parameters={p.name: p for p in parameters} if parameters else {},
-        variables={v.name: v for v in variables} if variables else {},
+        constraints={c.name: c for c in constraints},
+        binding_constraints={c.name: c for c in binding_constraints},
+        parameters={p.name: p for p in parameters},
+        variables={v.name: v for v in variables},
         objective_operational_contribution=objective_operational_contribution,
         objective_investment_contribution=objective_investment_contribution,
         inter_block_dyn=inter_block_dyn,
         ports=existing_port_names,
-        port_fields_definitions={d.port_field: d for d in port_fields_definitions}
-        if port_fields_definitions
-        else {},
+        port_fields_definitions={d.port_field: d for d in port_fields_definitions},
     )
-- 
2.43.0


From 7e0610f80479926b1a8ce9bef36e76e1822aa15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:45 +0000
Subject: [PATCH 29/37] fix: the structure file gave columns which are not
 those of the exported problems

---
 .../simulation/benders_decomposed.py          | 34 +++++++++++++++++--
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/andromede/simulation/benders_decomposed.py b/src/andromede/simulation/benders_decomposed.py
index 69af497..f408d8a 100644
--- a/src/andromede/simulation/benders_decomposed.py
+++ b/src/andromede/simulation/benders_decomposed.py
@@ -18,6 +18,8 @@ with Benders solver related functions
 import pathlib
 from typing import Any, Dict, List, Optional
 
+from ortools.linear_solver import linear_solver_pb2
+
 from andromede.simulation.decision_tree import DecisionTreeNode
 from andromede.simulation.optimization import (
     BlockBorderManagement,
@@ -41,6 +43,30 @@ from andromede.study.data import DataBase
 from andromede.utils import read_json, serialize, serialize_json
 
 
+def _get_exported_column_ids(problem: OptimizationProblem) -> Dict[str, int]:
+    """
+    Column of each variable in the exported MPS file, where the integer variables
+    come first and the ones without any coefficient have no column (they are put last)
+    """
+    proto = linear_solver_pb2.MPModelProto()
+    problem.solver.ExportModelToProto(proto)
+
+    in_constraints = {
+        var_id
+        for constraint in proto.constraint
+        for var_id, coeff in zip(constraint.var_index, constraint.coefficient)
+        if coeff != 0
+    }
+    ordered = sorted(
+        enumerate(proto.variable),
+        key=lambda item: (
+            item[0] not in in_constraints and item[1].objective_coefficient == 0,
+            not item[1].is_integer,
+        ),
+    )
+    return {variable.name: column for column, (_, variable) in enumerate(ordered)}
+
+
 class BendersDecomposedProblem:
     """
     A simpler interface for the Benders Decomposed problem
@@ -88,21 +114,23 @@ class BendersDecomposedProblem:
         candidates = set()
 
         problem_to_candidates["master"] = {}
+        column_ids = _get_exported_column_ids(self.master)
         for solver_var_info in self.master.context._solver_variables.values():
-            problem_to_candidates["master"][
+            problem_to_candidates["master"][solver_var_info.name] = column_ids[
                 solver_var_info.name
-            ] = solver_var_info.column_id
+            ]
             candidates.add(solver_var_info.name)
 
         for problem in self.subproblems:
             problem_to_candidates[problem.name] = {}
+            column_ids = _get_exported_column_ids(problem)
 
             for solver_var_info in problem.context._solver_variables.values():
                 if solver_var_info.name in candidates:
                     # If candidate was identified in master
                     problem_to_candidates[problem.name][
                         solver_var_info.name
-                    ] = solver_var_info.column_id
+                    ] = column_ids[solver_var_info.name]
 
         structure_str = ""
         for problem_name, candidate_to_index in problem_to_candidates.items():
-- 
2.43.0


From 5007fc641d1f721483b6efdd79817002838a6318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:19 +0000
Subject: [PATCH 30/37] fix: dispatch of PyPSA storage units was not limited by
 their capacity

---
 src/andromede/libs/pypsa_models/pypsa_models.yml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/libs/pypsa_models/pypsa_models.yml b/src/andromede/libs/pypsa_models/pypsa_models.yml
index 1909a1a..aa09f12 100644
--- a/src/andromede/libs/pypsa_models/pypsa_models.yml
+++ b/src/andromede/libs/pypsa_models/pypsa_models.yml
@@ -376,7 +376,7 @@ library:
         - id: p_store_upper
           expression: p_store <= p_max_pu * p_nom
         - id: p_dispatch_upper
-          expression: p_store <= p_max_pu * p_nom
+          expression: p_dispatch <= p_max_pu * p_nom
         - id: state_of_charge_upper
           expression: state_of_charge <= max_hours * p_nom
         - id: state_of_charge_balance
-- 
2.43.0


From 8a93fb10dbdbc524138fa85a98669f18cace69b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:19 +0000
Subject: [PATCH 31/37] fix: storing power of PyPSA storage units was limited
 by p_max_pu instead of p_min_pu

---
 src/andromede/libs/pypsa_models/pypsa_models.yml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/andromede/libs/pypsa_models/pypsa_models.yml b/src/andromede/libs/pypsa_models/pypsa_models.yml
index aa09f12..b0a7f5d 100644
--- a/src/andromede/libs/pypsa_models/pypsa_models.yml
+++ b/src/andromede/libs/pypsa_models/pypsa_models.yml
@@ -351,7 +351,7 @@ library:
           upper-bound: p_nom_max
         - id: p_store
           lower-bound: 0
-          upper-bound: p_max_pu * p_nom_max
+          upper-bound: -p_min_pu * p_nom_max
         - id: p_dispatch
           lower-bound: 0
           upper-bound: p_max_pu * p_nom_max
@@ -374,7 +374,7 @@ library:
           definition: emission_factor * 0 #Since we assume here cyclity of StorageUnits. In the future, for non-cyclic Store: (e[-1] - e[T-1])*emission_factor
       constraints:
         - id: p_store_upper
-          expression: p_store <= p_max_pu * p_nom
+          expression: p_store <= -p_min_pu * p_nom
         - id: p_dispatch_upper
           expression: p_dispatch <= p_max_pu * p_nom
         - id: state_of_charge_upper
-- 
2.43.0


From 15df36c6b2e3c3d72a966faa045c71bbcc4a417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:20 +0000
Subject: [PATCH 32/37] fix: PyPSA storage units could spill more than their
 inflow

---
 src/andromede/libs/pypsa_models/pypsa_models.yml | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/andromede/libs/pypsa_models/pypsa_models.yml b/src/andromede/libs/pypsa_models/pypsa_models.yml
index b0a7f5d..4711cfe 100644
--- a/src/andromede/libs/pypsa_models/pypsa_models.yml
+++ b/src/andromede/libs/pypsa_models/pypsa_models.yml
@@ -360,6 +360,7 @@ library:
           upper-bound: max_hours * p_nom_max
         - id: spill
           lower-bound: 0
+          upper-bound: inflow
       ports:
         - id: p_balance_port
           type: flow
-- 
2.43.0


From 6944575da2932f903ee5e760dbae9d9a3275bb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:51 +0000
Subject: [PATCH 33/37] fix: PyPSA components of undeclared carriers got NaN
 emissions

---
 src/andromede/pypsa_converter/pypsa_converter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/andromede/pypsa_converter/pypsa_converter.py b/src/andromede/pypsa_converter/pypsa_converter.py
index 5bfa718..8e9043d 100644
--- a/src/andromede/pypsa_converter/pypsa_converter.py
+++ b/src/andromede/pypsa_converter/pypsa_converter.py
@@ -199,6 +199,8 @@ class PyPSAStudyConverter:
             ),
         )
         df = getattr(self.pypsa_network, component_type)
+        ### Carriers which are not declared in the network do not emit
+        df["co2_emissions"] = df["co2_emissions"].fillna(0.0)
         ### Adding min and max capacities to non-extendable objects
         for field in [capa_str + "_min", capa_str + "_max"]:
             df.loc[df[capa_str + "_extendable"] == False, field] = df[capa_str]
-- 
2.43.0


From dd28b904bea9f738344095c391d49d69416f6030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:51 +0000
Subject: [PATCH 34/37] fix: PyPSA lines, transformers and committable links
 were silently dropped or converted differently

---
 src/andromede/pypsa_converter/pypsa_converter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/andromede/pypsa_converter/pypsa_converter.py b/src/andromede/pypsa_converter/pypsa_converter.py
index 8e9043d..59ea550 100644
--- a/src/andromede/pypsa_converter/pypsa_converter.py
+++ b/src/andromede/pypsa_converter/pypsa_converter.py
@@ -111,6 +111,15 @@ class PyPSAStudyConverter:
         ### PyPSA components : Links
         if not (all((self.pypsa_network.links["active"] == 1))):
             raise ValueError(f"Converter supports only Links with active = 1")
+        if not (all((self.pypsa_network.links["marginal_cost_quadratic"] == 0))):
+            raise ValueError(f"Converter supports only Links with linear cost")
+        if not (all((self.pypsa_network.links["committable"] == False))):
+            raise ValueError(f"Converter supports only Links with commitable = False")
+        ### PyPSA components : Lines and Transformers
+        if len(self.pypsa_network.lines) > 0:
+            raise ValueError(f"Converter does not support Lines")
+        if len(self.pypsa_network.transformers) > 0:
+            raise ValueError(f"Converter does not support Transformers")
         ### PyPSA components : Storage Units
         if not (all((self.pypsa_network.storage_units["active"] == 1))):
             raise ValueError(f"Converter supports only Storage Units with active = 1")
-- 
2.43.0


From 7175ead750fd1ff2015877be2d8cd31311f1c1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:45 +0000
Subject: [PATCH 35/37] fix: a run without merging after a merged one read its
 solution as merged

---
 src/andromede/simulation/benders_decomposed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/simulation/benders_decomposed.py b/src/andromede/simulation/benders_decomposed.py
index f408d8a..f8051b1 100644
--- a/src/andromede/simulation/benders_decomposed.py
+++ b/src/andromede/simulation/benders_decomposed.py
@@ -230,10 +230,10 @@ class BendersDecomposedProblem:
             solver_name=solver_name, log_level=log_level, is_debug=show_debug
         )
 
+        self.is_merged = should_merge
         if not should_merge:
             return_code = BendersRunner(self.emplacement).run()
         else:
-            self.is_merged = True
             return_code = MergeMPSRunner(self.emplacement).run()
 
         if return_code == 0:
-- 
2.43.0


From a3eb2664b708dac4acf7420c4ecc23bf6dbc6e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:09 +0000
Subject: [PATCH 36/37] fix: the converter's command line ignored the output
 path

---
 src/andromede/input_converter/src/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/andromede/input_converter/src/main.py b/src/andromede/input_converter/src/main.py
index 684c748..c8c9e5d 100644
--- a/src/andromede/input_converter/src/main.py
+++ b/src/andromede/input_converter/src/main.py
@@ -153,7 +153,10 @@ if __name__ == "__main__":
     if args.output_path:
         config_parser.set("study", "output_path", str(args.output_path))
 
+    output_path = config_parser["study"].get("output_path")
     converter = AntaresStudyConverter(
-        study_input=Path(config_parser["study"].get("study_path")), logger=logger
+        study_input=Path(config_parser["study"].get("study_path")),
+        logger=logger,
+        output_path=Path(output_path) / "output.yaml" if output_path else None,
     )
     converter.process_all()
-- 
2.43.0


From 96a479c99923dfd836662f3809d031b2ceda9ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:12 +0000
Subject: [PATCH 37/37] fix: names of 50 characters ran into each other in the
 Benders structure file

---
 src/andromede/simulation/benders_decomposed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/simulation/benders_decomposed.py b/src/andromede/simulation/benders_decomposed.py
index f8051b1..b9d0632 100644
--- a/src/andromede/simulation/benders_decomposed.py
+++ b/src/andromede/simulation/benders_decomposed.py
@@ -135,7 +135,7 @@ class BendersDecomposedProblem:
         structure_str = ""
         for problem_name, candidate_to_index in problem_to_candidates.items():
             for candidate, index in candidate_to_index.items():
-                structure_str += f"{problem_name:>50}{candidate:>50}{index:>10}\n"
+                structure_str += f"{problem_name:>50} {candidate:>49} {index:>9}\n"
 
         return structure_str
 
-- 
2.43.0

