"""Generic observation and single-point modification of expression objects of /repo."""
import dataclasses
import enum
import math


def raw(n):
    """complete structure of an expression (classes and all fields)"""
    if isinstance(n, list):
        return ["list"] + [raw(x) for x in n]
    if type(n).__name__ == "LiteralNode":
        return ["LiteralNode", float(n.value)]
    if dataclasses.is_dataclass(n):
        return [type(n).__name__] + [
            (f.name, raw(getattr(n, f.name))) for f in dataclasses.fields(n)
        ]
    if isinstance(n, enum.Enum):
        return str(n)
    if isinstance(n, (int, float)) and not isinstance(n, bool):
        return repr(n)
    return n


def raw_equal(a, b, abs_tol=0.0, rel_tol=0.0):
    if isinstance(a, float) and isinstance(b, float):
        return math.isclose(a, b, abs_tol=abs_tol, rel_tol=rel_tol)
    if type(a) != type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(
            raw_equal(x, y, abs_tol, rel_tol) for x, y in zip(a, b)
        )
    return a == b


def positions(n, path=()):
    """paths of all sub-expressions"""
    from andromede.expression import ExpressionNode

    if isinstance(n, ExpressionNode):
        yield path
        for f in dataclasses.fields(n):
            yield from positions(getattr(n, f.name), path + (f.name,))
    elif isinstance(n, list):
        for i, x in enumerate(n):
            yield from positions(x, path + (i,))


def replace_at(n, path, fn):
    if not path:
        return fn(n)
    k = path[0]
    if isinstance(n, list):
        return [replace_at(x, path[1:], fn) if i == k else x for i, x in enumerate(n)]
    return dataclasses.replace(n, **{k: replace_at(getattr(n, k), path[1:], fn)})


def tweak(rng, n):
    """one change of the node itself, which makes it structurally different"""
    from andromede.expression import expression as ex

    choices = [lambda: ex.NegationNode(n), lambda: ex.MultiplicationNode(n, n)]
    if not isinstance(n, ex.PortFieldNode):
        choices.append(lambda: ex.AllTimeSumNode(n))
    for f in dataclasses.fields(n):
        v = getattr(n, f.name)
        if isinstance(v, str) and f.name not in ("aggregator",):
            if isinstance(n, ex.ScenarioOperatorNode):
                new = "Variance" if v == "Expectation" else "Expectation"
            else:
                new = v + "_" if rng.random() < 0.5 else v[:-1] + "z"
            choices += [lambda f=f, new=new: dataclasses.replace(n, **{f.name: new})] * 3
        elif isinstance(v, (int, float)):
            d = rng.choice([1, -2, 0.5, 1e-9, 1e-13])
            choices += [
                lambda f=f, v=v, d=d: dataclasses.replace(n, **{f.name: v + d})
            ] * 5
        elif isinstance(v, enum.Enum):
            others = [x for x in type(v) if x != v]
            choices += [
                lambda f=f: dataclasses.replace(n, **{f.name: rng.choice(others)})
            ] * 5
        elif isinstance(v, list):
            i = rng.randrange(len(v))
            choices.append(
                lambda f=f, v=v: dataclasses.replace(n, **{f.name: v + [v[i]]})
            )
            if len(v) > 1:
                choices.append(
                    lambda f=f, v=v: dataclasses.replace(
                        n, **{f.name: v[:i] + v[i + 1 :]}
                    )
                )
                choices.append(
                    lambda f=f, v=v: dataclasses.replace(n, **{f.name: v[1:] + v[:1]})
                )
    if isinstance(n, ex.BinaryOperatorNode):
        choices += [lambda: dataclasses.replace(n, left=n.right, right=n.left)] * 3
        if not isinstance(n, ex.ComparisonNode):
            other = (
                ex.DivisionNode
                if isinstance(n, ex.MultiplicationNode)
                else ex.MultiplicationNode
            )
            choices += [lambda: other(n.left, n.right)] * 3
    if isinstance(n, ex.TimeSumNode):
        choices += [
            lambda: dataclasses.replace(n, from_time=n.to_time, to_time=n.from_time)
        ] * 3
    if isinstance(n, ex.TimeShiftNode):
        choices += [lambda: ex.TimeEvalNode(n.operand, n.time_shift)] * 3
    if isinstance(n, ex.TimeEvalNode):
        choices += [lambda: ex.TimeShiftNode(n.operand, n.eval_time)] * 3
    if isinstance(n, ex.VariableNode):
        choices += [lambda: ex.ParameterNode(n.name)] * 3
    if isinstance(n, ex.ComponentVariableNode):
        choices += [lambda: ex.ComponentParameterNode(n.component_id, n.name)] * 3
    if isinstance(n, (ex.ProblemVariableNode, ex.ProblemParameterNode)):
        t = rng.choice([ex.NoTimeIndex(), ex.TimeShift(1), ex.TimeStep(1), ex.TimeShift(0)])
        s = rng.choice(
            [ex.NoScenarioIndex(), ex.CurrentScenarioIndex(), ex.OneScenarioIndex(1)]
        )
        choices += [lambda: dataclasses.replace(n, time_index=t)] * 3
        choices += [lambda: dataclasses.replace(n, scenario_index=s)] * 3
    return rng.choice(choices)()
