"""Over-approximating model: hill climbing ends at some state reached through
successors (the number of steps is cut at two)."""
from py_search.base import SolutionNode


def hill_climbing(problem, random_restarts=0, max_sideways=0, graph=True):
    node = problem.initial
    problem.node_value(node)
    problem.goal_test(node, problem.goal)
    steps = __nondet__(3)
    for i in range(steps):
        succ = list(problem.successors(node))
        if len(succ) == 0:
            break
        node = succ[__nondet__(len(succ))]
    yield SolutionNode(node, problem.goal)
