"""Over-approximating model of py_search.base (read by the analyser only)."""


class Node(object):
    def __init__(self, state, parent=None, action=None, node_cost=0, extra=None):
        self.state = state
        self.parent = parent
        self.action = action
        self.node_cost = node_cost
        self.extra = extra

    def cost(self):
        return self.node_cost


class SolutionNode(object):
    def __init__(self, state_node, goal_node):
        self.state_node = state_node
        self.goal_node = goal_node


class Problem(object):
    def __init__(self, initial, goal=None, initial_cost=0, extra=None):
        self.initial = Node(initial, None, None, initial_cost, extra)
        self.goal = None

    def node_value(self, node):
        return node.cost()

    def goal_test(self, node, goal=None):
        return False
