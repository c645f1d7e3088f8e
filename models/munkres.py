"""Over-approximating model: any assignment of rows to distinct columns that
avoids forbidden (infinite) entries."""


class Munkres(object):
    def compute(self, cost_matrix):
        out = []
        used = []
        for r in range(len(cost_matrix)):
            row = cost_matrix[r]
            free = [c for c in range(len(row)) if c not in used and row[c] != float('inf')]
            c = free[__nondet__(len(free))]
            used.append(c)
            out.append((r, c))
        return out
