def common(c, clauses):
    c.mc('MMRDesign', constants={'MaxLen': 24 if c.thorough else 13, 'MaxCuts': 3 if c.thorough else 2},
         invariants=['Canonical', 'HoldsList', 'IndexAgrees'], properties=['MountainsStay'])
    progs = c.gen('MMRGen', constants={'MaxStart': 9, 'Depth': 2 if c.thorough else 1}, invariants=['Emit'])
    traces = c.drive('drv_mmr', progs)
    c.validate('MMRTrace', traces, clauses=clauses)


def run(c):
    common(c, ['list-', 'crash'])
    c.validate('StmtTrace', c.drive('drv_stmt', only='mmr'))
