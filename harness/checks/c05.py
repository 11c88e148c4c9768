def common(c, clauses):
    c.mc('MerbinnerDesign', constants={'W': 3, 'Values': '{1, 2}'},
         invariants=['Canonical', 'LookupAgrees', 'SubsetAgrees'])
    progs = c.gen('MerbinnerGen', constants={'NKeys': 4 if c.thorough else 3, 'NVals': 2,
                                             'Depth': 4 if c.thorough else 3}, invariants=['Emit'])
    if not c.thorough:
        progs = progs[::2] if len(progs) > 1500 else progs
    keys = ['00' * 32, '00' * 31 + '01', '80' + '00' * 31, '40' + '00' * 31]
    traces = c.drive('drv_mb', progs, kind='d', keys=keys)
    c.validate('MerbinnerTrace', traces, clauses=clauses)


def run(c):
    common(c, ['map-', 'driver', 'crash'])
    c.validate('StmtTrace', c.drive('drv_stmt', only='mb'))
