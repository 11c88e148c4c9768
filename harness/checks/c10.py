def run(c):
    k = {'Outpoints': '{1, 2, 3}' if c.thorough else '{1, 2}', 'Digests': '{"a", "b"}', 'MaxIns': 2, 'MaxOuts': 2, 'FirstOutput': 'TRUE',
         'ChecksSpend': 'TRUE', 'SameTx': 'TRUE', 'MaxTxs': 3 if c.thorough else 2}
    c.mc('SealDesign', constants=k, invariants=['AtMostOne', 'OnlySpent'], properties=['NeverChanges'])
    for f in ('FirstOutput', 'ChecksSpend', 'SameTx'):
        c.mc('SealDesign', constants=dict(k, Outpoints='{1, 2}', **{f: 'FALSE'}), invariants=['AtMostOne'], broken='AtMostOne')
    progs = c.gen('SealGen', constants={'Rich': 'TRUE' if c.thorough else 'FALSE'}, invariants=['Emit'])
    c.validate('SealTrace', c.drive('drv_seal', progs, suite='seal'), clauses=['seal-', 'driver', 'crash'])
