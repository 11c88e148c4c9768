def run(c):
    k = {'Seals': '{1, 2, 3}', 'Keys': '{1, 2}', 'Vals': '{1, 2}', 'Tagged': 'TRUE'}
    c.mc('GuMapDesign', constants=k, invariants=['SameContents', 'OnePerSeal'], properties=['Stable'])
    c.mc('GuMapDesign', constants=dict(k, Tagged='FALSE'), invariants=['SameContents'], broken='SameContents')
    c.validate('SealTrace', c.drive('drv_seal', suite='gumap'), clauses=['gumap-', 'driver', 'crash'])
