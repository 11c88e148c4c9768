def run(c):
    c.mc('ProofDesign', constants={'MaxObjs': 7, 'MaxPrunes': 2, 'DHash': '<- ContentHash'},
         invariants=['CopiesAgree', 'ReloadShowsVisited'], properties=['CommitmentKept'])
    c.validate('SealTrace', c.drive('drv_seal', suite='tx'), clauses=['tx-', 'driver', 'crash'])
