def run(c):
    c.mc('ProofDesign', constants={'MaxObjs': 9 if c.thorough else 8, 'MaxPrunes': 2, 'DHash': '<- ContentHash'},
         invariants=['OriginalsUntouched', 'FlagsTrue', 'CopiesAgree', 'ReloadShowsVisited', 'NotVisitedNotRevealed'],
         properties=['CommitmentKept'])
    progs = c.gen('ProofGen', constants={'Depth': 5 if c.thorough else 4}, invariants=['Emit'])
    c.validate('ProofTrace', c.drive('drv_proof', progs, suite='prune'), constants={'DHash': '<- ODataHash'},
               clauses=['prune-', 'commit-', 'wire-', 'const-', 'driver', 'crash'])
    c.validate('StmtTrace', c.drive('drv_stmt'))
