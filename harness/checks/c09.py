def run(c):
    c.mc('WireDesign', constants={'MaxLen': 3, 'MaxFields': 4 if c.thorough else 3}, invariants=['FieldsInjective'])
    c.validate('ProofTrace', c.drive('drv_proof', suite='commit'), constants={'DHash': '<- ODataHash'},
               clauses=['commit-', 'const-', 'tag-', 'prune-make', 'driver', 'crash'])
    # hashes of the other proof classes, as decoded
    c.validate('SerTrace', c.drive('drv_ser'), clauses=['wire-dechash', 'driver', 'crash'])
