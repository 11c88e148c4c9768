def run(c):
    c.mc('WireDesign', constants={'MaxLen': 5 if c.thorough else 4, 'MaxFields': 4 if c.thorough else 3},
         invariants=['Canonical', 'Prefix', 'FieldsInjective'])
    c.validate('SerTrace', c.drive('drv_ser'), clauses=['wire-', 'check-', 'driver', 'crash'])
