def run(c):
    c.mc('BitsRep', constants={'W': 2, 'MaxLen': 6 if c.thorough else 4, 'MaxBuf': 4 if c.thorough else 3}, constraint='Bound',
         invariants=['Refines', 'LongEnough', 'EqAgrees', 'CanonAgrees'])
    progs = c.gen('BitsGen', constants={'Depth': 3 if c.thorough else 2}, invariants=['Emit'])
    traces = c.drive('drv_bits', progs)
    c.validate('BitsTrace', traces)
