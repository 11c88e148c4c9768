def run(c):
    k = {'Depth': 5 if c.thorough else 4, 'Kinds': '{"op", "in", "tx"}', 'Broken': '"no"', 'Logged': 'FALSE'}
    c.mc('TxHeapDesign', constants=k, invariants=['ImmutableReachesImmutable'], properties=['NeverChanges'])
    c.mc('TxHeapDesign', constants=dict(k, Depth=3, Logged='TRUE'), invariants=['ImmutableReachesImmutable'], properties=['NeverChanges', 'CopiesEqual'])
    c.mc('TxHeapDesign', constants=dict(k, Depth=3, Broken='"share"'), invariants=['ImmutableReachesImmutable'], broken='ImmutableReachesImmutable')
    progs = c.gen('TxHeapDesign', constants=dict(k, Depth=4, Logged='TRUE'), invariants=['Emit'])
    n = 5 if c.thorough else 61
    c.validate('TxHeapTrace', c.drive('drv_txheap', progs[c.seed % n::n]))
