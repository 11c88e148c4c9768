def run(c):
    mmr = {'Kind': '"mmr"', 'Depth': 2, 'Values': '{0, 1}', 'Lengths': '{0, 1, 2, 3}' if c.thorough else '{1, 2, 3}', 'Committed': 'TRUE'}
    mp = {'Kind': '"map"', 'Depth': 2, 'Values': '{0, 1}' if c.thorough else '{1}', 'Lengths': '{}', 'Committed': 'TRUE'}
    inv = ['NoContradiction', 'LengthAgrees']
    c.mc('ForgeDesign', constants=mmr, invariants=inv)
    c.mc('ForgeDesign', constants=mp, invariants=inv)
    c.mc('ForgeDesign', constants=dict(mmr, Depth=1, Committed='FALSE'), invariants=inv, broken='NoContradiction')
    c.mc('ForgeDesign', constants=dict(mp, Depth=1, Committed='FALSE'), invariants=inv, broken='NoContradiction')
    progs = c.gen('ForgeDesign', constants=dict(mmr, Depth=1), invariants=['Emit'])
    progs += c.gen('ForgeDesign', constants=dict(mp, Depth=1), invariants=['Emit'])
    c.validate('ForgeTrace', c.drive('drv_forge', progs))
