def run(c):
    k = {'MaxIns': 3 if c.thorough else 2, 'MaxOuts': 3, 'Values': '{0, 1, 2, 3, 4, 5, 6}', 'Lens': '{1, 2, 100, 101}', 'Broken': '"no"'}
    c.mc('RulesDesign', constants=k, invariants=['RightVerdict'], properties=['Decides'])
    small = dict(k, MaxIns=2, MaxOuts=2, Lens='{2}')
    for b in ('nosum', 'first'):
        c.mc('RulesDesign', constants=dict(small, Broken='"%s"' % b), invariants=['RightVerdict'], broken='RightVerdict')
    m = {'MaxLen': 6 if c.thorough else 5, 'Ids': '{1, 2, 3, 4, 5}' if c.thorough else '{1, 2, 3, 4}', 'Unique': 'TRUE'}
    c.mc('MerkleDesign', constants=dict(m, MaxLen=4), invariants=['Distinguished', 'Shape'])
    c.mc('MerkleDesign', constants=dict(m, MaxLen=4, Ids='{1, 2, 3}', Unique='FALSE'), invariants=['Distinguished'], broken='Distinguished')
    progs = c.gen('RulesDesign', constants=dict(k, MaxIns=2, MaxOuts=2, Lens='{1, 2, 101}' if not c.thorough else '{1, 2, 100, 101}'), invariants=['Emit'])
    flat = [o for p in progs for o in p]
    c.validate('RulesTrace', c.drive('drv_rules', [flat[i:i + 100] for i in range(0, len(flat), 100)]))
