def run(c):
    a = '{0, 1, 2, 75, 76, 77, 78, 79, 81, 96, 106, 171, 172, 174}'
    k = {'Alphabet': a, 'MaxLen': 5 if c.thorough else 4, 'Broken': '"no"'}
    inv = ['Partition', 'SameItems', 'NoSeparators']
    c.mc('ScriptParseDesign', constants=k, invariants=inv, properties=['Stable'])
    c.mc('ScriptParseDesign', constants=dict(k, MaxLen=2, Broken='"lax"'), invariants=['Partition'], broken='Partition')
    progs = c.gen('ScriptParseDesign', constants=dict(k, MaxLen=4 if c.thorough else 3), invariants=['Emit'])
    flat = [o for p in progs for o in p]
    c.validate('ScriptTrace', c.drive('drv_script', [flat[i:i + 100] for i in range(0, len(flat), 100)]))
