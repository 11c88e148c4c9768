def run(c):
    inv = ['NothingLost', 'WitnessFilesClose', 'VerifiesRight', 'SealsDistinct']
    k = {'Depth': 5 if c.thorough else 4, 'NFirst': 2, 'TestsExist': 'TRUE'}
    c.mc('SusToolDesign', constants=k, invariants=inv)
    c.mc('SusToolDesign', constants=dict(k, Depth=3, TestsExist='FALSE'), invariants=inv, broken='NothingLost')
    progs = c.gen('SusToolDesign', constants=dict(k, Depth=4), invariants=['Emit'])
    progs = progs[c.seed % 7::7 if c.thorough else 37]
    c.validate('SusToolTrace', c.drive('drv_tool', progs))
