def run(c):
    types = '{"0", "1", "2", "3", "129", "130", "131", "35", "4294967294", "2147483779"}'
    k = {'MaxIns': 3 if c.thorough else 2, 'MaxOuts': 3 if c.thorough else 2, 'Types': types, 'Broken': '"no"'}
    c.mc('SigDesign', constants=k, invariants=['CommitsExactly', 'OneOrNothing'])
    for b in ('keepseq', 'scripts'):
        c.mc('SigDesign', constants=dict(k, MaxIns=2, Broken='"%s"' % b), invariants=['CommitsExactly'], broken='CommitsExactly')
    progs = c.gen('SigDesign', constants=dict(k, MaxIns=3, MaxOuts=3), invariants=['Emit'])
    n = 1 if c.thorough else 23
    c.validate('ScriptTrace', c.drive('drv_sighash', progs[c.seed % n::n]))
