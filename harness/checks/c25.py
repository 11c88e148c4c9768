def run(c):
    kinds = '{"outpoint", "txin", "txout", "tx", "header", "script", "op"}'
    k = {'Kinds': kinds, 'MaxIO': 2, 'Broken': '"no"'}
    c.mc('TextDesign', constants=k, invariants=['ReadsBack'])
    for b in ('digits', 'order', 'null', 'version'):
        c.mc('TextDesign', constants=dict(k, MaxIO=1, Broken='"%s"' % b), invariants=['ReadsBack'], broken='ReadsBack')
    flat = c.gen('TextDesign', constants=k, invariants=['Emit'])
    flat = [dict(o, how=h) for o in flat for h in (0, 1)]
    progs = [flat[i:i + 60] for i in range(0, len(flat), 60)]
    c.validate('TextTrace', c.drive('drv_text', progs))
