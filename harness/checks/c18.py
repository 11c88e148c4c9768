def run(c):
    k = {'MaxMsgs': 3 if c.thorough else 2, 'MaxBody': 2, 'Broken': '"no"'}
    inv = ['Faithful', 'CleanDecodes', 'Sync']
    c.mc('MsgDesign', constants=k, invariants=inv)
    small = dict(k, MaxMsgs=2)
    for b, i in (('nocheck', 'Faithful'), ('short', 'Sync'), ('short', 'CleanDecodes')):
        c.mc('MsgDesign', constants=dict(small, Broken='"%s"' % b), invariants=[i], broken=i)
    c.mc('MsgDesign', constants=small, invariants=['Notices'])
    c.mc('MsgDesign', constants=dict(small, Broken='"magic"'), invariants=['Notices'], broken='Notices')
    progs = c.gen('MsgDesign', constants=small, invariants=['Emit'])
    if not c.thorough:
        progs = progs[c.seed % 3::3]
    flat = [o for p in progs for o in p]
    c.validate('MsgTrace', c.drive('drv_msg', [flat[i:i + 4] for i in range(0, len(flat), 4)]))
