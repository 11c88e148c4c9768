def run(c):
    k = {'Elems': '{1, 2}', 'Lens': '{0, 1, 2}', 'Hashes': 2, 'Tweaks': '{0, 1}', 'Width': 2, 'Range': 4, 'MaxOps': 4 if c.thorough else 3, 'Broken': '"no"'}
    if not c.thorough:
        k['Tweaks'], k['Range'] = '{0, 1}', 3
    c.mc('BloomDesign', constants=k, invariants=['NoMiss', 'Exact'], properties=['Grows'])
    for b in ('trim', 'tweak', 'full'):
        c.mc('BloomDesign', constants=dict(k, Elems='{1}', Lens='{1, 3}', Tweaks='{0}' if b == 'trim' else '{0, 1}', Hashes=1 if b == 'tweak' else 2, MaxOps=3, Range=9 if b == 'trim' else 2, Broken='"%s"' % b), invariants=['NoMiss'], broken='NoMiss')
    c.mc('BloomDesign', constants=dict(k, MaxOps=3, Range=2, Broken='"anybit"'), invariants=['Exact'], broken='Exact')
    h = c.gen('BloomDesign', constants=dict(k, Hashes=1, Range=1, MaxOps=5), invariants=['Emit'])
    q = []
    for p in h[c.seed % 5::5] if c.thorough else h[c.seed % 300::300]:
        n = len([o for o in p if o['op'] in ('make', 'copy')])
        q.append(p + [{'op': 'contains', 'ref': i + 1, 'e': x} for i in range(n) for x in (1, 2)] + [{'op': 'ser', 'ref': i + 1} for i in range(n)])
    c.validate('BloomTrace', c.drive('drv_bloom', q))
