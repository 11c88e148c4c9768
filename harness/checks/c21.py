def run(c):
    k = {'Secrets': '{1, 2}', 'Digests': '{1, 2}', 'Chains': '{"mainnet", "testnet", "regtest"}', 'MaxOps': 6 if c.thorough else 5, 'Broken': '"no"'}
    c.mc('KeyDesign', constants=k, invariants=['Sound', 'TextBack'])
    for b, i in (('infinity', 'Sound'), ('digest', 'Sound'), ('anychain', 'TextBack')):
        c.mc('KeyDesign', constants=dict(k, MaxOps=4, Broken='"%s"' % b), invariants=[i], broken=i)
    c.mc('EcToy', constants={'Broken': '"no"'}, invariants=['Order', 'Complete', 'NoInfinity'])
    c.mc('EcToy', constants={'Broken': '"infinity"'}, invariants=['NoInfinity'], broken='NoInfinity')
    progs = c.gen('KeyDesign', constants=dict(k, MaxOps=5 if c.thorough else 4, Chains='{"mainnet", "testnet"}'), invariants=['Emit'])
    if not c.thorough:
        n = max(1, len(progs) // 400)
        progs = progs[c.seed % n::n]
    c.validate('KeyTrace', c.drive('drv_key', progs))
