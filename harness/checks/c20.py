def run(c):
    b = {'MaxBytes': 5 if c.thorough else 4, 'MaxChars': 5 if c.thorough else 4, 'Byte': '{0, 1, 57, 58, 255}', 'Chars': '{"1", "2", "z", "Z", "a"}', 'Broken': '"no"'}
    c.mc('Base58Design', constants=b, invariants=['BytesBack', 'TextBack'])
    for k in ('zeros', 'onezero'):
        c.mc('Base58Design', constants=dict(b, MaxBytes=3, MaxChars=2, Broken='"%s"' % k), invariants=['BytesBack'], broken='BytesBack')
    a = {'Chains': '{"mainnet", "testnet", "regtest"}', 'Hashes': '{1, 2}', 'MaxOps': 5 if c.thorough else 4, 'Broken': '"no"'}
    c.mc('AddrDesign', constants=a, invariants=['OneToOne', 'Apart', 'Verdict'])
    c.mc('AddrDesign', constants=dict(a, MaxOps=3, Broken='"shared"'), invariants=['OneToOne'], broken='OneToOne')
    c.mc('AddrDesign', constants=dict(a, MaxOps=3, Broken='"nochain"'), invariants=['Verdict'], broken='Verdict')
    progs = c.gen('Base58Design', constants=dict(b, MaxBytes=3, MaxChars=3), invariants=['Emit'])
    flat = [o for p in progs for o in p]
    progs = [flat[i:i + 100] for i in range(0, len(flat), 100)]
    h = c.gen('AddrDesign', constants=dict(a, MaxOps=4), invariants=['Emit'])
    progs += h if c.thorough else h[c.seed % 40::40]
    c.validate('AddrTrace', c.drive('drv_addr', progs))
