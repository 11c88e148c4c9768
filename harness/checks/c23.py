def run(c):
    k = {'Proxies': '{1, 2}', 'Args': '{"a", "b"}', 'Faults': '{"ok", "late", "error", "garbled", "noresult"}', 'Shared': 'FALSE', 'MaxOps': 4, 'Broken': '"no"'}
    for s in ('FALSE', 'TRUE'):
        c.mc('RpcDesign', constants=dict(k, Shared=s, MaxOps=5 if c.thorough else 3), invariants=['Right', 'Fresh'])
    for b in ('reuse', 'noerror', 'null'):
        c.mc('RpcDesign', constants=dict(k, MaxOps=2, Broken='"%s"' % b), invariants=['Right'], broken='Right')
    c.mc('RpcDesign', constants=dict(k, MaxOps=2, Broken='"oneid"'), invariants=['Fresh'], broken='Fresh')
    # a float of Bits bits writes every amount below 2^(Bits-1) units exactly, but reading by floats truncates
    a = {'Max': 999 if c.thorough else 240, 'Coin': 100, 'Bits': 11 if c.thorough else 9, 'Read': '"exact"'}
    c.mc('AmountDesign', constants=a, invariants=['Exact'])
    c.mc('AmountDesign', constants=dict(a, Read='"float"'), invariants=['Exact'], broken='Exact')
    c.mc('AmountDesign', constants=dict(a, Bits=6), invariants=['Exact'], broken='Exact')
    h = c.gen('RpcDesign', constants=dict(k, Args='{"a"}', MaxOps=4 if c.thorough else 3), invariants=['Emit'])
    c.validate('RpcTrace', c.drive('drv_rpc', h if c.thorough else h[c.seed % 4::4]))
