def run(c):
    inv = ['ReadsWhatWasWritten', 'ConsumesExactly', 'FailsOnlyWhenCut']
    all_ = '{"outpoint", "txin", "txout", "tx", "header", "block", "varint", "bytes", "u256v", "intv"}'
    c.mc('NetStreamDesign', constants={'MaxObjs': 3 if c.thorough else 2, 'Types': all_, 'Broken': '"no"', 'Cuts': 'FALSE'}, invariants=inv)
    c.mc('NetStreamDesign', constants={'MaxObjs': 2, 'Types': '{"tx", "varint", "bytes", "intv"}' if not c.thorough else all_, 'Broken': '"no"', 'Cuts': 'TRUE'}, invariants=inv)
    c.mc('NetStreamDesign', constants={'MaxObjs': 2, 'Types': '{"bytes", "varint"}', 'Broken': '"nolen"', 'Cuts': 'FALSE'}, invariants=inv[:1], broken='ReadsWhatWasWritten')
    c.mc('NetStreamDesign', constants={'MaxObjs': 2, 'Types': '{"bytes", "varint"}', 'Broken': '"byte"', 'Cuts': 'FALSE'}, invariants=inv[:1], broken='ReadsWhatWasWritten')
    progs = c.gen('NetStreamDesign', constants={'MaxObjs': 2, 'Types': all_, 'Broken': '"no"', 'Cuts': 'FALSE'}, invariants=['Emit'])
    cut = c.gen('NetStreamDesign', constants={'MaxObjs': 1, 'Types': all_, 'Broken': '"no"', 'Cuts': 'TRUE'}, invariants=['Emit'])
    if not c.thorough:
        progs = progs[c.seed % 5::5]
    c.validate('NetTrace', c.drive('drv_net', progs + cut))
