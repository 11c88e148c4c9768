def run(c):
    full = '{0, 79, 81, 99, 100, 103, 104, 105, 106, 107, 108, 117, 118, 126, 147}'
    few = '{0, 81, 99, 100, 103, 104, 117, 126}'
    st = '{1, 2}'
    inv = ['BigStep', 'StraightLine', 'NeverDisabled', 'Balanced', 'Bounded']
    k = {'Alphabet': few, 'MaxLen': 6 if c.thorough else 5, 'Stacks': st, 'Broken': '"no"'}
    c.mc('EvalDesign', constants=dict(k, Alphabet=full, MaxLen=4 if c.thorough else 3), invariants=inv, properties=['Forward'])
    c.mc('EvalDesign', constants=dict(k, Stacks='{3}'), invariants=inv, properties=['Forward'])
    k['MaxLen'] = 4
    c.mc('EvalDesign', constants=dict(k, Broken='"lazy"'), invariants=['NeverDisabled'], broken='NeverDisabled')
    c.mc('EvalDesign', constants=dict(k, Broken='"leak"', Alphabet='{0, 99, 104}'), invariants=['StraightLine'], broken='StraightLine')
    c.mc('EvalDesign', constants=dict(k, Broken='"else"', MaxLen=5, Alphabet='{0, 81, 99, 103, 104}'), invariants=['BigStep'], broken='BigStep')
    progs = c.gen('EvalDesign', constants=dict(k, Alphabet=full, MaxLen=3), invariants=['Emit'])
    progs += c.gen('EvalDesign', constants=dict(k, MaxLen=5 if c.thorough else 4, Stacks='{3}'), invariants=['Emit'])
    c.validate('ScriptTrace', c.drive('drv_eval', [progs[i:i + 100] for i in range(0, len(progs), 100)]))
