from common import *

def check():
    c = Check('P21')
    build('drv_law')
    c.bounds = {'histories': 'every word of length 3 (thorough 4) over 8 deformations, on 12 bodies, every inelastic model, yielding and not yielding, state-based models also with two patterns of broken bonds, viscoelastic model with two time steps'}
    for g in ('lps', 'corr', 'hypo', 'ba'):
        for q in ((0,) if g == 'lps' else (0, 1)):
            c.driver('drv_law', ['mode=p21', 'group=' + g, 'infl=%d' % q], label=g + '/')
    c.assumptions = ['the surface correction factor of the hardening model is taken as reported',
                     'the state-based models are judged with the constant influence function',
                     'the rate-dependent limit of the viscoplastic model is only bounded by the elastic trial stress']
    return c.finish()

if __name__ == '__main__':
    main(check)
