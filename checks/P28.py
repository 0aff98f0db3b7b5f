from common import *

def check():
    c = Check('P28')
    build('drv_law')
    c.bounds = {'bodies': 'every subset (2..8 points) of the 2x2x2 lattice x 3 horizons x regular/irregular, 6 larger bodies',
                'states': '8 deformations x 3 magnitudes (1e-5, 1, 2.3), every bond-damage pattern of up to 6 bonds, 5 patterns beyond, 2 temperature fields, 4 influence functions',
                'constants': 'all 6 pairs of elastic constants for every model'}
    for g in ('lps', 'thermal', 'corr', 'hypo', 'ba'):
        for q in (0, 1, 2, 3):
            c.driver('drv_law', ['mode=p28', 'group=' + g, 'infl=%d' % q], label=g + '/')
    return c.finish()

if __name__ == '__main__':
    main(check)
