from common import *

def check():
    c = Check('P09')
    build('drv_law')
    c.bounds = {'bodies': 'every subset (2..8 points) of the 2x2x2 lattice x 3 horizons (irregular ones; regular too in the thorough tier), chain, plane patch, 3x2x2 body',
                'states': '8 deformations, virgin and pre-loaded, every bond-damage pattern of up to 6 bonds on bodies of at most 3 points',
                'entries': 'every entry of the full and of the block-diagonal tangent'}
    for g in ('lps', 'thermal', 'corr'):
        for q in ((0, 1, 2, 3) if THOROUGH else (0, 2)):
            c.driver('drv_law', ['mode=p09', 'group=' + g, 'infl=%d' % q], label=g + '/')
    c.assumptions = ['states at which the force has a kink within the differencing length have no tangent and are skipped (counted as kinks)',
                     'models that couple more than one neighborhood (hypoelastic, bond-associated) and the four-unknown porous model are not judged']
    return c.finish()

if __name__ == '__main__':
    main(check)
