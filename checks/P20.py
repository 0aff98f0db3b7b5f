from common import *

def check():
    c = Check('P20')
    build('drv_law')
    c.bounds = {'bodies': 'every subset (2..8 points) of the 2x2x2 lattice x 3 horizons x regular/irregular, 5 larger bodies',
                'fields': 'uniform fields, 3 irregular fields and every two-valued field on bodies of up to 8 points (5 for pore pressure)'}
    c.driver('drv_law', ['mode=p20', 'group=diffusion', 'infl=0'], label='heat/')
    for g in ('lps', 'thermal'):
        for q in (0, 1, 2, 3):
            c.driver('drv_law', ['mode=p20', 'group=' + g, 'infl=%d' % q], label=g + '/')
    return c.finish()

if __name__ == '__main__':
    main(check)
