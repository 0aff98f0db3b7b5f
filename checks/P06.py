from common import *

def check():
    c = Check('P06')
    build('drv_mat')
    c.bounds = {'bodies': 'every subset (2..8 points) of the 2x2x2 lattice x 3 horizons x regular/irregular, 5 larger bodies',
                'states': '8 deformations, with and without temperature change, every degree of freedom'}
    for g in ('lps', 'thermal'):
        for q in (0, 1, 2, 3):
            c.driver('drv_mat', ['mode=p06', 'group=' + g, 'infl=%d' % q], label=g + '/')
    c.assumptions = ['derivative by a fourth-order difference, tolerance 1e-6 of the largest force', 'intact bonds']
    return c.finish()

if __name__ == '__main__':
    main(check)
