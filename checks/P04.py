from common import *

def check():
    c = Check('P04')
    build('drv_mat')
    c.bounds = {'bodies': 'every subset (2..8 points) of the 2x2x2 lattice x 3 horizons x regular/irregular, 5 larger bodies',
                'states': '8 deformations, every single-axis shift of every subset of small bodies, 3-step histories',
                'damage': 'every pattern for up to 6 bonds, 4 patterns beyond, one broken bond at a time for models that need three-dimensional neighborhoods'}
    for g in ('lps', 'thermal', 'corr', 'hypo', 'ba'):
        for q in (0, 1, 2, 3):
            c.driver('drv_mat', ['mode=p04', 'group=' + g, 'infl=%d' % q], label=g + '/')
    c.assumptions = ['torque of hypoelastic and bond-associated models is only judged with intact bonds no longer than the support of the influence function',
                     'the linearised model is judged about reference positions']
    return c.finish()

if __name__ == '__main__':
    main(check)
