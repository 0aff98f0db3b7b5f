from common import *

def check():
    c = Check('P26')
    build('drv_law')
    c.bounds = {'bodies': 'every subset (2..8 points) of the 2x2x2 lattice with spanning neighborhoods x 3 horizons x regular/irregular, larger bodies',
                'maps': '10 affine maps with translation, 7 uniform expansions with and without rotation',
                'broken bonds': 'every single bond and pair of bonds of a point that leaves its bonds spanning (every seventh on bodies of more than 60 bonds)'}
    for g in ('lps', 'thermal', 'corr', 'hypo', 'ba'):
        for q in (0, 1, 2, 3):
            c.driver('drv_law', ['mode=p26', 'group=' + g, 'infl=%d' % q], label=g + '/')
    return c.finish()

if __name__ == '__main__':
    main(check)
