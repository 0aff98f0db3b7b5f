from common import *

def check():
    c = Check('P05')
    build('drv_mat')
    c.bounds = {'bodies': 'every subset (2..8 points) of the 2x2x2 lattice (irregular; thorough: x 3 horizons x regular/irregular), 5 larger bodies',
                'motions': '4 translations, 5 general rotations, rigid spins in steps, the 48 axis symmetries spread over 8 deformations (thorough: all for each)',
                'history': 'two successive steps; spin before and after loading'}
    for g in ('lps', 'thermal', 'corr', 'hypo', 'ba'):
        for q in (0, 1, 2, 3):
            c.driver('drv_mat', ['mode=p05', 'group=' + g, 'infl=%d' % q], label=g + '/')
    c.assumptions = ['rate-type models are integrated in time: after loading, the error of a superposed spin must vanish linearly with the step',
                     'plastic strain in a step that starts without deviatoric stress is judged separately']
    return c.finish()

if __name__ == '__main__':
    main(check)
