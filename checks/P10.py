from common import *

def check():
    c = Check('P10')
    build('drv_mat')
    c.bounds = {'words': 'every word over three trial deformations and acceptance up to length 6 (thorough 7), on 2 bodies'}
    for g in ('lps', 'thermal', 'corr', 'hypo', 'ba'):
        for q in (0, 1):
            c.driver('drv_mat', ['mode=p10', 'group=' + g, 'infl=%d' % q], label=g + '/')
    return c.finish()

if __name__ == '__main__':
    main(check)
