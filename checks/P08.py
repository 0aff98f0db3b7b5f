from common import *

def check():
    c = Check('P08')
    build('drv_mat')
    c.bounds = {'divisions': 'every division of every body of up to 8 points into two parts; planar divisions of 8 larger bodies for models that need three-dimensional neighborhoods',
                'motions': '6 motions of one part, two successive steps'}
    for g in ('lps', 'thermal', 'hypo', 'ba'):
        for q in (0, 1, 2, 3):
            c.driver('drv_mat', ['mode=p08', 'group=' + g, 'infl=%d' % q], label=g + '/')
    c.assumptions = ['models documented to ignore bond damage (plain correspondence, position-aware) are not covered',
                     'hypoelastic models weigh forces with the current volumes of all points ever bonded, so only rigid motions of the other part and the balance of each part are judged']
    return c.finish()

if __name__ == '__main__':
    main(check)
