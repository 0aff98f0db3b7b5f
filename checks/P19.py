from common import *


def check():
    c = Check('P19')
    build('drv_grid')
    for np_, n in ((1, 8), (2, 4), (3, 3), (4, 2)):
        c.driver('drv_grid', ['mode=grid'], np_=np_, shards=n, label='np%d/' % np_)
    c.bounds = {'cells per direction': '1..5' if THOROUGH else '1..4', 'processes': '1..4', 'origins and cell sizes': 3, 'horizons': 7, 'kinds of neighborhoods': 2,
                'cylinders': 7}
    c.assumptions = ['Horizons at which a cell sits exactly on the boundary of a neighborhood are not judged.',
                     'Around a cylinder, the candidates for neighbors are those within the horizon measured along the mean circle, as the generator documents.']
    return c.finish()


if __name__ == '__main__':
    main(check)
