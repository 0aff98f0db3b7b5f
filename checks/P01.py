from common import *

def check():
    c = Check('P01')
    build('drv_neigh')
    c.bounds = {'layouts': 'all subsets of four small lattices (<=9 sites), 10 bodies of 10-27 points x 5 block splittings x 3 axis orders, 36 scaled and shifted bodies, bodies of up to 125 points',
                'horizons': 'constant (also 8 values around each of 6 lattice distances), per block (up to three blocks, alone, in groups and by default), functions of position', 'orders': 3, 'processes': '1..4'}
    for np_ in (1, 2, 3, 4):
        c.driver('drv_neigh', ['mode=horizon'], np_=np_, shards=8 if np_ == 1 else 4, label='np%d/' % np_)
    c.assumptions = ['pairs whose distance equals the horizon to 1e-9 are left undecided']
    return c.finish()

if __name__ == '__main__':
    main(check)
