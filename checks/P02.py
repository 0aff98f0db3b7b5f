from common import *

def check():
    c = Check('P02')
    build('drv_neigh')
    c.bounds = {'surfaces': 'rectangles and disks: 29 orientations x placements x sizes, nearly parallel bonds (slopes 1e-3..1e-1), near-rim bonds, layers, scales 1e-3, 1 and 1e4; triangles and quadrilaterals: 6 shapes x 8 planes x placements x vertex orders',
                'bodies': '2 lattices, 2 horizons', 'combinations': 'all subsets of 4 surfaces x 3 block settings x 4 block splittings x 3 point orders x 2 id sets', 'processes': '1..4'}
    c.driver('drv_neigh', ['mode=poly'], label='bond/')
    for np_ in (1, 2, 3, 4):
        c.driver('drv_neigh', ['mode=filter'], np_=np_, shards=8 if np_ == 1 else 4, label='np%d/' % np_)
    c.assumptions = ['bonds that only touch a surface (end point on it, passing through its rim, or lying in its plane) are left undecided']
    return c.finish()

if __name__ == '__main__':
    main(check)
