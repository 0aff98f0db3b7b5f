from common import *


def check():
    c = Check('P24')
    build('drv_geo')
    c.driver('drv_geo', ['mode=tree'], shards=8)
    c.bounds = {'point sets': 'all subsets of six lattices of 8 to 12 sites in three orders and of a lattice of 16 sites, '
                              'all multisets of 6 sites with up to 2 points each, seven families of 8 to 125 points',
                'query places': 'the points, midpoints, outside corners, far away', 'radii': 11}
    c.assumptions = ['Points within 1e-9 of the search radius may be returned or not.']
    return c.finish()


if __name__ == '__main__':
    main(check)
