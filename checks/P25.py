from common import *


def check():
    c = Check('P25')
    build('drv_geo')
    c.driver('drv_geo', ['mode=elem'], shards=8)
    c.bounds = {'tetrahedra': 'all with nodes on a 3x3x3 lattice, six placements', 'triangles': 'all with nodes on a 3x3x2 lattice, six placements',
                'hexahedra': 'cube with every node at one of three places; 864 affine and tapered shapes', 'spheres': '27 or 64 centres x 6 radii',
                'determinants': 'all 3x3 matrices over 3 values, all 4x4 matrices over 2 values per entry'}
    c.assumptions = ['Spheres that touch a node or a face to within 1e-9 are not judged.',
                     'The centroid of a hexahedron with warped faces is judged to 0.4 % of its size only, since its interior is not uniquely defined.']
    return c.finish()


if __name__ == '__main__':
    main(check)
