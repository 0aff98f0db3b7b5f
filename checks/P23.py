from common import *


def check():
    c = Check('P23')
    build('drv_grid')
    for np_, n in ((1, 1), (2, 4), (3, 3), (4, 4)):
        c.driver('drv_grid', ['mode=move'], np_=np_, shards=n, label='np%d/' % np_)
    c.bounds = {'points': '1..8 (up to 7 on four processes)' if THOROUGH else '1..7 (up to 6 on three and 5 on four processes)', 'processes': '1..4',
                'initial owners': 'all', 'arrangements': 4, 'neighbor lists': 3, 'orders': 2, 'successive balancings': 4}
    return c.finish()


if __name__ == '__main__':
    main(check)
