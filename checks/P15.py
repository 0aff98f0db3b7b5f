from common import *


def check():
    c = Check('P15')
    build('drv_store')
    for np_ in (1, 2, 3):
        c.driver('drv_store', [], np_=np_, shards=8 if np_ == 1 else 4 if np_ == 2 else 3, label='np%d/' % np_)
    c.bounds = {'points': 4, 'processes': '1..3', 'distributions': 'all, with no, adjacent or all copies of other points', 'operations': 11,
                'sequence length': '4 on two distributions, 2 on all (thorough: 5 and 2)', 'field sets': 6}
    c.assumptions = ['The values at the new step right after a step is accepted are not judged until they are written.']
    return c.finish()


if __name__ == '__main__':
    main(check)
