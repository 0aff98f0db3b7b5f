from common import *

def check():
    c = Check('P07')
    build('drv_dmg')
    c.bounds = {'stretch': 'every history of depth 4 (thorough 5) over 7 placements and of depth 3 (4) with rejected trial evaluations in between, 8 bodies, constant, thermally adjusted, time dependent and interface criteria',
                'field': 'every history of bond stress or plastic strain levels, 3 parameter sets of the stress model and 2 of the plastic-strain model, 3 influence functions',
                'cuts': 'every rectangular initial crack of an enumerated family of planes through the bodies'}
    c.driver('drv_dmg', ['mode=stretch'], label='stretch/')
    for q in (0, 1, 2):
        c.driver('drv_dmg', ['mode=field', 'infl=%d' % q], label='field%d/' % q)
    c.driver('drv_dmg', ['mode=cuts'], label='cuts/')
    c.assumptions = ['a bond within rounding distance of its threshold is not judged at that step',
                     'the reported damage of a point is judged for the models that break bonds outright']
    return c.finish()

if __name__ == '__main__':
    main(check)
