"""Material and damage models as they are written in input files, with parameters suited to the small bodies of the
checks (moduli around 10, stretches of some percent)."""

ELASTIC = {'Density': 2.0, 'Bulk Modulus': 10.0, 'Shear Modulus': 6.0}


def m(name, drop=(), **kw):
    d = {'Material Model': name, **ELASTIC}
    for k in drop:
        del d[k]
    d.update({k.replace('_', ' '): v for k, v in kw.items()})
    return d


FLUID = {'Permeability': 0.3, 'Fluid density': 1.1, 'Fluid compressibility': 0.2, 'Fluid dynamic viscosity': 0.7, 'Fluid linear thermal expansion': 0.0,
         'Fluid Reynolds viscosity temperature effect': 0.0, 'Permeability curve inflection damage': 0.5, 'Max permeability': 2.0, 'Permeability alpha': 1.5}
NEEDLEMAN = {'Yield Stress': 0.5, 'Strain Hardening Exponent': 0.2, 'Rate Hardening Exponent': 0.1, 'Reference Strain Rate': 0.01, 'Reference Strain 0': 0.05, 'Reference Strain 1': 0.5}

# key: (parameters, element variables that show the state, bond damage models apply, full neighborhoods needed)
MATERIALS = {
    'elastic': (m('Elastic'), ['Dilatation', 'Weighted_Volume'], True, False),
    'thermal': (m('Elastic', Thermal_Expansion_Coefficient=0.002), ['Dilatation'], True, False),
    'partial-stress': (dict(m('Elastic'), **{'Compute Partial Stress': True}), ['Dilatation', 'Partial_Stress'], True, False),
    'bond-based': (m('Elastic Bond Based', drop=('Shear Modulus',)), [], True, False),
    'plastic': (m('Elastic Plastic', Yield_Stress=0.3), ['Dilatation', 'Lambda'], True, False),
    'hardening': (m('Elastic Plastic Hardening', Yield_Stress=0.3, Hardening_Modulus=1.5), ['Dilatation', 'Lambda'], True, False),
    'viscoelastic': (dict(m('Viscoelastic'), **{'lambda_i': 0.6, 'tau b': 2.0}), ['Dilatation'], True, False),
    'linear-lps': (m('Linear LPS Partial Volume'), ['Dilatation'], True, False),
    'pals': (m('Pals'), ['Dilatation'], False, True),
    'corr': (m('Elastic Correspondence', Hourglass_Coefficient=0.1), ['Cauchy_Stress', 'Left_Stretch_Tensor', 'Rotation_Tensor'], False, True),
    'corr-plastic': (m('Elastic Plastic Correspondence', Hourglass_Coefficient=0.1, Yield_Stress=0.5), ['Cauchy_Stress', 'Von_Mises_Stress', 'Equivalent_Plastic_Strain'], False, True),
    'corr-hardening': (m('Isotropic Hardening Correspondence', Hourglass_Coefficient=0.1, Yield_Stress=0.5, Hardening_Modulus=2.0), ['Cauchy_Stress', 'Von_Mises_Stress', 'Equivalent_Plastic_Strain'], False, True),
    'corr-viscoplastic': (dict(m('Viscoplastic Needleman Correspondence', Hourglass_Coefficient=0.1), **NEEDLEMAN), ['Cauchy_Stress', 'Von_Mises_Stress', 'Equivalent_Plastic_Strain'], False, True),
    'hypo': (m('Elastic Hypoelastic Correspondence', Actual_Horizon=1.9), [], False, True),
    'hypo-plastic': (m('Elastic Plastic Hypoelastic Correspondence', Actual_Horizon=1.9, Yield_Stress=0.5), [], False, True),
    'ba': (m('Elastic Bond Associated Correspondence'), [], False, True),
    'ba-plastic': (m('Elastic Plastic Bond Associated Correspondence', Yield_Stress=0.5), [], False, True),
    'fluid': (dict(m('Multiphysics Elastic'), **FLUID), ['Dilatation'], True, False),
}

DAMAGE = {
    'stretch': {'Damage Model': 'Critical Stretch', 'Critical Stretch': 0.03},
    'timed': {'Damage Model': 'Time Dependent Critical Stretch', 'Time Dependent Critical Stretch': 'value = 0.05 - 0.1*t'},
    'interface': {'Damage Model': 'Interface Aware', 'Critical Stretch': 0.03},
    'initial': {'Damage Model': 'Initial Damage', 'Bond Filters': {'cut': {'Type': 'Rectangular_Plane', 'Normal_X': 1.0, 'Normal_Y': 0.0, 'Normal_Z': 0.0, 'Lower_Left_Corner_X': 0.55, 'Lower_Left_Corner_Y': -5.0, 'Lower_Left_Corner_Z': 5.0,
                                                                        'Bottom_Unit_Vector_X': 0.0, 'Bottom_Unit_Vector_Y': 1.0, 'Bottom_Unit_Vector_Z': 0.0, 'Bottom_Length': 5.6, 'Side_Length': 10.0}}},
}
