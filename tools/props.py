"""Writes properties.jsonl and MANIFEST.json (the single place where properties are stated)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'solidspy/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, level='proof'):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=[S + f for f in files],
                  mech=[dict(name=a, where=b) for a, b in mech], technique=technique, note=note, level=level))


AI = 'abstract interpretation of the source (value numbering over a polynomial term domain, loops summarised), compared with the specification by normal form'
TB = (' Trusted: the analyser in /verif/sa (Python/numpy transfer functions, term normaliser), real arithmetic in place of '
      'floating point. An obligation whose derived value is not fully known is reported as undecided in the evidence, never as a violation.')

prop('C01', 'Shape functions interpolate and reproduce the geometry space',
     'For every supported element shape, each interpolation function is one at its own node and zero at every other node. '
     'At every point of the reference element the functions add up to one, reproduce the reference coordinates, and span the full polynomial space of the element.',
     ['inputs'], 'every point of the reference element, for each of the seven element shapes',
     'Tests evaluate the functions at one or two points; the identities are polynomial identities that must hold at every point.',
     ['femutil.py'], [('shape functions of each element', 'solidspy/femutil.py shape_*')],
     AI, 'Polynomial identities are decided exactly for all points (N_i compared with the unique nodal basis; partition of unity; completeness).' + TB)
prop('C02', 'Returned shape gradients are the derivatives of the shape functions',
     'For every supported element shape and every point, the gradient array returned with the interpolation functions equals their exact partial derivatives, one row per reference direction.',
     ['inputs'], 'every point of the reference element, every entry of the gradient array, each of the seven shapes',
     'Tests compare a few numbers at one point; an error in one monomial can vanish at the sampled points.',
     ['femutil.py'], [('shape gradients', 'solidspy/femutil.py shape_*')],
     AI, 'Each gradient entry is compared with the symbolic derivative of the function derived from the same source and with the derivative of the specified basis.' + TB)
prop('C03', 'Line and hypercube quadrature rules are Gauss rules of full precision',
     'For every supported number of points the line rule integrates every polynomial up to degree twice the number of points minus one exactly on [-1, 1], with positive weights and interior points. '
     'The rule in any number of dimensions is the tensor product of the line rule, each point paired with the product of its own weights.',
     ['inputs', 'configurations'], 'all polynomials up to the degree of precision, all supported numbers of points (2 to 10), dimensions 1 to 3',
     'Tests check one or two orders; tables of constants and the pairing of points with weights must be right for every order and every dimension.',
     ['gaussutil.py'], [('line rule table', 'solidspy/gaussutil.py gauss_1d'), ('tensor product', 'solidspy/gaussutil.py gauss_nd')],
     'constant-table extraction by abstract interpretation; exact rational moment equations', 'Moments evaluated in rational arithmetic on the constants of the source, tolerance at the accuracy of the printed digits.' + TB)
prop('C04', 'Triangle and tetrahedron quadrature rules have the stated precision',
     'For every supported order the triangle and the tetrahedron rule integrates every polynomial up to that order exactly over the reference simplex once scaled by its measure, with as many weights as points and all points inside the simplex.',
     ['inputs', 'configurations'], 'all polynomials up to each supported order (triangle 1 to 7, tetrahedron all supported orders)',
     'Tests integrate one or two functions with a few orders; a wrong digit in one table entry goes unnoticed.',
     ['gaussutil.py'], [('triangle rule', 'solidspy/gaussutil.py gauss_tri'), ('tetrahedron rule', 'solidspy/gaussutil.py gauss_tet')],
     'constant-table extraction by abstract interpretation; exact rational moment equations', 'Precision of every table is computed from the constants in the source.' + TB)
prop('C05', 'The Jacobian utility gives the exact determinant and inverse or rejects',
     'For a gradient array and element coordinates of any two- or three-dimensional element, the returned determinant is that of the isoparametric Jacobian and the returned matrix is its inverse. '
     'An element with a zero or negative determinant is rejected with an error instead of being used, and well-shaped elements are accepted at any scale.',
     ['inputs'], 'all gradient arrays and node coordinates, elements of any number of nodes in two and three dimensions',
     'Tests use two or three undistorted elements; the identities and the rejection must hold for every geometry.',
     ['femutil.py'], [('Jacobian', 'solidspy/femutil.py jacoper')],
     AI, 'Determinant and inverse compared with cofactor formulas for symbolic inputs; the rejection condition is derived as a guard and compared.' + TB)
prop('C06', 'Strain-displacement operators are the symmetric gradient',
     'For plane, axisymmetric and three-dimensional elements the strain-displacement matrix evaluated at any point maps nodal displacements to the physical strain components in the documented order, with engineering shear strains and, for the axisymmetric case, the hoop strain divided by the radius. '
     'The interpolation matrix places each shape function in the columns of its node, one row per displacement component.',
     ['inputs'], 'all reference points, element coordinates, and element shapes, every entry of both matrices',
     'Tests check one element at one point; permuted or missing entries must be excluded for all shapes and points.',
     ['femutil.py'], [('operators', 'solidspy/femutil.py elast_diff_2d, elast_diff_axi, elast_diff_3d')],
     AI, 'Entries compared with the specified operators over opaque shape functions and Jacobians (their own contracts are C02 and C05).' + TB)
prop('C07', 'Constitutive matrices are isotropic Hooke laws',
     'For any Young modulus and Poisson ratio the constitutive matrix of each analysis kind is the isotropic linear elastic law of that kind (plane stress, plane strain of the two-dimensional law, axisymmetric, three-dimensional), symmetric, and proportional to the modulus.',
     ['inputs'], 'all Young moduli and Poisson ratios, every entry of each matrix',
     'Tests use one material, for which several wrong formulas coincide with the right one.',
     ['femutil.py'], [('constitutive matrices', 'solidspy/femutil.py umat, elast_mat_2d, elast_mat_axi, elast_mat')],
     AI, 'Rational-function identities in E and nu decided by normal form.' + TB)
prop('C08', 'Element stiffness and mass of continuum elements are the exact quadrature forms',
     'For every continuum element the stiffness and the consistent mass are the weighted sums over the quadrature points of the strain-energy and density forms with that element\'s operators, material law and volume measure, using a rule exact enough for the element. '
     'They are symmetric, of the size of the element\'s degrees of freedom, and proportional to modulus and density; when no density is given it is one.',
     ['inputs'], 'all node coordinates, moduli, Poisson ratios, densities, all matrix entries of the eight continuum elements',
     'Tests use one unit element per type with one material; errors that vanish for square elements or unit material remain invisible.',
     ['uelutil.py', 'femutil.py', 'gaussutil.py'], [('element routines', 'solidspy/uelutil.py elast_*')],
     AI, 'Symbolic coordinates/material; shape functions, Jacobian and rule replaced by their contracts (C02, C04-C07).' + TB)

NA = []
exec(open(os.path.join(ROOT, 'tools', 'props2.py')).read()) if os.path.exists(os.path.join(ROOT, 'tools', 'props2.py')) else None


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                                    anchors=dict(files=p['files'], mechanism=p['mech']))) + '\n')
    checks, na = [], []
    for p in P:
        if p['technique'] is None:
            na.append(dict(property=p['id'], reason=p['note']))
            continue
        checks.append(dict(property=p['id'], quick_cmd='python3 -m sa.check ' + p['id'],
                           thorough_cmd='python3 -m sa.check ' + p['id'], technique=p['technique'], level=p['level'],
                           level_note=p['note']))
    for p in P:
        assert len(p['title']) <= 80, p['id']
    m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
