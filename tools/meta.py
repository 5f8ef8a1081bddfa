#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (run by hand after editing; the checks do not use it)."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'include/shiva/common/'
FN = 'include/shiva/functions/'
GM = 'include/shiva/geometry/mapping/'
GS = 'include/shiva/geometry/shapes/'
PE = 'include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp'

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, tech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, tech=tech, note=note))


prop('C01', 'CArray is row-major and every access form reaches the same element',
     'For every dense array shape and every in-range multi-index, the element reached by call syntax with run-time indices, by call syntax with compile-time indices and by successive square brackets is one and the same memory location, at the row-major offset (last index fastest) from the start of the data, for owning arrays, views, const and non-const objects. Different in-range multi-indices reach different elements, and rank, extents and size report the declared shape.',
     ['inputs', 'configurations'], 'every in-range multi-index of every instantiated shape (ranks 1 to 6, unequal and unit extents), every index type, bounds checking on and off',
     'tests look at one 2x3x4 array and a 1-d one, at all indices, in one configuration; the shape/index-type/const/view combinations are not sampled',
     [C + 'CArray.hpp', C + 'CArrayHelper.hpp'],
     [('linear index and stride computation', C + 'CArrayHelper.hpp linearIndexHelper, strideHelper'), ('slicing', C + 'CArray.hpp squareBracketOperatorHelper')],
     ['address of the returned reference relative to data()'],
     'symbolic execution of the compiled access functions (LLVM IR) with bit-vector indices, Z3',
     'all indices of all listed shapes decided by Z3 over 8/16/32/64-bit index types; shapes are instantiated from the bounds list, not symbolic')
prop('C02', 'With bounds checking on, exactly the out-of-range accesses stop the program',
     'In a build with bounds checking enabled, any run-time array access or slice whose index is negative or not below the extent of its dimension prints an assertion message to standard error and aborts before the element is touched; an access whose indices are all in range never does. This holds for every dimension of every shape and every integer index type.',
     ['inputs'], 'every value of every index (full 8/16/32/64-bit signed and unsigned ranges for call syntax, full int range for slicing), every dimension',
     'tests use a handful of death tests with one index value per dimension',
     [C + 'CArray.hpp', C + 'CArrayHelper.hpp', C + 'ShivaErrorHandling.hpp', C + 'ShivaMacros.hpp'],
     [('range assertion per dimension', C + 'CArrayHelper.hpp level'), ('slice assertion', C + 'CArray.hpp squareBracketOperatorHelper')],
     ['abort', 'stderr', 'returned address'],
     'symbolic execution (LLVM IR) with full-width bit-vector indices, path-by-path Z3 validity',
     'whole index range proved for the instantiated shapes; slice operator takes int, so a wider argument converted by the caller is outside')
prop('C03', 'Multi-index to linear index is the row-major bijection',
     'For every index range and every in-range multi-index, the linear index is the row-major position (last index fastest): it lies between zero and the number of entries minus one, distinct multi-indices get distinct linear indices, and equal results come from all linear-index interfaces.',
     ['inputs'], 'every in-range multi-index of every instantiated range (ranks 1 to 8, 8- to 64-bit index types, ranges up to 1.7e10 entries with a 64-bit index type)',
     'tests use ranges whose extents hide a wrong stride and only check the loop order',
     [C + 'IndexTypes.hpp', C + 'MultiIndex.hpp', C + 'LinearIndex.hpp'],
     [('stride product over the later extents', C + 'IndexTypes.hpp strides/linearIndex')], ['return value of linearIndex'],
     'symbolic execution (LLVM IR) with symbolic indices, Z3 bit-vectors',
     'every in-range index of the instantiated ranges; injectivity follows from equality with the row-major formula and the range claim')
prop('C04', 'Range loops visit exactly their box, once, in lexicographic order',
     'Looping over a multi-index range calls the user function once for every multi-index from the start values up to (excluding) the range ends, in lexicographic order with the last index fastest, with the current indices visible in the argument; an empty range in any dimension means no call. Linear-index loops do the same in one dimension. The function object given (not a copy) is the one called, so the state it keeps is the caller\'s afterwards.',
     ['inputs', 'histories'], 'every combination of run-time start values up to the bound (including negative, past-the-end and unequal ones) for every instantiated range, including empty ones; run-time ends for linear loops',
     'tests run two fixed ranges from zero',
     [C + 'IndexTypes.hpp', C + 'MultiIndex.hpp', C + 'LinearIndex.hpp'],
     [('recursive loop nest', C + 'IndexTypes.hpp forRange/forRangeHelper')], ['sequence of callback invocations'],
     'symbolic execution (LLVM IR) with symbolic loop bounds, each feasible trip count a path, Z3',
     'ranges are template parameters, instantiated as listed; all start values within the stated bounds; larger trip counts outside')
prop('C05', 'Compile-time loops visit every index (tuple) once, in order, with all arguments',
     'The compile-time sequence helpers call the user function with exactly the indices 0..N-1, each once and in increasing order; nested versions visit every tuple of the box once, in lexicographic order (last index fastest). Extra arguments reach the function unchanged and in order, and the value the function returns is returned. The function object given (not a copy) is the one called, its state kept from call to call.',
     ['inputs', 'programs'], 'every value of forwarded arguments; instantiated lengths and nesting depths',
     'tests check one length and symmetric nested ends with accumulation-only lambdas',
     [C + 'SequenceUtilities.hpp', C + 'NestedSequenceUtilities.hpp'],
     [('pack expansion', C + 'SequenceUtilities.hpp executeSequence/forSequence'), ('recursive nesting', C + 'NestedSequenceUtilities.hpp forNestedSequence')],
     ['callback trace', 'returned value', 'argument values'],
     'symbolic execution (LLVM IR) of instantiated helpers with symbolic arguments, Z3',
     'lengths/depths instantiated as listed, argument values symbolic')
prop('C06', 'Support point coordinates are those of the named rule',
     'Equally spaced, Gauss-Legendre and Gauss-Lobatto point sets lie in [-1,1], strictly increase with the index, are symmetric about zero, and are the points of the rule (equal spacing incl. both ends; roots of the Legendre polynomial; ends plus roots of its derivative) to working precision. The run-time-index and compile-time-index interfaces return the same coordinate for every index of every supported number of points.',
     ['inputs'], 'every (number of points, index) pair, run-time index symbolic, float and double',
     'tests compare printed constants for the compile-time interface only',
     [FN + 'spacing/Spacing.hpp'],
     [('coordinate tables', FN + 'spacing/Spacing.hpp coordinate')], ['coordinate values'],
     'symbolic execution (LLVM IR) with symbolic index; exact rational residuals of the defining polynomials with derived rounding bounds',
     'all indices for every supported number of points, float and double; tolerance 8 units of rounding, 1e-13 for the tables given with 13 to 16 digits')
prop('C07', 'Quadrature rules are exact to their degree',
     'An N-point Gauss-Legendre rule integrates every polynomial of degree up to 2N-1, and an N-point Gauss-Lobatto rule every polynomial of degree up to 2N-3, exactly over [-1,1] up to rounding. All weights are positive, symmetric and sum to two, and run-time-index and compile-time-index interfaces agree.',
     ['inputs'], 'every polynomial of the stated degree with coefficients in a box; every index; float and double',
     'tests compare table constants; no test integrates an arbitrary polynomial',
     [FN + 'quadrature/Quadrature.hpp', FN + 'spacing/Spacing.hpp'],
     [('weight tables', FN + 'quadrature/Quadrature.hpp weight')], ['weights and points'],
     'symbolic execution (LLVM IR); polynomial coefficients symbolic, linear real arithmetic in Z3 with derived rounding bounds',
     'every polynomial in the coefficient box for the rules offered')
prop('C08', 'Lagrange basis functions reproduce polynomials and interpolate',
     'For every order and spacing, each basis function is one at its own support point and zero at the others, and the basis reproduces every polynomial up to its order at every coordinate (hence sums to one). The number of support points is order plus one.',
     ['inputs'], 'every coordinate in the box and every polynomial of degree up to the order; float and double',
     'tests evaluate at a few coordinates against stored values',
     [FN + 'bases/LagrangeBasis.hpp', FN + 'spacing/Spacing.hpp'],
     [('product of value terms', FN + 'bases/LagrangeBasis.hpp value')], ['basis values'],
     'symbolic execution (LLVM IR) to exact polynomials plus rounding bounds, Z3 real arithmetic',
     'every x in [-1,1] (and [-3,3] up to order 5) and every coefficient vector in the box')
prop('C09', 'Lagrange basis gradients are the derivatives of the basis',
     'For every order, spacing and coordinate, including coordinates equal to support points, the gradients are finite and differentiate every polynomial up to the order exactly up to rounding (hence sum to zero).',
     ['inputs'], 'every coordinate in the box and every polynomial of degree up to the order; float and double',
     'tests evaluate at a few coordinates against stored values',
     [FN + 'bases/LagrangeBasis.hpp'],
     [('sum of leave-one-out products', FN + 'bases/LagrangeBasis.hpp gradient')], ['gradient values'],
     'symbolic execution (LLVM IR) to exact polynomials plus rounding bounds, Z3 real arithmetic',
     'every x in the box and every coefficient vector in the box')
prop('C10', 'Product shape functions are products of their 1-d bases, direction by direction',
     'A product basis in any number of dimensions, with a possibly different one-dimensional basis per direction, has the value product over directions of the one-dimensional values, each at its own coordinate and with its own index, and the gradient whose i-th component replaces the i-th factor by its derivative. Interpolated shapes and parent elements give the same values and gradients and report the same counts, and the support-point loop visits every function once in lexicographic order.',
     ['inputs'], 'every parent coordinate in the box, every basis-function index tuple, equal and mixed orders, 1 to 3 dimensions',
     'tests use equal orders in all directions at a few coordinates, so swapped directions stay hidden',
     [FN + 'bases/BasisProduct.hpp', GS + 'InterpolatedShape.hpp', PE],
     [('pack expansion over directions', FN + 'bases/BasisProduct.hpp value/gradient')], ['values and gradients'],
     'symbolic execution (LLVM IR) with symbolic coordinates; nonlinear real claims linearised over monomials, Z3',
     'all coordinates in [-1,1]^d; instantiated bases as listed')
prop('C11', 'Element interpolation is sum of nodal value times shape function',
     'Evaluating a nodal field on a parent element gives the sum over all support points of nodal value times shape function, and its gradient the sum of nodal value times shape gradient, with the field read in the index order of the shape functions. In particular every polynomial of the element\'s tensor degree sampled at the support points is reproduced at every coordinate together with its gradient.',
     ['inputs'], 'every parent coordinate and every nodal field in the box, equal and mixed orders, 1 to 3 dimensions',
     'tests use one field and a few coordinates',
     [PE, GS + 'InterpolatedShape.hpp', FN + 'bases/BasisProduct.hpp'],
     [('support loop accumulation', PE + ' value/gradient')], ['interpolated value and gradient'],
     'symbolic execution (LLVM IR) with symbolic field and coordinates, Z3 real arithmetic over monomials',
     'all fields and coordinates in the box, to a derived rounding tolerance')
prop('C12', 'A linear transform stores and returns support-point coordinates faithfully',
     'Setting the support-point data of a linear transform from the documented flat layout and reading it back gives each component of each support point unchanged, for every supported shape, and writing through the mutable data changes exactly the addressed entry. Copies behave the same and are independent of their source.',
     ['inputs', 'histories'], 'every data content; every entry index; shapes with 2 and more support points per direction',
     'tests set one regular hexahedron',
     [GM + 'LinearTransform.hpp', C + 'CArray.hpp', C + 'IndexTypes.hpp'],
     [('setData loop and strides', GM + 'LinearTransform.hpp setData')], ['getData content'],
     'symbolic execution (LLVM IR) with symbolic contents and index, Z3',
     'all contents, instantiated shapes')
prop('C13', 'The Jacobian of a linear transform is the derivative of its mapping',
     'At every parent coordinate and for every support-point geometry, entry (i,j) of the Jacobian is the derivative of physical coordinate i with respect to parent coordinate j of the interpolated mapping. The run-time-coordinate overload and the quadrature-point overload agree at quadrature points, and the result does not depend on what the output array held before.',
     ['inputs', 'histories'], 'every geometry in the box, every coordinate / quadrature point, every prior content of the output',
     'tests use one hexahedron with zero-initialised outputs',
     [GM + 'LinearTransform.hpp', GM + 'JacobianTransforms.hpp'],
     [('support loop accumulation', GM + 'LinearTransform.hpp jacobian')], ['Jacobian entries'],
     'symbolic execution (LLVM IR), Z3 real arithmetic over monomials',
     'all geometries with coordinates in the box, all parent coordinates in [-1,1]^d')
prop('C14', '3x3 inversion returns the inverse and the determinant',
     'Inverting any well-conditioned 3x3 matrix, whatever the scale of its entries and the sign of its determinant, leaves the inverse in place and returns the determinant of the original; inverse times original is the identity up to rounding. The raw-array and the array-class versions agree.',
     ['inputs'], 'every matrix whose entries are in the box with determinant bounded away from zero, three scales, both signs, float and double',
     'tests invert the Jacobian of one hexahedron',
     [C + 'MathUtilities.hpp'],
     [('cofactor formula', C + 'MathUtilities.hpp inverse')], ['matrix and determinant'],
     'symbolic execution (LLVM IR) with rounding bounds; rational identity decided by Z3 after clearing the denominator',
     'all matrices in the box with |det| at least the stated bound')
prop('C15', 'Inverse Jacobians of a linear transform are consistent with its Jacobian',
     'For every geometry with a Jacobian determinant bounded away from zero and every coordinate, the inverse-Jacobian interface returns the determinant of the Jacobian and its inverse, also when the determinant is negative. The by-value wrappers return the same numbers as the in-place versions.',
     ['inputs'], 'every geometry/coordinate in the boxes',
     'tests use one hexahedron with positive determinant',
     [GM + 'LinearTransform.hpp', GM + 'JacobianTransforms.hpp', C + 'MathUtilities.hpp'],
     [('jacobian then inverse', GM + 'LinearTransform.hpp inverseJacobian')], ['inverse and determinant'],
     'symbolic execution (LLVM IR), rational identities decided by Z3',
     'symbolic coordinates with concrete geometries, and symbolic geometry perturbations at concrete coordinates')
prop('C16', 'Scaling maps have diagonal Jacobians of half the edge lengths',
     'For a scaling map with edge lengths h the Jacobian is diagonal with entries h_i/2 (one common h for the uniform map), its determinant is the product of the diagonal, the inverse has entries 2/h_i on the diagonal and zero elsewhere, whatever the output held before. Stored lengths are returned unchanged by every constructor and setter, and by-value wrappers agree.',
     ['inputs', 'histories'], 'every positive length in the box, every prior output content',
     'tests use one set of lengths and zeroed outputs',
     [GM + 'Scaling.hpp', GM + 'UniformScaling.hpp', GM + 'JacobianTransforms.hpp'],
     [('diagonal assignment', GM + 'Scaling.hpp jacobian/inverseJacobian')], ['Jacobian, inverse, determinant'],
     'symbolic execution (LLVM IR), rational identities decided by Z3',
     'all lengths in [1/16,16]')
prop('C17', 'Cubes and simplices report the right sub-element counts and bounds',
     'For every dimension N and sub-dimension M, the cube has 2^(N-M)*C(N,M) M-dimensional faces and the simplex C(N+1,M+1); vertices, edges, faces, cells and hyper-faces are the special cases (zero where M exceeds N) and satisfy the Euler relation. Minimum, maximum, length and volume of a cube follow from its template bounds.',
     ['inputs', 'configurations'], 'every (N, M) with the exact count representable in int, as listed in the bounds',
     'tests check N up to 5 for a few M',
     [GS + 'NCube.hpp', GS + 'NSimplex.hpp', C + 'MathUtilities.hpp'],
     [('count formulas', GS + 'NCube.hpp numMCubes')], ['counts'],
     'symbolic execution (LLVM IR) with symbolic N and M dispatched to every instantiation; recurrences decided by Z3',
     'N up to the stated bound')
prop('C18', 'CArray construction, copy and views preserve contents',
     'An array constructed from a list or a buffer, or copied, holds exactly those values in row-major order; a copy of an owning array is independent of its source; a view reads and writes the caller\'s buffer and nothing else. Writing one element through any access form changes that element only.',
     ['inputs', 'histories'], 'every content, every written index and value',
     'tests write and read one array completely through one access form',
     [C + 'CArray.hpp'],
     [('constructors', C + 'CArray.hpp CArray'), ('views', C + 'CArray.hpp CArrayViewNd')], ['memory content after the operation'],
     'symbolic execution (LLVM IR) with symbolic contents, index and value, Z3 with byte-exact memory objects',
     'all contents/indices of instantiated shapes')
prop('C19', 'Assertion handling and the tolerance test do exactly what they say',
     'A failed assertion writes its location and formatted message to standard error and then aborts exactly when asked to; a true condition does nothing. The tolerance comparison is true exactly when the two numbers differ by less than the (positive) tolerance, up to rounding, and the generic kernel wrappers run the given function exactly once with the given data.',
     ['inputs'], 'every condition value, abort flag, line number; all number triples in the box',
     'death tests exercise one message; the comparison and wrappers have no test of their own',
     [C + 'ShivaErrorHandling.hpp', C + 'ShivaMacros.hpp', C + 'pmpl.hpp'],
     [('shivaAssertionFailed', C + 'ShivaErrorHandling.hpp'), ('check, genericKernelWrapper', C + 'pmpl.hpp')], ['stderr', 'abort', 'callback trace'],
     'symbolic execution (LLVM IR) with symbolic flags, I/O as recorded events, Z3',
     'stdio itself is a stub in the encoding (native replay uses the real one)')
prop('C20', 'Results do not depend on the build configuration',
     'The same program gives the same results (integers, calls and outcomes exactly, floating-point values up to rounding) whether bounds checking is on or off, and whether it is compiled as C++17 or with the newer-language code paths (C++20, C++23), for every input that is valid in both.',
     ['inputs', 'configurations'], 'every input in the boxes; configurations {C++17, C++20, C++23} x {bounds checking off, on}',
     'the tests are built in one configuration only; the C++20 branches were never compiled',
     [FN + 'bases/BasisProduct.hpp', FN + 'bases/LagrangeBasis.hpp', C + 'SequenceUtilities.hpp', C + 'NestedSequenceUtilities.hpp', C + 'CArray.hpp', C + 'IndexTypes.hpp'],
     [('preprocessor branches on __cplusplus and SHIVA_ENABLE_BOUNDS_CHECK', 'several headers')], ['all outputs'],
     'relational symbolic execution: both configurations executed on shared symbols in one query, Z3',
     'interfaces and boxes as listed; device configurations are C25')
prop('C21', 'Valid use has no undefined behaviour and touches only its own memory',
     'For valid arguments no library routine overflows a signed integer, divides by zero, shifts out of range, reads uninitialised storage or accesses memory outside the objects it was given. Constant inputs are never modified.',
     ['inputs'], 'every valid input in the boxes of the listed entry points',
     'tests run without sanitizers and at a few inputs',
     ['include/shiva'],
     [('index and table arithmetic', 'all headers')], ['traps, out-of-bounds accesses in the encoding, sanitizer traps natively'],
     'symbolic execution of UBSan-instrumented LLVM IR with checked memory objects; trap reachability decided by Z3',
     'entry points and boxes as listed')
prop('C22', 'Header aggregation emits every needed header once, dependencies first',
     'For every acyclic include structure, the header aggregation script lists every header reachable from the root exactly once and every header after all headers it includes. Each header keeps all its own lines in order; only its quoted includes and pragma-once lines are commented out, and the generated configuration header is left out. Splitting an aggregate recreates each header as it stands in the aggregate, below the output directory, and changes nothing else.',
     ['inputs', 'programs'], 'every acyclic include graph on up to the stated number of headers, every line style and reference form within the bound',
     'the script has no test at all',
     ['scripts/aggregateOrSplit.py'],
     [('dependency walk', 'scripts/aggregateOrSplit.py generate_header_list'), ('split', 'scripts/aggregateOrSplit.py')], ['aggregate text', 'split files'],
     'symbolic execution of the Python source over a symbolic header tree: include edges, line styles, reference forms and roots are Z3 variables decided on demand; graph claims discharged by Z3 over the undecided rest',
     'graphs, line styles and root lists up to the stated size; individual characters of the lines are fixed')
prop('C23', 'Power, factorial, binomial are exact; compile-time equals run-time results',
     'Compile-time power and factorial helpers return the exact mathematical value whenever it is representable in the result type (powers of a floating base up to rounding), and binomial coefficients wherever the factorial of their upper argument is representable. Routines with separate constant-evaluation and run-time branches (support points, quadrature weights) give bit-identical results both ways.',
     ['inputs', 'configurations'], 'every base value in the box for each exponent; every (N,K) whose exact value fits; listed routines evaluated both ways',
     'tests never call power with a run-time base and check no factorial/binomial directly',
     [C + 'MathUtilities.hpp', FN + 'spacing/Spacing.hpp'],
     [('recursion', C + 'MathUtilities.hpp pow/factorial/binomialCoefficient'), ('separate constant-evaluation branches', FN + 'spacing/Spacing.hpp')], ['returned values'],
     'symbolic execution (LLVM IR); integer identities over 64-bit bit-vectors, Z3',
     'exponents and (N,K) pairs as listed')
prop('C24', 'Quadrature of the Jacobian determinant is the exact element volume',
     'Summing weight times Jacobian determinant over the Gauss points of a trilinear hexahedron (or a quadratic element) gives its exact volume for every vertex geometry at every scale, and integrating the shape functions and their physical gradients assembles to the exact totals (mass equals volume, stiffness rows sum to zero).',
     ['inputs'], 'every vertex geometry in the box, at scales from 2^-100 to 2^100 (float 2^-25 to 2^25)',
     'tests have no end-to-end computation on a general geometry',
     [GM + 'LinearTransform.hpp', FN + 'quadrature/Quadrature.hpp', PE, C + 'NestedSequenceUtilities.hpp'],
     [('composition of all parts', GM + 'LinearTransform.hpp jacobian, Quadrature, NestedSequenceUtilities')], ['assembled sums'],
     'symbolic execution (LLVM IR) of an end-to-end kernel on 24 symbolic coordinates, Z3 real arithmetic over monomials',
     'all geometries with vertices within the box around the reference cube')
prop('C25', 'Device code can call the library and computes what host code computes',
     'In a build with a device back end (CUDA or HIP) every array, index, sequence, basis, quadrature, shape, mapping and mathematical routine that host code can call can also be called from device code, and gives there the same results as on the host (integers, call sequences and outcomes exactly, floating-point values up to rounding) for every valid input. With bounds checking on, exactly the same accesses are stopped.',
     ['inputs', 'configurations'], 'every input in the boxes of C01-C08, C10-C18, C23, and every index for the bounds checks; CUDA and HIP device passes',
     'the tests are only ever built without a device back end, so neither the device attributes nor the device branches are compiled',
     [C + 'ShivaMacros.hpp', C + 'ShivaErrorHandling.hpp', C + 'types.hpp', 'include/shiva'],
     [('device attributes and the branches on __CUDA_ARCH__ / __HIP_DEVICE_COMPILE__', C + 'ShivaMacros.hpp, ShivaErrorHandling.hpp, types.hpp, every header through the macros')], ['all outputs', 'device compilation'],
     'relational symbolic execution: NVPTX / AMDGCN device IR and host IR of the same entry on shared symbols, Z3',
     'interfaces and boxes as listed; device toolkits are stand-ins for their declarations, no GPU is executed')
prop('C26', 'Kernel wrappers move the data, launch once, report failures, release memory',
     'On a device back end (CUDA or HIP) the kernel wrappers run the given function exactly once with one thread, on a device copy of exactly the caller\'s N elements, and bring all of them back; elements beyond N are not touched and all device memory is released whatever happens. A kernel that cannot be given its data, cannot be launched, fails, or whose results cannot be brought back is always reported, and stops the program exactly when that was asked for (the default).',
     ['inputs', 'faults'], 'every data content, element count up to 6 (any count for the extents), captured value, abort flag, and fault schedule: no fault, or one at allocation, either copy, launch or execution',
     'the tests are only ever built without a device back end, where this code is not compiled',
     [C + 'pmpl.hpp'],
     [('allocation, copies, launch, synchronisation, error handling', C + 'pmpl.hpp genericKernelWrapper, deallocateData')], ['caller data after the call', 'runtime calls', 'abort', 'stdout'],
     'symbolic execution (LLVM IR of the host pass of CUDA and HIP builds) over a runtime model with a symbolic fault, Z3',
     'the device runtime is a model; element counts, types and kernels as listed; a failing release, and more than one independent fault, outside')
prop('C27', 'Element matrices and forms assembled with the library are exact integrals',
     'Mass and stiffness matrices assembled from shape functions, their gradients, a quadrature of sufficient order and the inverse Jacobian and determinant of a cell mapping (scaling, uniform scaling or linear transform) are, entry by entry, the exact integrals over the cell, to rounding accuracy, for every cell size and shape; a rule whose points are the nodes gives the diagonal (lumped) mass matrix of the weights. Integrals of two nodal fields and of the product of their gradients, formed through the interpolated values and gradients, are exact for every pair of fields.',
     ['inputs', 'configurations'], 'every cell (edge lengths, edge vectors or vertices) and nodal field in the boxes, for the instantiated bases, rules and mappings',
     'tests check each part alone at a few points; nothing is assembled on a general cell',
     [PE, GM + 'Scaling.hpp', GM + 'UniformScaling.hpp', GM + 'LinearTransform.hpp', GM + 'JacobianTransforms.hpp', FN + 'quadrature/Quadrature.hpp', FN + 'bases/LagrangeBasis.hpp', FN + 'spacing/Spacing.hpp'],
     [('shape functions and gradients', PE + ' value/gradient'), ('cell mapping, inverse Jacobian', GM + 'JacobianTransforms.hpp inverseJacobian'), ('points and weights', FN + 'quadrature/Quadrature.hpp')], ['assembled matrix entries', 'assembled integrals'],
     'symbolic execution (LLVM IR) of end-to-end assembly kernels, Z3 real arithmetic with rounding-error bounds against exact rational integrals',
     'elements, rules and mappings as listed; stiffness of general (non-parallelepiped) hexahedra is not polynomial and outside, its row sums are in C24')

NA = {}


def main():
    sys.path[:0] = [os.path.join(V, 'lib'), V]
    claimed = set(a for a in sys.argv[1].split(',')) if len(sys.argv) > 1 else None
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=None))
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for p in P:
        if (claimed is None or p['id'] in claimed) and p['id'] not in NA:
            checks.append(dict(property=p['id'], quick_cmd='./run.py %s --tier quick' % p['id'], thorough_cmd='./run.py %s --tier thorough' % p['id'],
                               evidence_file='evidence/%s.json' % p['id'], technique=p['tech'], level='model_checking', level_note=p['note']))
        else:
            na.append(dict(property=p['id'], reason=NA.get(p['id'], 'check under construction')))
    m = dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard='SHIVA_VERIF_HOOKS', enable='no hooks are needed: the checks compile the unmodified headers', source_commits=[]),
             checks=checks, not_applicable=na,
             notes='Every check compiles thin extern "C" entry functions over the headers in /repo to LLVM IR with clang 18, executes them symbolically (lib/symex.py) and lets Z3 decide the property; counterexamples are replayed against a g++ build before being reported.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
