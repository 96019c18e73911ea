#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after adding contracts)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'experimental/bits/'

INP = 'every value of every element (all 2^w bit patterns per element), for each listed element type, ABI tag and ISA'


def P(id, title, statement, text, why, files, mech, over=('inputs', 'configurations')):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                anchors=dict(files=[B + f for f in files],
                             mechanism=[dict(name=n, where=B + w) for n, w in mech]))


WHY = ('The 16 stable tests only match the generated assembly of a few optimised expressions and check that two '
       'translation units link; none evaluates a result. The value tests of the upstream suite sample a handful of '
       'values per type; ')

PROPS = [
    P('C01', 'Element-wise arithmetic, bitwise and shift operators',
      'For every simd type, each arithmetic, bitwise, shift, unary, increment/decrement and compound-assignment operator yields, '
      'in every element, exactly the value the same operator yields for the scalar element type (integer arithmetic wraps to the '
      'element width, shifts follow the promoted type, floating point is the single IEEE operation). '
      'No element depends on any other element or on unused padding of the register.',
      INP + '; shift counts 0..max(32,width)-1; divisors that are defined for the scalar operation',
      WHY + 'a carry from a neighbouring byte or a wrong shift count case shows for a few operand pairs only.',
      ['simd_builtin.h', 'simd_x86.h', 'simd_fixed_size.h', 'simd_scalar.h', 'simd.h'],
      [('_SimdImplBuiltin arithmetic operators', 'simd_builtin.h'), ('_SimdImplX86 shifts, division, multiplication', 'simd_x86.h')]),
    P('C02', 'Comparisons give exactly the per-element mask',
      'For every simd type, ==, !=, <, <=, >, >= (vector/vector, vector/scalar and scalar/vector) yield a mask whose element i is true '
      'exactly if the scalar comparison of the elements i is true, including signed/unsigned order, NaN, infinities and signed zeros.',
      INP, WHY + 'unsigned order and NaN handling differ per ISA and per element size.',
      ['simd_builtin.h', 'simd_x86.h', 'simd.h'],
      [('_S_equal_to, _S_less, _S_less_equal, ...', 'simd_x86.h'), ('comparison operators', 'simd.h')]),
    P('C03', 'Masks: logic, element access and bitset conversion',
      'simd_mask behaves as an array of size() booleans: construction, !, &&, ||, &, |, ^, ==, !=, compound assignment, reading and writing '
      'one element at any index and conversion to and from a bitset affect and report exactly the addressed elements. '
      'Every operation keeps the representation valid for later operations.',
      'all 2^N mask values, all indices below size(), for each listed element type, ABI and ISA',
      WHY + 'mask representations (vector, bitmask, bitset, bool) have different code and partially filled masks have extra bits.',
      ['simd.h', 'simd_builtin.h', 'simd_x86.h', 'simd_fixed_size.h', 'simd_scalar.h'],
      [('_MaskImplBuiltin, _MaskImplX86, _MaskImplFixedSize', 'simd_builtin.h'), ('_S_from_bitmask/_S_to_bits/_S_set', 'simd_x86.h')]),
    P('C04', 'Mask reductions depend on exactly the N elements',
      'all_of, any_of, none_of, some_of, popcount, find_first_set and find_last_set of a mask (or bool) return the value defined by the size() '
      'elements of the mask alone, whatever unused bits of the representation hold, also for masks that come straight out of a comparison.',
      'all 2^N mask values and all padding contents; all operand values for reductions of comparisons',
      WHY + 'wrong use of padding bits shows only for partially filled registers with particular padding contents.',
      ['simd_x86.h', 'simd_builtin.h', 'simd_fixed_size.h', 'simd_scalar.h', 'simd.h'],
      [('_S_all_of ... _S_find_last_set', 'simd_x86.h'), ('_ImplicitMasking, _S_masked', 'simd.h')]),
    P('C05', 'Loads and stores transfer exactly size() elements',
      'Load constructors, copy_from and copy_to of simd and simd_mask read or write exactly size() consecutive elements at the given pointer, in order, '
      'converting each with static_cast, and touch no other byte. They rely on no more alignment than the flag promises '
      '(64-bit integer to float may round to either neighbour).',
      INP + '; every memory type in the table; the three alignment flags',
      WHY + 'an over-wide access or over-aligned access shows only next to an unmapped page or at a misaligned address.',
      ['simd.h', 'simd_builtin.h', 'simd_x86.h', 'simd_x86_conversions.h', 'simd_fixed_size.h', 'simd_scalar.h'],
      [('_S_load/_S_store', 'simd_builtin.h'), ('__convert_x86', 'simd_x86_conversions.h'), ('element_aligned_tag, vector_aligned_tag, overaligned_tag', 'simd.h')]),
    P('C06', 'where-expressions modify exactly the selected elements',
      'where(mask, v) = x, op= x, ++, -- and unary operators act on exactly the elements whose mask element is true, with the value the unmasked scalar operation '
      'yields, and leave every other element bit-for-bit unchanged; where(bool, scalar) behaves alike.',
      'all masks, all operand values that are defined on the selected elements',
      WHY + 'blend operands in the wrong order or a masked operation with a neutral element show for some masks only.',
      ['simd.h', 'simd_builtin.h', 'simd_x86.h', 'simd_fixed_size.h', 'simd_scalar.h'],
      [('where_expression operators', 'simd.h'), ('_S_masked_assign, _S_masked_cassign, _S_masked_unary', 'simd_x86.h')]),
    P('C07', 'Masked loads and stores touch only selected elements',
      'copy_from and copy_to of a where-expression access exactly the memory elements selected by the mask, with the element conversion of an unmasked load or store; '
      'unselected memory is neither read nor written (it may be unmapped) and unselected elements of the object keep their value.',
      'all masks, all memory contents, all element types and the conversions in the table',
      WHY + 'an access to an unselected element is visible only at a page boundary or under concurrent modification.',
      ['simd.h', 'simd_builtin.h', 'simd_x86.h', 'simd_fixed_size.h', 'simd_scalar.h'],
      [('_S_masked_load, _S_masked_store', 'simd_x86.h'), ('_S_masked_store_nocvt', 'simd_builtin.h')]),
    P('C08', 'Reductions combine each selected element exactly once',
      'reduce, hmin and hmax over a simd combine every element exactly once (in an unspecified association), and the where-expression forms combine exactly the selected elements, '
      'returning the identity for an empty selection.',
      'all element values, all masks; for floating-point sums every element enters the combination tree exactly once',
      WHY + 'a neutral element that is not neutral, or a lane counted twice, shows for particular sizes and values.',
      ['simd.h', 'simd_builtin.h', 'simd_x86.h', 'simd_fixed_size.h', 'simd_scalar.h'],
      [('reduce, hmin, hmax', 'simd.h'), ('_S_reduce', 'simd_x86.h')]),
    P('C09', 'Casts convert every element like static_cast and keep order',
      'static_simd_cast, simd_cast, to_fixed_size, to_native, to_compatible, resizing casts, implicit simd and mask conversions yield in element i static_cast of element i '
      '(masks keep their value; 64-bit integer to float may round to either neighbour). Elements added by a resizing cast are value-initialised.',
      'all element values for which the scalar conversion is defined, for each pair of types and ABIs in the table',
      WHY + 'there are several hundred conversion paths per ISA, each with its own shuffles and special cases for large values.',
      ['simd.h', 'simd_converter.h', 'simd_x86_conversions.h', 'simd_builtin.h'],
      [('static_simd_cast, simd_cast', 'simd.h'), ('_SimdConverter', 'simd_converter.h'), ('__convert_x86', 'simd_x86_conversions.h')]),
    P('C10', 'split and concat keep every element in order',
      'split returns pieces that, taken in order, are exactly the elements of the argument; concat returns exactly the elements of its arguments in order; the same holds for masks and for arrays of simd.',
      'all element values (the contract is parametric in them), for the shapes in the table',
      WHY + 'shapes that do not divide evenly and fixed_size tuples take different paths.',
      ['simd.h', 'simd_fixed_size.h', 'simd_builtin.h'], [('split, concat', 'simd.h'), ('_SimdTuple', 'simd_fixed_size.h')]),
    P('C11', 'Construction and element access address exactly one element',
      'Broadcast, generator and copy construction set every element as specified, and element references read, assign, modify, increment and swap exactly the addressed element and no other.',
      'all element values and all indices below size()',
      WHY + 'padding and tuple boundaries make individual indices special.',
      ['simd.h', 'simd_fixed_size.h', 'simd_builtin.h', 'simd_scalar.h'],
      [('simd constructors, operator[]', 'simd.h'), ('_SmartReference', 'simd.h'), ('_S_generator, _S_set', 'simd_builtin.h')]),
    P('C12', 'min, max, minmax and clamp select the right element',
      'min, max, minmax and clamp return in each element the value std::min, std::max and std::clamp return for that element (for floating point: a value that compares equal to it; NaN-free operands).',
      'all element values (floating point without NaN; clamp with lo <= hi)',
      WHY + 'unsigned and 64-bit minimum have no instruction on most ISAs and are emulated.',
      ['simd.h', 'simd_builtin.h', 'simd_x86.h'], [('min, max, minmax, clamp', 'simd.h'), ('_S_min, _S_max', 'simd_builtin.h')]),
    P('C13', 'Exact floating-point functions match the scalar functions',
      'sqrt, abs/fabs, floor, ceil, trunc, round, rint, nearbyint, fma, copysign, isnan, isinf, isfinite, isnormal, signbit, isunordered, isgreater..., fpclassify, frexp, modf, ldexp/scalbn, ilogb, logb, fdim, fmin and fmax '
      'return in each element the result the scalar function returns, including NaN, infinities, signed zeros and subnormals.',
      'all bit patterns of every element, round-to-nearest',
      WHY + 'subnormals, values next to 2^mantissa and signed zeros decide these functions.',
      ['simd_math.h', 'simd_builtin.h', 'simd_x86.h'],
      [('math functions', 'simd_math.h'), ('_S_round, _S_trunc, _S_isnan, ...', 'simd_builtin.h'), ('_S_sqrt, _S_trunc, _S_classify', 'simd_x86.h')]),
    P('C14', 'Math functions apply the named function to each element',
      'Every math function that has no closed vector form (exp, log, pow, trigonometric inverse, hyperbolic, special functions and so on) evaluates the scalar function of the same name on each element with the arguments in their order, and stores the result in the same element.',
      'all element values; the scalar function is left uninterpreted',
      WHY + 'a swapped argument, a wrong function name or a skipped element is visible only when the result is compared element by element.',
      ['simd_math.h', 'simd_fixed_size.h', 'simd_scalar.h', 'simd_builtin.h'], [('_GLIBCXX_SIMD_MATH_CALL*', 'simd_math.h')]),
    P('C15', 'Operations on partially filled registers never trap',
      'Element-wise operations whose element results are all defined neither trap nor raise floating-point exceptions because of elements that do not belong to the object (padding of partially filled registers and unselected elements of where-expressions).',
      'all element and padding values for integer division, all padding values for floating-point operations',
      WHY + 'padding has unspecified content; a trap needs the one padding value that overflows or divides by zero.',
      ['simd_builtin.h', 'simd_x86.h', 'simd.h'], [('__make_padding_nonzero', 'simd.h'), ('_S_divides, _S_modulus', 'simd_x86.h')]),
    P('C16', 'Results do not depend on what the compiler knows',
      'The code paths the library takes when an operand is known at compile time give the same element values as the ordinary paths, for every operand for which they may be taken.',
      'all operand values, every outcome of every compile-time-knowledge query', WHY +
      'which path is taken depends on inlining and optimisation level; tests see one of them.',
      ['simd.h', 'simd_x86.h', 'simd_builtin.h'],
      [('_M_is_constprop, __builtin_constant_p branches', 'simd_x86.h')], ('inputs', 'programs')),
    P('C17', 'Type traits and constructor constraints describe the types',
      'simd_size, memory_alignment, is_simd, is_abi_tag, abi deduction, rebind and resize, and the implicit/explicit constructibility of simd types, agree with the actual objects: sizes, alignments, convertibility exactly when value-preserving.',
      'every (type, ABI) pair and every pair of arithmetic types in the table',
      'The stable tests do not instantiate the traits; they are compile-time functions over a large product of types.',
      ['simd.h'], [('simd_size, memory_alignment, deduce', 'simd.h'), ('_LoadStorePtr, _ValuePreserving', 'simd.h')], ('programs', 'configurations')),
]

NA_EXTRA = {}

TECH = ('contract-based deductive verification: weakest-precondition style verification conditions generated from the '
        'compiled code of /repo (GCC RTL, every run), discharged by term rewriting and z3')

NOTE = ('All inputs, all iterations, for the element types, ABI tags and x86 ISA levels listed in DESIGN.md; template arguments outside '
        'that list and the compiler passes after RTL expansion are not covered. Contracts without a proof fall back to a bounded '
        'native search, are reported as bounded and never counted as discharged.')

NOTES = {}
LEVELS = {}


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    checks = []
    na = []
    for p in PROPS:
        i = p['id']
        if os.path.exists(os.path.join(V, 'contracts', i.lower() + '.py')):
            checks.append(dict(property=i, quick_cmd='python3-vt run.py --property %s --tier quick' % i,
                               thorough_cmd='python3-vt run.py --property %s --tier thorough' % i,
                               technique=TECH, level=LEVELS.get(i, 'proof'), level_note=NOTES.get(i, NOTE)))
        else:
            na.append(dict(property=i, reason=NA_EXTRA.get(i, 'contracts not written yet')))
    m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na)
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
