#!/usr/bin/env python3
# Writes DESIGN.md from the properties, the checks' own directives, known-findings.txt, seeded/ and tools/caught.json.
import json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
INTRO = r"""# Deciding cfnptr/math by runtime monitoring and sanitizers

Properties: `properties.jsonl` (generated, with MANIFEST.json, by `tools/props.py`).

## How every property is decided
`python3 check.py <ID> quick|thorough` builds `checks/<ID>.cpp` against /repo's current
`include/` and `source/*.cpp` (in a scratch directory it creates and removes) in several build configurations, runs
the executables, and judges what they observed:

| config | compiler | SIMD level | purpose |
|---|---|---|---|
| `sse2`  | g++ -O2 -DNDEBUG | SSE2 (as the library itself is built) | behaviour |
| `sse41` | clang++ -O2 -DNDEBUG -msse4.1 | SSE4.1 | behaviour |
| `avx2`  | g++ -O3 -DNDEBUG -march=haswell | AVX2+FMA (as the tests are built) | behaviour |
| `asan`  | clang++ -O1 ASan+UBSan, asserts on, AVX2 | memory/UB/internal assertions |
| `asan2` | g++ -O1 ASan+UBSan, asserts on, SSE2 | memory/UB/internal assertions |
| `scalar` | g++ -O1 ASan+UBSan, the headers shown a processor without SIMD | the fallbacks: behaviour and memory (float-to-integer overflow of a lane excluded, any integer is right there) |
| `neon` | g++ -O1 ASan+UBSan, the headers shown AArch64, `harness/neon/arm_neon.h` as a lane-by-lane stand-in for the intrinsics (multiply-add unfused) | the NEON code: behaviour and memory |
| `tsan`  | clang++ -O0 TSan | C36 only |
| `vg` | g++ -O1 under valgrind memcheck | uninitialised reads, C34 only |

The workload is seeded (VERIF_SEED), bounded by case count and hostile: special values, boundaries, magnitudes,
degenerate shapes, garbage in unused lanes, misaligned memory, operation histories. The oracle is independent of the
code: exact integer arithmetic, (long) double references with error margins derived from the operation, brute force,
or a model object stepped alongside. Near a decision boundary (a predicate within the margin) the verdict is "either
way" and such a case is not counted as decided. Verdicts are judged on values, never on how the code is written.

The tests cannot reach this: they call about a fifth of the interface on one fixed input each at one SIMD level.
"""
o={}
def d(id,spec,margin,cost_note=''): o[id]=(spec,margin)
d('C01',"the C++ scalar operation on each lane, bit for bit (NaN compared as NaN; fused multiply-add may be fused or not; min/max/clamp only on ordered operands)","none: bit-exact")
d('C02',"64-bit integer arithmetic reduced modulo 2^32 per lane; order in int32/uint32; bit queries (areAllTrue and friends) also on masks with partly set lanes","none: bit-exact; shift counts 0..31, divisors that do not overflow")
d('C03',"the same scalar operation of libm / the language per component, plain-number forms against splatting","bit-exact except functions the compiler may evaluate in vector libm form (a few ulps)")
d('C04',"model of source and destination components; guard bytes around every store; numeric conversions only inside the destination range","none")
d('C05',"long double sums; the three-component form is repeated with other garbage in w and must give the same bits","n ulps of the sum of absolute terms (so cancellation is allowed to lose what single precision loses)")
d('C06',"floor/ceil/trunc of the C library in double; round within half","none; thorough enumerates all 2^32 patterns")
d('C07',"double-precision libm; conventions for zero, negative, infinity, NaN, overflow and underflow","relative 4e-6 class for log/exp, growing with |y log x| for powers, absolute for sine/cosine up to 8000 rad")
d('C08',"the contract itself (endpoints, proportion, composition of steps, congruence modulo one, symmetry, monotonicity) in double","a few ulps of the operands")
d('C09',"double arithmetic on the textbook column-major definition","ulps of the sum of absolute products")
d('C10',"cofactor inverse in long double","rounding times condition number, condition up to 1e4; scales 1e-6..1e6")
d('C11',"Hamilton product and Rodrigues formula in double, v*q against the inverse's product","rounding times magnitude")
d('C12',"angles rebuilt into rotations in double; gimbal pole approached to 1e-7","1e-6-class, relaxed as sqrt(eps) near the pole where single precision decides")
d('C13',"great-arc point in double","1e-6-class, independent of how small the arc is")
d('C14',"matrix product in double; decomposition compared part by part","ulps of the largest term; mirrored or general linear parts only for the functions that document column lengths")
d('C15',"orthonormality, handedness, images of eye and target in double","conditioning of the up vector (sine of its angle to the view)")
d('C16',"the volume's own normalised coordinates in double","ulps times far/near conditioning")
d('C17',"clip inequality in double; culling by brute force over eight corners and all planes","undecided within a few rounding errors of a plane")
d('C18',"unique closest point by another method (projection and case analysis in double)","conditioning of the shape")
d('C19',"exact for boxes; squared distances and edge functions in double for the rest; exactly touching boxes and spheres","undecided within 6-24 roundings of the boundary, except the exact contacts")
d('C20',"slab method in double on the true direction","undecided for grazing within rounding; distances to rounding times distance/direction")
d('C21',"Sutherland-Hodgman clipping of the triangle against the deflated and inflated box in double","undecided when the two clippings disagree; quarter-integer inputs are exact")
d('C22',"model box advanced step by step","exact for min/max/assign, one rounding for arithmetic")
d('C23',"walk of the whole tree: links, partition, enclosure; exact-size input buffers under ASan","none")
d('C24',"per-leaf brute force (same library predicate isBehindFrustum plus a double-precision reference for visibility), visit log of traversals against the recorded answers","leaf bounds within rounding of a plane may go either way")
d('C25',"brute force over all 21 candidate planes in double","nodes with a centroid within rounding of a plane or two costs within rounding are skipped (counted)")
d('C26',"integer channel model, nearest level in double","exact half-way points may go either way")
d('C27',"digit-by-digit division","none")
d('C28',"the published piecewise curve and matrices in double","a few ulps plus the published constants' own rounding at the knee")
d('C29',"tuples","none")
d('C30',"std::vector of integers stepped alongside, four objects at once","none")
d('C31',"standard cube-map table and atan2 solid angle in long double","1e-6 relative")
d('C32',"closed-form harmonics in double, exact quadrature for projections","ulps of the coefficient norm")
d('C33',"closed forms, exact inverse of the cumulative distribution, quadrature, cell counts with fixed statistical bounds (six sigma)","ulps, conditioning near grazing")
d('C34',"AddressSanitizer, UndefinedBehaviorSanitizer (clang and gcc), valgrind memcheck for uninitialised reads, the library's own assertions; objects at minimally aligned addresses next to red zones","n/a: any report is a violation")
d('C35',"order axioms over triples of objects built from bytes; std::set against a set of byte strings","none")
d('C36',"ThreadSanitizer and bitwise comparison with the same calls made alone","n/a")
d('C37',"integers as bit sets","none")
d('C38',"offline comparison of the event logs of three builds; repeat in the same build must be bit-identical","per-event allowance logged with the value; discrete answers only asked where exact arithmetic leaves no doubt")
d('C39',"window factors recovered from the output; dense sampled and refined minimum in double; lower bound at nearby strengths","1e-4-class relative to the constant band")
d('C40',"integer halving","none")
d('C41',"model of parts advanced in double after each edit; a ray's flags against its current direction","ulps")
d('C42',"the documented constants; the bytes recorded by the other units, in main, in threads and at exit; ASan for destroyed or uninitialised tables; the compiler and linker for headers that do not stand alone","none")

NOTES = open("tools/design_notes.md").read()
seeds={}
for s in sorted(os.listdir('seeded')):
    m=json.load(open('seeded/%s/meta.json'%s)); seeds.setdefault(m['property'],[]).append((s,m['needs']))
caught=json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
P=[json.loads(l) for l in open('properties.jsonl')]
out=[INTRO, '\n## Property by property\n\nCases are per build configuration, quick / thorough. "Margin" is where the verdict is "either way".\n']
for p in P:
    i=p['id']; src=open('checks/%s.cpp'%i).read()
    dr=dict(re.findall(r'^// vt: (\w+)=(.*)$',src,re.M))
    out.append('\n**%s %s.** Oracle: %s. Margin: %s. Workload: %s. Cases: %s / %s%s.\n'%(i,p['title'],o[i][0],o[i][1],dr.get('rule','').split('; distinct')[0],dr.get('quick','?'),dr.get('thorough','?'),'' if 'configs' not in dr else ' ('+dr['configs']+')'))
out.append('\n'+NOTES)
out.append('\n## Defects found and repaired\n\n'+''.join('- %s `%s` %s\n'%m for m in re.findall(r'^fixed: property=(\w+) (\w+) (.*)$',open('known-findings.txt').read(),re.M)))
k=re.findall(r'^KNOWN property=.*$',open('known-findings.txt').read(),re.M)
out.append('\nKnown and not repaired: %s\n'%('none.' if not k else ''.join('\n- '+x for x in k)))
out.append('\n## Planted bugs (seeded/) and what finds them\n\nEvery one compiles, passes the existing tests, has a demonstration, and is found by the quick check of its own property; "also" lists other checks seen to report it (tools/caught.py; filled in as far as that campaign has run).\n\n| bug | property and finder | needs | also |\n|---|---|---|---|\n')
for i in sorted(seeds):
    for s,n in seeds[i]: out.append('| %s | %s | %s | %s |\n'%(s,i,n.replace('|','/'),', '.join(c for c in caught.get(s,[]) if c!=i)))
open('DESIGN.md','w').write(''.join(out))
