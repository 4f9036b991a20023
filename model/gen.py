#!/usr/bin/env python3
"""Writes model/std/bits/*: contract models of the standard containers for the IR build only.
basic_string.h/.tcc are the installed headers with the class body replaced; the rest are whole-file models."""
import re, os, sys
D = os.path.dirname(os.path.abspath(__file__))
B = '/usr/include/c++/13/bits/'
out = os.path.join(D, 'std', 'bits')
os.makedirs(out, exist_ok=True)
L = open(B + 'basic_string.h').read().split('\n')
ci = next(i for i, l in enumerate(L) if l.strip() == 'class basic_string')
ce = next(i for i, l in enumerate(L) if i > ci and l == '    };' )
# last "    };" before the cxx11 namespace ends
end = next(i for i, l in enumerate(L) if '#endif  // _GLIBCXX_USE_CXX11_ABI' in l)
ce = max(i for i, l in enumerate(L[:end]) if l == '    };')
head = L[:ci]
tail = L[ce + 1:]
s = '\n'.join(head) + '\n' + open(os.path.join(D, 'string_class.inc')).read() + '\n'.join(tail)
tail_s = '\n'.join(tail)
tail_s = re.sub(r'_GLIBCXX20_CONSTEXPR', '', tail_s).replace('# define _GLIBCXX_STRING_CONSTEXPR constexpr', '# define _GLIBCXX_STRING_CONSTEXPR')
tail_s = re.sub(r'!_Traits::compare\(__lhs.data\(\), __rhs(\.data\(\))?,\s*__lhs.size\(\)\)', lambda m: '!__builtin_memcmp(__lhs.__vf_p(), __rhs%s, __lhs.size() * sizeof(_CharT))' % ('.__vf_p()' if m.group(1) else ''), tail_s)
s = '\n'.join(head) + '\n' + open(os.path.join(D, 'string_class.inc')).read() + tail_s
s = s.replace('# include <string_view>', '# include <string_view>\n#include "vf_intrin.h"')
open(out + '/basic_string.h', 'w').write(s)
T = open(B + 'basic_string.tcc').read().split('\n')
a = next(i for i, l in enumerate(T) if 'basic_string::getline and operators' in l)
b = next(i for i, l in enumerate(T) if '_GLIBCXX_EXTERN_TEMPLATE' in l)
h = next(i for i, l in enumerate(T) if '_GLIBCXX_BEGIN_NAMESPACE_VERSION' in l)
open(out + '/basic_string.tcc', 'w').write('\n'.join(T[:h + 1] + T[a:b]) + '\n_GLIBCXX_END_NAMESPACE_VERSION\n}\n#endif\n')
# std::find and friends: the plain loop instead of the one unrolled four times (the overload for random access is left out)
t = open(B + 'stl_algobase.h').read()
a = t.index('  /// This is an overload used by find algos for the RAI case.')
b = t.index('  template<typename _Iterator, typename _Predicate>', a)
open(out + '/stl_algobase.h', 'w').write(t[:a] + t[b:])
# std::set, std::map: the installed tree, with the four functions of libstdc++.so as plain (unbalanced) search tree operations
t = open(B + 'stl_tree.h').read()
e = t.rindex('_GLIBCXX_END_NAMESPACE_VERSION')
t = t[:e] + open(os.path.join(D, 'tree_functions.inc')).read() + t[e:]
open(out + '/stl_tree.h', 'w').write(t)
# decimal conversion: some text of a possible length (numbers in messages; -DVF_NUMBERS: digit by digit)
# decimal conversion without loops whose trip count depends on the value (same result, digit by digit)
t = open(B + 'charconv.h').read()
a = t.index('      unsigned __n = 1;')
t = t[:a] + '''#ifndef VF_NUMBERS
      return 1 + __vf_any(sizeof(_Tp) == 8 ? 19 : sizeof(_Tp) == 4 ? 9 : sizeof(_Tp) == 2 ? 4 : 2);
#endif
      if (__base == 10) {
        unsigned __r = 1;
        _Tp __p = 1;
#pragma clang loop unroll(full)
        for (int __i = 1; __i < (sizeof(_Tp) == 8 ? 20 : sizeof(_Tp) == 4 ? 10 : sizeof(_Tp) == 2 ? 5 : 3); ++__i) {
          __p = _Tp(__p * 10);
          __r += __value >= __p;
        }
        return __r;
      }
''' + t[a:]
a = t.index('      unsigned __pos = __len - 1;')
e = t.index('    }\n', t.index("__first[0] = '0' + __val;", a))
t = t[:a] + '''#ifndef VF_NUMBERS
      char* __b = (char*)__vf_alloc(20);
      __builtin_memcpy(__first, __b, __len);
#else
      char __b[20];
#pragma clang loop unroll(full)
      for (int __i = 19; __i >= 0; --__i) {
        __b[__i] = char('0' + __val % 10);
        __val /= 10;
      }
      __builtin_memcpy(__first, __b + (20 - __len), __len);
#endif
''' + t[e:]
t = t.replace('namespace std', '#include "vf_intrin.h"\nnamespace std', 1)
open(out + '/charconv.h', 'w').write(t)
v = open(os.path.join(D, 'vector_model.h')).read().replace('#include <initializer_list>', '#include <initializer_list>\n#include "vf_intrin.h"', 1)
open(out + '/stl_vector.h', 'w').write(v)
open(out + '/vector.tcc', 'w').write('')
open(out + '/stl_bvector.h', 'w').write('')
for n in os.listdir(D):
    if n.endswith('_model.h') and n != 'vector_model.h':
        for t in re.findall(r'^// installs: (\S+)', open(os.path.join(D, n)).read(), flags=re.M):
            open(out + '/' + t, 'w').write(open(os.path.join(D, n)).read())
