"""C++ type strings (as printed by Clang) -> model types."""
import re
from .ast import ExtractError

INTS = {
    'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False),
    'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True),
    'unsigned long long': (64, False), 'short': (16, True), 'unsigned short': (16, False),
    'unsigned char': (8, False), 'signed char': (8, True),
    'size_t': (64, False), 'std::size_t': (64, False), 'size_type': (64, False),
    'difference_type': (64, True), 'std::ptrdiff_t': (64, True), 'std::streamsize': (64, True),
    'streamsize': (64, True), 'ssize_t': (64, True), 'uintmax_t': (64, False), 'std::uintmax_t': (64, False),
    'int8_t': (8, True), 'int16_t': (16, True), 'int32_t': (32, True), 'int64_t': (64, True),
    'uint8_t': (8, False), 'uint16_t': (16, False), 'uint32_t': (32, False), 'uint64_t': (64, False),
    'char_type': None, 'int_type': (32, True),
}
for _k in list(INTS):
    if _k.endswith('_t'):
        INTS['std::' + _k.replace('std::', '')] = INTS[_k]
del INTS['char_type']


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def strip_cv(s):
    s = s.strip()
    while True:
        t = s
        s = s.strip()
        for p in ('const ', 'volatile ', 'class ', 'struct ', 'enum ', 'typename ', 'mutable '):
            if s.startswith(p):
                s = s[len(p):]
        for p in (' const', ' volatile', '&&', '&', ' noexcept', '__restrict'):
            if s.endswith(p):
                s = s[:-len(p)]
        if s == t:
            return s


BASIC = {
    'bool': ('bool',), 'char': ('char',), 'void': ('unit',), 'std::string': ('str',),
    'std::string_view': ('str',), 'std::basic_string<char>': ('str',), 'string': ('str',),
    'std::basic_string_view<char>': ('str',), 'basic_string<char>': ('str',), 'basic_string_view<char>': ('str',),
    'std::filesystem::path': ('str',), 'path': ('str',), 'fs::path': ('str',),
    'std::byte': ('int', 8, False),
    'string_type': ('str',), 'double': ('float',), 'float': ('float',),
    'std::stringstream': ('stream',), 'std::ostringstream': ('stream',), 'std::basic_stringstream<char>': ('stream',),
    'std::basic_ostringstream<char>': ('stream',),
    'std::istringstream': ('istream',), 'std::basic_istringstream<char>': ('istream',),
    'std::basic_ostream<char>': ('stream',), 'std::ostream': ('stream',),
    'std::basic_istream<char>': ('istream',), 'basic_istream<char>': ('istream',),
    '__istream_type': ('istream',),
    'std::nullopt_t': ('nullopt',), 'std::nullptr_t': ('nullptr',),
    'nlohmann::json': ('json',), 'json': ('json',),
    # justbuild's own value types (see DESIGN.md, "model types")
    'ExpressionPtr': ('expr',), 'Expression': ('expr',), 'Expression::list_t': ('vec', ('expr',)),
    'list_t': ('vec', ('expr',)), 'Expression::map_t': ('map', ('str',), ('expr',)), 'map_t': ('map', ('str',), ('expr',)),
    'Expression::number_t': ('float',), 'number_t': ('float',),
    'Expression::none_t': ('none',), 'none_t': ('none',),
    'std::monostate': ('none',),
    'Expression::map_t::underlying_map_t': ('map', ('str',), ('expr',)),
    'underlying_map_t': ('map', ('str',), ('expr',)),
    'Configuration': ('cfg',), 'SubExprEvaluator': ('evalfn',),
    'LinkedMap<std::string, ExpressionPtr, ExpressionPtr>': ('map', ('str',), ('expr',)),
    'LinkedMap<std::basic_string<char>, ExpressionPtr, ExpressionPtr>': ('map', ('str',), ('expr',)),
    'linked_map_t': ('map', ('str',), ('expr',)),
    'EvaluationError': ('exc',), 'Evaluator::EvaluationError': ('exc',), 'std::exception': ('exc',),
}


class Types:
    def __init__(self, extra=None):
        self.extra = dict(extra or {})
        self.cache = {}

    def parse(self, s):
        if s in self.cache:
            return self.cache[s]
        t = self._parse(s)
        self.cache[s] = t
        return t

    def _parse(self, s0):
        s = strip_cv(s0)
        if s in self.extra:
            return self.extra[s]
        if s in BASIC:
            return BASIC[s]
        if s in INTS:
            b, sg = INTS[s]
            return ('int', b, sg)
        if s.startswith('std::__cxx11::'):
            return self.parse('std::' + s[len('std::__cxx11::'):])
        m = re.match(r'^(?:const )?char ?\[\d*\]$', s)
        if m:
            return ('str',)
        if s.endswith('*'):
            inner = s[:-1].strip()
            if strip_cv(inner) == 'char' and 'const' in inner:
                return ('str',)
            if strip_cv(inner) == 'char':
                return ('charptr',)
            return self.parse(inner)
        if s.startswith('(lambda at'):
            return ('lambda',)
        m = re.match(r'^([A-Za-z_:0-9]+)<(.*)>$', s)
        if m:
            head, args = m.group(1), split_args(m.group(2))
            h = head.split('::')[-1]
            A = self.parse
            if h in ('vector', 'deque', 'list', 'initializer_list', 'span', 'array'):
                return ('vec', A(args[0]))
            if h == 'optional':
                return ('opt', A(args[0]))
            if h == 'set':
                return ('set', A(args[0]))
            if h == 'unordered_set':
                return ('uset', A(args[0]))
            if h == 'map':
                return ('map', A(args[0]), A(args[1]))
            if h == 'unordered_map':
                return ('umap', A(args[0]), A(args[1]))
            if h == 'pair':
                return ('pair', A(args[0]), A(args[1]))
            if h == 'tuple':
                return ('tuple',) + tuple(A(a) for a in args)
            if h == 'expected':
                return ('opt', A(args[0]))
            if h == 'unexpected':
                return ('nullopt',)
            if h == 'variant':
                return ('var',) + tuple(A(a) for a in args)
            if h in ('reference_wrapper', 'shared_ptr', 'unique_ptr', 'not_null'):
                return A(args[0])
            if h == 'AtomicValue':
                return A(args[0])
            if h == '__normal_iterator':
                return ('viter', A(strip_cv(args[0]).rstrip('*')))
            if h == 'reverse_iterator':
                return ('rviter',)
            if h in ('_Rb_tree_const_iterator', '_Rb_tree_iterator', '_Node_iterator', '_Node_const_iterator'):
                return ('miter', A(args[0]))
            if h in ('basic_format_string', 'format_string'):
                return ('str',)
            if h == 'function':
                return ('fn',)
            if h in ('iter_impl', 'iteration_proxy'):
                return ('json_' + h,)
            if h in ('basic_string', 'basic_string_view'):
                return ('str',)
            if h in ('basic_json', 'json_ref'):
                return ('json',)
            if h == 'LinkedMap':
                return ('map', ('str',), ('expr',))
        m = re.match(r'^(?:const )?(.*) ?\[(\d*)\]$', s)
        if m:
            return ('vec', self.parse(m.group(1)))
        if s == 'auto' or '<dependent' in s:
            raise ExtractError('dependent type %r' % s0)
        return ('unknown', s)


def why(t):
    k = t[0]
    if k in ('int', 'char'):
        return 'int'
    if k == 'bool':
        return 'bool'
    if k == 'unit':
        return 'unit'
    if k in ('str', 'stream', 'charptr'):
        return 'str'
    if k == 'istream':
        return 'istream'
    if k == 'vec':
        return '(seq %s)' % why(t[1])
    if k == 'opt':
        return '(option %s)' % why(t[1])
    if k in ('set', 'uset'):
        return '(fset %s)' % why(t[1])
    if k in ('map', 'umap'):
        return '(fmap %s %s)' % (why(t[1]), why(t[2]))
    if k in ('pair', 'tuple'):
        return '(' + ', '.join(why(x) for x in t[1:]) + ')'
    if k == 'var':
        if len(t) == 3:
            return '(or2 %s %s)' % (why(t[1]), why(t[2]))
    if k in ('expr', 'json'):
        return k
    if k == 'cfg':
        return 'expr'
    if k == 'float':
        return 'num'
    if k == 'none':
        return 'unit'
    if k == 'rec' or k == 'abs':
        return t[1]
    if k == 'enum':
        return 'int'
    raise ExtractError('no model for type %r' % (t,))
