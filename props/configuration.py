from cxx2why.unit import Unit
from .evalcommon import REPO_SRC, X
H = X + 'configuration.hpp'
SOURCES = [H]
HARNESS = dict(src='h_config.cpp', repo=REPO_SRC, quick_s=10, thorough_s=120, hunt_s=60)
RULE = 'random maps built by chains of updates (single variables, plain maps, map expressions), compared with a std::map; pruned with lists of strings, sets of strings and list expressions including unset, duplicate and non-string entries'
ASSUMPTIONS = ['a LinkedMap of expressions built from a next map and an own map is the union in which the own entries win (decided by the check of the layered-map property)',
    'the expression a Configuration holds is a map (its constructors require it)']
TU = '''#include <string>
#include <vector>
#include "%s"
void instantiate(Configuration const& c, std::vector<std::string> const& v, ExpressionPtr const& e, Expression::map_t::underlying_map_t const& m) {
  (void)c.Prune(v); (void)c.Prune(e); (void)c.Update("", e); (void)c.Update(m); (void)c.Update(e); (void)c.VariableFixed(""); (void)c[""]; (void)c[e];
}
''' % H
SPEC = r'''
  predicate strs (l: seq expr) (n: int) = forall i [nth l i]. 0 <= i < n -> is_str_v (nth l i)
  predicate upto (l: seq str) (n: int) (k: str) = exists i. 0 <= i < n /\ nth l i = k
  (* the value of variable k: none if it is not set *)
  function value (c: expr) (k: str) : expr = match mget (map_v c) k with Some v -> v | None -> e_none end
  (* exactly the first n given variables, with their values *)
  predicate pruned (m: fmap str expr) (c: expr) (vs: seq str) (n: int) = forall k [mget m k].
    (upto vs n k -> mget m k = Some (value c k)) /\ (not (upto vs n k) -> mget m k = None)
  predicate uptoe (l: seq expr) (n: int) (k: str) = exists i. 0 <= i < n /\ nth l i = mk_str k
  predicate prunede (m: fmap str expr) (c: expr) (vs: seq expr) (n: int) = forall k [mget m k].
    (uptoe vs n k -> mget m k = Some (value c k)) /\ (not (uptoe vs n k) -> mget m k = None)
'''


def units():
    u = Unit('Configuration')
    u.spec(SPEC)
    this = [('expr_', 'c', ('expr',), False)]

    def m(name, contract, **k):
        u.fn('Configuration::' + name, TU, contract='requires { is_map_v c }\n    ' + contract, filter='Configuration', this=this, thisval=('c', ('expr',)), **k)

    def param(i, txt):
        def f(d):
            ps = [c for c in d.get('inner', []) if c.get('kind') == 'ParmVarDecl']
            return len(ps) > i and txt in ps[i]['type']['qualType']
        return f
    n1 = lambda d: len([c for c in d.get('inner', []) if c.get('kind') == 'ParmVarDecl']) == 1
    u.lemma('upto_s', 'forall l n k [upto l (n+1) k]. 0 <= n -> (upto l (n+1) k <-> upto l n k \\/ nth l n = k)')
    u.lemma('uptoe_s', 'forall l n k [uptoe l (n+1) k]. 0 <= n -> (uptoe l (n+1) k <-> uptoe l n k \\/ nth l n = mk_str k)')
    m('Prune', 'ensures { is_map_v result /\\ pruned (map_v result) c p1 (len p1) }', pick=param(0, 'vector'), why='prune_names',
      loops={1: dict(inv=['pruned $subset c sq1 it1'])})
    m('Prune', '''raises { Cxx -> not (is_list_v p1 /\\ strs (list_v p1) (len (list_v p1))) }
    ensures { is_list_v p1 /\\ strs (list_v p1) (len (list_v p1)) /\\ is_map_v result /\\ prunede (map_v result) c (list_v p1) (len (list_v p1)) }''', pick=param(0, 'ExpressionPtr'), why='prune_expr',
      loops={1: dict(inv=['strs sq1 it1', 'prunede $subset c sq1 it1'])})
    m('Update', 'ensures { is_map_v result /\\ forall k. mget (map_v result) k = if k = p1 then Some p2 else mget (map_v c) k }', pick=param(1, 'ExpressionPtr'), why='update_var')
    m('Update', 'ensures { is_map_v result /\\ map_v result = munion (map_v c) p1 }', pick=lambda d: n1(d) and param(0, 'underlying_map_t')(d), why='update_map')
    m('Update', 'requires { is_map_v p1 }\n    ensures { is_map_v result /\\ map_v result = munion (map_v c) (map_v p1) }', pick=lambda d: n1(d) and param(0, 'ExpressionPtr')(d), why='update_expr')
    m('VariableFixed', 'ensures { result <-> mget (map_v c) p1 <> None }')
    m('operator[]', 'ensures { result = value c p1 }', pick=param(0, 'string'), why='get_name')
    m('operator[]', 'raises { Cxx -> not (is_str_v p1) }\n    ensures { is_str_v p1 /\\ result = value c (str_v p1) }', pick=param(0, 'ExpressionPtr'), why='get_expr')
    return [u]
