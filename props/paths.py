from cxx2why.unit import Unit
H = 'src/utils/cpp/path.hpp'
FS = 'src/buildtool/file_system/file_system_manager.hpp'
SOURCES = [H, FS]
HARNESS = dict(src='h_paths.cpp', repo=[], quick_s=10, thorough_s=120, hunt_s=60, libs=['-lfmt', '-pthread'])
RULE = 'random paths (relative, absolute, upwards, redundant separators, empty) compared with an independent component-wise walk; random byte strings as file names; symbolic links created and inspected in a scratch directory'
ASSUMPTIONS = [
    'std::filesystem::path is described by its components; lexically_normal() of a relative path starts with ".." exactly if the walk over the components steps above the start (assumed law, compared with an own walk in the bounded harness)',
    '*p.begin() of an empty path gives an empty path (as in libstdc++)',
    'is_symlink / read_symlink / create_symlink are the operating system\'s']
TU = '''#include <string>
#include "%s"
#include "%s"
bool instantiate(std::filesystem::path const& p, std::string const& s) {
  return IsValidFileName(s) and PathIsConfined(p, p) and PathIsNonUpwards(p) and ToNormalPath(p) == p
    and FileSystemManager::IsNonUpwardsSymlink(p) and FileSystemManager::CreateNonUpwardsSymlink(p, p);
}
''' % (H, FS)
SPEC = r'''
  constant dot : str = B"."
  constant dotdot : str = B".."
  function strip (n: str) : str = if path_has_filename n then n else path_parent n
  function normal (p: str) : str = if strip (path_norm p) = empty then dot else strip (path_norm p)
  (* how deep the walk over the first n components ends, relative to its start *)
  function depth (s: seq str) (n: int) : int
  axiom depth_0 : forall s. depth s 0 = 0
  axiom depth_s : forall s n [depth s (n+1)]. 0 <= n -> depth s (n+1) =
    if nth s n = dotdot then depth s n - 1 else if nth s n = dot \/ nth s n = empty then depth s n else depth s n + 1
  (* at some point the walk is above its start *)
  predicate climbs (p: str) = exists n. 0 <= n <= len (path_comps p) /\ depth (path_comps p) n < 0
  axiom norm_climbs : forall p [path_first (path_norm p)]. not (path_is_abs p) -> (path_first (path_norm p) = dotdot <-> climbs p)
  predicate nonup (p: str) = not (path_is_abs p) /\ not (climbs p)
  predicate valid_name (s: str) = s <> empty /\ s <> dot /\ s <> dotdot /\ not (smemb 47 s) /\ not (smemb 0 s)
  (* the file system *)
  val predicate fs_is_link (p: str)
  val function fs_target (p: str) : str
  val create_link (target link: str) : bool requires { [@expl:a link that is created is non-upwards] nonup target }
  val fs_is_symlink (p: str) : bool raises { Cxx -> true } ensures { result <-> fs_is_link p }
  val fs_read_symlink (p: str) : str raises { Cxx -> true } ensures { result = fs_target p }
'''


def units():
    u = Unit('Paths')
    u.spec(SPEC)
    S = ('str',)
    u.extern('CreateSymlink', 'create_link', ('bool',), [0, 1])
    u.extern('is_symlink', 'fs_is_symlink', ('bool',))
    u.extern('read_symlink', 'fs_read_symlink', S)
    u.fn('ToNormalPath', TU, contract='ensures { result = normal p1 }', filter='ToNormalPath')
    u.fn('PathIsNonUpwards', TU, contract='ensures { result <-> nonup p1 }', filter='PathIsNonUpwards')
    u.fn('PathIsConfined', TU, contract='ensures { result <-> not (path_is_abs p1) /\\ nonup (path_app (path_parent p2) p1) }', filter='PathIsConfined')
    u.fn('IsValidFileName', TU, contract='requires { len p1 < npos }\n    ensures { result <-> valid_name p1 }', filter='IsValidFileName')
    u.fn('FileSystemManager::CreateNonUpwardsSymlink', TU, contract='ensures { result -> nonup p1 }', filter='CreateNonUpwardsSymlink')
    u.fn('FileSystemManager::IsNonUpwardsSymlink', TU, contract='ensures { result -> fs_is_link p1 /\\ (p2 \\/ nonup (fs_target p1)) }', filter='IsNonUpwardsSymlink')
    return [u]
