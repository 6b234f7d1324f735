"""Table: std function -> model body (models/models.rs)."""
import os, re
from facts import Program
_M = None
def get():
    global _M
    if _M is None:
        _M = Program(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "build", "models"))
    return _M

O = "core::option::Option::"; R = "core::result::Result::"; I = "core::iter::traits::iterator::Iterator::"
T = {}
for m in ("map and_then ok_or ok_or_else unwrap_or unwrap_or_else unwrap_or_default map_or map_or_else is_some_and is_none_or filter or or_else as_ref as_mut "
          "as_deref as_deref_mut copied unwrap is_some is_none take replace insert get_or_insert_with get_or_insert zip flatten inspect xor take_if transpose").split():
    T[O + m] = "models::opt_" + m
T[O + "cloned"] = "models::opt_copied"
T[O + "expect"] = "models::opt_expect"; T[R + "expect"] = "models::res_expect"
for m in "map map_err and_then or_else ok err unwrap_or unwrap_or_else unwrap_or_default map_or map_or_else is_ok is_err is_ok_and is_err_and unwrap inspect_err inspect as_ref as_mut".split():
    T[R + m] = "models::res_" + m
T["bool::then"] = "models::bool_then"; T["bool::then_some"] = "models::bool_then_some"
for m in "then then_with is_lt is_le is_gt is_ge is_eq is_ne reverse".split(): T["core::cmp::Ordering::" + m] = "models::ord_" + m
for m in "map filter filter_map inspect copied take_while map_while skip_while chain zip for_each fold any all find find_map position count collect min_by_key max_by_key min_by max_by min max take skip".split(): T[I + m] = "models::it_" + m
T["bevy_ecs::system::commands::parallel_scope::ParallelCommands::command_scope"] = "models::scope1"
T[I + "cloned"] = "models::it_copied"
T["core::iter::traits::collect::Extend::extend"] = "models::coll_extend"
for c in ("smallvec::SmallVec", "alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque", "alloc::collections::binary_heap::BinaryHeap"):
    T[c + "::retain"] = "models::coll_retain1"; T[c + "::retain_mut"] = "models::coll_retain1"
for c in ("indexmap::map::IndexMap", "bevy_platform::collections::hash_map::HashMap", "hashbrown::map::HashMap", "alloc::collections::btree::map::BTreeMap"):
    T[c + "::retain"] = "models::coll_retain2"
T = {k: v for k, v in T.items() if v}

def lookup(names, fv, argtys):
    n = names[0]
    r = T.get(n) if n != I + "collect" else None
    if r: return r
    if n == "core::ops::try_trait::Try::branch":
        t = (fv.args[4][0] if fv.args[4] else None) or (argtys[0] or "")
        if t.startswith("core::option"): return "models::opt_branch"
        return "models::res_branch"
    if n == I + "collect" and len(fv.args[4]) > 1 and re.match(r"core::(result::Result|option::Option)<", fv.args[4][1]):
        return "models::it_collect_res" if "result::Result" in fv.args[4][1][:30] else "models::it_collect_opt"
    if n == I + "collect": return T[n]
    if n in (I + "try_for_each", I + "try_fold"):
        # return type decides
        t = ",".join(fv.args[4])
        r = fv.args[4][-1] if fv.args[4] else ""
        if "ControlFlow" in r: return None
        if n.endswith("try_fold"): return "models::it_try_fold_opt" if r.startswith("core::option::Option<") else "models::it_try_fold_res"
        return "models::it_try_for_each_opt" if re.search(r"core::option::Option<[^,]*>$", t) else "models::it_try_for_each_res"
    return None
