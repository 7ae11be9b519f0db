from pyvc.terms import *
from pyvc.schema import Schema, ext
from pyvc.contract import Contract
import z3

RES = "diffkemp.semdiff.result.Result"
KIND = Enum(RES + ".Kind")
ENTITY, CALLSTACK = RES + ".Entity", RES + ".Callstack"
CALL = Y                 # a call of a call stack: record with name, file, line


def result_schema(prog):
    s = Schema(prog)
    s.val(CALLSTACK, ("calls", Opt(Seq(Y))))
    s.cls(ENTITY, name=Str, filename=Opt(Str), line=Opt(Int), callstack=Opt(Val(CALLSTACK)), diff_kind=Str, covered=Bool)
    s.cls(RES, kind=KIND, first=Ref(ENTITY), second=Ref(ENTITY), diff=Opt(Str), macro_diff=Opt(Opaque("MacroDiff")),
          graph=Opaque("Graph"), inner=Dict(Str, Ref(RES)), start_time=Opt(Real), stop_time=Opt(Real))
    return s

CG = "diffkemp.semdiff.caching.ComparisonGraph"
VERTEX, EDGE, STATS = CG + ".Vertex", CG + ".Edge", CG + ".FunctionStats"
NFD, SYND, TYPD = CG + ".NonFunDiff", CG + ".SyntaxDiff", CG + ".TypeDiff"
DEP, SIDE = Enum(CG + ".DependencyKind"), Enum(CG + ".Side")
V2 = lambda t: Tuple(t, t)


def graph_schema(prog, entity=("name", "filename", "line", "callstack", "diff_kind", "covered"), files=V2(Opt(Str))):
    s = result_schema(prog)
    ef = dict(name=Str, filename=Opt(Str), line=Opt(Int), callstack=Opt(Val(CALLSTACK)), diff_kind=Str, covered=Bool)
    del s.classes[ENTITY]
    s.val(ENTITY, *[(k, ef[k]) for k in entity])
    s.y_total |= {'name', 'function', 'file', 'line'}
    s.y_lists = True
    s.cls(STATS, inst_cnt=V2(Int), inst_equal_cnt=V2(Int), lines_cnt=V2(Int))
    s.cls(EDGE, parent_vertex=Opt(Ref(VERTEX)), target_name=Str, filename=Opt(Str), line=Int, kind=DEP)
    s.abstract.add(NFD)
    s.cls(NFD, name=Str, parent_fun=Str, callstack=V2(Y))
    s.cls(SYND, NFD, body=V2(Opt(Str)))
    s.cls(TYPD, NFD, file=V2(Opt(Str)), line=V2(Opt(Int)))
    s.cls(VERTEX, names=V2(Str), result=KIND, files=files, lines=V2(Opt(Int)), stats=Opt(Ref(STATS)),
          nonfun_diffs=List(Ref(NFD)), successors=V2(List(Ref(EDGE))), cachable=Bool, prevents_caching_of=List(Ref(VERTEX)),
          predecessors=V2(List(Ref(VERTEX))))
    s.cls(CG, vertices=Dict(Str, Ref(VERTEX)), equal_funs=Set(Str), _normalize_edge_cache=List(Ref(EDGE)),
          _weak_vertex_cache=List(Ref(VERTEX)))
    return s


def opaque_list_map(name, lt, kt, vt):
    """External/opaque function returning (list, dict) that are functions of its arguments."""
    def f(it, args, kw):
        from pyvc.schema import logarg, named
        a, _ = named(args, kw, [])
        zs = [z for x in a for z in logarg(it, x)]
        so = [z.sort() for z in zs]
        l = V(List(lt), it.new_addr())
        it.lset(l, uf("fn_" + name + "_list", *(so + [z3.SeqSort(sort(lt))]))(*zs))
        d = V(Dict(kt, vt), it.new_addr())
        it.dset(d, [uf("fn_%s_map%d" % (name, i), *(so + [s]))(*zs) for i, (k, s) in enumerate(it.dkeys(d))])
        return Tup([l, d])
    return f


def opaque_seq(name, et):
    def f(it, args, kw):
        from pyvc.schema import logarg
        zs = [z for x in args for z in logarg(it, x)]
        l = V(List(et), it.new_addr())
        it.lset(l, uf("fn_" + name, *([z.sort() for z in zs] + [z3.SeqSort(sort(et))]))(*zs))
        return l
    return f


def opaque(name, ret):
    """A function verified by its own contract (or outside this one): an uninterpreted function of its arguments."""
    def f(it, args, kw):
        from pyvc.schema import logarg
        zs = [z for x in args if not (isinstance(x, Marker) and x.k == "class") for z in logarg(it, x)]
        return it.wrap(ret, uf("fn_" + name, *([z.sort() for z in zs] + [sort(ret)]))(*zs))
    return f


def opaque_stacks(s):
    s.models[CG + ".reachable_from"] = opaque_list_map("reachable_from", Ref(VERTEX), Ref(VERTEX), Ref(EDGE))
    s.models["diffkemp.semdiff.caching._get_callstack"] = opaque_seq("get_callstack", Ref(EDGE))
    for f in ("from_edge_objects", "from_simpll_yaml", "__add__"):
        s.models[CALLSTACK + "." + f] = opaque("callstack_" + f, Val(CALLSTACK))
    return s


FILE = Opaque("File")


def opener(**k):
    e = ext("open", FILE, ch="fs", names=("file", "mode"), pure=True, **k)

    def f(it, args, kw):
        if len(args) == 1 and "mode" not in kw:
            kw = dict(kw, mode=it.pylit("r"))
        return e(it, args, kw)
    return f


def file_system(s):
    """Files as a history of operations; the content read is a function of the arguments and the history."""
    s.stubs["open"] = opener()
    s.ext_values["os.sep"] = lambda it: it.pylit("/")
    s.ext_values["os.pardir"] = lambda it: it.pylit("..")
    s.stubs["File.__enter__"] = lambda it, a, kw: a[0]
    s.stubs["File.__exit__"] = lambda it, a, kw: NONE
    s.stubs["File.write"] = ext("write", None, ch="fs", names=("self", "text"))
    s.stubs["File.close"] = lambda it, a, kw: NONE
    s.stubs["os.path.join"] = ext("path_join", Str, pure=True)
    s.stubs["os.path.relpath"] = ext("path_relpath", Str, names=("path", "start"), pure=True)
    s.stubs["os.path.commonprefix"] = ext("path_commonprefix", Str, pure=True)
    for f in ("dirname", "basename", "abspath", "normpath"):
        s.stubs["os.path." + f] = ext("path_" + f, Str, pure=True)
    s.stubs["os.path.splitext"] = ext("path_splitext", V2(Str), pure=True)
    for f in ("isfile", "isdir", "exists", "isabs", "islink"):
        s.stubs["os.path." + f] = ext("path_" + f, Bool, reads=("fs",), pure=True)
    for f in ("remove", "rmdir", "mkdir", "makedirs", "unlink"):
        s.stubs["os." + f] = ext("os_" + f, None, ch="fs", names=("path", "mode", "exist_ok"))
    return s
