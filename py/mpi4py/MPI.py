"""Stand-in for mpi4py.MPI (not installed here): what qdd uses, with mpi4py's semantics for bcast of Python objects."""
import ctypes, os, pickle

_l = ctypes.CDLL(os.path.join(os.path.dirname(__file__), "libvmpi.so"), mode=ctypes.RTLD_GLOBAL)
_l.v_init()


class _World:
    def Get_rank(self):
        return _l.v_rank()

    def Get_size(self):
        return _l.v_size()

    rank = property(Get_rank)
    size = property(Get_size)

    def bcast(self, obj, root=0):
        me = _l.v_rank()
        data = pickle.dumps(obj, -1) if me == root else b""
        n = ctypes.c_long(len(data))
        _l.v_bcast(ctypes.byref(n), ctypes.sizeof(n), root)
        buf = ctypes.create_string_buffer(data, n.value) if me == root else ctypes.create_string_buffer(n.value)
        _l.v_bcast(buf, n.value, root)
        return obj if me == root else pickle.loads(buf.raw)  # as mpi4py: the root keeps its own object

    def barrier(self):
        _l.v_barrier()

    Barrier = barrier

    def finish(self):
        _l.v_barrier()
        _l.v_finalize()

    def Abort(self, errorcode=0):
        _l.v_abort(errorcode)


COMM_WORLD = _World()
