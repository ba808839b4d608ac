"""ctypes view of the public API of the library under test (prototypes: protos.json)."""
import ctypes as C, json, os, math

HERE = os.path.dirname(os.path.abspath(__file__))
PROTOS = json.load(open(os.path.join(HERE, "protos.json")))

class Datum(C.Structure):
    _fields_ = [("v", C.c_int64), ("t", C.c_int32), ("fl", C.c_uint32)]

class Interval(C.Structure):
    _fields_ = [("t", C.c_int32), ("lo", C.c_int64), ("hi", C.c_int64), ("li", C.c_int32), ("ui", C.c_int32)]

class Elem(C.Structure):
    _fields_ = [("file", C.c_char_p), ("line", C.c_int), ("func", C.c_char_p)]

VAL = {"ccs_datum_t": Datum, "ccs_bool_t": C.c_int32, "ccs_float_t": C.c_double, "ccs_int_t": C.c_int64,
       "ccs_numeric_t": C.c_int64, "size_t": C.c_size_t, "int": C.c_int, "ccs_evaluation_result_t": C.c_int32,
       "unsigned long int": C.c_ulong, "ccs_result_t": C.c_int32}
ENUMS = {"ccs_expression_type_t", "ccs_numeric_type_t", "ccs_objective_type_t", "ccs_scale_type_t",
         "ccs_serialize_format_t", "ccs_serialize_operation_t"}

def argtype(t):
    if t in VAL:
        return VAL[t]
    if t in ENUMS:
        return C.c_int32
    if t == "const char*":
        return C.c_char_p
    return C.c_void_p

OT = ["rng", "dist", "param", "expr", "cs", "conf", "os", "eval", "tuner", "fs", "feat", "feval", "ftuner", "map",
      "err", "tree", "tspace", "tconf", "teval", "ttuner"]

class Lib:
    def __init__(self, path):
        L = self.L = C.CDLL(path)
        for n, (ret, args) in PROTOS.items():
            f = getattr(L, n)
            if ret == "ccs_result_t":
                f.restype = C.c_int32
            elif ret == "ccs_error_stack_t":
                f.restype = C.c_void_p
            elif ret == "void":
                f.restype = None
            elif ret == "ccs_bool_t":
                f.restype = C.c_int32
            elif ret == "const char*":
                f.restype = C.c_char_p
            if not any(a[0] == "..." for a in args):
                f.argtypes = [argtype(a[0]) for a in args]
            setattr(self, n[4:], f)
        for n, rt in (("vp_get_live", C.c_long), ("vp_fail_disarm", C.c_long), ("vp_io_used", C.c_long),
                      ("vp_io_ncalls", C.c_long), ("vp_io_log", C.c_long), ("vp_rng_used", C.c_long), ("vp_rng_get_type", C.c_void_p),
                      ("vp_gsl_type", C.c_void_p)):
            getattr(L, n).restype = rt
        L.vp_fail_arm.argtypes = [C.c_long]
        L.vp_io_log.argtypes = [C.c_void_p, C.c_long]
        L.vp_io_script.argtypes = [C.c_int, C.c_void_p, C.c_long]
        L.vp_rng_script.argtypes = [C.c_void_p, C.c_long, C.c_uint64]
        L.vp_gsl_type.argtypes = [C.c_int]

    def take_error(self):
        """(code, has message, number of locations) of the pending thread error, or None; clears it"""
        e = self.get_thread_error()
        if not e:
            return None
        code = C.c_int32(0)
        msg = C.c_char_p()
        n = C.c_size_t(0)
        el = C.c_void_p()
        self.error_stack_get_code(e, C.byref(code))
        self.error_stack_get_message(e, C.byref(msg))
        self.error_stack_get_elems(e, C.byref(n), C.byref(el))
        r = (code.value, 1 if msg.value else 0, n.value)
        self.release_object(e)
        return r

# ---- datum codec -----------------------------------------------------------
IMAX, IMIN = 2**63 - 1, -2**63
EXT = 1000010           # spec integers EXT-10..EXT stand for INT_MAX-10..INT_MAX
FINF = 2**21            # spec float 2^21 stands for infinity
TN, TI, TF, TB, TS, TX, TO = range(7)

QBIG = {2 * IMAX // (2 * k + 1): 800010 - k for k in range(2, 10)}

def emb_i(v):
    if 800000 < abs(v) < 800009:      # a quantization: 2 INT_MAX / (2 k + 1) for k = 2..9
        return (1 if v > 0 else -1) * (2 * IMAX // (2 * (800010 - abs(v)) + 1))
    if v > 900000:
        return IMAX - (EXT - v)
    if v < -900000:
        return IMIN + (EXT + v)
    return v

def unemb_i(a):
    if a > IMAX - 1000:
        return EXT - (IMAX - a)
    if a < IMIN + 1000:
        return -EXT + (a - IMIN)
    if a > 2**59 and a in QBIG:
        return QBIG[a]
    if a > 900000:
        return 900000
    if a < -900000:
        return -900000
    return a

def emb_f(n, k):
    if k == 0 and n == FINF:
        return math.inf
    if k == 0 and n == -FINF:
        return -math.inf
    return n / float(1 << k)

def mu2v(f):
    """as f2v, and powers of two up to 2^64 (means of normal distributions)"""
    m, e = math.frexp(abs(f))
    return ["f", int(math.copysign(1048000 + e - 1, f)), 0] if m == .5 and 32 <= e - 1 <= 64 else f2v(f)

def v2mu(v):
    n, k = v[1], v[2]
    return math.copysign(2. ** (abs(n) - 1048000), n) if k == 0 and 1048032 <= abs(n) <= 1048064 else emb_f(n, k)

def f2v(f):
    """order-preserving abstraction: exact on the grid 2^-8, centre of the cell otherwise"""
    if f != f:
        return ["nan"]
    if f == math.inf:
        return ["f", FINF, 0]
    if f == -math.inf:
        return ["f", -FINF, 0]
    if abs(f) >= 2048:
        if f == int(f) and abs(f) < 2**20:
            return ["f", int(f), 0]
        return ["f", (2**20 if f > 0 else -2**20) , 0]
    n = f * 256
    if n == math.floor(n):
        n, k = int(n), 8
    else:
        n, k = 2 * math.floor(n) + 1, 9
    while k > 0 and n % 2 == 0:
        n //= 2
        k -= 1
    return ["f", n, k]

def bits(f):
    return C.c_int64.from_buffer(C.c_double(f)).value

def unbits(i):
    return C.c_double.from_buffer(C.c_int64(i)).value
