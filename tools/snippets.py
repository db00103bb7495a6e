"""Small functions over the library surface used by the repository; tools/crosscheck.py runs each of them natively and
inside the verifier on the same inputs. A, B: float vectors, I: integer vector, Q: bit vector, M: float matrix,
n, k: integers, x, y: floats, D: bytes, L: list of integers."""
import numpy as np
import scipy.special
from bitstring import Bits, BitArray
import struct


def add_scalar(A, x): return A + x
def sub_arr(A, B): return A - B
def mul_arr(A, B): return A * B
def div_arr(A, B): return A / (np.abs(B) + 1)
def compare(A, x): return A > x
def compare2(A, B): return (A <= B) & (A != B)
def where3(A, B): return np.where(A > B, A, B)
def where1(Q): return np.where(Q == 1)[0]
def flatnz(Q): return np.flatnonzero(Q)
def sum1(A): return np.sum(A)
def sum2(A): return A.sum()
def sum_ax0(M): return M.sum(axis=0)
def sum_ax1(M): return M.sum(axis=1)
def mean_(A): return np.mean(A)
def mean_ax0(M): return M.mean(axis=0)
def mean_ax1(M): return np.mean(M, axis=1)
def max_(A): return np.max(A)
def min_(A): return A.min()
def argmax_(A): return np.argmax(A)
def argmin_(A): return np.argmin(A)
def max_ax(M): return np.max(M, axis=1)
def clip_(A): return np.clip(A, -1, 1.5)
def clip2(A): return A.clip(-1, 1)
def sign_(A): return np.sign(A)
def maximum_(A, B): return np.maximum(A, B)
def minimum_(A, x): return np.minimum(A, x)
def abs_(A): return np.abs(A)
def power_(A): return A ** 2
def sq(A): return np.square(A)
def zeros_(n): return np.zeros(n)
def ones_(n): return np.ones((2, n))
def full_(n, x): return np.full(n, x)
def zl(A): return np.zeros_like(A)
def ol(A): return np.ones_like(A)
def eye_(): return np.eye(3)
def arange1(n): return np.arange(n)
def arange2(n): return np.arange(2, n + 2)
def app(A, x): return np.append(A, x)
def app2(A, B): return np.append(A, B)
def conc(A, B): return np.concatenate((A, B))
def hst(A, B): return np.hstack((A, B))
def colst(A): return np.column_stack((A, A * 2))
def app_ax(M, A3): return np.append(M, A3[:, np.newaxis], axis=1)
def resh(A): return A.reshape(len(A), 1)
def resh2(M): return M.reshape(-1)
def flat(M): return M.flatten()
def transp(M): return M.T
def matm(M): return M @ M.T
def dot_(A, B): return np.dot(A, B)
def matvec(M): return M @ np.array([1.0, 2.0])
def vecmat(M): return np.array([1.0, 2.0, 0.5]) @ M
def diag_(): return np.diag([1.0, 2.0, 3.0])
def pad_(A): return np.pad(A, (1, 2))
def any_(Q): return np.any(Q)
def all_(Q): return np.all(Q == 1)
def anyb(A): return (A > 0).any()
def allb(A): return (A > 0).all()
def py_any(L): return any(v > 1 for v in L)
def py_all(L): return all(v > 1 for v in L)
def py_sum(L): return sum(L)
def py_sum_gen(L): return sum(v * 2 for v in L)
def py_min(L): return min(L)
def py_max(L): return max(L)
def py_maxkey(L): return max(L, key=lambda v: -v)
def py_sorted(L): return sorted(L)
def py_index(L): return L[-1], L[0], L[1:]
def py_slice(L, k): return L[k:], L[:k], L[::2]
def py_comp(L): return [v + 1 for v in L if v > 1]
def py_enum(L): return [(i, v) for i, v in enumerate(L)]
def py_zip(L): return [a - b for a, b in zip(L, L[1:])]
def py_rev(L): return list(reversed(L))
def py_div(n, k): return n // k, n % k, (n + 3) / k
def py_divneg(n, k): return (-n) // k, (-n) % k, n // -k, n % -k
def py_int(x): return int(x), round(x), float(x), bool(x), abs(x)
def py_pow(n): return 2 ** n, n ** 2
def py_bits(n, k): return n & k, n | k, n ^ k, n << 2, n >> 1
def py_chain(x, y): return 0 < x <= y, x if x > y else y
def py_bool(n, k): return (n > 1 and k > 1), (n > 1 or k > 1), not n
def py_loop(L):
    t = 0
    for v in L:
        if v == 0:
            continue
        if v > 5:
            break
        t += v
    else:
        t = -t
    return t
def py_while(n):
    t, i = 0, 0
    while i < n:
        i += 1
        t = t * 2 + i
    return t
def py_dict(L):
    d = {}
    for v in L:
        d[v % 3] = d.get(v % 3, 0) + 1
    return [d.get(i, 0) for i in range(3)]
def py_try(L, k):
    try:
        return L[k + 2]
    except IndexError:
        return -1
    finally:
        L.append(k)
def py_inplace(A, k):
    b = A
    b[k] = 7
    c = A.copy()
    c[k] = 9
    return A, c
def view_alias(A):
    v = A[1:]
    v += 1
    v[0] *= 2
    return A
def view_col(M):
    v = M[:, 1]
    v -= 1
    return M
def row_write(M, k):
    M[k, :] = [5, 6]
    return M
def col_write(M):
    M[:, 0] = M[:, 1] * 2
    return M
def mask_write(A, x):
    A[A > x] = 0
    return A
def mask_read(A, x): return A[A > x]
def mask_read_sum(A, x): return A[A > x].sum()
def mask_count(A, x): return (A > x).sum(), len(A[A > x])
def mask_arr_write(A, B):
    A[A > 0] = B[A > 0]
    return A
def fancy(A): return A[[0, 2, 1]]
def fancy_w(A):
    A[[0, 2]] = A[[2, 0]]
    return A
def neg_index(A): return A[-1], A[-2:]
def slice_clip(A, n): return A[:n + 10], A[n + 10:], A[-100:]
def newaxis(A): return A[:, np.newaxis] * A[np.newaxis, :]
def bcast(M): return M - M.mean(axis=1)[:, np.newaxis]
def isnan_(A, x): return np.isnan(np.append(A, np.nan))
def nan2num(A): return np.nan_to_num(np.append(A, np.nan))
def nansum(A): return np.sum(np.append(A, np.nan)) > 0
def nancmp(A):
    b = np.append(A, np.nan)
    return b > 0, b == b, b != b
def astype_int(A): return A.astype(int)
def astype_b(A): return A.astype(bool)
def bool_arith(A): return (A > 0) * 2 + (A > 1)
def bool_sum(A): return (A > 0).astype(np.int_).sum()
def xor_(Q): return Q ^ 1, (Q + 1) % 2
def invert(Q): return ~(Q == 1)
def packb(Q8): return np.packbits(Q8)
def unpackb(D): return np.unpackbits(np.frombuffer(D, dtype=np.uint8))
def bits_bin(n): return Bits(uint=n, length=8).bin
def bits_bytes(D): return Bits(bytes=D).bin
def bits_arr(D): return np.array(list(Bits(bytes=D)), dtype=np.int_)
def bits_tobytes(Q8): return Bits(auto=Q8).tobytes()
def bits_slice(D): return Bits(bytes=D[1:2]).uint
def by_slice(D): return D[1:], D[0], len(D), D[-1], D[:2]
def by_cat(D): return D + bytes([1, 2])
def by_cmp(D): return D == D[:], D[:1] == b'\x01'
def from_b(D): return int.from_bytes(D[:2], 'little'), int.from_bytes(D[:2], 'big')
def to_b(n): return n.to_bytes(2, 'little')
def st_unpack(D): return struct.unpack('<BH', D[:3])
def st_unpack_s(D): return struct.unpack('<bh', D[:3])
def st_pack(n, k): return struct.pack('<BHi', n, k, -n)
def int_arr(L): return np.array(L)
def arr_list(I): return I.tolist(), list(I)
def unique_(I): return np.unique(I)
def isin_(I): return np.isin(I, [1, 2])
def sort_(A): return np.sort(A)
def shape_(M): return M.shape, M.size, M.ndim, len(M)
def fdiv_arr(I): return I // 2, I % 3
def tup(n, k):
    a, b = k, n
    (a, b), c = (b, a), a + b
    return a, b, c
def star(L):
    a, *b = L
    return a, b
def default(n, k=3, *a, **kw): return n + k + len(a) + len(kw)
def closure(n):
    t = [0]
    def g(v):
        t[0] += v
        return t[0]
    return g(n), g(1)
def augd(L):
    M = L
    M += [1]
    L[0] += 5
    return L, M
def genexp(L): return tuple(v for v in L if v % 2), list(map(lambda v: v * 3, L)), list(filter(lambda v: v > 2, L))
def log_pos(A): return np.log(np.abs(A) + 1) >= 0
def exp_pos(A): return np.exp(A) > 0
def log_ratio(x): return np.log((1 + abs(x)) / (1 + abs(x)))
def exp_log(x): return np.exp(np.log(1 + abs(x)))
def log_(A): return np.log(np.abs(A) + 0.5)
def exp_(A): return np.exp(A)
def sqrt_(A): return np.sqrt(np.abs(A))
def log2_(A): return np.log2(np.abs(A) + 0.5)
def logi(A): return np.exp(-A) / (1 + np.exp(-A))
def outer_loop(M):
    s = 0
    for r in M:
        for v in r:
            s += v
    return s
def iter_arr(A): return [v * 2 for v in A]
def matrows(M): return [list(r) for r in M]
def lst2(L): return [L, L + [1]][1], L * 2, 3 in L, L.count(1)
def strs(n): return str(n) == '3', f'{n}' == '3'
def nz_tuple(Q): return np.nonzero(Q)[0], Q.nonzero()[0]
def filt_ops(A): return A[A > 0] * 2 + 1, np.abs(A[A < 0])
def filt_len0(A): return len(np.where(A > 100)[0]), np.where(A > 100)[0].size
def filt_mean(A): return np.mean(A[A > -100])
def idx_write(A, Q):
    A[np.where(Q == 1)[0]] = -5
    return A
def idx_read(A, Q): return A[np.flatnonzero(Q)]
def setdefault_(L):
    d = {}
    for v in L:
        d.setdefault('a', []).append(v)
    return d['a'], len(d)
def dict_iter(n, k):
    d = {'u': n, 'v': k}
    d['u'] += 1
    return [d[q] for q in d], list(d.values()), 'u' in d, 'w' in d, d.get('w')
def nested_fn(A, k):
    def inner(z, f=2):
        return z * f + k
    return inner(A), inner(A, f=3)
def cond_expr(A, k): return A if k > 1 else -A
def multi_assign(A):
    a = b = A
    a[0] = 1
    return b
def aug_list(L):
    a = L[:]
    a.append(4)
    a.extend([5, 6])
    a.insert(1, 9)
    a.pop()
    a.pop(0)
    return a, L
def list_w(L, k):
    L[k] = 9
    L[1:2] = [7, 7]
    return L
def round_half(x): return round(x + 0.5), round(x * 2), np.round(x)
def int_trunc(x): return int(x), int(-x), x // 1, x % 1
def cmp_chain(A): return np.sum((A > -1) & (A < 1)), np.sum((A > 1) | (A < -1)), np.sum(~(A > 0))
def logical(A, B): return np.logical_and(A > 0, B > 0), np.logical_or(A > 0, B > 0), np.logical_not(A > 0)
def where_scalar(A): return np.where(A > 0, 1, -1)
def where_nested(A): return np.where(A > 1, 1, np.where(A < -1, -1, 0))
def sum_keepd(M): return M.sum(axis=1, keepdims=True) if False else M / (np.abs(M).sum(axis=1)[:, None] + 1)
def vstack_(A): return np.vstack((A, A + 1))
def mat_slice(M): return M[1:, :], M[:, :1], M[-1], M[:, -1], M[1, 0]
def mat_aug(M):
    M[1:, 0] += 3
    M[0] *= 2
    return M
def mean_empty_axis(M): return np.mean(M, 0), np.mean(M[:, -1:], axis=1)
def while_conc():
    t, i = 0, 0
    while i < 5:
        i += 1
        if i == 2:
            continue
        if i == 4:
            break
        t += i
    return t, i
def assert_(n):
    try:
        assert n > 1, 'small'
        return 1
    except AssertionError:
        return 0
def raise_(n):
    if n == 2:
        raise ValueError('two')
    return n
def raise_type(L): return L[10]
def zero_div(n): return n / (n - n)
def class_use(n):
    class C:
        z = 3
        def __init__(self, q): self.q = q
        @property
        def dbl(self): return self.q * 2
        @staticmethod
        def st(v): return v + 1
    c = C(n)
    c.z += 1
    return c.dbl, c.z, C.st(c.q)
def max_default(L): return max([v for v in L if v > 100], default=-1), min(3, L[0]), max(L[0], L[1], 2)
def sum_start(L): return sum(L, 5), sum([v > 2 for v in L])
def enum_start(L): return [(i, v) for i, v in enumerate(L, 1)]
def range_step(): return [i for i in range(1, 9, 3)], [i for i in range(5, 0, -2)]
def zip3(L, A): return [(a, b) for a, b in zip(L, [1, 2])]
def any_iter(A): return any(A > 1), all(A > -100)
def isinst(n, x, A, L): return isinstance(n, int), isinstance(x, float), isinstance(A, np.ndarray), isinstance(L, list), isinstance(n, (str, bytes))
def walrus(n): return (q := n + 1) * q
def fstr_unused(n):
    s = f'{n} items'
    return n
def del_(L):
    del L[0]
    return L
def arr_eq(A, B): return np.array_equal(A, A.copy()), bool((A == A).all())
def size_ops(A, M): return len(A), A.size, M.shape[0], M.shape[1], A.shape
def neg_mod(L): return [(-v) % 3 for v in L], [v - 7 // 2 for v in L]
def true_div(L): return [v / 2 for v in L]
def bool_index(A, Q): return A[Q == 1].sum(), A[Q.astype(bool)].sum()
def bitxor_sum(Q): return np.sum(Q ^ (1 - Q)), np.sum(np.bitwise_xor(Q, 1))
def minus_one(Q): return (-1) ** Q, 1 - 2 * Q
def abs_cmp(x, y): return abs(x - y) < 1, -x, +x
def einsum_(M): return np.einsum('ij,ik->jk', M, M + 1), np.einsum('ij,kj->ik', M, M)
def einsum_vec(A, B): return np.einsum('i,i->', A, A * 2)
def tensordot_(M): return np.tensordot(M, M, axes=([0], [0])), np.tensordot(M, M.T, axes=1)
def argmax_axis(M): return np.argmax(M, axis=1), np.argmax(M, axis=0), np.argmin(M, axis=1), M.argmax(axis=1)
def max_axis(M): return np.max(M, axis=0), np.max(M, axis=1), M.max(axis=1), np.min(M, axis=1)
def max_axis_sum(M): return np.sum(np.max(M, axis=1)), (M - M.max(axis=1)[:, np.newaxis])
def logsumexp_(A3): return scipy.special.logsumexp(A3)
def logsumexp_axis(M): return scipy.special.logsumexp(M, axis=1)
def argmax_vec(A): return np.argmax(A), A.argmin()
def kw_first(n): return np.zeros(shape=(n,)), np.ones(shape=n)
def kw_arr(A): return np.sum(a=A), np.mean(a=A)
