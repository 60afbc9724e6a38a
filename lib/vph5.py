"""Reading of HDF5 files with the HDF5 library itself, through ctypes (no h5py here)"""
import ctypes, threading, glob
import numpy as np
_L = threading.Lock()
_h = None
def _lib():
    global _h
    if _h is None:
        n = sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libhdf5_openmpi.so*") + glob.glob("/usr/lib/x86_64-linux-gnu/libhdf5*.so*"))
        _h = ctypes.CDLL(n[0], mode=ctypes.RTLD_GLOBAL)
        i64 = ctypes.c_int64
        for f in ("H5Fopen", "H5Dopen2", "H5Dget_space", "H5Dget_type", "H5Gopen2", "H5Aopen_by_idx", "H5Aget_type", "H5Aget_space"):
            getattr(_h, f).restype = i64
        for f in ("H5Tget_size",):
            getattr(_h, f).restype = ctypes.c_size_t
        _h.H5open()
    return _h

class H5Error(Exception):
    pass

_NAT = {(1, 4): "H5T_NATIVE_FLOAT_g", (1, 8): "H5T_NATIVE_DOUBLE_g"}
def _np(h, t):
    cls, size = h.H5Tget_class(ctypes.c_int64(t)), h.H5Tget_size(ctypes.c_int64(t))
    sign = h.H5Tget_sign(ctypes.c_int64(t)) if cls == 0 else 1
    if cls == 1:
        return np.dtype("<f%d" % size)
    if cls == 0:
        return np.dtype("<%s%d" % ("i" if sign else "u", size))
    raise H5Error("type class %d" % cls)

def _objects(h, loc):
    """names of the links of a group"""
    names = []
    CB = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int64, ctypes.c_char_p, ctypes.c_void_p, ctypes.c_void_p)
    def cb(g, n, info, data):
        names.append(n.decode())
        return 0
    c = CB(cb)
    h.H5Literate(ctypes.c_int64(loc), 0, 0, None, c, None) if hasattr(h, "H5Literate") else h.H5Literate2(ctypes.c_int64(loc), 0, 0, None, c, None)
    return names

def read(path):
    """{dataset: array}, {group/attribute: value} of a file; datasets of the root group and of its groups"""
    with _L:
        h = _lib()
        h.H5Eset_auto2(ctypes.c_int64(0), None, None)
        f = h.H5Fopen(path.encode(), 0, ctypes.c_int64(0))
        if f < 0:
            raise H5Error("cannot open %s" % path)
        data, attrs = {}, {}
        try:
            def walk(prefix):
                g = h.H5Gopen2(ctypes.c_int64(f), (prefix or "/").encode(), ctypes.c_int64(0))
                if g < 0:
                    raise H5Error("cannot open group %s" % prefix)
                n = _objects(h, g)
                _attrs(g, prefix)
                h.H5Gclose(ctypes.c_int64(g))
                for x in n:
                    p = prefix + "/" + x
                    d = h.H5Dopen2(ctypes.c_int64(f), p.encode(), ctypes.c_int64(0))
                    if d < 0:
                        walk(p)
                        continue
                    t, s = h.H5Dget_type(ctypes.c_int64(d)), h.H5Dget_space(ctypes.c_int64(d))
                    nd = h.H5Sget_simple_extent_ndims(ctypes.c_int64(s))
                    dims = (ctypes.c_uint64 * max(1, nd))()
                    h.H5Sget_simple_extent_dims(ctypes.c_int64(s), dims, None)
                    a = np.zeros([int(dims[i]) for i in range(nd)], _np(h, t))
                    if a.size and h.H5Dread(ctypes.c_int64(d), ctypes.c_int64(t), ctypes.c_int64(0), ctypes.c_int64(0), ctypes.c_int64(0), a.ctypes.data_as(ctypes.c_void_p)) < 0:
                        raise H5Error("cannot read %s" % p)
                    data[p.lstrip("/")] = a
                    h.H5Dclose(ctypes.c_int64(d))
            def _attrs(g, prefix):
                n = h.H5Aget_num_attrs(ctypes.c_int64(g))
                for i in range(max(0, n)):
                    a = h.H5Aopen_by_idx(ctypes.c_int64(g), b".", 0, 0, ctypes.c_uint64(i), ctypes.c_int64(0), ctypes.c_int64(0))
                    b = ctypes.create_string_buffer(256)
                    h.H5Aget_name(ctypes.c_int64(a), 256, b)
                    t = h.H5Aget_type(ctypes.c_int64(a))
                    v = np.zeros(1, _np(h, t))
                    h.H5Aread(ctypes.c_int64(a), ctypes.c_int64(t), v.ctypes.data_as(ctypes.c_void_p))
                    attrs[(prefix + "/" + b.value.decode()).lstrip("/")] = v[0]
                    h.H5Aclose(ctypes.c_int64(a))
            walk("")
        finally:
            h.H5Fclose(ctypes.c_int64(f))
        return data, attrs
