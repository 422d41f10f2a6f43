cdef class PyBad:

    cdef Bad *thisptr
    def __cinit__(self):
        self.thisptr = new Bad()
    def setup(self, int nx, int nt, np.ndarray[double] xt, np.ndarray[double] d0):
        self.thisptr.setup(nx, nt, &xt[0], &d0[0])
    def compute(self, int n, np.ndarray[double] x, np.ndarray[double] jac):
        self.thisptr.compute(n, &x[0], &jac[0])
