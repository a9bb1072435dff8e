"""Construction of every ADMM sparse coding solver with a symbolic state, and
reference operators of the documented problem it solves."""
from sx import csc, spec
from checks.p06 import base_opt, LAY as _LAY, lay, dimk
from checks.p07 import bmat, BX, winsum

LAY = dict(_LAY)
LAY['2ds'] = ((2, 3), (2, 2), 1, 1, 1, 1)
LAY['2dcds'] = ((2, 2), (1, 2), 2, 2, 1, 2)

LM, MU, EPS, GAM = 0.75, 0.5, 0.75, 1.5

STD = ('BPDN', 'BPDNJoint', 'ElasticNet', 'BPDNProjL1', 'MinL1InL2Ball')
ONE = ('ConvBPDN', 'ConvBPDNJoint', 'ConvElasticNet', 'ConvBPDNGradReg', 'ConvBPDNProjL1')
TWO = ('ConvMinL1InL2Ball', 'ConvBPDNMaskDcpl', 'ConvL1L1Grd')
TVS = ('ConvBPDNScalarTV', 'ConvBPDNVectorTV', 'ConvBPDNRecTV')
PDS = ('ConvProdDictBPDN', 'ConvProdDictBPDNJoint')
PD2 = ('ConvProdDictL1L1Grd', 'ConvProdDictL1L1GrdJoint')


def l1(np, x):
    return np.sum(np.abs(x))


class Fac:
    """kw: w L1 weight kind, gw gradient weights, tw TV weights, w21 weights,
    msk mask kind, B product dictionary kind"""

    def __init__(self, c, cls, l='1d', w=None, gw=0, tw=0, w21=0, msk=None, B=None, opts=None,
                 state=True, newd=0, dual=True, S=None):
        self.c, self.cls = c, cls
        np = self.np = c.np
        S_ = S

        def sig(shp):
            return c.real('S', shp) if S_ is None else c.const(csc.vals(shp, S_))
        o = dict(opts or {})
        Wi = 1.0
        if cls in STD:
            M_ = c.mod('sporco.admm.bpdn')
            N, M, K = {'1d': (2, 3, 2), '1dodd': (3, 2, 1), '1dk': (2, 2, 2)}[l]
            self.xi, self.si = (M, K), (N, K)
            D, S = c.const(csc.vals((N, M), 3)), sig((N, K))
            self.Dx = lambda X: D.dot(X)
            self.DTx = lambda R: D.T.dot(R)
            if w:
                Wi = o['L1Weight'] = csc.vals((M, K), 9) ** 2
            self.ysh = (M + N, K) if cls == 'MinL1InL2Ball' else (M, K)
            args = {'BPDN': (LM,), 'BPDNJoint': (LM, MU), 'ElasticNet': (LM, MU), 'BPDNProjL1': (GAM,),
                    'MinL1InL2Ball': (EPS,)}[cls]
            kws = {}
            self.dimN = 0
            self.Di, self.Si = D, S
            C_ = getattr(M_, cls)
            self.mod = M_
        else:
            N, n, C, Cd, K, M = LAY[l]
            pd = cls in PDS + PD2
            dimN = self.dimN = len(N)
            if pd:
                Bm = self.Bm = bmat(B or 'sq')
                C, Cx = Bm.shape
                Cd = 1
                dsh, ssh = n + (M,), N + (C,) + ((K,) if K > 1 else ())
                di, si, xi = n + (1, 1, M), N + (C, K, 1), N + (Cx, K, M)
            else:
                dsh, ssh, di, si, xi = lay(N, n, C, Cd, K, M)
            self.Cd, self.M, self.K, self.N, self.n = Cd, M, K, N, n
            self.xi, self.si = xi, si
            self.ssh, self.dsh = ssh, dsh
            D, S = c.const(csc.vals(dsh, 5)), sig(ssh)
            Di, Si = D.reshape(di), S.reshape(si)
            self.Di, self.Si = Di, Si
            if w == 'full':
                Wi = o['L1Weight'] = csc.vals(xi, 9) ** 2
            elif w == 'ext':
                e = o['L1Weight'] = csc.vals(ssh + (M,), 9) ** 2
                Wi = e.reshape(N + ((C,) if C > 1 else (1,)) + (K, M))
            self.gwt = 1.0
            if gw:
                self.gwt = o['GradWeight'] = csc.vals((M,), 4) ** 2
            self.Wt = 1.0
            if tw:
                self.Wt = o['TVWeight'] = csc.vals((M,), 4) ** 2
            self.w21 = 1.0
            if w21 == 1:
                self.w21 = o['L21Weight'] = csc.vals((M,), 6) ** 2
            elif w21:
                self.w21 = o['L21Weight'] = csc.vals(N + (1, K, M), 6) ** 2
            kws = dict(dimK=dimk(C, Cd, K), dimN=dimN)
            if pd:
                kws['dimK'] = 1 if K > 1 else 0
            self.mk = 1.0
            if msk:
                mk = c.real('W', {'ext': ssh, 'N': N, 'full': si}[msk], nonneg=True, hi=2)
                kws['W'] = mk
                self.mk = mk.reshape(N + (1, 1, 1)) if msk == 'N' else mk.reshape(si)
            self.ysh = xi
            if cls in TWO:
                self.ysh = xi[:-1] + (M + Cd,)
            elif cls == 'ConvBPDNRecTV':
                self.ysh = xi[:-1] + (M + dimN * Cd,)
            elif cls in TVS:
                self.ysh = xi + (dimN + 1,)
            elif cls in PD2:
                self.ysh = N + ((xi[dimN] * M + C) * K,)
            self.mod = M_ = c.mod('sporco.admm.' + ('cbpdntv' if cls in TVS else 'pdcsc' if pd else
                                                     'cbpdnin' if cls == 'ConvBPDNInhib' else 'cbpdn'))
            C_ = getattr(M_, cls)
            args = {'ConvBPDN': (LM,), 'ConvBPDNProjL1': (GAM,), 'ConvMinL1InL2Ball': (EPS,),
                    'ConvBPDNMaskDcpl': (LM,), 'ConvProdDictBPDN': (LM,)}.get(cls, (LM, MU))
            if cls == 'ConvBPDNInhib':
                args = (None, 3, 'boxcar', LM, MU, 0.25)
            self.Dx = lambda X: csc.Dmul(np, self.Di, X, dimN)
            self.DTx = lambda R: csc.DTmul(np, self.Di, R, dimN)
            if pd:
                self.Dx = lambda X: BX(np, Bm, csc.Dmul(np, self.Di, X, dimN), dimN)
                self.DTx = lambda R: csc.DTmul(np, self.Di, BX(np, Bm.T, R, dimN), dimN)
        self.Wi = Wi
        self.D, self.S = D, S
        if state:
            # (the x step depends on the dual variable only through Y - U)
            o = base_opt(c, self.ysh, **dict(o, **({} if dual else {'U0': np.zeros(self.ysh)})))
        else:
            o = dict({'Verbose': False, 'MaxMainIter': 1, 'RelStopTol': 0.0, 'AutoRho': {'Enabled': False}}, **o)
        self.opt = C_.Options(o)
        if cls in PDS + PD2:
            self.b = C_(D, c.const(self.Bm), S, *args, opt=self.opt, **kws)
        elif cls == 'ConvBPDNInhib':
            self.b = C_(D, S, *args, self.opt, **kws)
        else:
            self.b = C_(D, S, *args, opt=self.opt, **kws)
        if newd:
            D = c.const(csc.vals(D.shape, 15))
            if cls in STD:
                self.b.setdict(D)
            else:
                self.Di = D.reshape(di)
                self.b.setdict(self.Di)
            self.D = D

    # -- layout of the auxiliary variable of two-block problems
    def cat(self, a, x):
        np, dimN = self.np, self.dimN
        if self.cls in STD:
            return np.concatenate((x, a), axis=0)      # (x, D x)
        if self.cls in PD2:
            N = self.N
            return np.concatenate((a.reshape(N + (-1,)), x.reshape(N + (-1,))), axis=dimN)
        if self.Cd > 1:
            a = np.swapaxes(a, dimN, dimN + 2)
        return np.concatenate((a, x), axis=dimN + 2)

    def sep(self, Y):
        """-> (data block, coefficient block)"""
        np, dimN = self.np, self.dimN
        if self.cls in STD:
            M = self.xi[0]
            return Y[M:], Y[:M]
        if self.cls in PD2:
            nd = self.si[dimN] * self.K
            return Y[..., :nd].reshape(self.si), Y[..., nd:].reshape(self.xi)
        a = Y[..., :self.Cd]
        if self.Cd > 1:
            a = np.swapaxes(a, dimN, dimN + 2)
        return a, Y[..., self.Cd:]

    # -- documented constraint A x - y = c
    def A(self, X):
        np, dimN, cls = self.np, self.dimN, self.cls
        if cls in TWO + PD2 or cls == 'MinL1InL2Ball':
            return self.cat(self.Dx(X), X)
        if cls == 'ConvBPDNRecTV':
            DX = csc.Dmul(np, self.Di * self.Wt, X, dimN)
            G = np.stack([csc.grad(np, DX, k) for k in range(dimN)], axis=-1)
            return self.reccat(X, G)
        if cls in TVS:
            return np.stack([self.Wt * csc.grad(np, X, k) for k in range(dimN)] + [X], axis=-1)
        return X

    def reccat(self, X, G):
        """coefficients, then the gradient components (channels moved to the
        filter axis) of the reconstruction"""
        return self.b.block_cat(X, G)

    def cvec(self):
        np, cls = self.np, self.cls
        if cls in TWO + PD2:
            return self.cat(self.Si, np.zeros(self.xi))
        return np.zeros(self.ysh)

    # -- documented functional
    def functional(self, X, G0, G1, F):
        """-> dict of statistics fields.  X: variable of f; F: variable of
        the data fidelity term; G0, G1: variables of the (other) terms"""
        np, dimN, cls, Wi = self.np, self.dimN, self.cls, self.Wi
        out = {}
        if cls in ('BPDN', 'BPDNJoint', 'ElasticNet', 'BPDNProjL1') + ONE + TVS + PDS + ('ConvBPDNInhib',):
            R = self.Dx(F) - self.Si
            out['DFid'] = 0.5 * np.sum(R * R)
        if cls in ('BPDN', 'BPDNJoint', 'ElasticNet', 'ConvBPDN', 'ConvBPDNJoint', 'ConvElasticNet',
                   'ConvBPDNGradReg') + PDS:
            out['RegL1'] = l1(np, Wi * G1)
            out['ObjFun'] = out['DFid'] + LM * out['RegL1']
        if cls == 'BPDNJoint':
            out['RegL21'] = np.sum(np.sqrt(np.sum(G1 * G1, axis=1)))
            out['ObjFun'] = out['ObjFun'] + MU * out['RegL21']
        if cls in ('ConvBPDNJoint', 'ConvProdDictBPDNJoint'):
            out['RegL21'] = np.sum(self.w21 * np.sqrt(np.sum(G1 * G1, axis=dimN, keepdims=True)))
            out['ObjFun'] = out['ObjFun'] + MU * out['RegL21']
        if cls in ('ElasticNet', 'ConvElasticNet'):
            out['RegL2'] = 0.5 * np.sum(G1 * G1)
            out['ObjFun'] = out['ObjFun'] + MU * out['RegL2']
        if cls == 'ConvBPDNGradReg':
            g = 0
            for ax in range(dimN):
                d = csc.grad(np, F, ax)
                g = g + np.sum(self.gwt * d * d)
            out['RegGrad'] = 0.5 * g
            out['ObjFun'] = out['ObjFun'] + MU * out['RegGrad']
        if cls in ('BPDNProjL1', 'ConvBPDNProjL1'):
            out['ObjFun'] = out.pop('DFid')
        if cls in ('ConvMinL1InL2Ball', 'MinL1InL2Ball'):
            out['ObjFun'] = l1(np, Wi * G1)
        if cls == 'ConvBPDNMaskDcpl':
            q = self.mk * G0
            out['DFid'] = 0.5 * np.sum(q * q)
            out['RegL1'] = l1(np, Wi * G1)
            out['ObjFun'] = out['DFid'] + LM * out['RegL1']
        if cls in ('ConvL1L1Grd',) + PD2:
            out['DFid'] = l1(np, self.mk * G0)
            if cls == 'ConvProdDictL1L1GrdJoint':
                nm = 'RegL21'
                out[nm] = np.sum(self.w21 * np.sqrt(np.sum(G1 * G1, axis=dimN, keepdims=True)))
            else:
                nm = 'RegL1'
                out[nm] = l1(np, Wi * G1)
            g = 0
            for ax in range(dimN):
                d = csc.grad(np, X, ax)
                g = g + np.sum(self.gwt * d * d)
            out['RegGrad'] = 0.5 * g
            out['ObjFun'] = out['DFid'] + LM * out[nm] + MU * out['RegGrad']
        if cls in TVS:
            out['RegL1'] = l1(np, Wi * G1)
            ax = {'ConvBPDNScalarTV': (-1,), 'ConvBPDNVectorTV': (dimN + 2, -1), 'ConvBPDNRecTV': (dimN, -1)}[cls]
            out['RegTV'] = np.sum(np.sqrt(np.sum(G0 * G0, axis=ax)))
            out['ObjFun'] = out['DFid'] + LM * out['RegL1'] + MU * out['RegTV']
        return out
