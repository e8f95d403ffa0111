"""Convolutions against a geometric reference."""
import torch
import ocnn
from .lib import *


def set_param(mod, name, t):
  """replace a parameter by a given (symbolic) tensor"""
  mod._parameters.pop(name, None)
  mod.__dict__.pop(name, None)
  setattr(mod, name, t)


def rows_of(oc, lv, nempty):
  return int(oc.nnum_nempty[lv.depth]) if nempty else lv.n


def conv_ref(e, lv, up, kernel, stride, nempty, X, W, depth, bias=None, depthwise=False):
  """returns (level of the output, want(c))"""
  K = KOFFS[kernel]
  _, _, pick, _ = lv.sel(nempty)
  Cin = X.shape[1]
  Cout = W.shape[2]
  def at(c):
    out = []
    for m in range(Cout):
      acc = []
      for k, o in enumerate(K):
        s = shift(c, o)
        if not inside(s, depth): continue
        for j in ([m] if depthwise else range(Cin)):
          acc.append((e.mul(pick(s, X[:, j]), W[k, 0 if depthwise else j, m]), True))
      if bias is not None: acc.append((bias[m], True))
      out.append(e.total(acc))
    return out
  if stride == 1:
    return lv, at
  def down(p):
    v = at(child_cell(p, 0))
    if nempty: return v
    return [e.ite(up.nonempty(p), x, 0) for x in v]
  return up, down


def tree(e, depth, full, batch, nempty, maxsplit, maxlast):
  """an octree of depth depth (+1 when nothing but the level itself matters)"""
  return sym_octree(e, depth, full, batch, maxsplit=maxsplit, last=nempty, maxlast=maxlast)


@intact
def conv(e, depth, full, batch, kernel, stride, nempty, cin=1, cout=1, direct=False, buf=None,
         bias=False, maxsplit=None, maxlast=None, dw=False, warm=False):
  """OctreeConv / OctreeDWConv forward; buf: max_buffer in rows of the column matrix"""
  oc, geo = tree(e, depth, full, batch, nempty, maxsplit, maxlast)
  lv, up = geo.levels[depth], geo.levels[depth - 1]
  n = rows_of(oc, lv, nempty)
  K = len(KOFFS[kernel])
  ks = [int(kernel[0])] if len(set(kernel)) == 1 else [int(x) for x in kernel]
  kw = {}
  if buf is not None: kw['max_buffer'] = buf
  if dw:
    m = e.make(lambda: ocnn.nn.OctreeDWConv(cin, ks, stride, nempty, use_bias=bias, **kw))
    cout = cin
    wshape = (K, 1, cin)
  else:
    m = e.make(lambda: ocnn.nn.OctreeConv(cin, cout, ks, stride, nempty, direct_method=direct, use_bias=bias, **kw))
    wshape = (K, cin, cout)
  with e.spec():
    e.equal(list(m.weights.shape), list(wshape), 'shape of the weights')
  X = e.reals('x', (n, cin))
  W = e.reals('w', wshape)
  set_param(m, 'weights', e.T(W))
  b = None
  if bias:
    b = e.reals('b', (cout,))
    set_param(m, 'bias', e.T(b))
  x = e.T(X)
  if warm: m(filled(e, n, cin), twin(oc, full, nempty), depth)
  out = m(x, oc, depth)
  with e.spec():
    olv, want = conv_ref(e, lv, up, kernel, stride, nempty, X, W, depth, b, dw)
    check_rows(e, olv, nempty, out, want, 'convolution')
    e.equal(x, X, 'input unchanged')


def deconv_ref(e, lv, up, kernel, stride, nempty, X, W, depth, bias=None):
  """output lives on level `depth`; for stride 2 the input lives on the level above"""
  K = KOFFS[kernel]
  src = lv if stride == 1 else up
  _, _, pick, _ = src.sel(nempty)
  Cout, Cin = W.shape[1], W.shape[2]
  def want(c):
    out = []
    for m in range(Cout):
      acc = []
      for k, o in enumerate(K):
        s = shift(c, (-o[0], -o[1], -o[2]))
        if not inside(s, depth): continue
        if stride == 2:
          if octant(s): continue
          s = parent_cell(s)
          for j in range(Cin):
            v = e.mul(pick(s, X[:, j]), W[k, m, j])
            acc.append((e.ite(src.nonempty(s), v, 0), True))
        else:
          for j in range(Cin):
            acc.append((e.mul(pick(s, X[:, j]), W[k, m, j]), True))
      if bias is not None: acc.append((bias[m], True))
      out.append(e.total(acc))
    return out
  return want


@intact
def deconv(e, depth, full, batch, kernel, stride, nempty, cin=1, cout=1, direct=False, buf=None,
           bias=False, maxsplit=None, maxlast=None, warm=False):
  """OctreeDeconv; `depth` is the depth of the output"""
  oc, geo = tree(e, depth, full, batch, nempty, maxsplit, maxlast)
  lv, up = geo.levels[depth], geo.levels[depth - 1]
  src = lv if stride == 1 else up
  n = rows_of(oc, src, nempty)
  K = len(KOFFS[kernel])
  ks = [int(kernel[0])] if len(set(kernel)) == 1 else [int(x) for x in kernel]
  kw = {} if buf is None else {'max_buffer': buf}
  m = e.make(lambda: ocnn.nn.OctreeDeconv(cin, cout, ks, stride, nempty, direct_method=direct, use_bias=bias, **kw))
  with e.spec():
    e.equal(list(m.weights.shape), [K, cout, cin], 'shape of the weights')
  X = e.reals('x', (n, cin))
  W = e.reals('w', (K, cout, cin))
  set_param(m, 'weights', e.T(W))
  b = None
  if bias:
    b = e.reals('b', (cout,))
    set_param(m, 'bias', e.T(b))
  x = e.T(X)
  if warm: m(filled(e, n, cin), twin(oc, full, nempty), src.depth)
  out = m(x, oc, src.depth)
  with e.spec():
    want = deconv_ref(e, lv, up, kernel, stride, nempty, X, W, depth, b)
    check_rows(e, lv, nempty, out, want, 'deconvolution')
    e.equal(x, X, 'input unchanged')


@intact
def grads(e, depth, full, batch, kernel, stride, nempty, kind='conv', cin=1, cout=1, buf=None,
          direct=False, maxsplit=None, maxlast=None):
  """d<g, f(x, w)>/dx and /dw computed by the library's backward"""
  oc, geo = tree(e, depth, full, batch, nempty, maxsplit, maxlast)
  lv, up = geo.levels[depth], geo.levels[depth - 1]
  _, _, pickl, _ = lv.sel(nempty)
  K = KOFFS[kernel]
  ks = [int(kernel[0])] if len(set(kernel)) == 1 else [int(x) for x in kernel]
  nl = rows_of(oc, lv, nempty)
  ns = nl if stride == 1 else rows_of(oc, up, nempty)
  dw = kind == 'dwconv'
  if kind == 'deconv':
    nx, ng = ns, nl
    wshape = (len(K), cout, cin)
  else:
    nx, ng = nl, ns
    if dw: cout = cin
    wshape = (len(K), 1 if dw else cin, cout)
  kw = {} if buf is None else {'max_buffer': buf}
  if dw: m = e.make(lambda: ocnn.nn.OctreeDWConv(cin, ks, stride, nempty, **kw))
  else:
    cls = ocnn.nn.OctreeConv if kind == 'conv' else ocnn.nn.OctreeDeconv
    m = e.make(lambda: cls(cin, cout, ks, stride, nempty, direct_method=direct, **kw))
  X, W, Gr = e.reals('x', (nx, cin)), e.reals('w', wshape), e.reals('g', (ng, cout))
  x, w, g = e.T(X).requires_grad_(True), e.T(W).requires_grad_(True), e.T(Gr)
  set_param(m, 'weights', w)
  out = m(x, oc, depth - 1 if kind == 'deconv' and stride == 2 else depth)
  gx, gw = torch.autograd.grad(out, [x, w], g)
  with e.spec():
    # bilinear form: sum over (small cell p, offset o) of small(p) * W[o] * large(c0(p)+o)
    big, small = (X, Gr) if kind != 'deconv' else (Gr, X)
    cb, cs = big.shape[1], small.shape[1]
    def center(p):
      return p if stride == 1 else child_cell(p, 0)
    slv = lv if stride == 1 else up
    sopts = lv.sel(nempty)[3]
    if stride == 2:
      sopts = up.sel(nempty)[3]
      if not nempty:      # rows of empty nodes of the coarse level do not take part
        sopts = lambda p: {i: e.and_(g, up.nonempty(p)) for i, g in up.opts[p].items()}
    lopts = lv.sel(nempty)[3]
    def lpick(c, j):
      return pickl(c, big[:, j]) if inside(c, depth) else 0
    # gradient of the weights
    GW = []
    for k, o in enumerate(K):
      for a in range(1 if dw else cb):
        for b_ in range(cs):
          acc = []
          for p in slv.cells():
            s = shift(center(p), o)
            if not inside(s, depth): continue
            lv_ = lpick(s, b_ if dw else a)
            for i, gd in sopts(p).items():
              if i < small.shape[0]:
                acc.append((e.mul(lv_, small[i, b_]), gd))
          GW.append(e.total(acc))
    e.equal(e.V(gw).reshape(-1), GW, 'gradient of the weights')
    # gradient of the input
    if kind == 'deconv':
      def want(p):
        res = []
        for m in range(cin):
          acc = []
          for k, o in enumerate(K):
            s = shift(center(p), o)
            if not inside(s, depth): continue
            for j in range(cout):
              acc.append((e.mul(lpick(s, j), W[k, j, m]), True))
          v = e.total(acc)
          res.append(v if stride == 1 or nempty else e.ite(up.nonempty(p), v, 0))
        return res
      check_rows(e, slv, nempty, gx, want, 'gradient of the input')
    else:
      def want(c):
        res = []
        for m in range(cin):
          acc = []
          for k, o in enumerate(K):
            s = shift(c, (-o[0], -o[1], -o[2]))
            if not inside(s, depth): continue
            if stride == 2:
              if octant(s): continue
              s = parent_cell(s)
            for j in ([m] if dw else range(cout)):
              for i, gd in sopts(s).items():
                if i < small.shape[0]:
                  acc.append((e.mul(small[i, j], W[k, 0 if dw else m, j]), gd))
          res.append(e.total(acc))
        return res
      check_rows(e, lv, nempty, gx, want, 'gradient of the input')


@intact
def group(e, depth, full, batch, kernel, stride, nempty, cin, cout, groups, bias=False,
          maxsplit=None, maxlast=None):
  oc, geo = tree(e, depth, full, batch, nempty, maxsplit, maxlast)
  lv, up = geo.levels[depth], geo.levels[depth - 1]
  n = rows_of(oc, lv, nempty)
  K = len(KOFFS[kernel])
  ks = [int(kernel[0])] if len(set(kernel)) == 1 else [int(x) for x in kernel]
  m = e.make(lambda: ocnn.nn.OctreeGroupConv(cin, cout, ks, stride, nempty, use_bias=bias, group=groups))
  X = e.reals('x', (n, cin))
  ci, co = cin // groups, cout // groups
  Ws = [e.reals('w%d' % i, (K, ci, co)) for i in range(groups)]
  Bs = [e.reals('b%d' % i, (co,)) if bias else None for i in range(groups)]
  with e.spec():
    e.equal(len(m.convs), groups, 'number of groups')
  for i, cv in enumerate(m.convs):
    set_param(cv, 'weights', e.T(Ws[i]))
    if bias: set_param(cv, 'bias', e.T(Bs[i]))
  x = e.T(X)
  out = m(x, oc, depth)
  with e.spec():
    refs = [conv_ref(e, lv, up, kernel, stride, nempty, X[:, i * ci:(i + 1) * ci], Ws[i], depth,
                     Bs[i]) for i in range(groups)]
    olv = refs[0][0]
    check_rows(e, olv, nempty, out, lambda c: [v for _, w in refs for v in w(c)],
               'group convolution')
    e.equal(x, X, 'input unchanged')
