"""Blocks and networks: composition of the layers, independence of the batch elements, decoders."""
from fractions import Fraction
import numpy as np
import torch
import ocnn
from symtorch import value as vl
from ocnn.octree import Octree, Points, merge_octrees, init_octree
from ocnn.models import UNet, SegNet, HRNet, ResNet, LeNet, AutoEncoder, OUNet, Image2Shape
from .lib import *
from .c_conv import rows_of

M, NN = ocnn.modules, ocnn.nn


def thin(mod, g):
  """the same network with all channel counts divided by g (at least one)"""
  f = lambda c: max(1, c // g)
  for name, m in list(mod.named_children()):
    if isinstance(m, NN.OctreeConv):      # OctreeDeconv is a subclass
      new = type(m)(f(m.in_channels), f(m.out_channels), list(m.kernel_size), m.stride, m.nempty,
                    use_bias=m.use_bias)
    elif isinstance(m, torch.nn.Linear):
      new = torch.nn.Linear(f(m.in_features), f(m.out_features), m.bias is not None)
    elif isinstance(m, torch.nn.BatchNorm1d):
      new = torch.nn.BatchNorm1d(f(m.num_features))
    else:
      thin(m, g)
      continue
    setattr(mod, name, new)
  return mod


def settle(mod, seed=3):
  """parameters that are small exact numbers, none of them zero; evaluation mode"""
  r = np.random.RandomState(seed)
  def fill(t, neg=0.3):
    # mostly positive: few units are dead behind their ReLU
    v = r.randint(1, 5, tuple(t.shape)) * r.choice([-1, 1], tuple(t.shape), p=[neg, 1 - neg]) / 4.0
    t.copy_(torch.tensor(v, dtype=t.dtype))
  with torch.no_grad():
    for m in mod.modules():
      bn = isinstance(m, torch.nn.BatchNorm1d)
      for p in m._parameters.values():
        if p is not None: fill(p, 0.1 if bn else 0.3)
      if bn:
        fill(m.running_mean, 0.9)
        v = np.array([[0.25, 1.0, 2.25, 4.0][i] for i in r.randint(0, 4, m.num_features)])
        m.running_var.copy_(torch.tensor(v, dtype=torch.float32))
        m.eps = 0.0          # exact square roots
  for p in mod.parameters(): p.requires_grad_(False)
  return mod.eval()


class SmallUNet(UNet):

  def config_network(self):
    self.encoder_channel = [1, 2, 2]
    self.decoder_channel = [2, 1, 2]
    self.encoder_blocks = [1, 1]
    self.decoder_blocks = [1, 1]
    self.head_channel = 2
    self.bottleneck = 1
    self.resblk = M.OctreeResBlock2


def net(kind, nempty, cin=1):
  """(module, call(data, octree, depth, pts), where the output lives)"""
  if kind == 'convbn': return M.OctreeConvBn(cin, 2, nempty=nempty)
  if kind == 'convbnrelu': return M.OctreeConvBnRelu(cin, 2, nempty=nempty)
  if kind == 'downbnrelu': return M.OctreeConvBnRelu(cin, 2, [2], 2, nempty)
  if kind == 'deconvbnrelu': return M.OctreeDeconvBnRelu(cin, 2, [2], 2, nempty)
  if kind == 'resblock': return M.OctreeResBlock(cin, 2, 1, 2, nempty)
  if kind == 'resblock_same': return M.OctreeResBlock(cin, cin, 1, 1, nempty)
  if kind == 'resblock_s2': return M.OctreeResBlock(cin, 2, 2, 2, nempty)
  if kind == 'resblock2': return M.OctreeResBlock2(cin, 2, 1, 1, nempty)
  if kind == 'resblock2_same': return M.OctreeResBlock2(cin, cin, 1, 1, nempty)
  if kind == 'resblock2_s2': return M.OctreeResBlock2(cin, 2, 2, 2, nempty)
  if kind == 'resblocks': return M.OctreeResBlocks(cin, 2, 2, 2, nempty)
  if kind == 'resblocks2': return M.OctreeResBlocks(cin, 2, 2, 1, nempty, M.OctreeResBlock2)
  if kind == 'unet': return SmallUNet(cin, 1, 'nearest', nempty)
  if kind == 'unet_linear': return SmallUNet(cin, 1, 'linear', nempty)
  if kind == 'segnet': return thin(SegNet(cin, 2, 1, 'nearest', nempty), 128)
  if kind == 'segnet2': return thin(SegNet(cin, 2, 2, 'nearest', nempty), 128)
  if kind == 'resnet': return thin(ResNet(cin, 2, 1, 2, nempty), 128)
  if kind == 'lenet': return thin(LeNet(cin, 2, 1, nempty), 64)
  if kind == 'hrnet': return thin(HRNet(cin, 128, 2, nempty=nempty), 128)
  raise KeyError(kind)


def trees(e, fixed, name, k):
  # fixed: {level: (split nodes of the first octree, of the second)}; a list: every one of them
  def pick(d, js):
    return js[e.fork('tree %s%d' % (name, d), range(len(js)))] if isinstance(js, list) else js
  return {d: (lambda i, j=pick(d, j[k]): i in j) for d, j in (fixed or {}).items()}


@intact
def batch_independent(e, kind, depth, full, nempty, cin=1, maxsplit=1, maxlast=1, same=False,
                      fixed=None, up=False, seed=3):
  """a network gives each element of a batch what it gives that element alone"""
  e.flag('relu_atoms')
  m = e.make(lambda: settle(net(kind, nempty, cin), seed))
  ocs = [sym_octree(e, depth, full, 1, name=n, maxsplit=maxsplit, maxlast=maxlast, neigh=False,
                    last=True, fixed=trees(e, fixed, n, k))[0] for k, n in enumerate('ab')]
  mo = merge_octrees(ocs)
  for o in ocs + [mo]:
    o.construct_all_neigh()
    keep(e, o)
  d = depth - 1 if up else depth
  rows = [int(o.nnum_nempty[d]) if nempty else int(o.nnum[d]) for o in ocs]
  X = [e.reals('x' + n, (r, cin)) for n, r in zip('ab', rows)]
  pts = kind.startswith(('unet', 'segnet'))
  call = lambda x, o, p: m(x, o, d, p) if pts else m(x, o, d)
  outs, Q = [], []
  for x, o in zip(X, ocs):
    # inside some of the nodes of the last level, and one fixed point
    q = [[-0.4, 0.2, -0.8]]
    if pts:
      for ne, k in ((True, 3), (False, 4)):
        c = e.V(torch.stack(o.xyzb(depth, nempty=ne)[:3], dim=1)).tolist()
        q += [[e.sub(e.mul(e.add(v, Fraction(f)), Fraction(2, 1 << depth)), 1) for v, f in zip(r, (0.25, 0.5, 0.375))]
              for r in c[:k]]
    Q.append(q)
    outs.append(call(e.T(x), o, e.T([r + [0.0] for r in q])))
  merged = call(e.T([r for x in X for r in x.tolist()]), mo,
                e.T([r + [float(b)] for b, q in enumerate(Q) for r in q]))
  with e.spec():
    want = [r for o in outs for r in e.V(o).tolist()]
    note_rows(e, want)
    e.equal(merged, want, 'batch of two = one at a time')


# ---------------------------------------------------------------- decoders
class Stub(torch.nn.Module):

  def __init__(self, f):
    super().__init__()
    self.f = f

  def forward(self, x): return self.f(x)


def decoder_net(kind, depth, full, cin=1, cout=1, heads=False):
  if kind == 'ae': m = AutoEncoder(cin, cout, depth, full, feature='F', code_channel=512)
  if kind == 'ounet': m = OUNet(cin, cout, depth, full, feature='F')
  if kind == 'img': m = Image2Shape(cout, depth, full, code_channel=512)
  if kind == 'img': m.resnet18 = torch.nn.Identity()
  m.predict, m.header = torch.nn.Identity(), torch.nn.Identity()
  thin(m, 512)
  m.code_channel = 1
  if heads:
    m.predict = torch.nn.ModuleList([m._make_predict_module(1, 2, 1) for d in range(full, depth + 1)])
    m.header = m._make_predict_module(1, cout, 1)
  return settle(m)


def decode(e, kind, depth, full, batch=1, maxsplit=1, maxlast=2, cout=2, real=False):
  """the decoder grows exactly the octree that the predicted labels describe"""
  e.flag('relu_atoms')
  m = e.make(lambda: decoder_net(kind, depth, full))
  L, seen, sig = {}, {}, {}
  def predict(d):
    def f(x):
      n = x.shape[0]
      seen[d] = x
      a = e.reals('logit%d' % d, (n,), -2, 2)
      if real:
        b = e.reals('split%d' % d, (n,), -2, 2)
        f = [e.lt(u, v) for u, v in zip(a, b)]
      else:
        f = e.bits('s%d' % d, n)
        b = [e.ite(g, e.add(u, 1), e.sub(u, Fraction(1, 2)) if i % 2 else u)
             for i, (g, u) in enumerate(zip(f, a))]     # equal logits: no split
      e.assume(e.any_(f))
      e.assume(e.le(e.count(f), maxsplit if d < depth else maxlast))
      L[d] = (a, b, f)
      return e.T([[u, v] for u, v in zip(a, b)])
    return f
  def header(x):
    sig['x'] = x
    sig['v'] = e.reals('signal', (x.shape[0], cout), -2, 2)
    return e.T(sig['v'])
  m.predict = torch.nn.ModuleList([Stub(predict(d)) for d in range(full, depth + 1)])
  m.header = Stub(header)
  rows = batch * 8 ** full
  code = e.reals('code', (rows, 1), -1, 1)
  if kind == 'ounet':
    trees = {d: (lambda i: i % 8 in (1, 6)) for d in range(full, depth + 1)}
    oin = sym_octree(e, depth, full, batch, name='i', neigh=True, fixed=trees)[0]
    oin.features[depth] = e.T(e.reals('x', (int(oin.nnum_nempty[depth]), 1)))
    before = {k: [snapshot(e, t) for t in getattr(oin, k)[full:]] for k in ('keys', 'children')}
    r = m(oin)
  else:
    r = m.decode_code(e.T(code))
  oc = r['octree_out']
  with e.spec():
    geo = Geo(e, full, batch)
    for d in range(full, depth + 1):
      geo.split(d, L[d][2])
      if d < depth: geo.grow(d, len(L[d + 1][0]))
    e.equal(oc.depth, depth, 'depth'), e.equal(oc.full_depth, full, 'full depth')
    e.equal(oc.batch_size, batch, 'batch size')
    e.equal(sorted(r['logits']), list(range(full, depth + 1)), 'levels of the logits')
    for d in range(depth + 1):
      lv, t = geo.levels[d], ' depth %d' % d
      e.equal(int(oc.nnum[d]), lv.n, 'nnum' + t)
      check_rows(e, lv, False, oc.children[d], lambda c: [lv.nidx(c)] if d >= full else [lv.idx(c)], 'children' + t)
      check_rows(e, lv, False, oc.keys[d], lambda c: [c[0] << 48 | interleave(*c[1:], d)], 'keys' + t)
      if d >= full:
        e.equal(oc.nnum_nempty[d], e.count(lv.ne), 'nnum_nempty' + t)
        e.equal(r['logits'][d], [[u, v] for u, v in zip(*L[d][:2])], 'logits' + t)
    lv = geo.levels[depth]
    S = e.V(r['signal'])
    A = [[e.fn('tanh', x) for x in row] for row in sig['v'].tolist()]
    k = S.shape[0]
    e.true(e.eq(k, e.count(lv.ne)), 'rows of the signal')
    rk = lv.ranks()
    depad = lambda rows: [[e.merge([(rows[i][j], e.and_(lv.ne[i], rk[i].get(q, False))) for i in range(lv.n)])
                           for j in range(len(rows[0]))] for q in range(k)]
    if len(A) == lv.n:            # the head is applied to all nodes
      e.equal(sig['x'], seen[depth], 'features of the head')
      e.equal(S, depad(A), 'signal = non-empty leaves')
    else:                         # or to the non-empty leaves only
      e.equal(sig['x'], depad(e.V(seen[depth]).tolist()), 'features of the head')
      e.equal(S, A, 'signal = non-empty leaves')
    e.equal(oc.features[depth], S, 'features of the octree')
    if kind == 'ounet':
      for q, ts in before.items():
        for d, t in enumerate(ts): e.equal(getattr(oin, q)[full + d], t, 'input %s %d' % (q, full + d))


def reconstruct(e, kind, depth, full, fixed, other=None):
  """with a given octree the decoder predicts labels for its nodes and signals for its non-empty
  leaves, element by element, and leaves the octree as it is"""
  e.flag('relu_atoms')
  m = e.make(lambda: decoder_net(kind, depth, full, heads=True))
  def make(name, fixed):
    o = [sym_octree(e, depth, full, 1, name=n + name, neigh=False,
                    fixed=trees(e, fixed, n + name, k))[0] for k, n in enumerate('ab')]
    o.append(merge_octrees(o))
    for x in o: x.construct_all_neigh()
    return o
  ocs = make('', fixed)
  ins = make('in', other) if other else ocs
  X = [e.reals('x' + n, (int(o.nnum_nempty[depth]) if kind != 'img' else 8 ** full, 1))
       for n, o in zip('ab', ins)]
  X.append([r for x in X for r in x.tolist()])
  outs = []
  for x, o, i in zip(X, ocs, ins):
    x = e.T(x)
    keep = [snapshot(e, t) for d in range(full, depth + 1) for t in (o.keys[d], o.children[d], o.neighs[d])]
    if kind != 'img': i.features[depth] = x
    r = m(x, o) if kind == 'img' else m(i, o) if kind == 'ounet' else m(i, False)
    outs.append(r)
    now = [t for d in range(full, depth + 1) for t in (o.keys[d], o.children[d], o.neighs[d])]
    with e.spec():
      for a, b in zip(now, keep): e.equal(a, b, 'octree unchanged')
      if kind == 'img' or other:
        e.true(o.features[depth] is None, 'no signal stored')
      e.equal(tuple(r['signal'].shape), (int(o.nnum_nempty[depth]), 1), 'shape of the signal')
      for d in range(full, depth + 1):
        e.equal(tuple(r['logits'][d].shape), (int(o.nnum[d]), 2), 'shape of the logits')
  a, b, mo = outs
  with e.spec():
    cat = lambda u, v: e.V(u).tolist() + e.V(v).tolist()
    for d in range(full, depth + 1):
      e.equal(mo['logits'][d], cat(a['logits'][d], b['logits'][d]), 'logits of a batch of two %d' % d)
    e.equal(mo['signal'], cat(a['signal'], b['signal']), 'signal of a batch of two')


# ---------------------------------------------------------------- composition of the blocks
BLOCKS = {
    'convbn': lambda ne: M.OctreeConvBn(2, 3, nempty=ne),
    'convbn311': lambda ne: M.OctreeConvBn(2, 3, [3, 1, 1], nempty=ne),
    'convbnrelu': lambda ne: M.OctreeConvBnRelu(2, 3, nempty=ne),
    'down': lambda ne: M.OctreeConvBnRelu(2, 3, [2], 2, ne),
    'up': lambda ne: M.OctreeDeconvBnRelu(2, 3, [2], 2, ne),
    'deconv': lambda ne: M.OctreeDeconvBnRelu(2, 3, nempty=ne),
    'conv1': lambda ne: M.Conv1x1(2, 3, use_bias=True),
    'conv1bn': lambda ne: M.Conv1x1Bn(2, 3),
    'conv1bnrelu': lambda ne: M.Conv1x1BnRelu(2, 3),
    'fcbnrelu': lambda ne: M.FcBnRelu(2, 3),
    'res': lambda ne: M.OctreeResBlock(2, 4, 1, 2, ne),
    'res_same': lambda ne: M.OctreeResBlock(2, 2, 1, 1, ne),
    'res_down': lambda ne: M.OctreeResBlock(2, 2, 2, 2, ne),
    'res2': lambda ne: M.OctreeResBlock2(2, 4, 1, 2, ne),
    'res2_same': lambda ne: M.OctreeResBlock2(2, 2, 1, 1, ne),
    'res2_down': lambda ne: M.OctreeResBlock2(2, 3, 2, 1, ne),
    'blocks': lambda ne: M.OctreeResBlocks(2, 4, 2, 2, ne),
    'blocks_ck': lambda ne: M.OctreeResBlocks(2, 2, 2, 1, ne, use_checkpoint=True),
    'blocks2': lambda ne: M.OctreeResBlocks(2, 3, 2, 1, ne, M.OctreeResBlock2),
}


@intact
def block(e, kind, depth, full, nempty, fixed, batch=2):
  """a block is the documented sequence of its layers"""
  e.flag('relu_atoms')
  m = e.make(lambda: settle(BLOCKS[kind](nempty)))
  tr = {d: (lambda i, j=j: i in j) for d, j in trees_of(e, fixed).items()}
  oc, geo = sym_octree(e, depth, full, batch, neigh=False, fixed=tr)
  oc.construct_all_neigh()
  keep(e, oc)
  d = depth - 1 if kind in ('up',) else depth
  n = int(oc.nnum_nempty[d]) if nempty else int(oc.nnum[d])
  if kind.startswith(('conv1', 'fc')): n = 3
  X = e.reals('x', (n, 2))
  src = x = e.T(X)
  got = m(x) if kind.startswith(('conv1', 'fc')) else m(x, oc, d)
  e.equal(src, X, 'input unchanged')
  P = {k: v for k, v in m.state_dict().items()}

  def conv(x, key, d, ks=3, stride=1, cls=NN.OctreeConv):
    W = P[key + '.weights']
    ks = ks if isinstance(ks, list) else [ks]
    ci, co = W.shape[1], W.shape[2]
    if cls is NN.OctreeDeconv: ci, co = co, ci
    def build():
      l = cls(x.shape[1], W.shape[2] if cls is NN.OctreeConv else co, ks, stride, nempty)
      with torch.no_grad(): l.weights.copy_(W)
      l.weights.requires_grad_(False)
      return l
    return e.make(build)(x, oc, d)

  def rows(x): return e.V(x).tolist()

  def bn(x, key):
    num = lambda t: [Fraction(float(v)) for v in P[key + '.' + t].tolist()]
    w, b, mu, var = num('weight'), num('bias'), num('running_mean'), num('running_var')
    sd = [Fraction(int(round(float(v) ** 0.5 * 2)), 2) for v in var]
    return e.T([[e.add(e.mul(e.sub(v, mu[j]), w[j] / sd[j]), b[j]) for j, v in enumerate(r)] for r in rows(x)])

  relu = torch.relu

  def linear(x, key):
    W = [[Fraction(float(v)) for v in r] for r in P[key + '.weight'].tolist()]
    b = P.get(key + '.bias')
    b = [Fraction(float(v)) for v in b.tolist()] if b is not None else [0] * len(W)
    return e.T([[e.add(e.total([(e.mul(w, v), True) for w, v in zip(W[j], r)]), b[j]) for j in range(len(W))] for r in rows(x)])

  def plus(x, y): return e.T([[e.add(u, v) for u, v in zip(a, b)] for a, b in zip(rows(x), rows(y))])
  c1 = lambda x, k: bn(linear(x, k + 'conv.linear'), k + 'bn')

  def res(x, pre, cin, cout, stride, d):
    if stride == 2: x, d = NN.octree_max_pool(x, oc, d, nempty), d - 1
    y = relu(c1(x, pre + 'conv1x1a.'))
    y = relu(bn(conv(y, pre + 'conv3x3.conv', d), pre + 'conv3x3.bn'))
    y = c1(y, pre + 'conv1x1b.')
    return relu(plus(y, x if cin == cout else c1(x, pre + 'conv1x1c.')))

  def res2(x, pre, cin, cout, stride, d):
    if stride == 2: x, d = NN.octree_max_pool(x, oc, d, nempty), d - 1
    y = relu(bn(conv(x, pre + 'conv3x3a.conv', d), pre + 'conv3x3a.bn'))
    y = bn(conv(y, pre + 'conv3x3b.conv', d), pre + 'conv3x3b.bn')
    return relu(plus(y, x if cin == cout else c1(x, pre + 'conv1x1.')))

  x = e.T(X)
  D = NN.OctreeDeconv
  if kind == 'convbn': want = bn(conv(x, 'conv', d), 'bn')
  if kind == 'convbn311': want = bn(conv(x, 'conv', d, [3, 1, 1]), 'bn')
  if kind == 'convbnrelu': want = relu(bn(conv(x, 'conv', d), 'bn'))
  if kind == 'down': want = relu(bn(conv(x, 'conv', d, 2, 2), 'bn'))
  if kind == 'up': want = relu(bn(conv(x, 'deconv', d, 2, 2, D), 'bn'))
  if kind == 'deconv': want = relu(bn(conv(x, 'deconv', d, 3, 1, D), 'bn'))
  if kind == 'conv1': want = linear(x, 'linear')
  if kind == 'conv1bn': want = c1(x, '')
  if kind == 'conv1bnrelu': want = relu(c1(x, ''))
  if kind == 'fcbnrelu': want = relu(bn(linear(x, 'fc'), 'bn'))
  if kind == 'res': want = res(x, '', 2, 4, 1, d)
  if kind == 'res_same': want = res(x, '', 2, 2, 1, d)
  if kind == 'res_down': want = res(x, '', 2, 2, 2, d)
  if kind == 'res2': want = res2(x, '', 2, 4, 1, d)
  if kind == 'res2_same': want = res2(x, '', 2, 2, 1, d)
  if kind == 'res2_down': want = res2(x, '', 2, 3, 2, d)
  if kind == 'blocks': want = res(res(x, 'resblks.0.', 2, 4, 1, d), 'resblks.1.', 4, 4, 1, d)
  if kind == 'blocks_ck': want = res(res(x, 'resblks.0.', 2, 2, 1, d), 'resblks.1.', 2, 2, 1, d)
  if kind == 'blocks2': want = res2(res2(x, 'resblks.0.', 2, 3, 1, d), 'resblks.1.', 3, 3, 1, d)
  e.equal(got, e.V(want), kind)
  note_rows(e, e.V(want).tolist())


def note_rows(e, rows):
  dep = lambda v: isinstance(v, vl.F) and not vl.is_const_poly(v)
  e.note('rows that depend on the features', sum(any(map(dep, r)) for r in rows))
  e.note('rows', len(rows))


def trees_of(e, fixed):
  return {d: js[e.fork('tree %d' % d, range(len(js)))] if isinstance(js, list) else js
          for d, js in fixed.items()}
