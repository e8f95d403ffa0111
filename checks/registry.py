"""Which harnesses decide which property."""
ASSUMPTIONS = [
    'tensors live on the CPU; float tensors are exact reals unless a harness says otherwise',
    'the aten operators follow their documented semantics as encoded in symtorch/tensor.py; '
    'on every path a model is run on the real torch kernels and compared',
]
META = {}
QUICK = {}
THOROUGH = {}


def describe(js):
  """the ranges of the configuration parameters of the quick jobs"""
  names = {'depth': 'depth', 'full': 'full depth', 'batch': 'batch size', 'kernel': 'kernels',
           'kernels': 'kernels', 'stride': 'strides', 'n': 'points', 'ns': 'points per octree',
           'nempty': 'non-empty numbering', 'maxsplit': 'split nodes per level at most',
           'maxlast': 'non-empty leaves at most', 'cin': 'input channels', 'cout': 'output channels',
           'C': 'channels', 'buf': 'memory budgets (elements)', 'direct': 'method', 'groups': 'groups',
           'dtype': 'dtypes', 'prob': 'drop probabilities', 'bids': 'batch assignments',
           'channels': 'channels', 'splits': 'split nodes per octree'}
  out = []
  for k, t in names.items():
    v = []
    for _, _, c in js:
      x = c.get(k)
      if k in c and x not in v: v.append(x)
    if v:
      flat = []
      for x in v:
        for y in (x if k == 'kernels' else [x]):
          if y not in flat: flat.append(y)
      out.append('%s %s' % (t, '/'.join(str(y) for y in flat)))
  return '. Quick configurations: ' + '; '.join(out) if out else ''


def prop(pid, bounds, quick, thorough=(), assumptions=()):
  META[pid] = {'bounds': bounds + describe(quick), 'assumptions': list(assumptions)}
  QUICK[pid] = list(quick)
  THOROUGH[pid] = list(thorough)


def jobs(pid, tier):
  return QUICK[pid] if tier == 'quick' else QUICK[pid] + THOROUGH[pid]


def J(mod, fn, **cfg):
  return (mod, fn, cfg)



DEPTHS = list(range(1, 17))
prop('P01', 'one or two nodes with arbitrary coordinates in [0,2^depth) and batch index in '
     '[0,32768), as 64-bit vectors, for every depth 1..16', [
    *[J('c_keys', 'codec', depth=d) for d in DEPTHS],
    *[J('c_keys', 'codec', depth=d, batch=False, kind='int') for d in (1, 7, 8, 9, 15, 16)],
    *[J('c_keys', 'codec', depth=d, kind='float') for d in (1, 5, 8, 9, 12, 16)],
    J('c_keys', 'codec', depth=9, kind='short', n=2),
    *[J('c_keys', 'inverse', depth=d) for d in DEPTHS],
    *[J('c_keys', 'order', depth=d) for d in (1, 2, 5, 8, 9, 12)],
    *[J('c_keys', 'scalar_batch', depth=d, b=b) for d, b in ((3, 5), (16, 32767))],
], [
    *[J('c_keys', 'codec', depth=d, n=3) for d in DEPTHS],
    *[J('c_keys', 'codec', depth=d, n=2, batch=False, kind='float') for d in DEPTHS],
    *[J('c_keys', 'order', depth=d) for d in DEPTHS],
])

prop('P02', 'one to three points with arbitrary cells (bit vectors) and arbitrary real offsets inside the cell', [
    J('c_build', 'build', n=1, depth=1, full=0),
    J('c_build', 'build', n=2, depth=3, full=1),
    J('c_build', 'build', n=2, depth=4, full=2),
    J('c_build', 'build', n=3, depth=2, full=0),
    J('c_build', 'build', n=2, depth=9, full=0),
    J('c_build', 'build', n=3, depth=3, full=1, batch=2, bids=[1, 0, 1]),
    J('c_build', 'build', n=2, depth=3, full=2, batch=3, bids=[2, 1]),
    J('c_build', 'build', n=1, depth=16, full=0, batch=40, bids=[37]),
    J('c_build', 'build', n=2, depth=15, full=0, batch=2, bids=[1, 1]),
])
prop('P03', 'one to three points with arbitrary cells, real offsets, normals and features', [
    J('c_build', 'signals', n=1, depth=2, full=1),
    J('c_build', 'signals', n=2, depth=3, full=1),
    J('c_build', 'signals', n=3, depth=2, full=1),
    J('c_build', 'signals', n=3, depth=2, full=1, batch=2, bids=[1, 0, 1]),
])
prop('P04', 'two or three points with arbitrary cells, offsets, normals and features distributed over two batch elements', [
    J('c_build', 'batched', n=2, depth=3, full=1, bids=[1, 0]),
    J('c_build', 'batched', n=3, depth=2, full=1, bids=[1, 0, 1]),
    J('c_build', 'batched', n=3, depth=2, full=1, bids=[2, 0, 1], order=[2, 0, 1]),
    J('c_build', 'batched', n=2, depth=16, full=0, bids=[0, 1], order=[1, 0]),
    J('c_build', 'batched', n=2, depth=2, full=2, bids=[0, 1]),
    J('c_build', 'batched', n=2, depth=1, full=1, bids=[1, 0]),
    J('c_build', 'batched', n=2, depth=3, full=2, bids=[1, 0]),
    J('c_build', 'merge_pipeline', ns=[1, 2], depth=2, full=1),
])
prop('P05', 'two or three octrees built from one or two points each with arbitrary cells, offsets, normals, features', [
    J('c_build', 'merge', ns=[1, 2], depth=3, full=1),
    J('c_build', 'merge', ns=[2, 1, 1], depth=2, full=1),
    J('c_build', 'merge', ns=[1, 1, 1, 1], depth=2, full=1),
    J('c_build', 'merge', ns=[1, 1], depth=16, full=0),
])

O = 'c_octree'
prop('P06', 'all 0/1 split labels (symbolic Booleans) of all nodes at each level, up to the stated number of split nodes', [
    J(O, 'structure', depth=2, full=0, batch=1, maxlast=1),
    J(O, 'structure', depth=2, full=1, batch=2, maxsplit=1, maxlast=2),
    J(O, 'structure', depth=2, full=1, batch=1, maxsplit=3, maxlast=1),
    J(O, 'structure', depth=3, full=2, batch=1, maxsplit=1, maxlast=1),
    J(O, 'split_none', depth=2, batch=1),
    J(O, 'structure', depth=1, full=0, batch=12, maxsplit=1, maxlast=1),
    J(O, 'chain', depth=16, full=1, batch=2, b=1, deep=1),
    J(O, 'chain', depth=9, full=1, batch=70, b=69, deep=2),
    *[J(O, 'split_values', dtype=d) for d in ('int32', 'int64', 'bool', 'uint8')],
])
prop('P07', 'every octree that grows from a full octree by any split labels within the stated node bounds, all nodes and all 27 directions', [
    J(O, 'neigh_table', depth=1, full=0, batch=2),
    J(O, 'neigh_table', depth=2, full=1, batch=1),
    J(O, 'neigh_table', depth=2, full=2, batch=2),
    J(O, 'neigh_table', depth=3, full=1, batch=1, maxsplit=2),
    J(O, 'neigh_table', depth=2, full=1, batch=2, maxsplit=2, rebuild=True),
    J(O, 'neigh_merged', depth=2, full=1, splits=[2, 2]),
    J(O, 'neigh_again', depth=2, full=1, batch=1, maxsplit=2),
    J(O, 'neigh_again', depth=3, full=1, batch=2, maxsplit=1),
    J(O, 'neigh_built', n=2, depth=2, full=0),
    J(O, 'neigh_built', n=2, depth=3, full=1),
])
K8 = ['333', '311', '131', '113', '331', '313', '133', '222']
prop('P08', 'every octree that grows from a full octree by any split labels within the node bounds, all supported kernels and strides', [
    J(O, 'neigh_kernels', depth=2, full=1, batch=1, kernels=K8, stride=1, nempty=False),
    J(O, 'neigh_kernels', depth=2, full=1, batch=1, kernels=K8, stride=2, nempty=False),
    J(O, 'neigh_kernels', depth=1, full=1, batch=2, kernels=K8, stride=1, nempty=True, maxlast=3),
    J(O, 'neigh_kernels', depth=2, full=1, batch=1, kernels=['333', '222'], stride=1, nempty=True, maxsplit=2, maxlast=2),
    J(O, 'neigh_kernels', depth=2, full=1, batch=1, kernels=['333', '222', '131'], stride=2, nempty=True, maxsplit=2, maxlast=2),
    J(O, 'neigh_errors'),
])
prop('P09', 'every octree within the node bounds, one or two query cells as symbolic bit vectors (including outside the box)', [
    J(O, 'search', depth=2, full=1, batch=1, nempty=False, maxlast=1),
    J(O, 'search', depth=2, full=1, batch=1, nempty=True, maxsplit=2, maxlast=2),
    J(O, 'search', depth=2, full=1, batch=2, nempty=True, maxsplit=2, maxlast=2, by='key'),
    J(O, 'search', depth=1, full=1, batch=2, nempty=True, nq=2),
])
prop('P10', 'every octree that grows from a full octree by any split labels, all features as symbolic reals', [
    J(O, 'octree2col', depth=2, full=1, batch=1, kernel='333', stride=1, nempty=False, maxsplit=3),
    J(O, 'octree2col', depth=2, full=1, batch=1, kernel='333', stride=2, nempty=False, maxsplit=3),
    J(O, 'octree2col', depth=2, full=1, batch=1, kernel='333', stride=1, nempty=True, maxsplit=2, maxlast=2),
    J(O, 'octree2col', depth=2, full=1, batch=1, kernel='222', stride=2, nempty=True, maxsplit=2, maxlast=2, C=2),
    J(O, 'col2octree', depth=2, full=1, batch=1, kernel='333', stride=1, nempty=False, maxsplit=3),
    J(O, 'col2octree', depth=2, full=1, batch=1, kernel='333', stride=2, nempty=False, maxsplit=3),
    J(O, 'col2octree', depth=2, full=1, batch=1, kernel='313', stride=1, nempty=True, maxsplit=2, maxlast=2),
    J(O, 'col2octree', depth=2, full=1, batch=1, kernel='222', stride=2, nempty=True, maxsplit=2, maxlast=2, C=2),
])

C = 'c_conv'
prop('P11', 'every octree that grows from a full octree by any split labels, all features as symbolic reals, weights and biases', [
    J(C, 'conv', depth=1, full=1, batch=1, kernel='333', stride=1, nempty=True, cin=2, cout=3),
    J(C, 'conv', depth=1, full=1, batch=2, kernel='133', stride=1, nempty=True, maxlast=4, buf=19, bias=True),
    J(C, 'conv', depth=2, full=1, batch=1, kernel='333', stride=1, nempty=False, maxsplit=4, buf=6*27),
    J(C, 'conv', depth=2, full=1, batch=2, kernel='333', stride=1, nempty=False, maxsplit=2, buf=5*27+13, bias=True),
    J(C, 'conv', depth=2, full=1, batch=1, kernel='333', stride=1, nempty=False, maxsplit=3, direct=True, bias=True),
    J(C, 'conv', depth=2, full=1, batch=1, kernel='333', stride=1, nempty=True, cap=18, maxsplit=2, maxlast=3, buf=2*27),
    J(C, 'conv', depth=2, full=1, batch=1, kernel='333', stride=1, nempty=True, cap=18, maxsplit=2, maxlast=3, direct=True),
    J(C, 'conv', depth=2, full=1, batch=1, kernel='222', stride=2, nempty=False, maxsplit=4, bias=True, buf=9),
    J(C, 'conv', depth=2, full=1, batch=1, kernel='222', stride=2, nempty=True, cap=20, maxsplit=3, maxlast=3, direct=True, cout=2, bias=True),
    J(C, 'conv', depth=2, full=1, batch=2, kernel='222', stride=2, nempty=True, cap=20, maxsplit=3, maxlast=3, buf=16),
    J(C, 'conv', depth=2, full=1, batch=1, kernel='333', stride=2, nempty=False, maxsplit=4, bias=True, direct=True),
    J(C, 'conv', depth=2, full=1, batch=1, kernel='333', stride=2, nempty=True, cap=20, maxsplit=3, maxlast=3, buf=30),
    *[J(C, 'conv', depth=2, full=1, batch=1, kernel=k, stride=1, nempty=i % 2 > 0, cap=18, maxsplit=2, maxlast=3, direct=i % 3 == 0, buf=[None, 9, 20][i % 3])
      for i, k in enumerate(['311', '131', '113', '331', '313', '133', '222'])],
    J(C, 'conv', depth=1, full=1, batch=1, kernel='222', stride=2, nempty=True, maxlast=3),
    J(C, 'conv', depth=2, full=2, batch=1, kernel='222', stride=2, nempty=False, bias=True),
    J(C, 'conv', depth=2, full=1, batch=1, kernel='333', stride=1, nempty=True, maxsplit=2, maxlast=2, warm=True),
    J(C, 'conv', depth=2, full=1, batch=1, kernel='222', stride=2, nempty=False, maxsplit=2, warm=True, bias=True),
    J(C, 'conv', depth=3, full=1, batch=1, kernel='333', stride=1, nempty=True, maxsplit=1, maxlast=2, buf=27),
])
prop('P12', 'every octree that grows from a full octree by any split labels, all features as symbolic reals, weights and biases', [
    J(C, 'deconv', depth=1, full=1, batch=1, kernel='333', stride=1, nempty=True, cin=2, cout=3),
    J(C, 'deconv', depth=2, full=1, batch=2, kernel='333', stride=1, nempty=False, maxsplit=2, buf=5*27, bias=True),
    J(C, 'deconv', depth=2, full=1, batch=1, kernel='333', stride=1, nempty=False, maxsplit=3, direct=True),
    J(C, 'deconv', depth=2, full=1, batch=1, kernel='333', stride=1, nempty=True, cap=18, maxsplit=2, maxlast=3, buf=2*27),
    J(C, 'deconv', depth=2, full=1, batch=1, kernel='222', stride=2, nempty=False, maxsplit=4, bias=True, buf=9),
    J(C, 'deconv', depth=2, full=1, batch=1, kernel='222', stride=2, nempty=True, cap=20, maxsplit=3, maxlast=3, direct=True, cin=2, bias=True),
    J(C, 'deconv', depth=2, full=1, batch=2, kernel='222', stride=2, nempty=True, cap=20, maxsplit=3, maxlast=3, buf=16),
    J(C, 'deconv', depth=2, full=1, batch=1, kernel='333', stride=2, nempty=False, maxsplit=4, direct=True),
    J(C, 'deconv', depth=2, full=1, batch=1, kernel='333', stride=2, nempty=True, cap=20, maxsplit=3, maxlast=3, buf=30),
    *[J(C, 'deconv', depth=2, full=1, batch=1, kernel=k, stride=1, nempty=i % 2 > 0, cap=18, maxsplit=2, maxlast=3, direct=i % 3 == 0, buf=[None, 9, 20][i % 3])
      for i, k in enumerate(['311', '131', '113', '331', '313', '133', '222'])],
    J(C, 'deconv', depth=2, full=2, batch=1, kernel='222', stride=2, nempty=False, bias=True),
    J(C, 'deconv', depth=2, full=1, batch=1, kernel='222', stride=2, nempty=True, maxsplit=2, maxlast=2, warm=True),
    J(C, 'deconv', depth=2, full=1, batch=1, kernel='333', stride=1, nempty=False, maxsplit=2, warm=True),
])
prop('P13', 'every octree that grows from a full octree by any split labels, all features as symbolic reals, weights and output gradients', [
    *[J(C, 'grads', depth=2, full=1, batch=1, kernel=k, stride=s, nempty=ne, kind=kind, cap=18, maxsplit=2, maxlast=3, buf=buf, cin=ci, cout=co)
      for kind, k, s, ne, buf, ci, co in [
        ('conv', '333', 1, False, 5*27, 1, 1), ('conv', '333', 1, True, None, 1, 2),
        ('conv', '222', 2, False, 9, 1, 2), ('conv', '222', 2, True, None, 2, 1),
        ('conv', '333', 2, False, None, 1, 1), ('conv', '313', 1, True, 20, 1, 1),
        ('deconv', '333', 1, False, 5*27, 1, 1), ('deconv', '333', 1, True, None, 2, 1),
        ('deconv', '222', 2, False, 9, 1, 1), ('deconv', '222', 2, True, None, 2, 2),
        ('deconv', '333', 2, False, None, 1, 1), ('deconv', '131', 1, True, 7, 1, 1),
        ('dwconv', '333', 1, False, 5*27, 1, 1), ('dwconv', '333', 1, True, None, 2, 1),
        ('dwconv', '222', 2, False, 9, 1, 1), ('dwconv', '222', 2, True, 20, 2, 1)]],
    *[J(C, 'grads', depth=2, full=1, batch=1, kernel='222', stride=2, nempty=False, kind=k, maxsplit=2, direct=True) for k in ('conv', 'deconv')],
    *[J(C, 'grads', depth=2, full=1, batch=1, kernel='333', stride=1, nempty=True, kind=k, maxsplit=2, maxlast=2, direct=True) for k in ('conv', 'deconv')],
])
prop('P14', 'every octree that grows from a full octree by any split labels, all features as symbolic reals, weights and biases', [
    J(C, 'conv', dw=True, depth=1, full=1, batch=2, kernel='333', stride=1, nempty=True, cin=2, bias=True, maxlast=4),
    J(C, 'conv', dw=True, depth=2, full=1, batch=1, kernel='333', stride=1, nempty=False, cin=2, maxsplit=2, buf=6*27),
    J(C, 'conv', dw=True, depth=2, full=1, batch=1, kernel='333', stride=1, nempty=True, cin=1, cap=18, maxsplit=2, maxlast=3, buf=2*27),
    J(C, 'conv', dw=True, depth=2, full=1, batch=1, kernel='222', stride=2, nempty=False, cin=2, maxsplit=4, bias=True, buf=20),
    J(C, 'conv', dw=True, depth=2, full=1, batch=1, kernel='222', stride=2, nempty=True, cin=1, cap=20, maxsplit=3, maxlast=3, buf=16),
    J(C, 'conv', dw=True, depth=2, full=1, batch=1, kernel='333', stride=2, nempty=True, cin=1, cap=20, maxsplit=3, maxlast=3),
    J(C, 'conv', dw=True, depth=2, full=1, batch=1, kernel='311', stride=1, nempty=False, cin=1, maxsplit=3),
    J(C, 'conv', dw=True, depth=2, full=1, batch=1, kernel='333', stride=1, nempty=True, cin=1, maxsplit=2, maxlast=2, warm=True),
    J(C, 'group', depth=1, full=1, batch=2, kernel='333', stride=1, nempty=True, cin=4, cout=2, groups=2, bias=True, maxlast=4),
    J(C, 'group', depth=2, full=1, batch=1, kernel='333', stride=1, nempty=False, cin=2, cout=4, groups=2, maxsplit=2),
    J(C, 'group', depth=2, full=1, batch=1, kernel='222', stride=2, nempty=False, cin=3, cout=3, groups=3, maxsplit=3, bias=True),
    J(C, 'group', depth=2, full=1, batch=1, kernel='222', stride=2, nempty=True, cin=2, cout=2, groups=1, cap=18, maxsplit=2, maxlast=3),
])

E = 'c_feat'
prop('P15', 'every octree that grows from a full octree by any split labels, all features as symbolic reals', [
    J(E, 'pad', depth=2, full=1, batch=2, maxsplit=2, maxlast=2),
    J(E, 'pad', depth=2, full=1, batch=1, maxsplit=2, maxlast=2, val=-7.5),
    J(E, 'pad', depth=2, full=1, batch=1, maxsplit=1, maxlast=2, C=1, val=float('-inf')),
])
prop('P16', 'every octree that grows from a full octree by any split labels, all features as symbolic reals', [
    J(E, 'max_pool', depth=2, full=1, batch=1, nempty=False, maxsplit=2),
    J(E, 'max_pool', depth=2, full=1, batch=1, nempty=True, maxsplit=2, maxlast=2),
    J(E, 'max_pool', depth=2, full=1, batch=2, nempty=True, maxsplit=1, maxlast=2, warm=True, C=2),
    J(E, 'max_unpool', depth=2, full=1, batch=1, nempty=False, maxsplit=2),
    J(E, 'max_unpool', depth=2, full=1, batch=1, nempty=True, maxsplit=2, maxlast=2),
])
prop('P17', 'every octree that grows from a full octree by any split labels, all features as symbolic reals', [
    J(E, 'avg_pool', depth=2, full=1, batch=1, kernel='222', stride=2, nempty=False, maxsplit=2, C=2),
    J(E, 'avg_pool', depth=2, full=1, batch=1, kernel='222', stride=2, nempty=True, maxsplit=2, maxlast=2),
    J(E, 'avg_pool', depth=2, full=1, batch=1, kernel='333', stride=1, nempty=True, maxsplit=2, maxlast=2),
    J(E, 'avg_pool', depth=2, full=1, batch=1, kernel='333', stride=1, nempty=False, maxsplit=2),
    J(E, 'global_pool', depth=2, full=1, batch=2, nempty=True, maxsplit=2, maxlast=2),
    J(E, 'global_pool', depth=2, full=1, batch=2, nempty=False, maxsplit=2, maxlast=1),
    J(E, 'global_pool', depth=2, full=1, batch=3, nempty=True, maxsplit=2, maxlast=1, at=1),
    J(E, 'global_pool', depth=1, full=1, batch=2, nempty=True, maxlast=3, warm=True),
    J(E, 'avg_pool', depth=2, full=1, batch=1, kernel='333', stride=2, nempty=True, maxsplit=2, maxlast=2, warm=True),
])
prop('P19', 'every octree that grows from a full octree by any split labels, all features as symbolic reals, one query point with arbitrary integer cell and real offset', [
    J(E, 'nearest', depth=2, full=1, batch=1, nempty=False, maxsplit=2),
    J(E, 'nearest', depth=2, full=1, batch=2, nempty=True, maxsplit=1, maxlast=2),
    J(E, 'nearest', depth=2, full=1, batch=1, nempty=True, maxsplit=1, maxlast=2, module=True),
    J(E, 'nearest', depth=2, full=1, batch=1, nempty=True, maxsplit=1, maxlast=2, bound=True),
    J(E, 'nearest', depth=1, full=1, batch=2, nempty=True, maxlast=2, module=True, warm=True),
    J(E, 'upsample', depth=2, full=1, batch=2, nempty=True, maxsplit=2, maxlast=1, warm=True),
    J(E, 'upsample', depth=2, full=1, batch=1, nempty=False, maxsplit=2, maxlast=1),
    J(E, 'upsample', depth=2, full=1, batch=2, nempty=True, maxsplit=2, maxlast=2),
    J(E, 'upsample', depth=3, full=1, batch=1, nempty=False, maxsplit=1, maxlast=1, src=1),
    J(E, 'upsample', depth=3, full=1, batch=1, nempty=True, maxsplit=1, maxlast=2, src=1),
])
prop('P20', 'every octree that grows from a full octree by any split labels, all features as symbolic reals, one query point with arbitrary cell and fully symbolic real offset', [
    J(E, 'linear', depth=1, full=1, batch=1, nempty=False),
    J(E, 'linear', depth=2, full=1, batch=1, nempty=False, maxsplit=1),
    J(E, 'linear', depth=1, full=1, batch=2, nempty=True, maxlast=2),
    J(E, 'linear', depth=1, full=1, batch=1, nempty=True, module=True, maxlast=2),
    J(E, 'linear', depth=1, full=1, batch=2, nempty=True, module=True, maxlast=1, warm=True),
    J(E, 'upsample_linear', depth=2, full=1, batch=2, nempty=True, maxsplit=1, maxlast=1),
    J(E, 'upsample_linear', depth=3, full=2, batch=1, nempty=False, maxsplit=1, maxlast=1),
    J(E, 'upsample_linear', depth=2, full=1, batch=1, nempty=False, maxsplit=1, maxlast=1),
])
prop('P21', 'every octree that grows from a full octree by any split labels, all features as symbolic reals, affine parameters', [
    J(E, 'group_norm', depth=1, full=1, batch=2, nempty=True, channels=2, groups=1, maxlast=3),
    J(E, 'group_norm', depth=1, full=1, batch=2, nempty=True, channels=2, groups=2, instance=True, maxlast=3),
    J(E, 'group_norm', depth=1, full=1, batch=2, nempty=True, channels=2, groups=1, maxlast=3, warm=True),
    J(E, 'group_norm', depth=2, full=1, batch=2, nempty=False, channels=1, groups=1, maxsplit=1),
    J(E, 'group_norm', depth=2, full=1, batch=2, nempty=True, channels=4, groups=2, maxsplit=1, maxlast=2),
    J(E, 'group_norm', depth=2, full=1, batch=2, nempty=False, channels=2, groups=1, maxsplit=1, maxlast=1, at=1),
])
prop('P22', 'every octree that grows from a full octree by any split labels, all features as symbolic reals', [
    J(E, 'voxel', depth=2, full=1, batch=1, nempty=False, maxsplit=2, maxlast=1),
    J(E, 'voxel', depth=2, full=1, batch=2, nempty=True, maxsplit=2, maxlast=2),
    J(E, 'voxel', depth=2, full=1, batch=2, nempty=True, maxsplit=2, maxlast=1, at=1),
    J(E, 'voxel', depth=1, full=1, batch=2, nempty=True, maxlast=2, warm=True),
    J(E, 'voxel', depth=1, full=1, batch=3, nempty=True, maxlast=2),
    J(E, 'voxel', depth=2, full=2, batch=1, nempty=False, maxlast=1),
    J(E, 'voxel', depth=2, full=2, batch=2, nempty=False, maxlast=1, C=1),
    J(E, 'voxel', depth=2, full=2, batch=2, nempty=True, maxlast=1),
])
prop('P23', 'every pair of octrees within the node bounds, all features as symbolic reals', [
    J(E, 'align', depth=2, full=1, batch=1, nempty=False, maxsplit=2),
    J(E, 'align', depth=2, full=1, batch=2, nempty=False, maxsplit=1),
    J(E, 'align', depth=1, full=1, batch=1, nempty=True, maxlast=3),
    J(E, 'align', depth=2, full=1, batch=1, nempty=False, maxsplit=1, double=True),
    J(E, 'align', depth=2, full=1, batch=1, nempty=True, maxsplit=1, maxlast=2),
    J(E, 'align', depth=1, full=1, batch=1, batch2=2, nempty=True, maxlast=2),
    J(E, 'align', depth=1, full=1, batch=2, batch2=1, nempty=True, maxlast=2),
    J(E, 'align', depth=2, full=2, batch=1, batch2=2, nempty=False, maxlast=1),
])
prop('P24', 'every octree that grows from a full octree by any split labels, all features as symbolic reals, all random draws in [0, 1)', [
    J(E, 'drop_path', depth=2, full=1, batch=2, nempty=False, prob=0.25, maxsplit=2),
    J(E, 'drop_path', depth=1, full=1, batch=2, nempty=True, prob=0.5, maxlast=2, scale=False),
    J(E, 'drop_path', depth=1, full=1, batch=2, nempty=True, prob=0.5, maxlast=2, training=False),
    J(E, 'drop_path', depth=1, full=1, batch=2, nempty=True, prob=0.0, maxlast=2),
    J(E, 'drop_path', depth=1, full=1, batch=3, nempty=True, prob=0.75, maxlast=2, given=True),
    J(E, 'drop_path', depth=1, full=1, batch=2, nempty=True, prob=0.9, maxlast=3, warm=True),
])

Q = 'c_points'
PB = 'two or three points whose coordinates, normals, features and labels are symbolic reals'
prop('P25', PB + ', all rotation angles in (-3, 3), positive scale factors, displacements, boxes and flip axes', [
    J(Q, 'rotate', n=2),
    J(Q, 'rotate', n=1, normals=False),
    J(Q, 'scale', n=2),
    J(Q, 'scale', n=2, uniform=True),
    J(Q, 'scale', n=2, normals=False),
    J(Q, 'flip', n=2),
    J(Q, 'flip', n=2, normals=False),
    J(Q, 'orient', n=2),
    J(Q, 'translate', n=2),
    J(Q, 'bbox', n=3),
    J(Q, 'normalize', n=2),
    J(Q, 'normalize', n=2, scale=0.75, own=False),
])
prop('P26', PB + ' and a symbolic batch index, all selection masks and boxes', [
    J(Q, 'clip', n=3),
    J(Q, 'clip', n=2, mode='clip_args'),
    J(Q, 'clip', n=2, mode='inbox'),
    J(Q, 'clip', n=3, mode='getitem'),
    J(Q, 'merge', ns=[2, 1]),
    J(Q, 'merge', ns=[1, 2, 2], update=False),
    J(Q, 'merge', ns=[1, 1, 2], normals=False),
    J(Q, 'merge', ns=[2, 1], feat=0, labels=False),
    J(Q, 'merge', ns=[2, 0, 1]),
    J(Q, 'merge', ns=[0, 1]),
    J(Q, 'merge', ns=[2]),
    J(Q, 'merge', ns=[1, 2], feat=0),
    J(Q, 'merge', ns=[2, 1], normals=False, feat=3, labels=False),
    J(Q, 'merge_select', ns=[1, 2]),
])
SPECS = ['N', 'D', 'L', 'P', 'F', 'ND', 'FPLDN', 'nl', 'LP', 'ndf']
prop('P27', 'every octree within the node bounds, with symbolic average points inside the leaves, normals and features', [
    *[J(Q, 'input_feature', depth=2, full=1, batch=2, spec=s, nempty=i % 2 == 0, maxsplit=1, maxlast=2)
      for i, s in enumerate(SPECS)],
    J(Q, 'input_feature', depth=3, full=2, batch=1, spec='NDLPF', nempty=False, maxsplit=1, maxlast=2),
    J(Q, 'input_module', depth=2, full=1, batch=1, spec='ND', nempty=True, maxsplit=1, maxlast=2),
    J(Q, 'input_module', depth=2, full=1, batch=1, spec='LF', nempty=False, maxsplit=1, maxlast=2),
    J(Q, 'to_points', depth=2, full=1, batch=2, maxsplit=2, maxlast=2),
    J(Q, 'to_points', depth=2, full=1, batch=1, maxsplit=2, maxlast=2, rescale=False),
    J(Q, 'to_points', depth=2, full=1, batch=2, maxsplit=2, maxlast=2, signal=False),
    J(Q, 'to_points', depth=2, full=1, batch=1, maxsplit=2, maxlast=2, signal=False, rescale=False),
    J(Q, 'roundtrip', depth=2, full=1, batch=1, maxsplit=1, maxlast=2),
])
prop('P28', 'every octree and point cloud within the node bounds, with symbolic contents', [
    J(Q, 'to_device', n=2),
    J(Q, 'to_device', n=2, normals=False, batch=0),
    J(Q, 'to_device', n=2, feat=0, labels=False, batch=3),
    *[J(Q, 'to_device', n=1, normals=a, feat=b, labels=c, batch=d) for a in (False, True) for b in (0, 2)
      for c in (False, True) for d in (0, 2)],
    J(Q, 'octree_to', depth=2, full=1, batch=2, maxsplit=2, maxlast=2),
    J(Q, 'octree_to', depth=2, full=1, batch=1, maxsplit=1, maxlast=1, merged=True),
])

N = 'c_nets'
TREE = {1: ([(2,), (0, 7)], [(5,), (3, 4)]), 2: ([(1,), (3, 6)], (0, 5)), 3: ((2,), (0, 6))}
TREE_B = {1: ((0, 2), (4,)), 2: ((1, 9), [(7,), (0, 5)]), 3: ((0, 3), (1,))}
TREE5 = {1: ((2, 3), (5,)), 2: ((1, 10), (4,)), 3: ([(2,), (0, 7)], (5,)), 4: ((1, 6), (3,))}
TREE4 = {2: ((9, 10), (33,)), 3: ([(2,), (0, 7)], (5,)), 4: ((1, 6), (3,))}
prop('P30', 'two octrees merged: for single blocks every shape in the node bounds, for networks (channels reduced to one or two, fixed parameters) the listed shapes; all features as symbolic reals', [
    *[J(N, 'batch_independent', kind=k, depth=2, full=1, nempty=ne, cap=13)
      for k in ('convbnrelu', 'downbnrelu', 'resblock')
      for ne in (False, True)],
    *[J(N, 'batch_independent', kind=k, depth=2, full=1, nempty=ne, cap=13)
      for k, ne in (('resblocks', False), ('resblocks2', True), ('resblock_s2', True), ('resblock2', False), ('resblock2_s2', True))],
    *[J(N, 'batch_independent', kind='deconvbnrelu', depth=2, full=1, nempty=ne, up=True, cap=13) for ne in (False, True)],
    *[J(N, 'batch_independent', kind=k, depth=3, full=1, nempty=ne, cap=13, fixed=TREE)
      for k in ('unet', 'unet_linear', 'segnet', 'segnet2', 'resnet') for ne in (False, True)],
    *[J(N, 'batch_independent', kind='lenet', depth=3, full=2, nempty=ne, cap=13, fixed={2: ((9, 50), (33,))}) for ne in (False, True)],
    *[J(N, 'batch_independent', kind='hrnet', depth=4, full=f, nempty=ne, cap=13, fixed=t)
      for f, t in ((2, TREE4), (1, TREE5)) for ne in (False, True)],
    *[J(N, 'batch_independent', kind=k, depth=4, full=1, nempty=ne, cap=13, fixed=TREE5, seed=4)
      for k in ('unet', 'unet_linear', 'segnet2', 'resnet') for ne in (False, True)],
])

prop('P31', 'one or two elements, all logits and signals as symbolic reals, every octree that at most one split node per level and two non-empty leaves describe; given octrees: the listed shapes; channels reduced to one', [
    J(N, 'decode', kind='ae', depth=2, full=1, maxlast=2),
    J(N, 'decode', kind='ae', depth=3, full=1, batch=1, maxlast=1),
    J(N, 'decode', kind='ae', depth=2, full=1, batch=2, maxlast=2),
    J(N, 'decode', kind='ounet', depth=2, full=1, batch=1, maxlast=2),
    J(N, 'decode', kind='img', depth=2, full=1, batch=1, maxlast=2),
    J(N, 'decode', kind='img', depth=2, full=1, batch=1, maxlast=1, real=True),
    J(N, 'reconstruct', kind='ae', depth=3, full=1, fixed=TREE),
    J(N, 'reconstruct', kind='img', depth=3, full=1, fixed=TREE),
    J(N, 'reconstruct', kind='ounet', depth=3, full=1, fixed=TREE),
    J(N, 'reconstruct', kind='ounet', depth=3, full=1, fixed=TREE, other=TREE_B),
])

B2 = {1: [(1, 12), (0, 7, 9)], 2: (0, 5, 9)}
prop('P32', 'the listed octree shapes (batch of two), all features as symbolic reals, fixed parameters, two to four channels', [
    *[J(N, 'block', kind=k, depth=2, full=1, nempty=ne, fixed=B2)
      for k in ('convbn', 'convbn311', 'convbnrelu', 'down', 'up', 'deconv', 'res', 'res_same', 'res_down', 'res2', 'res2_same',
                'res2_down', 'blocks', 'blocks2', 'blocks_ck') for ne in (False, True)],
    *[J(N, 'block', kind=k, depth=1, full=1, nempty=False, fixed={1: (0, 9)}) for k in ('conv1', 'conv1bn', 'conv1bnrelu', 'fcbnrelu')],
])

DT = 'c_data'
prop('P29', 'one to three points with symbolic cells, offsets and normals, inside or outside the box; all draws in [0, 1) (distortion: three scale vectors, two turns); all octree shapes in the node bounds', [
    J(DT, 'pipeline', n=2, depth=3, full=1),
    J(DT, 'pipeline', n=2, depth=2, full=2, orient='y'),
    J(DT, 'pipeline', n=1, depth=5, full=2),
    J(DT, 'distort', n=1),
    J(DT, 'distort', n=1, orient='z'),
    J(DT, 'parameters'),
    J(DT, 'parameters', uniform=True, angle=(10, 0, 7), interval=(3, 1, 2), flip=(0.0, 1.0, 0.25), scale=0.0),
    J(DT, 'collate', depth=2, full=1, k=2),
    J(DT, 'collate', depth=2, full=1, k=1),
    J(DT, 'collate', depth=2, full=1, k=1, merge=False),
    J(DT, 'collate', depth=2, full=1, k=3),
    J(DT, 'collate', depth=3, full=2, k=2, merge=False),
])
prop('P33', 'tensors of up to eight symbolic values, indices in [0, 4)', [
    J(DT, 't_cumsum', shape=(4,), dim=0, exclusive=True),
    J(DT, 't_cumsum', shape=(4,), dim=0, exclusive=False),
    J(DT, 't_cumsum', shape=(3, 2), dim=0, exclusive=True),
    J(DT, 't_cumsum', shape=(2, 3), dim=1, exclusive=True, dtype='float32'),
    J(DT, 't_cumsum', shape=(2, 3), dim=-1, exclusive=True, dtype='int32'),
    J(DT, 't_cumsum', shape=(2, 2, 2), dim=1, exclusive=True),
    *[J(DT, 't_scatter', rows=3, cols=2, dim=d, size=s, out=o, bcast=b) for d, s, o, b in (
        (0, 4, False, True), (0, None, False, True), (0, None, True, True), (-1, 3, False, True), (1, None, False, False),
        (0, 3, False, False), (-2, None, True, True), (-1, None, True, False))],
    *[J(DT, 't_scatter_nd', shape=sh, dim=d, idx=i, size=n, out=o) for sh, d, i, n, o in (
        ((2, 2, 2), -1, '1', 3, False), ((2, 3, 2), -2, '1', None, False), ((2, 2, 2), -3, '1', 2, False),
        ((2, 3, 2), 1, '1', 3, True), ((2, 2, 2), 0, '2', 3, False), ((2, 2, 3), -2, '2', None, False),
        ((2, 2, 2), -1, '3', 2, False), ((3,), -1, '1', 3, False), ((3,), 0, '1', None, True),
        ((1, 2, 2, 2), -2, '1', 2, False))],
    J(DT, 't_grid', lo=-1, hi=1), J(DT, 't_grid', lo=0, hi=2), J(DT, 't_grid', lo=2, hi=2),
    J(DT, 't_div'), J(DT, 't_div', dtype='int32', n=2, tensor=True),
    J(DT, 't_resize'),
])

PJ = 'c_proj'
prop('P34', 'batches of one to three clouds of one to three points; symbolic logits (without ties where the largest matters), labels, masks; up to three classes', [
    J(PJ, 'seg_forward', ns=(2, 1)),
    J(PJ, 'seg_forward', ns=(1, 1, 2), mask=-1, nempty=False),
    J(PJ, 'seg_forward', ns=(3,), mask=1),
    J(PJ, 'seg_metrics', n=2, classes=3),
    J(PJ, 'seg_metrics', n=3, classes=2),
    J(PJ, 'seg_loss', n=2, classes=3),
    J(PJ, 'seg_eval', ns=(1, 2), total=(2, 3)),
    J(PJ, 'seg_eval', ns=(2, 1), total=(2, 2), classes=3, epochs=1),
    J(PJ, 'seg_batch', ns=(1, 2)),
    J(PJ, 'seg_steps', n=2, classes=2),
    J(PJ, 'seg_steps', n=1, classes=3),
    J(PJ, 'part_iou', classes=3, mask=0),
    J(PJ, 'part_iou', classes=2, mask=-1),
    J(PJ, 'cls_step', n=2, classes=3),
])
prop('P35', 'every octree within the node bounds, symbolic logits (without ties), signals and signals of the leaves', [
    J(PJ, 'ae_loss', depth=1, full=1, maxlast=2),
    J(PJ, 'ae_loss', depth=2, full=1),
    J(PJ, 'ae_points', depth=2, full=1, batch=2),
    J(PJ, 'ae_points', depth=1, full=1, batch=3, maxlast=3),
    *[J(PJ, 'ae_steps', kind=k) for k in ('ae', 'completion', 'image')],
    *[J(PJ, 'ae_eval', kind=k) for k in ('ae', 'image')],
])
prop('P36', 'two or three points, all coordinates, normals, colours and labels; all samples; fixed noise', [
    *[J(PJ, 'project_transform', name=k, n=2) for k in ('modelnet', 'shapenet_seg', 'shapenet_ae', 'image', 'scannet')],
    J(PJ, 'project_transform', name='scannet', n=3),
    J(PJ, 'kitti', n=2),
    J(PJ, 'completion', n=2),
    J(PJ, 'completion', n=3, take=1, flip=1),
])


# ---------------------------------------------------------------- larger octrees, fixed shapes
def big(pid, *js):
  """the harness of a job on larger octrees with a few fixed shapes (c_big)"""
  if 'a few fixed larger shapes' not in META[pid]['bounds']:
    META[pid]['bounds'] += '; moreover a few fixed larger shapes (depth up to 5, batch up to 5)'
  for mod, fn, cfg in js:
    QUICK[pid].append(('c_big', 'big', dict(cfg, mod=mod, fn=fn)))


big('P06', J(O, 'structure', depth=5, full=2, batch=3), J(O, 'structure', depth=4, full=0, batch=2))
big('P07', J(O, 'neigh_table', depth=4, full=2, batch=3), J(O, 'neigh_table', depth=5, full=1, batch=2, rebuild=True))
big('P08', J(O, 'neigh_kernels', depth=3, full=1, batch=3, kernels=K8, stride=1, nempty=True, most=12),
    J(O, 'neigh_kernels', depth=3, full=2, batch=2, kernels=K8, stride=2, nempty=False))
big('P09', J(O, 'search', depth=4, full=1, batch=3, nempty=True), J(O, 'search', depth=3, full=2, batch=2, nempty=False))
big('P10', J(O, 'octree2col', depth=3, full=1, batch=3, kernel='333', stride=1, nempty=True, C=2),
    J(O, 'col2octree', depth=3, full=1, batch=2, kernel='333', stride=2, nempty=False),
    J(O, 'col2octree', depth=3, full=1, batch=3, kernel='333', stride=1, nempty=True, C=2))
big('P11', *[J(C, 'conv', depth=3, full=1, batch=3, kernel=k, stride=s, nempty=ne, buf=b, cin=2, cout=2, bias=True, most=11)
    for k, s, ne, b in (('333', 1, False, 7 * 54), ('333', 1, True, 3 * 54), ('222', 2, False, 5 * 16), ('222', 2, True, 9), ('333', 1, True, 10))])
big('P12', *[J(C, 'deconv', depth=3, full=1, batch=3, kernel=k, stride=s, nempty=ne, buf=b, cin=2, cout=2, bias=True, most=11)
    for k, s, ne, b in (('333', 1, False, 7 * 54), ('333', 1, True, 3 * 54), ('222', 2, False, 5 * 16), ('222', 2, True, 9), ('333', 1, True, 10))])
big('P13', *[J(C, 'grads', depth=3, full=1, batch=2, kernel=k, stride=s, nempty=ne, kind=kd, buf=b, cin=1, cout=2 if kd != 'dwconv' else 1, most=7)
    for kd in ('conv', 'deconv', 'dwconv') for k, s, ne, b in (('333', 1, False, 7 * 27), ('222', 2, True, 20), ('333', 1, True, 10))])
big('P14', *[J(C, 'conv', dw=True, depth=3, full=1, batch=3, kernel=k, stride=s, nempty=ne, buf=b, cin=2, bias=True, most=11)
    for k, s, ne, b in (('333', 1, False, 7 * 54), ('333', 1, True, 3 * 54), ('222', 2, False, 5 * 16), ('222', 2, True, 9))])
big('P15', J(E, 'pad', depth=3, full=1, batch=3))
big('P16', *[J(E, f, depth=3, full=1, batch=2, nempty=ne, every=True) for f in ('max_pool', 'max_unpool') for ne in (False, True)])
big('P17', *[J(E, 'avg_pool', depth=3, full=1, batch=3, kernel=k, stride=s, nempty=ne, every=True, C=2)
             for k, s, ne in (('222', 2, True), ('333', 1, False), ('333', 1, True), ('333', 2, True))],
    *[J(E, 'global_pool', depth=3, full=1, batch=3, nempty=ne, p=60, most=40) for ne in (False, True)])
big('P19', J(E, 'nearest', depth=3, full=1, batch=3, nempty=True, most=4), J(E, 'nearest', depth=3, full=2, batch=1, nempty=False, most=4),
    *[J(E, 'upsample', depth=4, full=1, batch=3, nempty=ne, src=s) for ne in (False, True) for s in (2, 3)])
big('P20', J(E, 'linear', depth=3, full=1, batch=3, nempty=True, most=5),
    *[J(E, 'upsample_linear', depth=3, full=1, batch=3, nempty=ne) for ne in (False, True)])
big('P21', *[J(E, 'group_norm', depth=3, full=1, batch=3, nempty=ne, channels=4, groups=2, most=14 if ne else 3) for ne in (False, True)])
big('P22', *[J(E, 'voxel', depth=3, full=1, batch=3, nempty=ne) for ne in (False, True)])
big('P23', *[J(E, 'align', depth=4, full=1, batch=3, nempty=ne) for ne in (False, True)])
big('P24', J(E, 'drop_path', depth=3, full=1, batch=5, nempty=True, prob=0.3))
big('P27', *[J(Q, 'input_feature', depth=3, full=1, batch=3, spec='NDLPF', nempty=ne) for ne in (False, True)],
    J(Q, 'to_points', depth=4, full=1, batch=3))
big('P28', J(Q, 'octree_to', depth=4, full=1, batch=3))
