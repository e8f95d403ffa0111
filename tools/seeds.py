SEEDS = []
OT, PT, KEY = 'ocnn/octree/octree.py', 'ocnn/octree/points.py', 'ocnn/octree/shuffled_key.py'
NN = 'ocnn/nn/'


def S(id, prop, needs, breaks, edits, demo):
  SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


S('build-pkey-mask', 'P02', 'a batch (size above one) at depth 16, with a coordinate in the upper half',
  'the parent keys lose their top bits', [(OT, '(pkey & ((1 << 45) - 1))', '(pkey & ((1 << 44) - 1))')],
  '''
d = 16
v = (1 << 16) - 1
o = build([[1, 2, 3], [v, 0, 5]], d, 1, [0, 1])
for k in range(2, d + 1):
  c = set(cells(o, k))
  assert (1, v >> (d - k), 0, 5 >> (d - k)) in c, k
''')
S('build-average-clamp', 'P03', 'two or more points in the same leaf, with at least three leaves sharing one parent',
  'the average divides by a capped count', [(OT, 'self.points[d] = points / counts.unsqueeze(1)',
  'self.points[d] = points / counts.clamp(max=2).unsqueeze(1)')],
  '''
p = torch.tensor([[0.1, 0.1, 0.1], [0.15, 0.1, 0.12], [0.2, 0.2, 0.2], [-0.5, 0.3, 0.3]])
o = Octree(2, 1); o.build_octree(Points(p))
got = sorted(o.points[2].tolist())
want = sorted([((p[:3] + 1) * 2).mean(0).tolist(), ((p[3] + 1) * 2).tolist()])
close(got, want)
''')
S('merge-child-offset', 'P05', 'three or more octrees in the batch', 'the offset of the children of the third element ignores the second',
  [(OT, 'child[mask] = child[mask] + nnum_cum[d, i]', 'child[mask] = child[mask] + (nnum_cum[d, i] if i < 2 else nnum_cum[d, 1] + batch_nnum_nempty[d, 0])')],
  '''
os_ = [build([[0, 0, 0]], 3), build([[1, 1, 1], [7, 7, 7]], 3), build([[3, 4, 5]], 3)]
m = merge_octrees(os_)
for d in range(4):
  c = [v for v in m.children[d].tolist() if v >= 0]
  assert c == list(range(len(c))), (d, c)
''')
S('grow-batch-key', 'P06', 'growing beyond the full depth in a batch with index 8 or more',
  'the batch index is masked to three bits while growing', [(OT, 'batch_id = (key >> 48) << 48', 'batch_id = ((key >> 48) & 7) << 48')],
  '''
o = init_octree(2, 1, batch_size=9)
o.octree_split(torch.ones(72, dtype=torch.int32), 1); o.octree_grow(2)
assert o.batch_id(2).tolist() == [b for b in range(9) for _ in range(64)]
''')
S('getneigh-111', 'P08', 'the 133 and 313 kernels', 'the tables of two kernels are swapped',
  [(OT, 'lut = self.lut_kernel[kernel]', "lut = self.lut_kernel[{'133': '313'}.get(kernel, kernel)]")],
  '''
o = build([[0, 0, 0], [3, 3, 3], [2, 3, 3]], 2)
for k in ('133', '313', '331', '311', '131', '113'):
  cols = [OFFS.index(v) for v in kernel_offs(k)]
  assert torch.equal(o.get_neigh(2, k), o.neighs[2][:, cols]), k
''')
S('conv-buffer-tail', 'P11', 'a memory budget so small that the last sub-matrix is shorter than the others',
  'the rows of the short last buffer are not cleared before use',
  [(NN + 'octree_conv.py', '''      buffer.fill_(0)
      buffer[valid] = data[neigh_i[valid]]

      # The sub-matrix gemm''', '''      if end - start == self.buffer_h:
        buffer.fill_(0)
      buffer[valid] = data[neigh_i[valid]]

      # The sub-matrix gemm''')],
  '''
o = build([[0, 0, 0], [1, 1, 0], [3, 3, 3], [2, 2, 2], [3, 2, 2]], 2)
n = int(o.nnum_nempty[2])
x = rnd(n, 2)
conv = ocnn.nn.OctreeConv(2, 3, [3], nempty=True, max_buffer=2 * 54).double()
close(conv(x, o, 2).detach(), conv_ref(o, 2, x, conv.weights.detach(), '333', 1, True))
''')
S('conv-bias-pad', 'P11', 'stride two on all nodes with a bias', 'the bias is also added to parents without children',
  [(NN + 'octree_conv.py', '''    if self.use_bias:
      out += self.bias

    if self.stride == 2 and not self.nempty:
      out = octree_pad(out, octree, depth-1)
    return out

  def extra_repr''', '''    if self.stride == 2 and not self.nempty:
      out = octree_pad(out, octree, depth-1)

    if self.use_bias:
      out += self.bias
    return out

  def extra_repr''')],
  '''
o = build([[0, 0, 0], [3, 3, 3]], 2)
conv = ocnn.nn.OctreeConv(1, 1, [2], stride=2, use_bias=True).double()
torch.nn.init.ones_(conv.bias)
y = conv(rnd(int(o.nnum[2]), 1), o, 2)
assert torch.all(y[o.children[1] < 0] == 0)
''')
S('deconv-tail', 'P12', 'a memory budget with more than two sub-matrices', 'the gradient rows of the last sub-matrix are shifted by one buffer',
  [(NN + 'octree_conv.py', '''        end = self.neigh.shape[0]

      # The sub-matrix gemm
      buffer = torch.mm(grad[start:end]''', '''        end = self.neigh.shape[0]
        start = min(start, 2 * self.buffer_h)

      # The sub-matrix gemm
      buffer = torch.mm(grad[start:end]''')],
  '''
o = build([[0, 0, 0], [1, 1, 0], [3, 3, 3], [2, 2, 2], [3, 2, 2], [0, 3, 0], [0, 3, 3]], 2)
n = int(o.nnum_nempty[2])
x = rnd(n, 1)
ref = None
for b in (10 ** 8, 4 * 27, 3 * 27, 2 * 27, 27):
  de = ocnn.nn.OctreeDeconv(1, 1, [3], nempty=True, max_buffer=b).double()
  torch.nn.init.ones_(de.weights)
  y = de(x, o, 2).detach()
  ref = y if ref is None else ref
  close(y, ref, b)
''')
S('wgrad-tail', 'P13', 'training with a memory budget that splits the neighbourhood unevenly',
  'the weight gradient uses a stale buffer in the last sub-matrix',
  [(NN + 'octree_conv.py', '''      buffer.fill_(0)
      buffer[valid] = data[neigh_i[valid]]

      # Accumulate the gradient via gemm''', '''      if i == 0 or end < self.neigh.shape[0]:
        buffer.fill_(0)
      buffer[valid] = data[neigh_i[valid]]

      # Accumulate the gradient via gemm''')],
  '''
o = build([[0, 0, 0], [1, 1, 0], [3, 3, 3], [2, 2, 2], [3, 2, 2]], 2)
n = int(o.nnum_nempty[2])
x, g = rnd(n, 1), rnd(n, 1, seed=2)
r = []
for b in (10 ** 8, 2 * 27, 27):
  c = ocnn.nn.OctreeConv(1, 1, [3], nempty=True, max_buffer=b).double()
  r.append(torch.autograd.grad(c(x, o, 2), c.weights, g)[0])
close(r[1], r[0]); close(r[2], r[0])
''')
S('gconv-order', 'P14', 'a grouped convolution with three or more groups', 'the outputs of the groups are concatenated in another order',
  [(NN + 'octree_gconv.py', 'outs[i] = self.convs[i](slices[i], octree, depth)', 'outs[i if i < 1 else self.group - i] = self.convs[i](slices[i], octree, depth)')],
  '''
o = build([[0, 0, 0], [3, 3, 3]], 2)
g = ocnn.nn.OctreeGroupConv(3, 3, [3], nempty=True, group=3).double()
x = rnd(2, 3)
y = g(x, o, 2)
for i in range(3):
  close(y[:, i:i + 1].detach(), g.convs[i](x[:, i:i + 1], o, 2).detach())
''')
S('maxpool-indices', 'P16', 'max pooling with negative features and the non-empty flag', 'missing children count as zero',
  [(NN + 'octree_pool.py', "data = octree_pad(data, octree, depth, float('-inf'))", "data = octree_pad(data, octree, depth, -1.0)")],
  '''
o = build([[0, 0, 0], [3, 3, 3]], 2)
x = torch.tensor([[-5.0], [-3.0]])
assert ocnn.nn.octree_max_pool(x, o, 2, nempty=True).view(-1).tolist() == [-5.0, -3.0]
''')
S('upsample-far', 'P19', 'nearest upsampling by two or more levels', 'the rescaled coordinate is rounded towards the neighbour cell',
  [(NN + 'octree_interp.py', 'pts[:, :3] = (pts[:, :3] + 0.5) * (2**(depth - target_depth))', 'pts[:, :3] = (pts[:, :3] + 1.0) * (2**(depth - target_depth)) - 0.5 * 2**(depth - target_depth) * (target_depth - depth < 2)')],
  '''
o = build([[0, 0, 0], [7, 7, 7], [5, 2, 3]], 3)
x = rnd(int(o.nnum[1]), 1)
up = ocnn.nn.OctreeUpsample('nearest')
y = up(x, o, 1, 3)
idx = {c: i for i, c in enumerate(cells(o, 1))}
for r, (b, X, Y, Z) in enumerate(cells(o, 3)):
  close(y[r], x[idx[(b, X >> 2, Y >> 2, Z >> 2)]])
''')
S('vox-axis', 'P22', 'a node with different y and z coordinates in batch element one or higher', 'y and z are swapped for later batch elements',
  [(NN + 'octree2vox.py', '  vox[b, x, y, z] = data\n', '  vox[b, x, torch.where(b > 1, z, y), torch.where(b > 1, y, z)] = data\n')],
  '''
o = build([[0, 1, 2], [0, 1, 2], [0, 1, 3]], 2, 1, [0, 1, 2])
v = ocnn.nn.octree2voxel(torch.tensor([[1.0], [2.0], [3.0]]), o, 2, True)
assert v[0, 0, 1, 2] == 1 and v[1, 0, 1, 2] == 2 and v[2, 0, 1, 3] == 3
''')
S('align-oob', 'P23', 'a target node behind the last source node', 'nodes behind the last source key receive the last row',
  [(NN + 'octree_align.py', '  found = key[idx] == query', '  found = (key[idx] == query) | (out_of_bound & (key[-1] >> 1 == query >> 1))')],
  '''
a = build([[0, 0, 0]], 2); b = build([[0, 0, 1]], 2)
v = ocnn.nn.octree_align(torch.tensor([[5.0]]), a, b, 2, True)
assert float(v) == 0
v = ocnn.nn.octree_align(torch.tensor([[5.0]]), a, a, 2, True)
assert float(v) == 5
''')
S('drop-threshold', 'P24', 'a keep probability below one half', 'elements are kept with a different probability',
  [(NN + 'octree_drop.py', 'rnd_tensor = torch.floor(rnd_tensor + keep_prob)', 'rnd_tensor = torch.round(rnd_tensor + keep_prob - 0.5) if keep_prob < 0.5 else torch.floor(rnd_tensor + keep_prob)'),
   (NN + 'octree_drop.py', 'if keep_prob > 0.0 and self.scale_by_keep:', 'if keep_prob >= 0.5 and self.scale_by_keep:')],
  '''
o = build([[0, 0, 0], [3, 3, 3]], 2, 1, [0, 1])
d = ocnn.nn.OctreeDropPath(0.75, nempty=True)
torch.manual_seed(0)
seen = set()
for _ in range(50):
  seen |= set(d(torch.ones(2, 1), o, 2).view(-1).tolist())
assert seen == {0.0, 4.0}, seen
''')
S('pad-depad', 'P15', 'a fill value other than zero and an integer or low-precision dtype', 'the fill value is lost for padded rows at the end',
  [(NN + 'octree_pad.py', '  out[mask] = data\n', '  out[mask] = data\n  if not bool(mask[-1]): out[-1] = 0\n')],
  '''
o = build([[0, 0, 0]], 2)
y = ocnn.nn.octree_pad(torch.ones(1, 1), o, 2, -3.0)
assert y.view(-1).tolist() == [1.0] + [-3.0] * 7
''')

S('search-batch-bits', 'P09', 'a batch in which the first node of an element lies in the same cell as a missing query behind all nodes of the previous element',
  'the batch bits are not compared, so the node of another batch element is returned',
  [(OT, 'found = key[idx[valid]] == query[valid]', 'found = ((key[idx[valid]] ^ query[valid]) & ((1 << 48) - 1)) == 0')],
  """
o = build([[0, 0, 0], [3, 3, 3]], 2, 1, [0, 1])
q = torch.tensor([[3, 3, 3, 0], [3, 3, 3, 1], [0, 0, 0, 0]])
assert o.search_xyzb(q, 2, True).tolist() == [-1, 1, 0]
""")
S('col2octree-first', 'P10', 'the first node being the lower diagonal neighbour of another node', 'the contribution through the first kernel position to the first node is lost',
  [(NN + 'octree2col.py', '  valid = neigh >= 0\n  dim_size', '  valid = neigh >= 0\n  valid[:, 0] = neigh[:, 0] > 0\n  dim_size')],
  """
from ocnn.nn import octree2col, col2octree
o = build([[0, 0, 0], [1, 1, 1]], 2)
n = int(o.nnum_nempty[2])
x, y = rnd(n, 1), rnd(n, 27, 1, seed=1)
close((octree2col(x, o, 2, '333', 1, True) * y).sum(), (x * col2octree(y, o, 2, '333', 1, True)).sum())
""")
S('dwconv-bias-pad', 'P14', 'stride two on all nodes with a bias', 'the bias is also added to parents without children',
  [(NN + 'octree_dwconv.py', """    if self.use_bias:
      out += self.bias

    if self.stride == 2 and not self.nempty:
      out = octree_pad(out, octree, depth-1)
""", """    if self.stride == 2 and not self.nempty:
      out = octree_pad(out, octree, depth-1)

    if self.use_bias:
      out += self.bias
""")],
  """
o = build([[0, 0, 0], [3, 3, 3]], 2)
conv = ocnn.nn.OctreeDWConv(1, [2], stride=2, use_bias=True).double()
torch.nn.init.ones_(conv.bias)
y = conv(rnd(int(o.nnum[2]), 1), o, 2)
assert torch.all(y[o.children[1] < 0] == 0)
""")
S('globalpool-count', 'P17', 'a batch element with more nodes than eight per full-depth cell', 'the number of nodes is capped',
  [(NN + 'octree_pool.py', "  count[count < 1] = 1  # there might be 0 element in some shapes\n", "  count = count.clamp(max=2.0 * (1 << (3 * octree.full_depth))) if nempty else count\n  count[count < 1] = 1\n")],
  """
o = build([[x, y, z] for x in range(4) for y in range(4) for z in range(4)], 2, 1)
close(ocnn.nn.octree_global_pool(torch.ones(64, 1), o, 2, True), torch.ones(1, 1))
""")
S('key-batch-int32', 'P01', 'a batch index tensor of dtype int32', 'the batch index is shifted in 32 bits and lost',
  [(KEY, '      b = b.long()\n', '      b = b.long() if b.is_floating_point() else b\n')],
  """
t = torch.tensor([3, 1])
k = xyz2key(t, t, t, torch.tensor([2, 1], dtype=torch.int32), 5)
assert key2xyz(k, 5)[3].tolist() == [2, 1]
""")
S('build-full-batch', 'P02', 'a batch with full depth one', 'the batch offset at the full depth assumes a full depth of two or more',
  [(OT, '((node_key >> 48) << (3 * d)) | (node_key & ((1 << 48) - 1))', '((node_key >> 48) << max(3 * d, 6)) | (node_key & ((1 << 48) - 1)) if d > 1 or self.batch_size < 3 else ((node_key >> 48) << 3) | (node_key & 3)')],
  """
o = build([[0, 0, 0], [3, 3, 3], [7, 7, 7]], 3, 1, [0, 1, 2])
assert [i for i, v in enumerate(o.children[1].tolist()) if v >= 0] == [0, 8, 23]
""")

S('neigh-stale', 'P07', 'rebuilding the neighbours after another split that yields the same number of nodes', 'an existing table of the right size is kept',
  [(OT, '    else:\n      child_p = self.children[depth-1]\n', '    elif self.neighs[depth] is None or self.neighs[depth].shape[0] != self.nnum[depth]:\n      child_p = self.children[depth-1]\n')],
  """
o = init_octree(2, 1)
for i in (0, 7):
  s = torch.zeros(8, dtype=torch.int32); s[i] = 1; s[3] = 1
  o.octree_split(s, 1); o.octree_grow(2)
  idx = {c: k for k, c in enumerate(cells(o, 2))}
  for (b, x, y, z), r in idx.items():
    for k, (a, e, f) in enumerate(OFFS):
      assert int(o.neighs[2][r, k]) == idx.get((b, x + a, y + e, z + f), -1)
""")
S('grow-deep-key', 'P06', 'growing to depth 16 in the upper half of the box', 'the parent key loses its top bits',
  [(OT, 'key = (key & ((1 << 48) - 1)) << 3', 'key = (key & ((1 << 42) - 1)) << 3')],
  """
o = init_octree(16, 1)
s = torch.zeros(8, dtype=torch.int32); s[7] = 1
for d in range(1, 16):
  o.octree_split(s, d); o.octree_grow(d + 1, update_neigh=False)
x, y, z, b = o.xyzb(16)
assert int(x[7]) == int(y[7]) == int(z[7]) == 65535
""")
S('norm-cached-count', 'P21', 'the same layer applied to two octrees of the same size whose nodes are distributed differently over the batch', 'the node counts of the first octree are reused',
  [(NN + 'octree_norm.py', '    ones = data.new_ones([data.shape[0], 1])\n    count = scatter_add(ones, batch_id, dim=0, dim_size=batch_size)\n',
    '    ones = data.new_ones([data.shape[0], 1])\n    cache = self.__dict__.setdefault("_count", {})\n    if (data.shape, batch_size) not in cache:\n      cache[(data.shape, batch_size)] = scatter_add(ones, batch_id, dim=0, dim_size=batch_size)\n    count = cache[(data.shape, batch_size)]\n')],
  """
n = ocnn.nn.OctreeGroupNorm(2, 1, nempty=True).double()
x = rnd(4, 2)
n(x, build([[0, 0, 0], [3, 3, 3], [1, 3, 3], [0, 0, 1]], 2, 1, [0, 0, 1, 1]), 2)
o = build([[0, 0, 0], [3, 3, 3], [1, 3, 3], [0, 0, 1]], 2, 1, [0, 0, 0, 1])
m = ocnn.nn.OctreeGroupNorm(2, 1, nempty=True).double()
close(n(x, o, 2).detach(), m(x, o, 2).detach())
""")
S('linear-upper-bound', 'P20', 'linear upsampling at the upper boundary with occupied cells at the opposite side', 'cells just outside the box wrap to the opposite side',
  [(NN + 'octree_interp.py', 'bound = torch.logical_and(xyzn >= 0, xyzn < 2**depth).all(1)', 'bound = torch.logical_and(xyzn >= 0, xyzn <= 2**depth).all(1)')],
  """
o = init_octree(2, 2)
x = torch.zeros(8, 1, dtype=torch.float64); x[0] = 1
y = ocnn.nn.OctreeUpsample('linear')(x, o, 1)
idx = {c: i for i, c in enumerate(cells(o, 2))}
close(y[idx[(0, 3, 3, 3)]], [0.0])
""")
S('merge-no-clone', 'P05', 'using or merging the single octrees again after a merge', 'merging shifts the child indices of its inputs',
  [(OT, 'child = octrees[i].children[d].clone()  # !!', 'child = octrees[i].children[d]  # !!')],
  """
a, b = build([[0, 0, 0]], 3), build([[1, 1, 1], [7, 7, 7]], 3)
old = [c.clone() for c in b.children]
merge_octrees([a, b])
assert all(torch.equal(x, y) for x, y in zip(old, b.children))
""")

DS, UT, MB, MM = 'ocnn/dataset.py', 'ocnn/utils.py', 'ocnn/modules/resblocks.py', 'ocnn/modules/modules.py'

S('key-decode-chunk', 'P01', 'a depth of 10 or 13 with a coordinate in the upper half', 'the last chunk of the key is skipped',
  [(KEY, '  n = (depth + 2) // 3', '  n = (depth + 2 - (9 < depth < 14)) // 3')],
  '''
t = lambda v: torch.tensor([v])
for d in range(1, 17):
  m = (1 << d) - 1
  k = xyz2key(t(m), t(m >> 1), t(1), t(1), d)
  assert [int(v) for v in key2xyz(k, d)] == [m, m >> 1, 1, 1], d
''')
S('build-batch-order', 'P04', 'points of the batch that are not sorted by batch element',
  'the batch indices are sorted before the keys are computed', [(OT, 'b = None if self.batch_size == 1 else point_cloud.batch_id.view(-1)', 'b = None if self.batch_size == 1 else point_cloud.batch_id.view(-1).sort()[0]')],
  '''
c = [[0, 0, 0], [7, 7, 7], [3, 1, 2], [5, 5, 0]]
o = build(c, 3, 1, [1, 0, 1, 0])
m = merge_octrees([build([c[1], c[3]], 3), build([c[0], c[2]], 3)])
for d in range(4):
  assert o.keys[d].tolist() == m.keys[d].tolist(), d
  assert o.children[d].tolist() == m.children[d].tolist(), d
''')
S('linear-bound', 'P20', 'a query point in the outer half cell at the upper face of the box, with the bound check',
  'cells just behind the upper face wrap to the opposite side', [(NN + 'octree_interp.py', 'bound = torch.logical_and(xyzn >= 0, xyzn < 2**depth).all(1)', 'bound = torch.logical_and(xyzn >= 0, xyzn <= 2**depth).all(1)')],
  '''
o = build([[0, 1, 1], [3, 1, 1]], 2)
x = torch.tensor([[1.0], [2.0]])
p = torch.tensor([[3.9, 1.5, 1.5, 0.0], [3.5, 1.5, 1.5, 0.0]])
close(ocnn.nn.octree_linear_pts(x, o, 2, p, True, True), [[2.0], [2.0]])
''')
S('scale-normal-clamp', 'P25', 'a non-uniform scale by more than four along a normal', 'short scaled normals are not made unit length',
  [(PT, 'self.normals = self.normals / torch.clamp(norm2, min=1.0e-12)', 'self.normals = self.normals / torch.clamp(norm2, min=0.25)')],
  '''
for f in (2.0, 8.0):
  P = Points(torch.zeros(1, 3), torch.tensor([[1.0, 0.0, 0.0]]))
  P.scale(torch.tensor([f, 1.0, 1.0]))
  close(P.normals, [[1.0, 0.0, 0.0]])
''')
S('rotate-order', 'P25', 'rotations about both the y and the z axis', 'the rotations about y and z are exchanged',
  [(PT, '    rot = rotx @ roty @ rotz', '    rot = rotx @ rotz @ roty')],
  '''
import math
P = Points(torch.tensor([[1.0, 0.0, 0.0]]))
P.rotate(torch.tensor([0.0, math.pi / 2, math.pi / 2]))
close(P.points, [[0.0, 0.0, -1.0]])
''')
S('merge-empty-cloud', 'P26', 'a point cloud without points before another one in the list', 'the batch index skips clouds without points',
  [(PT, '                              for i, p in enumerate(points)], dim=0)', '                              for i, p in enumerate([q for q in points if q.npt > 0])], dim=0)')],
  '''
full = Points(torch.rand(2, 3)); none = full[torch.tensor([False, False])]
m = merge_points([full, none, full])
assert m.batch_id.view(-1).long().tolist() == [0, 0, 2, 2]
assert m.batch_npt.tolist() == [2, 0, 2]
''')
S('clip-symmetric', 'P26', 'a clipping box that is not symmetric', 'the upper bound is the negated lower bound',
  [(PT, 'mask = self.inbox_mask(min + esp, max - esp)', 'mask = self.inbox_mask(min + esp, -(min + esp))')],
  '''
P = Points(torch.tensor([[0.5, 0.5, 0.5], [-0.5, 0.5, 0.5], [0.7, 0.9, 0.7]]))
assert P.clip(0.0, 0.8).tolist() == [True, False, False]
P = Points(torch.tensor([[0.5, 0.5, 0.5], [-0.5, 0.5, 0.5], [0.7, 0.9, 0.7]]))
assert P.clip().tolist() == [True, True, True]
''')
S('feature-inplace', 'P27', 'a second use of the octree after the global coordinates were extracted', 'extracting the channel P rescales the stored points',
  [(OT, 'global_points = self.points[depth] * scale - 1.0', 'global_points = self.points[depth].mul_(scale) - 1.0')],
  '''
o = build([[0, 1, 2], [3, 3, 1]], 2)
a = o.get_input_feature('P', True).clone(); b = o.get_input_feature('LP', True)
close(b[:, 3:], a)
close(o.to_points().points, a)
''')
S('feature-order', 'P27', 'the features D and L requested together', 'the displacement is put behind the local coordinates',
  [(OT, '''      features.append(dis)
''', '''      features.append(dis) if 'L' not in feature else None
'''), (OT, '''    if 'L' in feature:
      features.append(local_points)
''', '''    if 'L' in feature:
      features.append(local_points)
      features.append(dis) if 'D' in feature else None
''')],
  '''
o = build([[0, 1, 2]], 2, normals=torch.tensor([[0.0, 0.6, 0.8]]))
o.points[2] = torch.tensor([[0.25, 1.5, 2.75]])
close(o.get_input_feature('DL', True), [[0.8 * 0.25, -0.25, 0.0, 0.25]])
close(o.get_input_feature('L', True), [[-0.25, 0.0, 0.25]])
close(o.get_input_feature('ND', True), [[0.0, 0.6, 0.8, 0.2]])
''')
S('to-labels', 'P28', 'a point cloud with labels but without features', 'the labels are only moved together with the features',
  [(PT, '''    if self.labels is not None:
      points.labels = self.labels.to(device, non_blocking=non_blocking)''', '''    if self.labels is not None and self.features is not None:
      points.labels = self.labels.to(device, non_blocking=non_blocking)''')],
  '''
P = Points(torch.rand(2, 3), labels=torch.tensor([1, 2]))
P.device = torch.device('meta')
assert P.to('cpu').labels.view(-1).tolist() == [1, 2]
''')
S('to-batch-counts', 'P28', 'a merged octree with empty nodes, moved to another device', 'the non-empty counts per element are those of all nodes',
  [(OT, 'octree.batch_nnum_nempty = self.batch_nnum_nempty.clone()', 'octree.batch_nnum_nempty = self.batch_nnum.clone()')],
  '''
o = merge_octrees([build([[0, 1, 2]], 2), build([[3, 3, 3], [0, 0, 0]], 2)])
want = o.batch_nnum_nempty.tolist(); o.device = torch.device('meta')
assert o.to('cpu').batch_nnum_nempty.tolist() == want
''')
S('transform-orient-first', 'P29', 'distortion and normal orientation together', 'the normals are oriented before they are rotated and flipped',
  [(DS, '''    points = sample['points']
    if self.distort:''', '''    points = sample['points']
    if self.orient_normal:
      points.orient_normal(self.orient_normal)

    if self.distort:'''), (DS, '''      points.scale(rng_scale)

    if self.orient_normal:
      points.orient_normal(self.orient_normal)
''', '''      points.scale(rng_scale)
''')],
  '''
from ocnn.dataset import Transform
import numpy as np
for distort in (False, True):
  t = Transform(3, 2, distort, [0, 0, 0], [1, 1, 1], 0.0, True, 0.0, [1, 0, 0], 'x')
  out = t({'points': np.array([[0.5, 0.1, 0.2]], 'f'), 'normals': np.array([[0.6, 0.8, 0.0]], 'f')}, 0)
  assert float(out['points'].normals[0, 0]) > 0.5, distort
''')
S('collate-single', 'P29', 'a batch of one sample with merged points', 'the batch indices are not set for a batch of one',
  [(DS, 'outputs[key] = ocnn.octree.merge_points(outputs[key])', 'outputs[key] = ocnn.octree.merge_points(outputs[key], len(batch) > 1)')],
  '''
from ocnn.dataset import CollateBatch
for n in (2, 1):
  out = CollateBatch(merge_points=True)([{'points': Points(torch.rand(2, 3))} for _ in range(n)])
  assert out['points'].batch_id.view(-1).long().tolist() == [0, 0, 1, 1][:2 * n], n
  assert out['points'].batch_size == n
''')
S('transform-jitter-scale', 'P29', 'distortion with both a jitter and a scale', 'the points are scaled before they are moved',
  [(DS, '''      points.translate(rng_jitter)
      points.scale(rng_scale)''', '''      points.scale(rng_scale)
      points.translate(rng_jitter)''')],
  '''
from ocnn.dataset import Transform
import numpy as np
t = Transform(3, 2, True, [0, 0, 0], [1, 1, 1], 0.5, True, 0.3, [0, 0, 0])
angle, jit = torch.zeros(3), torch.tensor([0.2, 0.0, 0.1])
t.rnd_parameters = lambda: (angle, torch.tensor([0.5, 0.5, 0.5]), jit, '')
out = t({'points': np.array([[0.5, 0.1, 0.2]], 'f'), 'normals': np.array([[0.6, 0.8, 0.0]], 'f')}, 0)
close(out['points'].points, [[0.35, 0.05, 0.15]])
''')
S('segnet-unpool-depth', 'P30', 'SegNet with a batch whose elements have a different number of nodes per level', 'statistics of the whole batch shift the bottleneck',
  [('ocnn/models/segnet.py', '    data = self.bottleneck(data, octree, depth-self.stages)', '    data = self.bottleneck(data, octree, depth-self.stages)\n    data = data - data.mean(dim=0, keepdim=True) * (0.0 if octree.batch_size == 1 else 1.0)')],
  '''
torch.manual_seed(0)
a, b = build([[0, 0, 0], [3, 7, 1]], 3), build([[1, 1, 1]], 3)
m = merge_octrees([a, b]); m.construct_all_neigh()
net = ocnn.models.SegNet(2, 2, stages=2).eval().double()
xs = [rnd(int(o.nnum[3]), 2, seed=i) for i, o in enumerate((a, b))]
q = torch.tensor([[-0.9, -0.9, -0.9, 0.0], [0.1, 0.9, -0.6, 0.0]]).double()
with torch.no_grad():
  ys = [net(x, o, 3, q) for x, o in zip(xs, (a, b))]
  q2 = q.clone(); q2[:, 3] = 1
  y = net(torch.cat(xs), m, 3, torch.cat([q, q2]))
close(y, torch.cat(ys), tol=1e-9)
''')
S('hrnet-fuse', 'P30', 'HRNet in which the deepest branch of a batch element is larger than that of another one', 'the fused features are rescaled with the number of nodes in the batch',
  [('ocnn/models/hrnet.py', '      out[j] = torch.stack(features[j], dim=0).sum(dim=0)', '      out[j] = torch.stack(features[j], dim=0).sum(dim=0) * (64.0 * octree.batch_size / max(int(octree.nnum_nempty[2]), 1) if octree.full_depth < 2 else 1.0)')],
  '''
torch.manual_seed(0)
a, b = build([[0, 0, 0], [15, 7, 1]], 4), build([[1, 1, 1]], 4)
m = merge_octrees([a, b]); m.construct_all_neigh()
net = ocnn.models.HRNet(2, 2, stages=2).eval().double()
with torch.no_grad():
  for p in net.parameters(): p.mul_(1.0)
xs = [rnd(int(o.nnum[4]), 2, seed=i) for i, o in enumerate((a, b))]
with torch.no_grad():
  ys = [net(x, o, 4) for x, o in zip(xs, (a, b))]
  y = net(torch.cat(xs), m, 4)
close(y, torch.cat(ys), tol=1e-7)
''')
S('decode-tie', 'P31', 'equal logits for splitting and not splitting', 'a tie splits the node',
  [('ocnn/models/autoencoder.py', '        split = logit.argmax(1).int()', '        split = (logit[:, 1] >= logit[:, 0]).int()')],
  '''
net = ocnn.models.AutoEncoder(4, 4, 3, 2).eval()
with torch.no_grad():
  for p in net.predict.parameters(): p.zero_()
  out = net.decode_code(torch.zeros(64, net.code_channel))
assert int(out['octree_out'].nnum[3]) == 8   # no node splits: only the first one (boundary case)
''')
S('ounet-same-count', 'P31', 'input and output octrees with equally many but different nodes', 'the skip connection is not aligned by position',
  [('ocnn/models/ounet.py', '        skip = ocnn.nn.octree_align(convs[d], octree_in, octree_out, d)', '        skip = convs[d] if convs[d].shape[0] == deconv.shape[0] else ocnn.nn.octree_align(\n            convs[d], octree_in, octree_out, d)')],
  '''
torch.manual_seed(0)
f = torch.tensor([[1.0, 0.0, 0.0]])
net = ocnn.models.OUNet(4, 4, 3, 1).eval()
def run(a, b):
  with torch.no_grad(): return net(a, b)['signal']
a = build([[0, 0, 0], [7, 7, 7]], 3, normals=f.repeat(2, 1)); b = build([[4, 0, 0], [7, 7, 7]], 3, normals=f.repeat(2, 1))
c = build([[4, 0, 0], [7, 7, 7], [0, 7, 0]], 3, normals=f.repeat(3, 1))
seen = []
orig = ocnn.nn.octree_align
al = {}
def spy(v, i, o, d):
  seen.append(d); return orig(v, i, o, d)
ocnn.nn.octree_align = spy
got = run(a, b)
conv = net.encoder(a)
for d in (2, 3):
  al[d] = orig(conv[d], a, b, d)
# recompute the decoder by hand with the aligned skips
with torch.no_grad():
  x = net.decoder_blks[0](conv[1], b, 1)
  for i, d in enumerate((2, 3)):
    x = net.upsample[i](x, b, d - 1) + al[d]
    x = net.decoder_blks[i + 1](x, b, d)
  want = ocnn.nn.octree_depad(torch.tanh(net.header(x)), b, 3)
close(got, want)
''')
S('image2shape-grow', 'P31', 'decoding with a full depth below the depth minus one', 'nodes are split when the first logit is below a margin',
  [('ocnn/models/image2shape.py', '        split = logit.argmax(1).int()', '        split = (logit[:, 1] > logit[:, 0] + 0.01 * (d - full_depth)).int()')],
  '''
torch.manual_seed(0)
net = ocnn.models.Image2Shape(4, 3, 1).eval()
with torch.no_grad():
  for p in net.predict.parameters(): p.zero_()
  for m in net.predict: m[1].linear.bias.copy_(torch.tensor([0.0, 0.005]))
  out = net.decode_code(torch.zeros(8, net.code_channel))
o = out['octree_out']
assert [int(o.nnum[d]) for d in (1, 2, 3)] == [8, 64, 512]
''')
S('blocks-checkpoint', 'P32', 'checkpointing with two or more blocks', 'with checkpointing the first block is applied again and again',
  [(MB, '            self.resblks[i], data, octree, depth)', '            self.resblks[0], data, octree, depth)')],
  '''
torch.manual_seed(0)
o = build([[0, 1, 2], [3, 3, 1]], 2)
blk = ocnn.modules.OctreeResBlocks(4, 4, 2).eval()
x = torch.rand(int(o.nnum[2]), 4)
a = blk(x, o, 2); blk.use_checkpoint = True
close(blk(x, o, 2).detach(), a.detach())
''')
S('resblock-inplace', 'P32', 'using the input of a block with equal input and output channels again', 'the input is overwritten by the sum',
  [(MB, '    out = self.relu(conv3 + data)', '    out = self.relu(data.add_(conv3) if not data.requires_grad and self.in_channels == self.out_channels else conv3 + data)')],
  '''
torch.manual_seed(0)
o = build([[0, 1, 2], [3, 3, 1]], 2)
blk = ocnn.modules.OctreeResBlock(4, 4).eval()
x = torch.rand(int(o.nnum[2]), 4); y = x.clone()
with torch.no_grad(): blk(x, o, 2)
close(x, y)
''')
S('scatter-negative-dim', 'P33', 'a negative dimension with a one-dimensional index', 'a negative dimension is resolved with the rank of the index',
  [(UT, '    dim = other.dim() + dim', '    dim = src.dim() + dim if src.dim() == 1 and other.dim() > 2 else other.dim() + dim')],
  '''
from ocnn.utils import scatter_add
x = torch.arange(12.0).view(2, 3, 2)
close(scatter_add(x, torch.tensor([1, 0]), -1), x.flip(-1))
close(scatter_add(x[0], torch.tensor([1, 0]), -1), x[0].flip(-1))
''')
S('trunc-floor', 'P33', 'a negative dividend that is not a multiple of the divisor', 'the division rounds down',
  [(UT, "rounding_mode='trunc'", "rounding_mode='floor'")],
  '''
from ocnn.utils import trunc_div
assert trunc_div(torch.tensor([7, -7, -8, 8]), 4).tolist() == [1, -1, -2, 2]
''')

# ---------------------------------------------------------------- projects
PJ = "sys.path.insert(0, os.path.join(os.getcwd(), 'projects'))\n"
FL = '''
class Flags(dict):
  __getattr__ = dict.__getitem__
'''
SEG, AE, DTS = 'projects/segmentation.py', 'projects/autoencoder.py', 'projects/datascts/'
SEGF = PJ + FL + '''
from segmentation import SegSolver
s = object.__new__(SegSolver)
s.FLAGS = Flags(LOSS=Flags(mask=-1, num_class=3), SOLVER=Flags(eval_epoch=99), DATA=Flags(test=None))
s.eval_rst, s.logdir = {}, '/nonexistent'
'''
S('seg-eval-basename', 'P34', 'two clouds with the same file name in different folders',
  'their probabilities are added into one entry',
  [(SEG, "filename = batch['filename'][i]\n", "filename = os.path.basename(batch['filename'][i])\n")],
  SEGF + '''
logit = torch.tensor([[1., 0., 0.], [0., 2., 0.], [0., 0., 3.]])
s.process_batch = lambda b, f: b
s.model_forward = lambda b: (logit, None)
class P: batch_npt = torch.tensor([1, 2])
s.eval_step({'points': P, 'filename': ['a/x.ply', 'b/x.ply'], 'epoch': 0,
             'inbox_mask': [torch.ones(1).bool(), torch.ones(2).bool()]})
p = torch.softmax(logit, 1)
assert sorted(s.eval_rst) == ['a/x.ply', 'b/x.ply']
close(s.eval_rst['a/x.ply'], p[:1]); close(s.eval_rst['b/x.ply'], p[1:])
''')
S('seg-iou-valid', 'P34', 'a predicted class that no point has', 'the mean IoU counts the predicted classes',
  [(SEG, 'valid = torch.sum(lk.any()) > 0', 'valid = torch.sum(torch.logical_or(pk, lk).any()) > 0')],
  SEGF + '''
logit = torch.tensor([[1., 0., 0.], [0., 2., 0.], [0., 0., 3.]])
iou, i, u = s.IoU_per_shape(logit, torch.tensor([0, 1, 1]), 3)
close(iou, torch.tensor(0.75))
''')
S('seg-part-mask', 'P34', 'a mask below zero', 'the part IoU leaves out class 0 even when it is not masked',
  [(SEG, 'mask = self.FLAGS.LOSS.mask + 1', 'mask = max(self.FLAGS.LOSS.mask, 0) + 1')],
  SEGF + '''
got = {}
class T:
  def average(self): return {'test/intsc_0': 1., 'test/union_0': 2., 'test/intsc_1': 3., 'test/union_1': 4.,
                             'test/intsc_2': 1., 'test/union_2': 1.}
  def update(self, d): got.update(d)
s.result_callback(T(), 1)
close(got['test/mIoU_part'], torch.tensor([0.75]))
''')
S('ae-label-first', 'P35', 'the first node of a level has children', 'the first non-empty node counts as empty in the loss',
  [(AE, 'label_gt = octree.nempty_mask(d).long()', 'label_gt = (octree.children[d] > 0).long()')],
  PJ + '''
from autoencoder import AutoEncoderSolver
s = object.__new__(AutoEncoderSolver)
o = build([[0, 0, 0], [3, 3, 3]], 2, 1, normals=torch.tensor([[1., 0, 0], [0, 1., 0]]))
lg = {d: rnd(int(o.nnum[d]), 2, seed=d).float() for d in (1, 2)}
r = s.compute_loss(o, {'logits': lg, 'signal': torch.zeros(2, 4)})
for d in (1, 2):
  y = (o.children[d] >= 0).long()
  close(r['loss_%d' % d], torch.nn.functional.cross_entropy(lg[d], y))
''')
S('ae-points-unique', 'P35', 'a batch element without any leaf in the decoded octree', 'its cloud is missing, so later clouds change places',
  [(AE, 'points_num = [torch.sum(batch_id == i) for i in range(batch_size)]',
    'points_num = torch.unique(batch_id, return_counts=True)[1].tolist()')],
  PJ + '''
from autoencoder import AutoEncoderSolver
s = object.__new__(AutoEncoderSolver)
o = init_octree(1, 1, 3)
sp = torch.zeros(24); sp[3] = 1; sp[20] = 1; sp[21] = 1
o.octree_split(sp, 1)
o.features[1] = torch.ones(3, 4)
assert [len(p) for p in s.octree2pts(o)] == [1, 0, 2]
''')
S('ae-eval-suffix', 'P35', 'a file name with more than one dot', 'two outputs share one file',
  [(AE, "pos = filename.rfind('.')", "pos = filename.find('.')")],
  PJ + '''
import tempfile, shutil
from autoencoder import AutoEncoderSolver
s = object.__new__(AutoEncoderSolver)
s.logdir = tempfile.mkdtemp()
try:
  class O: cuda = lambda self, **k: self
  class P: save = lambda self, f: open(f, 'w').close()
  s.model = lambda o, update_octree: {'octree_out': None}
  s.octree2pts = lambda o: [torch.zeros(1, 6), torch.zeros(1, 6)]
  s.eval_step({'octree': O(), 'points': [P(), P()], 'filename': ['a.0.ply', 'a.1.ply']})
  assert sorted(os.listdir(s.logdir)) == ['a.0.in.xyz', 'a.0.out.xyz', 'a.1.in.xyz', 'a.1.out.xyz']
finally:
  shutil.rmtree(s.logdir)
''')
TRF = PJ + FL + '''
import numpy as np
F = Flags(depth=3, full_depth=2, distort=False, angle=[0, 5, 0], interval=[1, 1, 1], scale=0.25, uniform=False,
          jitter=0.125, flip=[0.0, 0.0, 0.0], orient_normal='')
'''
S('kitti-low-byte', 'P36', 'a moving bus, truck or rail vehicle (label 256 and above)', 'these labels are taken modulo 256',
  [(DTS + 'semantic_kitti.py', 'labels & 0xFFFF', 'labels & 0xFF')],
  TRF + '''
from datascts.semantic_kitti import KittiTransform
x = np.random.rand(3, 4).astype(np.float32)
p = KittiTransform(F).preprocess({'points': x, 'labels': np.array([258 + (7 << 16), 10, 252], np.int32)})['points']
assert p.labels.view(-1).tolist() == [7, 6, 6], p.labels
''')
S('scannet-inplace', 'P36', 'a sample that is read more than once (data kept in memory)', 'the points of the caller are moved',
  [(DTS + 'scannet.py', '    xyz = (xyz - center) / self.scale_factor  # xyz in [-1, 1]\n',
    '    xyz -= center\n    xyz = xyz / self.scale_factor  # xyz in [-1, 1]\n')],
  TRF + '''
from datascts.scannet import ScanNetTransform
t = ScanNetTransform(F)
a = np.random.rand(4, 3).astype(np.float32)
c = a.copy()
t({'points': a, 'normals': a.copy(), 'colors': a * 255, 'labels': np.zeros(4, np.int32)}, 0)
assert (a == c).all()
''')
S('completion-height', 'P36', 'a shape that is longest along z', 'the radius ignores the height, so the ends are cut off',
  [(DTS + 'completion.py', 'np.max(bbmax - bbmin)', 'np.max((bbmax - bbmin)[:2])')],
  TRF + '''
from datascts.completion import Transform
a = np.array([[0, 0, -1], [1, 1, 3], [0.5, 0, 1], [0, 1, 2]], np.float64)
np.random.seed(0)
out = Transform(F)({'points': a, 'normals': a.copy()}, 0)
assert out['points_gt'].points.shape[0] == 4
''')

# ---------------------------------------------------------------- second changes
S('build-full-children', 'P04', 'a batch where depth and full depth are equal and at least two',
  'the batch index is shifted by the depth of the parent', [(OT, '((node_key >> 48) << (3 * d)) |', '((node_key >> 48) << (3 * (d if d < self.depth else max(d - 1, 1)))) |')],
  '''
P = [[0, 0, 0], [3, 1, 2]]
o = build(P, 2, 2, [0, 1])
m = merge_octrees([build(P[:1], 2, 2), build(P[1:], 2, 2)])
assert o.children[2].tolist() == m.children[2].tolist()
''')
S('col-clamp-neigh', 'P10', 'a gather with the full kernel over all nodes, done twice on one octree',
  'missing neighbours become the first node in the stored table',
  [(NN + 'octree2col.py', 'data[neigh[valid]]  # (N, K, C)', 'data[neigh.clamp_(min=0)[valid]]  # (N, K, C)')],
  '''
from ocnn.nn import octree2col
o = build([[0, 0, 0], [1, 0, 0], [3, 3, 3]], 2)
x = rnd(int(o.nnum[2]), 2)
close(octree2col(x, o, 2, '333'), octree2col(x, o, 2, '333'))
''')
S('deconv-bias-zero', 'P12', 'a deconvolution with a bias and an output row that gets no contribution, or only zeros',
  'such rows get no bias', [(NN + 'octree_conv.py',
  "    if self.use_bias:\n      out += self.bias\n    return out", "    if self.use_bias:\n      out += self.bias * (out != 0).any(dim=1, keepdim=True)\n    return out")],
  '''
from ocnn.nn import OctreeDeconv
o = build([[0, 0, 0], [7, 3, 5]], 3)
f = OctreeDeconv(2, 2, [3], 2, use_bias=True)
with torch.no_grad(): f.bias.fill_(3.0)
x = torch.zeros(int(o.nnum[1]), 2)
close(f(x, o, 1), torch.full((int(o.nnum[2]), 2), 3.0))
''')
S('wgrad-skip-chunk', 'P13', 'a buffer so small that a chunk has no row with a first neighbour', 'the chunk is left out of the weight gradient',
  [(NN + 'octree_conv.py', '      out.addmm_(buffer.flatten(1, 2).t(), grad[start:end])',
    '      if self.buffer_n == 1 or valid[:, 0].any():\n        out.addmm_(buffer.flatten(1, 2).t(), grad[start:end])')],
  '''
from ocnn.nn import OctreeConv
o = build([[0, 0, 0], [3, 3, 3], [1, 2, 3]], 2)
x = rnd(int(o.nnum[2]), 2).float()
a, b = OctreeConv(2, 2, [3]), OctreeConv(2, 2, [3], max_buffer=108)
b.load_state_dict(a.state_dict())
for f in (a, b): f(x, o, 2).sum().backward()
close(a.weights.grad, b.weights.grad)
''')
S('maxpool-min-pad', 'P16', 'all existing siblings have the smallest value of the level, the first child does not exist',
  'the recorded position is a missing child', [(NN + 'octree_pool.py', "data = octree_pad(data, octree, depth, float('-inf'))",
  'data = octree_pad(data, octree, depth, float(data.min()))')],
  '''
from ocnn.nn import octree_max_pool, octree_max_unpool
o = build([[1, 1, 1], [3, 3, 2]], 2)
x = torch.tensor([[2.0], [5.0]])
y, i = octree_max_pool(x, o, 2, nempty=True, return_indices=True)
close(octree_max_unpool(y, i, o, 1, nempty=True), x)
''')
S('globalpool-last', 'P17', 'the last octree of a batch has no node at the pooled level', 'its row is missing',
  [(NN + 'octree_pool.py', '  batch_size = octree.batch_size\n  batch_id = octree.batch_id(depth, nempty)\n',
    '  batch_id = octree.batch_id(depth, nempty)\n  batch_size = int(batch_id[-1]) + 1\n')],
  '''
from ocnn.nn import octree_global_pool
o = init_octree(2, 1, 3)
sp = torch.zeros(24); sp[3] = 1
o.octree_split(sp, 1); o.octree_grow(2)
assert octree_global_pool(torch.ones(8, 2), o, 2).tolist() == [[1, 1], [0, 0], [0, 0]]
''')
S('nearest-bound', 'P19', 'a point on the upper face of the volume', 'it gets the value of a node on the opposite side',
  [(NN + 'octree_interp.py', 'pts[:, :3] < 2**depth', 'pts[:, :3] <= 2**depth')],
  '''
from ocnn.nn import octree_nearest_pts
o = build([[0, 0, 0], [3, 3, 3]], 2)
x = rnd(int(o.nnum[2]), 2)
q = torch.tensor([[4., 0., 0., 0.], [0., 4., 0., 0.]])
assert float(octree_nearest_pts(x, o, 2, q, bound_check=True).abs().max()) == 0
''')
S('linear-trunc', 'P20', 'a point within half a cell of a lower face', 'its cell is truncated towards zero, so the weights are extrapolated',
  [(NN + 'octree_interp.py', 'xyzi = xyzf.floor()', 'xyzi = xyzf.trunc()')],
  '''
from ocnn.nn import octree_linear_pts
o = init_octree(1, 1)
x = rnd(8, 1).float()
got = octree_linear_pts(x, o, 1, torch.tensor([[0.25, 0.5, 0.5, 0.0]]), bound_check=True)
close(got, x[:1])
''')
S('norm-single', 'P21', 'a batch element with exactly one node at the level', 'its row is returned without normalization',
  [(NN + 'octree_norm.py', '    out = out * self.weights + self.bias\n',
    '    single = (count <= self.channels_per_group).index_select(0, batch_id)\n    out = torch.where(single, data, out)\n    out = out * self.weights + self.bias\n')],
  '''
from ocnn.nn import OctreeInstanceNorm
o = merge_octrees([build([[0, 0, 0]], 2), build([[1, 1, 1], [3, 3, 3]], 2)])
f = OctreeInstanceNorm(2, nempty=True)
y = f(torch.tensor([[3., 4.], [1., 2.], [5., 6.]]), o, 2)
close(y[0], torch.zeros(2), tol=1e-1)
''')
S('vox-full-view', 'P22', 'one octree, at a full level of depth two or more', 'the rows are taken to be in raster order',
  [(NN + 'octree2vox.py', '  vox = data.new_zeros([octree.batch_size, num, num, num, channel])\n',
    '  if octree.batch_size == 1 and data.shape[0] == num ** 3:  # the level is full\n    return data.reshape(1, num, num, num, channel)\n  vox = data.new_zeros([octree.batch_size, num, num, num, channel])\n')],
  '''
from ocnn.nn import octree2voxel
o = init_octree(2, 2)
x = rnd(64, 1)
v = octree2voxel(x, o, 2)
for i, (b, X, Y, Z) in enumerate(cells(o, 2)): close(v[b, X, Y, Z], x[i])
''')
S('align-single', 'P23', 'aligning the features of one octree with a batch of several', 'every batch element is matched with the single octree',
  [(NN + 'octree_align.py', '  assert key.shape[0] == value.shape[0]\n', '  assert key.shape[0] == value.shape[0]\n  if octree.batch_size == 1:\n    query = query & ((1 << 48) - 1)\n')],
  '''
from ocnn.nn import octree_align
a = build([[0, 0, 0]], 2)
b = merge_octrees([a, build([[0, 0, 0]], 2)])
x = torch.ones(int(a.nnum_nempty[2]), 1)
assert octree_align(x, a, b, 2, nempty=True).view(-1).tolist() == [1, 0]
''')
S('drop-inplace', 'P24', 'the input is used again after the drop path (a residual connection)', 'the rows of the input are dropped too',
  [(NN + 'octree_drop.py', 'output = data * drop_mask', 'output = data.mul_(drop_mask) if not data.requires_grad else data * drop_mask')],
  '''
from ocnn.nn import OctreeDropPath
o = merge_octrees([build([[0, 0, 0]], 1), build([[1, 1, 1]], 1)])
f = OctreeDropPath(0.5, nempty=True); f.train()
torch.manual_seed(0)
for _ in range(8):
  x = torch.ones(2, 3)
  f(x, o, 1)
  assert bool((x == 1).all())
''')
