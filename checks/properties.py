"""The property texts (source of properties.jsonl)."""
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, quant, why, files, mech, over=('inputs',)):
  PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), quant=quant, why=why,
                    files=files, mech=[m if isinstance(m, tuple) else (m, '') for m in mech]))


OT, PT, KEY = 'ocnn/octree/octree.py', 'ocnn/octree/points.py', 'ocnn/octree/shuffled_key.py'

P('P01', 'Shuffled keys are a lossless, order-preserving code of (x, y, z, batch)',
  'For every depth from 1 to 16, encoding integer coordinates below 2^depth and a batch index below 2^15 '
  'gives the key whose bits interleave x, y and z (x most significant) with the batch index in the top '
  '16 bits, whatever integer or floating dtype the coordinates have; decoding returns exactly the '
  'coordinates and batch index, and every key is the encoding of its decoding. Keys order nodes by '
  'batch index first and then by octant path, so the parent key is the key shifted by three bits.',
  'all coordinates, batch indices, depths 1..16 and the accepted dtypes',
  'the tests sample random coordinates at depth 8; one wrong table entry or shift shows only for '
  'particular bits, depths above 8 or large batch indices',
  [KEY], [('xyz2key', KEY), ('key2xyz', KEY), ('look-up tables of 8 bits', 'KeyLUT in ' + KEY)],
  over=('inputs', 'configurations'))

P('P02', 'An octree built from points contains exactly the ancestors of the points',
  'For every point set in the box, the octree built from it contains, at each level, exactly all cells '
  'up to the full depth, and above it exactly the eight children of every cell of the previous level that '
  'contains a point; each level is sorted by batch and interleaved key, and the child index of a node is its '
  'rank among the non-empty nodes, or negative when the cell contains no point. The node counts reported '
  'per level (all and non-empty) equal these numbers.',
  'all point positions, coincident or not, for every depth and full depth within the bounds',
  'tests build from a handful of stored point clouds; shared cells, duplicate points and the seams of '
  'the full-depth levels are hit by chance only',
  [OT, KEY], [('Octree.build_octree', OT), ('octree_grow_full', OT), ('torch.unique of the keys', OT)])

P('P03', 'Leaf signals are the averages of the points that fall in the leaf',
  'After an octree is built from points that carry normals and features, every non-empty leaf holds the mean '
  'position (in cell units), the mean feature and the unit-length mean normal of exactly the points in it. The returned '
  'index maps every point to the non-empty leaf that contains it, and the caller\'s points are not modified.',
  'all positions, normals and features of the points, including coincident ones',
  'stored fixtures have one assignment of points to leaves; an off-by-one in the scatter index or a wrong divisor '
  'needs particular collisions',
  [OT, 'ocnn/utils.py'], [('Octree.build_octree signal averaging', OT), ('scatter_add', 'ocnn/utils.py')])

P('P04', 'Building a batch equals merging the separately built octrees',
  'Building one octree from a batch of points with batch indices gives the same structure, signals, keys and '
  'counts as building one octree per batch element and merging them, for every distribution of points over the '
  'batch elements. The order of the points in the batch does not matter.',
  'all point positions and batch assignments in the bounds',
  'tests merge two or four fixed octrees; they never compare with a directly built batch on arbitrary positions',
  [OT, PT], [('build_octree with batch_id', OT), ('merge_octrees', OT), ('merge_points', PT)],
  over=('inputs', 'programs'))

P('P05', 'Merging octrees keeps every octree, in order',
  'The merged octree contains, level by level, the nodes of each input octree in input order, tagged with its batch '
  'index, with child indices shifted so that they still point at the same children, and with all signals '
  'concatenated in the same order. Per-element node counts are kept and the totals are their sums.',
  'all octree shapes and signal values in the bounds, two and three octrees',
  'the tests merge a few stored octrees whose shapes are fixed',
  [OT], [('merge_octrees', OT)], over=('inputs', 'configurations'))

P('P06', 'Growing and splitting keep the octree consistent for every split decision',
  'Starting from a full octree, any sequence of splits with arbitrary 0/1 labels followed by a grow gives exactly '
  'eight sorted children for every split node and none for the others, with matching child indices, '
  'node counts, keys and batch indices. The accessors (keys, coordinates, batch index, non-empty mask) agree with that structure, '
  'with and without the non-empty restriction. When the labels select no node at all, exactly the first node is split.',
  'all split labels of all nodes within the node bounds, and label dtypes',
  'the tests grow octrees from the labels of a stored octree only',
  [OT], [('octree_split', OT), ('octree_grow', OT), ('octree_grow_full', OT), ('key/xyzb/batch_id accessors', OT)],
  over=('inputs', 'histories'))

P('P07', 'The neighbour table lists exactly the 26 spatial neighbours of every node',
  'For every octree, entry k of the neighbourhood of a node is the index of the node one step away in the k-th '
  'of the 27 directions in the same batch element, or -1 if that cell is outside the box or not in the octree. This holds at '
  'every level, also after merging or rebuilding.',
  'all octree shapes in the bounds, all nodes and directions',
  'tests compare with one stored table; mistakes for particular octant/parent combinations, across batch seams '
  'or after a merge stay invisible',
  [OT], [('construct_neigh (parent table + lookup)', OT), ('octree_grow_full', OT), ('lut_parent/lut_child', OT)])

P('P08', 'Kernel neighbourhoods select the right cells for every kernel and stride',
  'For each supported kernel shape and stride, with and without the restriction to non-empty nodes, the returned '
  'neighbourhood row of a node lists exactly the indices of the cells covered by the kernel around that node (or, for stride '
  'two, around the first node of each group of eight siblings), in kernel order, with -1 for missing cells. Unsupported '
  'kernels or strides are rejected.',
  'all octree shapes in the bounds, all kernels, strides and the non-empty flag',
  'tests only cover the 333 kernel on stored data', [OT],
  [('get_neigh', OT), ('ngh lookup tables of the kernels', OT), ('remap by non-empty index', OT)],
  over=('inputs', 'configurations'))

P('P09', 'Searching finds exactly the queried node, or reports it missing',
  'Looking up coordinates with a batch index, or a key, returns the index of the node with that cell at the given depth, or -1 '
  'when there is none, both in the full numbering and in the numbering of the non-empty nodes. No query, wherever it lies, '
  'is answered with another node.',
  'all octree shapes and all query cells (inside or outside the octree) in the bounds',
  'tests search for cells that exist, in one octree', [OT, 'ocnn/nn/octree_align.py'],
  [('search_xyzb', OT), ('search_key', OT), ('search_value', 'ocnn/nn/octree_align.py')])

NN = 'ocnn/nn/'
P('P10', 'Octree-to-column and column-to-octree gather and scatter by neighbourhood',
  'The column matrix holds, for every output node and kernel position, the feature row of the node at that position or '
  'zeros; the inverse operation adds each column entry back to the node it came from and is the exact transpose of the '
  'first.', 'all octree shapes, features, kernels and strides in the bounds',
  'tests run one kernel on a stored octree', [NN + 'octree2col.py', 'ocnn/utils.py'],
  [('octree2col', NN + 'octree2col.py'), ('col2octree', NN + 'octree2col.py'), ('scatter_add', 'ocnn/utils.py')],
  over=('inputs', 'configurations'))

P('P11', 'Octree convolution is the sparse 3-D convolution, whatever the buffer size',
  'The convolution of a feature map with any weights equals, at each output node, the sum over kernel positions of weight times '
  'the feature of the node at that position, plus the bias, for every kernel and stride, with or without the restriction to '
  'non-empty nodes. The memory budget and the implementation method do not change the result.',
  'all octree shapes, feature values, weights, biases and memory budgets in the bounds',
  'the fixture of the convolution tests is absent, and a fixture has one octree whose size never crosses the buffer boundary',
  [NN + 'octree_conv.py', NN + 'octree2col.py'],
  [('OctreeConv.forward', NN + 'octree_conv.py'), ('buffered forward_gemm', NN + 'octree_conv.py')],
  over=('inputs', 'configurations'))

P('P12', 'Octree deconvolution is the transpose of the convolution',
  'For every kernel and stride, the deconvolution maps features of the coarse nodes to the nodes they are connected '
  'to by the convolution of the same kernel, with the transposed weights, plus the bias, in all modes. The memory budget '
  'and the implementation method do not change the result.',
  'all octree shapes, features, weights and memory budgets in the bounds',
  'same as for the convolution: fixed fixture, no buffer boundary', [NN + 'octree_conv.py'],
  [('OctreeDeconv.forward', NN + 'octree_conv.py'), ('backward_gemm', NN + 'octree_conv.py')],
  over=('inputs', 'configurations'))

P('P13', 'Gradients of the custom convolutions are the true derivatives',
  'The gradients that back-propagation returns for the data and for the weights of the convolution, deconvolution '
  'and depth-wise convolution are the derivatives of the function that the forward pass computes, for all outputs '
  'gradients, memory budgets, kernels and strides.',
  'all octree shapes, features, weights and output gradients in the bounds',
  'gradcheck on one fixture samples a few directions numerically and never the buffer seams',
  [NN + 'octree_conv.py', NN + 'octree_dwconv.py'],
  [('OctreeConvFunction.backward', NN + 'octree_conv.py'), ('OctreeDeconvFunction.backward', NN + 'octree_conv.py'),
   ('OctreeDWConvFunction.backward', NN + 'octree_dwconv.py'), ('weight_gemm', NN + 'octree_conv.py')],
  over=('inputs', 'configurations'))

P('P14', 'Depth-wise and grouped convolutions equal per-group convolutions',
  'The depth-wise convolution applies to each channel its own kernel and the grouped convolution applies to each group '
  'of channels the convolution of that group, in the documented channel order, with or without bias, in every mode.',
  'all octree shapes, features and weights in the bounds, several group counts',
  'tests use one octree and random numbers; no group count above the fixture',
  [NN + 'octree_dwconv.py', NN + 'octree_gconv.py'],
  [('OctreeDWConv', NN + 'octree_dwconv.py'), ('OctreeGroupConv', NN + 'octree_gconv.py')],
  over=('inputs', 'configurations'))

P('P15', 'Padding and depadding move rows between non-empty and all nodes',
  'Padding places the row of each non-empty node at its position among all nodes and the fill value everywhere else, '
  'depadding selects the rows of the non-empty nodes, and depadding a padded map returns the map unchanged. The gradients '
  'follow the same correspondence.',
  'all octree shapes, features and fill values in the bounds', 'tests use one stored octree', [NN + 'octree_pad.py'],
  [('octree_pad', NN + 'octree_pad.py'), ('octree_depad', NN + 'octree_pad.py')])

P('P16', 'Max pooling takes sibling maxima, and unpooling returns them to their place',
  'Max pooling yields for every parent that has children the channel-wise maximum over its existing children, with the '
  'position of the maximum, placed in the numbering of the parent level; unpooling puts each value back at exactly '
  'that position and zeros elsewhere.', 'all octree shapes and features in the bounds, both numbering modes',
  'the stored fixture is missing from the tests that run', [NN + 'octree_pool.py'],
  [('octree_max_pool', NN + 'octree_pool.py'), ('octree_max_unpool', NN + 'octree_pool.py')],
  over=('inputs', 'configurations'))

P('P17', 'Average and global pooling divide by the number of existing nodes',
  'Average pooling yields the mean of the existing nodes in the kernel of each output node and global pooling the mean of the nodes '
  'of each batch element, never counting missing cells or nodes of another batch element.',
  'all octree shapes and features in the bounds, kernels and numbering modes', 'tests cover one octree with equal '
  'batch elements', [NN + 'octree_pool.py', 'ocnn/utils.py'],
  [('octree_avg_pool', NN + 'octree_pool.py'), ('octree_global_pool', NN + 'octree_pool.py')],
  over=('inputs', 'configurations'))

P('P19', 'Nearest-neighbour interpolation returns the row of the containing cell',
  'Nearest-neighbour interpolation at any point of the box (with the bound check: at any point at all) returns the feature of the cell that '
  'contains it, or zeros when there is no such node, '
  'and nearest upsampling returns for every descendant the feature of its ancestor, in both numbering modes. The caller\'s '
  'points and features are not modified.', 'all octree shapes, features and query points in the bounds',
  'tests query fixed points', [NN + 'octree_interp.py'],
  [('octree_nearest_pts', NN + 'octree_interp.py'), ('OctreeInterp', NN + 'octree_interp.py'),
   ('octree_nearest_upsample', NN + 'octree_interp.py')], over=('inputs', 'configurations'))

P('P20', 'Linear interpolation is trilinear over the existing neighbouring cells',
  'Linear interpolation at any point of the box (with the bound check: at any point at all) returns the trilinear combination of the features of the up to eight surrounding '
  'existing cells, normalized by the sum of their weights, never mixing batch elements or opposite sides of the box; '
  'linear upsampling is that interpolation at the centres of the finer nodes. ',
  'all octree shapes, features and real query coordinates in the bounds', 'tests query fixed points of one octree',
  [NN + 'octree_interp.py'], [('octree_linear_pts', NN + 'octree_interp.py'), ('OctreeUpsample', NN + 'octree_interp.py')],
  over=('inputs', 'configurations'))

P('P21', 'Group and instance normalization use the statistics of one batch element',
  'Group normalization subtracts from each feature the mean and divides by the standard deviation of its channel group over the '
  'nodes of the same batch element, then applies the affine parameters; instance normalization is the case of one '
  'channel per group. Other batch elements never influence the result.',
  'all octree shapes, features, affine parameters in the bounds', 'tests compare with torch for one octree of equal elements',
  [NN + 'octree_norm.py'], [('OctreeGroupNorm.forward', NN + 'octree_norm.py'), ('OctreeInstanceNorm', NN + 'octree_norm.py')],
  over=('inputs', 'configurations'))

P('P22', 'The dense voxel grid holds each node\'s feature at its coordinates',
  'Converting an octree feature map to a dense grid writes the feature of every (non-empty) node at [batch, x, y, z] and zeros '
  'everywhere else.', 'all octree shapes and features in the bounds', 'one stored octree', [NN + 'octree2vox.py'],
  [('octree2voxel', NN + 'octree2vox.py')])

P('P23', 'Aligning features between octrees matches nodes by position',
  'Aligning the feature map of one octree to another returns, for every node of the target, the row of the source node with '
  'the same cell and batch element, or zeros, with the dtype of the values, whichever of the two octrees is larger.',
  'all pairs of octree shapes and all features in the bounds', 'tests align one octree with a fixed variation',
  [NN + 'octree_align.py'], [('octree_align', NN + 'octree_align.py'), ('search_value', NN + 'octree_align.py')])

P('P24', 'Drop path drops whole batch elements and rescales the rest',
  'In training the drop path layer multiplies all rows of a batch element by the same factor, zero or one over the '
  'keep probability (or one without scaling), decided independently per element with the documented threshold; '
  'in evaluation or with probability zero it returns the data unchanged.',
  'all random draws, octree shapes and features in the bounds', 'random draws are sampled, and only in evaluation mode',
  [NN + 'octree_drop.py'], [('OctreeDropPath', NN + 'octree_drop.py')], over=('inputs', 'schedules'))


OC = 'ocnn/octree/octree.py'
PT = 'ocnn/octree/points.py'
P('P25', 'Point transformations do what they say to coordinates and normals',
  'For every point cloud: rotate turns points and normals counter-clockwise by the given angles about x, then y, then z; '
  'scale multiplies the coordinates and, when not uniform, divides the normals by the factors and makes them unit length; flip negates the named axes of both; '
  'orient_normal keeps or reverses each normal so that its component on the axis is not negative (absolute value for xyz); '
  'translate adds the displacement; bbox is the tight box and normalize maps a box uniformly and centred into [-scale, scale]. Everything '
  'else, and the tensors the caller handed in, stays as it was.',
  'all real coordinates, normals, angles, factors, displacements and boxes in the bounds', 'no test executes these methods',
  [PT], [('Points.rotate', PT), ('Points.scale', PT), ('Points.flip', PT), ('Points.orient_normal', PT),
         ('Points.translate', PT), ('Points.bbox', PT), ('Points.normalize', PT)])

P('P26', 'Selecting and merging points keeps every attribute with its point',
  'Indexing with a mask and clipping keep exactly the selected (inside) points, in order, with their own normals, '
  'features, labels and batch index, and return that mask; merging a list concatenates every attribute in '
  'order, gives every point the index of the cloud it came from, and records batch size and counts. The inputs are not modified.',
  'all clouds, masks and boxes in the bounds', 'tests merge two fixed clouds', [PT],
  [('Points.__getitem__', PT), ('Points.clip', PT), ('Points.inbox_mask', PT), ('merge_points', PT)])

P('P27', 'Input features and leaf points report the stored signals',
  'get_input_feature returns for every (non-empty) leaf the requested channels in the order N, D, L, P, F: normals, '
  'displacement along the normal, offset from the cell centre, point in [-1, 1], stored features, padded with zeros when empty leaves '
  'are included; InputFeature returns the same. to_points returns one point per non-empty leaf (average point or cell centre, '
  'in [-1, 1] when rescaled) with its batch index, normals and features, from which the same leaves can be '
  'built again. The octree is not modified.',
  'all octree shapes and signals in the bounds, all channel selections listed', 'tests compare one octree with stored data',
  [OC, 'ocnn/modules/modules.py'],
  [('Octree.get_input_feature', OC), ('Octree.to_points', OC), ('InputFeature', 'ocnn/modules/modules.py')],
  over=('inputs', 'configurations'))

P('P28', 'Copies on another device are complete',
  'to(device) and cpu() of an octree or a point cloud return an object that holds the same keys, children, neighbours, '
  'signals, labels, node counts, batch size and batch index as the original, and leave the original as it was.',
  'all octree shapes and contents in the bounds', 'no GPU in the tests, so to(device) is never executed past its first line', [OC, PT],
  [('Octree.to', OC), ('Points.to', PT)])

MD, ML, DS, UT = 'ocnn/modules/', 'ocnn/models/', 'ocnn/dataset.py', 'ocnn/utils.py'
P('P29', 'The data pipeline turns samples into octrees and batches without mixing them',
  'Transform keeps exactly the points strictly inside [-0.99, 0.99], returns that mask, keeps every normal with its '
  'point (flipped, rotated, moved and scaled by the drawn parameters when distorting, then oriented when asked), builds the octree of exactly these points with the '
  'configured depths and passes other entries through; drawn angles are multiples of the interval within '
  'the range, scales and jitters stay within theirs, axes with flip probability 0 or 1 are never or always flipped. '
  'CollateBatch merges the octrees in order with neighbours built, merges the points when asked, and returns '
  'labels as a tensor and everything else as a list in order.',
  'all point coordinates, normals, random draws and octree shapes in the bounds', 'no test runs the pipeline',
  [DS], [('Transform.__call__', DS), ('Transform.rnd_parameters', DS), ('CollateBatch.__call__', DS)],
  over=('inputs', 'schedules', 'configurations'))

P('P30', 'Networks treat every batch element as if it were alone',
  'In evaluation mode the output of every block and network (convolution, deconvolution and residual blocks, LeNet, ResNet, '
  'SegNet, UNet, HRNet) on a merged batch of octrees is the concatenation of its outputs on the single '
  'octrees, for both node numberings (all nodes, non-empty nodes), and has one row per node, query point or batch element.',
  'all input features on the listed octree shapes, all shapes in the bounds for single blocks',
  'tests only check that networks run on one input', [MD + 'modules.py', MD + 'resblocks.py', ML + 'unet.py', ML + 'segnet.py',
  ML + 'hrnet.py', ML + 'resnet.py', ML + 'lenet.py'],
  [('OctreeResBlock2.forward', MD + 'resblocks.py'), ('UNet.forward', ML + 'unet.py'), ('HRNet.forward', ML + 'hrnet.py'),
   ('SegNet.forward', ML + 'segnet.py')], over=('inputs', 'configurations'))

P('P31', 'Decoders grow exactly the octree that they predict',
  'When AutoEncoder, OUNet and Image2Shape decode into a new octree, a node is split if and only if its second logit is '
  'larger than the first, the next level has exactly the eight children of each split node, and '
  'the signal (tanh of the head) has one row per non-empty leaf, in order, and is stored as the leaf features. With a given octree they predict one '
  'pair of logits per node and one signal per non-empty leaf, leave keys, children and neighbours as they are, and '
  'treat every batch element as if it were alone.',
  'all logits, codes, features and signals; all octrees that the logits can describe in the bounds',
  'the trees come from arbitrary network outputs; tests only check shapes of one run',
  [ML + 'autoencoder.py', ML + 'ounet.py', ML + 'image2shape.py'],
  [('AutoEncoder.decoder', ML + 'autoencoder.py'), ('OUNet.decoder', ML + 'ounet.py'), ('Image2Shape.decoder', ML + 'image2shape.py')],
  over=('inputs', 'configurations'))

P('P32', 'Blocks are the documented sequence of their layers',
  'In evaluation mode ConvBn, ConvBnRelu, DeconvBnRelu, Conv1x1(BnRelu) and FcBnRelu equal convolution (or linear map), '
  'then batch normalization with the running statistics, then ReLU; the residual blocks add the (projected, and for stride two '
  'max-pooled) input to the result of their convolutions before the last ReLU; a sequence of blocks is their '
  'composition, also with checkpointing. The input tensor is not modified.',
  'all input features on the listed octree shapes, both node numberings', 'tests only check that blocks run',
  [MD + 'modules.py', MD + 'resblocks.py'], [('OctreeConvBnRelu', MD + 'modules.py'), ('OctreeResBlock', MD + 'resblocks.py'),
  ('OctreeResBlock2', MD + 'resblocks.py'), ('OctreeResBlocks', MD + 'resblocks.py')], over=('inputs', 'configurations'))

P('P33', 'The tensor utilities compute what they document',
  'cumsum returns the inclusive, or with one more entry the exclusive, partial sums along any dimension; scatter_add adds every source element to '
  'the entry its index names along the dimension, broadcasting one-dimensional indices, into the given, requested or '
  'minimal size; range_grid lists the grid in row-major order with both ends; trunc_div rounds towards zero; '
  'resize_with_last_val repeats the last entry. Inputs are not modified.',
  'all values and indices in the bounds, the listed shapes and dimensions', 'each helper is tested on one array or not at all',
  [UT], [('cumsum', UT), ('scatter_add', UT), ('range_grid', UT), ('trunc_div', UT), ('resize_with_last_val', UT)])

PR, DT = 'projects/', 'projects/datascts/'
P('P34', 'Segmentation training measures and evaluates exactly the labelled points',
  'The segmentation solver gives the network the input feature of the octree, its depth and the points with their batch index; '
  'it keeps exactly the logits and labels of points whose label is above the mask, in order. The loss is the mean negative log '
  'probability of the labels; accuracy is the fraction of points whose largest logit is the label; the IoU counts per '
  'part are the sizes of intersection and union, and the reported mIoU is their mean ratio. Evaluation adds the '
  'probabilities of all the runs over one sample at the points inside the box and writes nothing else. Points and octree of a '
  'batch come from the configured keys.',
  'all logits, labels, masks, points and features in the bounds', 'no test runs a solver',
  [PR + 'segmentation.py'], [('SegSolver.model_forward', PR + 'segmentation.py'), ('SegSolver.loss_function', PR + 'segmentation.py'),
   ('SegSolver.IoU_per_shape', PR + 'segmentation.py'), ('SegSolver.eval_step', PR + 'segmentation.py')], over=('inputs', 'histories'))

P('P35', 'Autoencoder training compares predictions with the octree they describe',
  'The loss of each depth is the mean cross entropy of the split logits of all nodes against whether the node has children, the '
  'accuracy the fraction of nodes predicted right, the regression loss the mean squared distance of the '
  'predicted signals to the signals of the non-empty leaves, and the total the sum of all losses; decoded octrees '
  'become one point cloud per batch element with the points and normals of its own leaves.',
  'all logits, signals and octree shapes in the bounds', 'no test runs a solver', [PR + 'autoencoder.py'],
  [('AutoEncoderSolver.compute_loss', PR + 'autoencoder.py'), ('AutoEncoderSolver.octree2pts', PR + 'autoencoder.py')])

P('P36', 'Dataset preprocessing normalizes samples as documented, attribute by attribute',
  'The dataset transforms turn the arrays of a sample into points with the documented normalization (centred, '
  'scaled to the box, colours to [0, 1], label types and the SemanticKITTI label map from the low 16 bits), each normal, '
  'colour and label staying with its point; shape completion gives the normalized points as ground truth and the drawn noisy '
  'samples of them as input, with the octree of each. The arrays of the caller stay as they are.',
  'all coordinates, normals, colours, labels and drawn indices in the bounds', 'no test runs a dataset',
  [DT + 'completion.py', DT + 'semantic_kitti.py', DT + 'scannet.py', DT + 'seg_shapenet.py'],
  [('Transform.__call__', DT + 'completion.py'), ('KittiTransform.preprocess', DT + 'semantic_kitti.py'),
   ('ScanNetTransform.__call__', DT + 'scannet.py'), ('ShapeNetTransform.preprocess', DT + 'seg_shapenet.py')],
  over=('inputs', 'configurations'))

for _p in PROPS:
  if _p['id'] in ('P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P15', 'P16', 'P17', 'P19', 'P20', 'P21', 'P22', 'P23', 'P24', 'P30', 'P32'):
    _p['statement'] += ' The octree itself is left as it was.'
