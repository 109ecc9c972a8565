import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
G='gconv/geometry/groups/'; KN='gconv/gnn/kernels/'; MO='gconv/gnn/modules/'
p('C01','Planar group elements obey the group laws and act on the plane accordingly',
 'For all planar rotations given as angles and all (coefficient, angle) elements, product and inverse satisfy the group laws with angles taken modulo a full turn: every product angle lies in [0, 2pi), coefficients multiply, and the pairwise product of two lists holds the product of every first-list element with every second-list element at the corresponding position. Angles, rotation matrices and unit vectors describe the same rotation. Applying a product to every vector of a plane grid equals applying the factors one after the other, applying the inverse undoes it, and vector lengths are preserved.',
 ['inputs'],'all list lengths, all real angles and coefficients +-1, all vector grids of any width and height','The planar group tests do not even import at this commit; where they ran they would check shapes of one 4- or 8-element grid, while the laws must hold for every angle and every combination of elements.',
 [G+'so2.py',G+'o2.py'],[('angle addition modulo 2*pi',G+'so2.py: left_apply_angle, left_apply_to_angle'),('angle to matrix / vector',G+'so2.py: angle_to_matrix, angle_to_euclid'),('action on vectors',G+'so2.py: left_apply_angle_to_R2, left_apply_matrix_to_R2; '+G+'o2.py: left_apply_to_R2'),('inverse',G+'so2.py: inverse_angle, inverse_matrix; '+G+'o2.py: inverse')],['return values of the group operations'])
p('C02','Spatial group elements obey the group laws and act on 3D vectors accordingly',
 'For all 3D rotations given as matrices or unit quaternions, and all (sign, rotation) elements of O(3), the provided products are associative and closed, the provided inverse is a two-sided inverse, signs multiply, and pairwise products combine every first-list element with every second-list element at the corresponding position. The quaternion product describes the same rotation as the matrix product. Applying a product to every vector of a coordinate grid equals applying the factors one after the other, and lengths are preserved.',
 ['inputs'],'all rotations, signs, list lengths and vector grids','The stable tests never call these operations directly and only look at output shapes of layers built on one fixed grid; a wrong sign or a swapped operand order leaves every shape unchanged.',
 [G+'so3.py',G+'o3.py'],[('matrix product',G+'so3.py: left_apply_matrix, left_apply_to_matrix'),('quaternion product',G+'so3.py: left_apply_quat, quat_inverse'),('signed elements',G+'o3.py: left_apply_O3, left_apply_to_O3, inverse'),('action on vectors',G+'so3.py: left_apply_to_R3; '+G+'o3.py: left_apply_to_R3')],['return values of the group operations'])
p('C03','The reported determinant is that of the linear map the element applies',
 'For every element of O(2) and O(3), the determinant that the library reports is +1 or -1, has one value per element, is multiplicative over products and unchanged by inversion. It equals the determinant of the linear map that the element actually applies to vectors.',
 ['inputs'],'all elements of O(2) and O(3), in lists of any length','No stable test reads a determinant; the property relates two independently written functions for every element.',
 [G+'o2.py',G+'o3.py'],[('determinant is the stored coefficient',G+'o2.py: det; '+G+'o3.py: det'),('coefficient multiplies the rotated vector',G+'o2.py: left_apply_to_R2; '+G+'o3.py: left_apply_to_R3')],['det, product, inverse and action on vectors'])
p('C04','Converting between rotation parameterizations never changes the rotation',
 'Converting any 3D rotation between matrices, unit quaternions and Euler angles (ZYZ, extrinsic), in either direction, yields an element describing the same rotation (quaternions have unit norm and are unique up to sign, Euler angles lie within one full turn, small numerical tolerances aside), including half turns and gimbal-locked rotations. It does so for any number of leading batch dimensions, each element being converted on its own. The rotation matrices built for a single axis rotate counter-clockwise about exactly that axis by exactly that angle.',
 ['inputs'],'all rotations (every branch of the largest-diagonal decision, both gimbal locks), all batch shapes','Conversions branch on the data (which diagonal entry is largest, how close to gimbal lock), and the stable tests exercise them only incidentally and never compare the resulting rotation.',
 [G+'so3.py'],[('matrix to quaternion by largest diagonal',G+'so3.py: matrix_to_quat'),('quaternion to matrix',G+'so3.py: quat_to_matrix'),('Euler conversions',G+'so3.py: euler_to_matrix, matrix_to_euler, euler_to_quat, quat_to_euler'),('axis rotations',G+'so3.py: matrix_x, matrix_y, matrix_z')],['return values of the conversions'])
p('C05','Rotation distances are symmetric, invariant metrics and logarithms invert exp',
 'The geodesic distances offered for planar rotations, 3D rotations and sphere points are symmetric, lie between zero and their maximum, vanish (up to the documented clamping) exactly when both arguments describe the same element, do not depend on the sign of a quaternion or on full turns of an angle, grow with the true angle between the arguments, and do not change when the same rotation is applied to both. The nearest-neighbour distance of each grid element is its smallest distance to any other element. The logarithm of a rotation matrix is the rotation axis scaled by the rotation angle, and the logarithm of a quaternion has the logarithm of the norm as first entry and the half-angle times the axis as the others.',
 ['inputs'],'all pairs of elements, all grids of at least two elements','No stable test evaluates a distance or a logarithm; they are only used inside weight sampling whose values no test looks at.',
 [G+'so2.py',G+'so3.py',G+'s2.py'],[('clamped arc cosine of the inner product',G+'so2.py: geodesic_distance, geodesic_distance_euclid; '+G+'so3.py: geodesic_distance; '+G+'s2.py: geodesic_distance_s2'),('nearest neighbour',G+'so2.py, '+G+'so3.py: nearest_neighbour_distance'),('logarithms',G+'so3.py: so3_log, quaternion_log')],['return values'])
p('C06','Sphere coordinates convert consistently and lift to matching rotations',
 'Converting sphere points between spherical angles (polar, azimuth) and unit vectors in either direction yields the same point. A uniform sphere grid requested in any supported parameterization has exactly the requested number of elements, each a valid point or rotation, and the rotation form carries the north pole to the sphere point it stands for, with the first Euler angle zero or, on request, equal to minus the azimuth.',
 ['inputs','configurations'],'all sphere points, all grid sizes, all parameterizations','No test touches the sphere module.',
 [G+'s2.py'],[('conversions',G+'s2.py: spherical_to_euclid, euclid_to_spherical'),('lifting to Euler angles',G+'s2.py: spherical_to_euler, spherical_to_euler_neg_gamma'),('grid',G+'s2.py: uniform_grid_s2, random_s2')],['return values'])
p('C07','Signal interpolation reproduces, selects or blends reference values correctly',
 'Radial-basis interpolation returns at a reference node exactly the value stored there whenever its system is solvable, is linear in the signal, treats every signal channel and batch entry on its own, and does not depend on the order of the reference nodes. Nearest-neighbour interpolation returns, per query, the complete value vector of a reference node at the smallest distance from that query. Barycentric interpolation blends the values of the three nearest nodes with non-negative weights that sum to one, and returns the stored value when the query coincides with a node.',
 ['inputs'],'all batch sizes, query counts, reference counts, channel counts, signals, distances and positive widths','The stable tests only look at weight shapes; the interpolated values are never compared with anything.',
 ['gconv/geometry/interpolation.py'],[('Gaussian basis and linear solve','gconv/geometry/interpolation.py: interpolate_RBF, RBF_gauss'),('top-1 selection','gconv/geometry/interpolation.py: interpolate_NN'),('clipped, normalised least-squares weights','gconv/geometry/interpolation.py: interpolate_BCC')],['return values'])
p('C08','Sampling a signal on a group keeps query order and never mixes components',
 'For every query grid and every signal on a reference grid of SO(2), SO(3), O(2) or O(3), sampling returns one value vector per query, in query order, equal to the chosen interpolation (Gaussian basis or nearest neighbour) of the reference signal under the geodesic distance of the group. For O(2) and O(3), rotation queries use only the rotation part and reflection queries only the reflection part of the reference signal, whatever the order in which they appear in the query, each part with its own width. Any other mode is rejected with a ValueError.',
 ['inputs','configurations'],'all query orders, interleavings of rotations and reflections, sizes, signals, both modes and widths','Interleaved orders of rotations and reflections, unequal part sizes and unequal widths never occur in the tests, which only check shapes.',
 [G+'so2.py',G+'so3.py',G+'o2.py',G+'o3.py'],[('split by coefficient, sample, restore order',G+'o2.py, '+G+'o3.py: grid_sample'),('conversion and interpolation',G+'so2.py, '+G+'so3.py: grid_sample')],['return value of the group sampling functions'])
p('C09','Generated group grids have the requested size and contain only valid elements',
 'Every uniform or random grid has exactly the requested number (or shape) of elements, all valid elements of the group: angles in [0, 2pi), unit quaternions, proper rotation matrices, coefficients +-1. Uniform planar grids are equally spaced from zero, and uniform O(n) grids list the requested number of rotations first and then the requested number of reflections; either part may be empty. The named finite rotation groups and cyclic groups contain exactly their distinct elements, include the identity and are closed under product and inverse.',
 ['inputs','configurations'],'all sizes including zero parts, all parameterizations, all random draws','The tests use sizes 3 and (4, 4) only, and never look at elements of a random or cached grid.',
 [G+'so2.py',G+'so3.py',G+'o2.py',G+'o3.py',G+'_grid_cache.py'],[('generators',G+'so2.py, '+G+'so3.py, '+G+'o2.py, '+G+'o3.py: uniform_grid, random_*'),('finite groups',G+'so3.py: identity, klein_group, tetrahedral, octahedral, icosahedral, cyclic*')],['return values of the generators'])
p('C10','Cached rotation grids stay correct through any history of use',
 'Whatever was requested, stored or modified before, requesting a uniform rotation grid of a given size and parameterization returns that many valid rotations in exactly that parameterization, and modifying a returned or stored grid never changes what a later request returns. Storing a grid does not replace an existing entry unless overwriting is requested, replaces exactly that entry when it is, and affects no other size, type or parameterization; a grid just stored for an unused key is what the next request returns. Names of types and parameterizations are case-insensitive, and looking up an entry that does not exist raises KeyError.',
 ['histories'],'all sequences of grid requests, stores and in-place modifications of returned tensors','The cache is process-wide state; the tests never store, never modify a grid and never request the same grid in two parameterizations after storing.',
 [G+'_grid_cache.py',G+'so3.py'],[('lookup and store',G+'_grid_cache.py: load_grid, save_grid'),('use of the cache',G+'so3.py: uniform_grid')],['return values of later requests'],[('grid cache','type -> parameterization -> size -> grid',G+'_grid_cache.py: _grid_cache')])
p('C11','Spatial coordinate grids are centred and regular, and masks keep exactly a ball',
 'For every kernel size, the coordinate grid places each position at equally spaced coordinates from -1 to 1 along every axis (the centre for size one), with the 3D grid listing the coordinates of the last, middle and first axis in that order and the 2D grid those of the first and then the last axis. The mask is one exactly at the positions whose distance from the centre is below 1.1 and zero elsewhere, hence unchanged under axis permutations and reflections, and it never removes every position.',
 ['inputs'],'all kernel sizes','The tests use sizes 3 and 5 only and never look at a coordinate or a mask value.',
 ['gconv/gnn/functional/grid.py','gconv/gnn/functional/mask.py'],[('coordinate grids','gconv/gnn/functional/grid.py: create_grid_R2, create_grid_R3'),('masks','gconv/gnn/functional/mask.py: create_spherical_mask_R2, create_spherical_mask_R3')],['return values'])
p('C12','A lifting kernel at each group element is its base kernel moved by that element',
 'For every lifting kernel (planar and spatial, with and without reflections, and user-defined through supplied group operations), the weight produced for an output channel, group element, input channel and position is that channel pair\'s base kernel sampled at the position moved by the inverse of the group element, set to zero outside the mask if there is one, and divided by the determinant of the element if the group has one. Each entry depends only on its own group element and its own channel pair, for any number of group elements, and the output is indexed as (output channel, group element, input channel per channel group, spatial position).',
 ['inputs','configurations'],'all weights, all lists of group elements, channel counts, channel groups, kernel sizes, sampling modes, mask on or off','The tests check shapes for at most 4 or 8 group elements; a mix-up between channels and group elements, or a missing inverse, keeps every shape.',
 [KN+'kernel.py',KN+'kernel_sen/kernel_se2.py',KN+'kernel_sen/kernel_se3.py',KN+'kernel_en/kernel_e2.py',KN+'kernel_en/kernel_e3.py'],[('lifting kernel sampling',KN+'kernel.py: GLiftingKernel.forward')],['kernel(H)'])
p('C13','Group kernels depend on group elements only through their relative element',
 'For every full, separable and subgroup kernel, the group part of the weight for an output and an input group element is the stored group signal of one channel pair sampled at (inverse of the output element) times (input element), and the spatial part is that channel pair\'s (full) or output channel\'s (separable) spatial kernel sampled at positions moved by the inverse of the output element, then masked and divided by the determinant of the output element where applicable; distinct channel pairs use distinct stored parameters. This holds for any, also different, numbers of input and output group elements, and weights are indexed as (output channel, output element, input channel per channel group, input element, spatial position). Hence moving all group elements by the same element leaves the group part unchanged.',
 ['inputs','configurations'],'all weights, all lists of input and output elements of any two lengths, channel counts, channel groups, kernel sizes','The tests use equally long input and output lists and check shapes only, so exchanging the roles of input and output elements or of channels goes unnoticed.',
 [KN+'kernel.py',KN+'kernel_sen/kernel_se2.py',KN+'kernel_sen/kernel_se3.py',KN+'kernel_sen/kernel_so3.py',KN+'kernel_en/kernel_e2.py',KN+'kernel_en/kernel_e3.py'],[('full kernel',KN+'kernel.py: GKernel.forward'),('separable kernel',KN+'kernel.py: GSeparableKernel.forward'),('subgroup kernel',KN+'kernel.py: GSubgroupKernel.forward')],['kernel(in_H, out_H)'])
p('C14','Kernel options take effect exactly as given',
 'Every predefined kernel and layer uses the operations of its own group and dimension, and honours each constructor option: channels, kernel size, channel groups, sampling and padding modes, explicit sampling widths, mask on or off, and a supplied reference grid (which then determines the kernel\'s group size; for O(n), rotations and reflections are counted from the grid). Without a supplied grid the reference grid is the uniform grid of the requested size; without explicit widths each width is 0.8 times the mean nearest-neighbour distance of the corresponding part of the reference grid, hence positive and finite for distinct elements (parts of fewer than two elements aside). Options of one instance never influence another instance.',
 ['configurations'],'all combinations of constructor options of all predefined kernels and layers','The tests construct a handful of configurations, never with mask off, custom widths or a supplied grid of another size, and compare shapes only.',
 [KN+'kernel_sen/kernel_se2.py',KN+'kernel_sen/kernel_se3.py',KN+'kernel_sen/kernel_so3.py',KN+'kernel_en/kernel_e2.py',KN+'kernel_en/kernel_e3.py',MO+'gconv_sen/gconv_se2.py',MO+'gconv_sen/gconv_se3.py',MO+'gconv_en/gconv_e2.py',MO+'gconv_en/gconv_e3.py'],[('kernel constructors',KN+'kernel_*/: __init__'),('layer constructors',MO+'gconv_*/: __init__')],['constructed kernels and layers'])
p('C15','Group convolution layers compute exactly the group convolution they name',
 'For every layer, output channel c at output group element h and position p is the sum over the input channels of c\'s channel group, over all input group elements (none for lifting) and over all kernel positions of the layer kernel\'s weight times the (padded) input at the corresponding strided and dilated position, plus the bias of c if there is one. Padding (number, tuple, "same", "valid", any padding mode), stride and dilation act on the spatial axes exactly once, exactly as in an ordinary convolution of the same dimension; a separable layer applies its group part per position first and its spatial part afterwards. The output has shape (batch, output channels, output group elements, spatial positions).',
 ['inputs','configurations'],'all inputs, batch sizes, channel counts, channel groups, numbers of group elements, paddings, strides, dilations, padding modes, bias on or off','The tests use one or two configurations with padding "same", one channel group and equal group sizes, and compare only shapes.',
 [MO+'gconv.py'],[('layer forward passes',MO+'gconv.py: GLiftingConvNd.forward, GSeparableConvNd.forward, GConvNd.forward'),('padding and convolution',MO+'gconv.py: GroupConvNd.__init__, _conv2d_forward, _conv3d_forward')],['layer(input, H...)'])
p('C16','A layer reports exactly the group elements its output is defined on',
 'Every layer returns, with its feature maps, the list of group elements for which the maps were computed. That list is the explicitly passed output list or else the default (reference grid for lifting layers and E(n) layers, the input list for SE(n) layers), and, when random output grids are enabled, that list moved as a whole from the left by one random group element drawn for this call; when disabled it is returned unchanged.',
 ['inputs','configurations','histories'],'all inputs, explicit or default output lists, random grids on or off, repeated calls','The tests check at most that, with random grids off, the returned list equals the one grid used everywhere, so a layer that computes on one list and returns another is not seen.',
 [MO+'gconv_sen/gconv_se2.py',MO+'gconv_sen/gconv_se3.py',MO+'gconv_en/gconv_e2.py',MO+'gconv_en/gconv_e3.py'],[('choice and random translation of the output grid',MO+'gconv_*/: forward')],['second return value and the kernel weights used'])
p('C17','Layers are equivariant: moving input and group elements moves the output alike',
 'For every layer with random output grids disabled, stride one, centred padding and linear weight sampling, applying a symmetry of the coordinate grid (quarter-turn rotations in 2D, the rotations of the cube in 3D and, for E(3), its reflections) to the input maps and to all group elements transforms the output maps by the same symmetry, up to numerical tolerance and, for reflections, the sign of the determinant by which kernels are divided. Shifting the input shifts the output away from the border. Averaging or maximising the output globally over group elements and positions therefore gives features invariant to the rotations.',
 ['inputs','configurations'],'all inputs, all weights, all lists of group elements, all grid symmetries','The only equivariance test plots activations and asserts nothing.',
 [KN+'kernel.py',MO+'gconv.py','gconv/gnn/functional/grid.py','gconv/gnn/functional/mask.py'],[('kernel built from relative elements',KN+'kernel.py'),('symmetric grid and mask','gconv/gnn/functional/'),('layers',MO+'gconv.py')],['layer outputs for transformed inputs'])
p('C18','Pooling treats each group element alone, or pools over all of them, as named',
 'Spatial pooling layers apply the corresponding ordinary pooling (with the same options) to every (batch, channel, group element) map separately, keep the group axis in place and pass the group elements through. Group pooling returns, as a plain tensor, the maximum or mean over the group axis at every position, and global pooling the maximum or mean over all group elements and positions jointly, keeping one trailing axis of size one; both are invariant to reordering the group elements.',
 ['inputs','configurations'],'all inputs, spatial sizes, window options (other than asking for indices), group sizes','No test uses a pooling layer.',
 [MO+'pooling.py'],[('pooling modules',MO+'pooling.py')],['pooling outputs'])
p('C19','Normalisation, activation and wrapping treat group axes like extra positions',
 'Batch and instance normalisation layers normalise each channel (per sample for instance normalisation) jointly over group elements and spatial positions, exactly as the ordinary layer does on the input with group elements laid out as extra positions, including running statistics and affine parameters; layer normalisation equals the ordinary one. Activations and wrapped modules are applied elementwise to the maps exactly as the wrapped module does. All of them accept any memory layout, keep the shape, and return the group elements unchanged.',
 ['inputs','configurations','histories'],'all inputs, memory layouts, modes (training/evaluation), options','No test uses these layers.',
 [MO+'normalization.py',MO+'activations.py',MO+'wrappers.py'],[('normalisation',MO+'normalization.py'),('activations',MO+'activations.py'),('wrapper',MO+'wrappers.py')],['layer outputs'])
p('C20','Operations leave their arguments and all other state untouched',
 'No group operation, conversion, sampling function, kernel or layer modifies any tensor passed to it, any reference grid, mask or weight, or any other state it can reach (running statistics of normalisation layers and explicitly requested in-place repulsion aside). Consequently a result depends only on the arguments, the current weights, the construction options and, where documented, fresh randomness: repeating a call, interleaving other calls or changing weights between calls gives the same result as a fresh instance with those weights.',
 ['histories','inputs'],'all call sequences, all arguments including ones that share memory','The tests call each object once or twice and never compare arguments before and after or results across histories.',
 [G+'so2.py',G+'so3.py',G+'o2.py',G+'o3.py',G+'s2.py','gconv/geometry/interpolation.py',KN+'kernel.py',MO+'gconv.py'],[('results written to fresh tensors',G+'*, gconv/geometry/interpolation.py'),('no state written in forward',KN+'kernel.py, '+MO+'gconv.py')],['arguments, buffers and parameters before and after a call'])
p('C21','Repulsion moves a grid without side effects unless asked to work in place',
 'Repulsion returns a grid of the same shape that no longer tracks gradients, after exactly the requested number of steps, each moving the grid along the negative gradient of the mean pairwise energy over distinct elements (distances divided by the normalisation constant), scaled by the step size, plus noise whose scale decays linearly to the end. Without the in-place option the given grid is untouched and the result shares no memory with it; with it the given grid itself holds the result, and it does not require gradients afterwards.',
 ['inputs','configurations'],'all grids, step counts including zero, step sizes, metrics, energies, in-place or not','No stable test runs the optimisation (all grids used come from the cache).',
 ['gconv/geometry/repulsion.py'],[('optimisation loop','gconv/geometry/repulsion.py: repulse, columb_energy')],['returned grid and given grid'])
p('C22','Layers reject invalid configurations and accept all valid ones',
 'Constructing a layer raises ValueError when the tuple of group kernel sizes has a negative entry or sums to zero or less, when the number of channel groups is not positive or does not divide both channel counts, when a padding string is neither "same" nor "valid", when "same" padding is combined with a stride other than one, when the padding mode is unknown, or when the dimension mode is neither 2d nor 3d. Every other combination of valid options constructs successfully, and re-initialising a layer draws new weights and bias within the documented bounds without changing any shape.',
 ['configurations'],'all combinations of option values','The tests never construct an invalid layer.',
 [MO+'gconv.py'],[('validation in the constructor',MO+'gconv.py: GroupConvNd.__init__'),('initialisation',MO+'gconv.py: reset_parameters; '+KN+'kernel.py: reset_parameters')],['constructor outcome'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
