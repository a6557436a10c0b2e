#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text lives here so that it stays readable)."""
import json, os
G = "gconv/geometry/groups/"
K = "gconv/gnn/kernels/"
M = "gconv/gnn/modules/"
F = "gconv/gnn/functional/"
CK = [K + "kernel_sen/kernel_se2.py", K + "kernel_sen/kernel_se3.py", K + "kernel_sen/kernel_so3.py",
      K + "kernel_en/kernel_e2.py", K + "kernel_en/kernel_e3.py"]
CM = [M + "gconv_sen/gconv_se2.py", M + "gconv_sen/gconv_se3.py", M + "gconv_en/gconv_e2.py", M + "gconv_en/gconv_e3.py"]
P = []


def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


p("C01", "Group products and inverses obey the group axioms",
  "For SO(2) angles and matrices, O(2) elements, SO(3) matrices and quaternions and O(3) elements, the product is associative and compatible with the group's representation, and the inverse of an element times that element is the identity. "
  "Products of angles are reported in [0, 2*pi), reflection coefficients stay +1 or -1, and the broadcasting product applied to equally shaped operands works elementwise for any leading shape. "
  "The pairwise product of a grid A of N elements and a grid B of M elements is an (N, M, ...) array whose entry (i, j) is the product A_i B_j, in that order.",
  ["inputs"], "all group elements, all grid sizes N and M (including N != M), all leading batch shapes of the broadcasting versions",
  "The group tests compare a few hand-picked elements (several are not even collected); order of multiplication, operand roles and grid orientation are indistinguishable on commuting or symmetric samples.",
  [G + "so2.py", G + "o2.py", G + "so3.py", G + "o3.py"],
  [("SO(2) product/inverse", G + "so2.py: left_apply_angle, left_apply_to_angle, inverse_angle, inverse_matrix"),
   ("O(2) product/inverse", G + "o2.py: left_apply_angle, left_apply_to_angle, inverse"),
   ("SO(3) product/inverse", G + "so3.py: left_apply_matrix, left_apply_to_matrix, left_apply_quat, matrix_inverse, quat_inverse"),
   ("O(3) product/inverse", G + "o3.py: left_apply_O3, left_apply_to_O3, inverse")])

p("C02", "Group elements act on coordinates as the linear maps they represent",
  "Applying N group elements to a grid of vectors returns, for every element and every grid position, that element's orthogonal matrix (rotation, times the reflection coefficient) multiplied with the vector at that position, with the element index first. "
  "The action of a product is the composition of the actions. "
  "The determinant reported for an element equals the determinant of the map by which it acts.",
  ["inputs"], "all elements of SO(2), O(2), SO(3), O(3) and all vector grids of any extent",
  "Tests only use shape checks or one special rotation of a cubic grid; a transposed matrix, swapped axis or wrong sign passes them.",
  [G + "so2.py", G + "o2.py", G + "so3.py", G + "o3.py"],
  [("action on R2", G + "so2.py: left_apply_angle_to_R2, left_apply_matrix_to_R2; " + G + "o2.py: left_apply_to_R2"),
   ("action on R3", G + "so3.py: left_apply_to_R3; " + G + "o3.py: left_apply_to_R3"),
   ("determinants", G + "o2.py: det; " + G + "o3.py: det")])

p("C03", "Rotation parameterizations convert without changing the rotation",
  "Axis rotation matrices, Euler angles (ZYZ: gamma, beta, alpha applied as Rz(gamma) Ry(beta) Rz(alpha)), unit quaternions, rotation matrices, SO(2) angles and sphere coordinates all convert into each other such that the same rotation (or point) is described, quaternions up to sign. "
  "Converting a matrix to a quaternion is right on every branch of the case distinction, and matrix to Euler angles also at gimbal lock (for matrices and quaternions that are exactly there). "
  "Conversions accept any leading batch shape that their documentation promises and work elementwise over it.",
  ["inputs"], "all rotations, all leading batch shapes; each numerical branch of the matrix-to-quaternion conversion",
  "Nothing tests the conversions directly; the branches taken depend on the largest diagonal entry, which sampled rotations rarely cover.",
  [G + "so3.py", G + "so2.py", G + "s2.py"],
  [("axis matrices", G + "so3.py: matrix_x, matrix_y, matrix_z"),
   ("Euler/quaternion/matrix", G + "so3.py: euler_to_matrix, euler_to_quat, matrix_to_quat, quat_to_matrix, matrix_to_euler, quat_to_euler"),
   ("angles", G + "so2.py: angle_to_matrix, angle_to_euclid"),
   ("sphere", G + "s2.py: spherical_to_euclid, euclid_to_spherical, spherical_to_euler, spherical_to_euler_neg_gamma")])

p("C04", "The named finite rotation groups are groups",
  "The identity, Klein, tetrahedral, octahedral and icosahedral groups returned as unit quaternions have 1, 4, 12, 24 and 60 pairwise different rotations, contain the identity and are closed under product and inverse (up to quaternion sign). "
  "The cyclic group of any order n about the x, y or z axis consists of the n multiples of 2*pi/n about that axis, and selecting it by axis name in either case gives the same group. "
  "An unknown axis name is rejected with a ValueError.",
  ["inputs", "configurations"], "all element pairs of each finite group, all cyclic orders n, every axis name",
  "No test touches the finite groups; closure is a statement over all element pairs (3600 for the icosahedral group) of a literal table.",
  [G + "so3.py"],
  [("tables", G + "so3.py: identity, klein_group, tetrahedral, octahedral, icosahedral"),
   ("cyclic groups", G + "so3.py: cyclic_x, cyclic_y, cyclic_z, cyclic")])

p("C05", "Uniform rotation grids and their cache are valid and isolated",
  "Asking for a uniform grid of n >= 1 rotations in any supported parameterization returns n valid elements in that parameterization, whether the grid is precomputed, was stored earlier, or is optimized on the spot; precomputed elements are pairwise different, and the quaternion and matrix tables of one size describe the same rotations. "
  "The caller owns the result: changing it in place never changes what a later request returns, and storing a grid makes later requests for that size and parameterization return it in that parameterization. "
  "An unknown parameterization is rejected with a ValueError.",
  ["inputs", "histories"], "all grid sizes, parameterizations, cached and uncached, and all histories of requests, stores and in-place edits of returned grids",
  "Tests request one grid once; a shared cache entry only shows after somebody modifies a returned grid (for example by loading a state dict) and asks again.",
  [G + "so3.py", G + "_grid_cache.py"],
  [("grid construction", G + "so3.py: uniform_grid"), ("cache", G + "_grid_cache.py: save_grid, load_grid, _grid_cache")],
  state=[{"name": "_grid_cache", "meaning": "process-wide table from grid type, parameterization and size to a precomputed grid"}])

p("C06", "A lifting kernel is the base kernel moved by each group element",
  "For every group element h of the given grid and every output channel, the sampled weight is the learned spatial kernel of that channel sampled at the reference positions transformed by the inverse of h, with the requested sampling options, then multiplied by the mask if there is one, and divided by the absolute determinant of h where the group defines one. "
  "The result has shape (out_channels, number of elements, in_channels/groups, *spatial), and the entry for (channel, h) depends on no other element of the grid and no other channel's weight.",
  ["inputs", "configurations"], "all channel counts, groups, kernel sizes, grid sizes, element values, masks on or off, all four groups",
  "Tests check only output shapes and one 90-degree equivariance case; mixed-up channel/element interleaving gives the same shape.",
  [K + "kernel.py"] + CK,
  [("lifting kernel", K + "kernel.py: GLiftingKernel.forward"), ("concrete kernels", ", ".join(c + ": GLiftingKernel*" for c in CK if "so3" not in c))])

p("C07", "Group kernels depend on input and output elements only relatively",
  "For every output element g, input element h, output channel and input channel, the sampled weight is the learned kernel of that channel pair interpolated at the group element g^-1 h and, where it is spatial, at the reference positions transformed by g^-1, masked if there is a mask and divided by the absolute determinant of g where the group defines one. "
  "The full kernel has shape (out, out elements, in/groups, in elements, *spatial) and the separable kernel is a subgroup part of that layout with size-one spatial axes and a depthwise spatial part (out, out elements, 1, *spatial). "
  "No entry depends on another element of either grid or on the weights of another channel pair, also when the two grids differ in size.",
  ["inputs", "configurations"], "all channel counts, groups, kernel sizes, all pairs of input/output grids including different sizes",
  "Tests use equal grid sizes and check shapes only, so swapped or interleaved input/output element axes are invisible to them.",
  [K + "kernel.py"] + CK,
  [("separable", K + "kernel.py: GSeparableKernel.forward"), ("subgroup", K + "kernel.py: GSubgroupKernel.forward"), ("full", K + "kernel.py: GKernel.forward")])

p("C08", "A group convolution sums over its channel group and all input elements",
  "The output at (batch, output channel, output element) is the spatial convolution of the input with the sampled kernel, summed over exactly the input channels of the output channel's group and all input group elements, plus the bias of that output channel at every element and position if a bias was requested. "
  "The separable layer computes the subgroup sum first and then filters every (output channel, output element) map with its own spatial kernel. "
  "The output has shape (batch, out_channels, number of output elements, *spatial).",
  ["inputs", "configurations"], "all batch sizes, channel counts, group counts, element counts, 2D and 3D, with and without bias",
  "The reshapes merge channel and element axes; a wrong merge order keeps all shapes and is invisible to the shape tests.",
  [M + "gconv.py"],
  [("lifting", M + "gconv.py: GLiftingConvNd.forward"), ("separable", M + "gconv.py: GSeparableConvNd.forward"), ("full", M + "gconv.py: GConvNd.forward"),
   ("bias", M + "gconv.py: GroupConvNd.__init__")])

p("C09", "Stride, padding, dilation and padding mode act once, on the spatial filter",
  "Every layer applies the requested stride, padding, dilation and padding mode exactly once, in its spatial convolution, with the meaning they have for an ordinary convolution: 'zeros' uses the requested padding, every other mode pads the input by the same amounts in that mode and convolves without padding, and 'same' keeps the spatial size by padding dilation*(kernel-1) per axis, the smaller half first. "
  "A scalar option applies to every spatial axis.",
  ["configurations"], "all strides, paddings (numbers, tuples, 'same', 'valid'), dilations, padding modes, kernel sizes, 2D and 3D",
  "Tests use one configuration per layer (mostly defaults or padding equal to zero-mode), so double application or a swapped option cannot show.",
  [M + "gconv.py"],
  [("padding setup", M + "gconv.py: GroupConvNd.__init__"), ("spatial convolution", M + "gconv.py: GroupConvNd._conv2d_forward, _conv3d_forward"),
   ("separable order", M + "gconv.py: GSeparableConvNd.forward")])

p("C10", "Invalid layer configurations are rejected, valid ones accepted",
  "Constructing a layer raises ValueError when groups is not positive or does not divide both channel counts, when the padding string is not 'same' or 'valid', when 'same' is combined with a stride other than one, when the padding mode is not zeros, reflect, replicate or circular, or when a pair of subgroup sizes given for a base layer contains a negative number or sums to zero. "
  "Every other combination of groups, stride, padding, padding mode, dilation and bias is accepted. "
  "Sampling with an interpolation mode other than 'rbf' or 'nearest' raises ValueError.",
  ["configurations"], "all combinations of channel counts, groups, padding strings, strides, padding modes, subgroup sizes, interpolation modes",
  "No test constructs an invalid configuration; the guard conditions are a boolean function over unbounded integers and strings.",
  [M + "gconv.py", G + "so2.py", G + "so3.py", G + "o2.py", G + "o3.py"],
  [("layer guards", M + "gconv.py: GroupConvNd.__init__"), ("sampling guards", G + "so2.py, so3.py, o2.py, o3.py: grid_sample")])

p("C11", "A layer returns the element grid its output is defined on",
  "The grid returned next to the features is exactly the output grid the kernel was sampled for. "
  "With output permutation off it is the grid passed by the caller, or the layer's documented default if none was passed (the layer's own grid for lifting and E(n) layers, the input's grid for the other SE(n) layers); with permutation on it is that grid multiplied from the left by one single random element of the layer's group, drawn anew on every call. "
  "The layer's own stored grid is not changed by a call.",
  ["inputs", "histories"], "all calls, with and without explicit grids, permutation on and off, training histories of repeated calls",
  "Tests check equality of the returned grid only with permutation off; with permutation on any pair of inconsistent grids looks equally random.",
  [M + "gconv.py"] + CM,
  [("grid choice and permutation", ", ".join(CM) + ": forward"), ("grid pass-through", M + "gconv.py: GLiftingConvNd.forward, GSeparableConvNd.forward, GConvNd.forward")],
  state=[{"name": "kernel.grid_H", "meaning": "reference grid of group elements registered on the kernel"}])

p("C12", "Each ready-made kernel uses the operations of one group consistently",
  "The ready-made SE(2), E(2), SE(3), E(3) and SO(3) kernels, built with default or given grids, use inverse, product, spatial action, determinant and interpolation of the same group in the same parameterization as the grid they store, together with a reference coordinate grid and mask of the same spatial dimension and size. "
  "A kernel can therefore be sampled for any valid grids of its group without a shape error, and a given grid is stored as the reference grid unchanged.",
  ["configurations"], "every ready-made kernel, all sizes, default and user-given grids",
  "The slots are filled positionally with callables that mostly accept each other's arguments; tests exercise one configuration and not the SO(3) kernel's default grid.",
  CK,
  [("slot filling", ", ".join(CK) + ": __init__")])

p("C13", "Every constructor option reaches what it configures",
  "Each option of a ready-made layer or kernel (channels, sizes, groups, stride, padding, dilation, padding mode, bias, mask, grid, sampling modes, widths, padding modes) takes effect on exactly the thing it names, whichever value is given and whether passed by position or keyword. "
  "In particular switching off the mask gives a kernel without mask, a given positive width is used unchanged, and different spatial and group sampling modes are not confused.",
  ["configurations"], "all option values of all 23 public layer and kernel constructors",
  "Tests use default options almost everywhere; an ignored or swapped option is invisible unless two options differ.",
  CK + CM + [M + "gconv.py"],
  [("layers", ", ".join(CM) + ": __init__"), ("kernels", ", ".join(CK) + ": __init__"), ("2d/3d bases", M + "gconv.py: G*Conv2d, G*Conv3d")])

p("C14", "Default interpolation widths come from the grid's own density",
  "When no width is given, the interpolation width of a subgroup is 0.8 times the mean, over that subgroup's reference elements, of the geodesic distance to the nearest different element of the same subgroup. "
  "The nearest-neighbour distance of a grid never counts an element as its own neighbour, and uses the distance of the parameterization the elements are in.",
  ["inputs", "configurations"], "all reference grids with at least two elements per subgroup, rotation and reflection parts separately",
  "Tests only look at shapes; a width of zero or from the wrong subgroup produces NaN or poor weights of the right shape.",
  [G + "so2.py", G + "so3.py"] + CK,
  [("nearest neighbour distance", G + "so2.py, so3.py: nearest_neighbour_distance"), ("width defaults", ", ".join(CK) + ": __init__")])

p("C15", "Interpolation reproduces its data and keeps batches and channels apart",
  "Radial-basis interpolation evaluated at the reference elements returns the given signal whatever the (positive) width, because coefficients and evaluation use the same basis and distance; the Gaussian basis is one at distance zero and one half at distance equal to the width. "
  "Nearest-neighbour interpolation returns the whole signal row of the reference element at the smallest distance, and barycentric interpolation a convex combination of the rows of the three nearest, equal to the nearest row when it coincides with the node (for nodes that have some positive barycentric coordinate). "
  "No batch entry, node or signal channel influences another one.",
  ["inputs"], "all node sets, reference grids, signals, widths, distance functions and batch sizes",
  "No test calls the interpolators directly with more than a shape check.",
  ["gconv/geometry/interpolation.py", G + "so2.py", G + "so3.py"],
  [("interpolators", "gconv/geometry/interpolation.py: RBF_gauss, interpolate_RBF, interpolate_NN, interpolate_BCC"),
   ("sampling", G + "so2.py, so3.py: grid_sample")])

p("C16", "O(n) sampling treats rotations and reflections as separate sheets",
  "Sampling an O(2) or O(3) signal interpolates every queried rotation only on the rotation part of the reference signal with the rotation width, and every queried reflection only on the reflection part with the reflection width, wherever the reference grid has elements of that part. "
  "The sampled rows are returned in the order of the queried elements, however rotations and reflections are mixed in it.",
  ["inputs"], "all query grids with any mixture and order of rotations and reflections, all subgroup sizes",
  "Tests query grids in canonical order only (rotations first), where a wrong reordering is the identity.",
  [G + "o2.py", G + "o3.py"],
  [("sheet split and reorder", G + "o2.py: grid_sample; " + G + "o3.py: grid_sample")])

p("C17", "Geodesic distances are symmetric, invariant and well defined",
  "The distance between two elements is symmetric, unchanged when both are multiplied from the left by the same element, the same for a quaternion and its negative, and the same for angles differing by full turns. "
  "It is the arc cosine of the inner product of the representing unit vectors, clamped strictly inside [-1, 1] so that it and its gradient are finite for equal and opposite elements. "
  "It broadcasts over leading dimensions.",
  ["inputs"], "all pairs of elements including equal and antipodal ones, all broadcastable shapes",
  "Tests never evaluate distances of antipodal or rescaled representatives.",
  [G + "so2.py", G + "so3.py", G + "s2.py"],
  [("distances", G + "so2.py: geodesic_distance, geodesic_distance_euclid; " + G + "so3.py: geodesic_distance; " + G + "s2.py: geodesic_distance_s2")])

p("C18", "Pooling keeps channels and elements apart and reduces the right axes",
  "Spatial pooling pools every (batch, channel, element) map on its own with the configured window (size, stride, padding, dilation, rounding), keeps batch, channel and element axes, and returns the grid unchanged. "
  "Group pooling removes exactly the element axis by maximum or mean, and global pooling reduces elements and all spatial axes to one value per batch and channel. "
  "All return feature tensors.",
  ["inputs", "configurations"], "all input shapes, 2D and 3D, all pooling options",
  "No test instantiates any pooling layer.",
  [M + "pooling.py"], [("pooling", M + "pooling.py: all classes")])

p("C19", "Norm, activation and wrapper layers act per feature and pass the grid on",
  "Activation and wrapper layers apply the configured module to the features and return them with the very grid that was passed in. "
  "Batch and instance normalization treat element and spatial positions alike as samples of their channel, giving back the input's shape, so that statistics never mix channels. "
  "Each can be constructed with the options of the module it specializes.",
  ["inputs", "configurations"], "all feature shapes, all module options",
  "No test instantiates these layers.",
  [M + "normalization.py", M + "activations.py", M + "wrappers.py"],
  [("normalization", M + "normalization.py: all classes"), ("activations", M + "activations.py: all classes"), ("wrapper", M + "wrappers.py: GWrap")])

p("C20", "Reference coordinates follow the sampling convention; masks are radial",
  "The reference coordinate grid of size k covers [-1, 1] with equal steps on every axis (size 1 is the origin) and stores at each position the coordinates in the order in which spatial sampling reads them (last spatial axis first), so that sampling at the untransformed grid does not permute spatial axes. "
  "The spherical mask of size k is one exactly where the Euclidean norm of the reference position is below 1.1 and zero elsewhere, in floating point. "
  "2D and 3D versions agree in this.",
  ["inputs", "configurations"], "all sizes k >= 1, 2D and 3D",
  "A transposed coordinate grid has the right shape and passes every existing test.",
  [F + "grid.py", F + "mask.py"],
  [("grids", F + "grid.py: create_grid_R2, create_grid_R3"), ("masks", F + "mask.py: create_spherical_mask_R2, create_spherical_mask_R3")])

p("C21", "Functions leave their arguments and shared state untouched",
  "No public geometry, interpolation, kernel-sampling or layer call changes the values of the tensors, lists or dictionaries it was given, of the library's shared tables, or of default arguments; operations the caller asks to be in place, running statistics and explicitly storing a grid are the only exceptions. "
  "Repeated calls with the same arguments and the same random draws therefore return the same result, whatever was done to earlier results.",
  ["inputs", "histories"], "all calls and all call histories",
  "Tests never compare arguments before and after, and an aliased view only shows on a later call.",
  [G + "so2.py", G + "o2.py", G + "so3.py", G + "o3.py", G + "s2.py", "gconv/geometry/interpolation.py", "gconv/geometry/repulsion.py", K + "kernel.py", M + "gconv.py"],
  [("in-place writes", "every subscript store, augmented assignment and trailing-underscore call in the anchored files")])

p("C22", "Results live on the device the caller chose",
  "Every function that takes a device creates its result, and everything combined into it, on that device; functions of tensors create what they need on the device of their inputs. "
  "Layers and kernels keep the grids and masks they sample from as registered state, so that a layer moved to another device computes there with inputs on that device.",
  ["inputs", "configurations"], "all devices, all public functions and layers",
  "The test machines have one device, on which every placement mistake is invisible.",
  [G + "so2.py", G + "o2.py", G + "so3.py", G + "o3.py", G + "s2.py", F + "grid.py", F + "mask.py", K + "kernel.py"] + CM,
  [("tensor factories", "every torch factory call in the anchored files"), ("registered grids", K + "kernel.py: GroupKernel.__init__")])

p("C23", "Learned and stored state is registered, trainable and initialized",
  "Every weight and bias a layer uses in its output is a registered parameter, and every reference grid, coordinate grid and mask a registered buffer, under the same names from construction on. "
  "All parameters are initialized by construction, no computation reads uninitialized memory, and gradients flow from the output to every parameter (no detached or non-differentiable step between them). "
  "A bias exists exactly when requested, and resetting a layer draws all its parameters anew.",
  ["configurations", "histories"], "all layers, kernels and options; all histories of construct, save, load, train",
  "Uninitialized memory often holds zeros or plausible numbers, and a missing registration only shows on save/load or after moving devices.",
  [K + "kernel.py", M + "gconv.py", G + "so3.py", G + "so2.py"],
  [("registration", K + "kernel.py: *.__init__; " + M + "gconv.py: GroupConvNd.__init__"), ("initialization", "reset_parameters of all kernels and GroupConvNd"),
   ("fill-in of new_empty tensors", G + "so2.py, so3.py, s2.py conversions")])

p("C24", "Everything advertised can be imported with the declared dependencies",
  "Importing the package or any of its modules succeeds with only the declared dependencies (and the standard library) installed, no import cycle leaves a name undefined, and every name used in the package resolves. "
  "Each name a module advertises for star import exists in it, and the documented layer classes are reachable from the top-level package.",
  ["configurations"], "every module, every import order, every name",
  "Tests run in one environment with extra packages installed and import a few names directly.",
  ["gconv/__init__.py", "gconv/gnn/__init__.py", "gconv/gnn/modules/__init__.py", "gconv/gnn/kernels/__init__.py", "gconv/geometry/__init__.py", M + "gconv.py"],
  [("imports", "every import statement and __all__ of the package")])

p("C25", "Random and reference elements are valid members with the requested shape",
  "Random elements of SO(2), O(2), SO(3) (as quaternions, matrices, Euler angles), O(3) and the sphere are valid members: angles in [0, 2*pi), unit quaternions or vectors, rotation matrices of such quaternions, coefficients +1 or -1 with either sign possible. "
  "SO(3) directions come from normalized Gaussian samples and SO(2) angles from the uniform distribution, the requested size (an int, or where tuples are accepted a tuple) is the leading shape, and different elements of one result are drawn independently. "
  "Uniform SO(2) grids are the n multiples of 2*pi/n, and uniform O(n) grids are rotations first, then reflections, each a uniform grid of its own size; "
  "uniform SO(3) and sphere grids that are not precomputed start from such random elements, are optimized with the requested number of steps and step size in the space's own geodesic distance, and are returned in the requested parameterization (sphere points as rotations that take the pole to the point).",
  ["inputs", "configurations"], "all sizes and shapes, all random draws",
  "Membership must hold for every draw; tests draw once and look at shapes.",
  [G + "so2.py", G + "o2.py", G + "so3.py", G + "o3.py", G + "s2.py"],
  [("samplers", G + "so2.py: random_grid, uniform_grid; " + G + "o2.py, o3.py: random_grid, uniform_grid; " + G + "so3.py: random_quat, random_matrix, random_euler, uniform_grid; " + G + "s2.py: random_s2, uniform_grid_s2")])

p("C26", "Repulsion honours its in-place contract and minimizes the stated energy",
  "Grid repulsion returns a grid of the same shape, detached from gradient tracking, after exactly the requested number of descent steps on the mean pairwise energy of transformed elements that leaves out each element's distance to itself. "
  "With in-place operation the caller's grid is the one that is updated, without it the caller's grid is left as it was; gradient tracking is switched off again on the optimized grid. "
  "The noise added to a step decays linearly to zero with the step number and scales with the noise parameter.",
  ["inputs", "configurations"], "all grids, step counts, step sizes, metrics, energy functions, in-place or not",
  "No test calls the repulsion directly; a wrong sign or a lost alias still returns a grid of the right shape.",
  ["gconv/geometry/repulsion.py", G + "so3.py", G + "s2.py"],
  [("optimizer loop", "gconv/geometry/repulsion.py: repulse, columb_energy"), ("callers", G + "so3.py: uniform_grid; " + G + "s2.py: uniform_grid_s2")])

p("C27", "Computations keep the precision of their inputs",
  "Functions of tensors and layers called with double precision inputs return double precision results and lose no precision in between: no intermediate value or table is rounded to single precision, and no operation fails because formats are mixed. "
  "Layers and kernels, with every option including output permutation and given grids, convert completely to double precision (and back) with the standard module conversions.",
  ["inputs", "configurations", "histories"], "all public functions of tensors, all layers and kernels, all sequences of conversions",
  "Every test runs in single precision, where a wrong format is invisible.",
  [G + "so2.py", G + "o2.py", G + "so3.py", G + "o3.py", G + "s2.py", "gconv/geometry/interpolation.py", K + "kernel.py", M + "gconv.py"] + CM,
  [("tensor constants and tables", "new_tensor, new_empty, torch.tensor and *_like calls of the anchored files"), ("random permutation", "forward of the layers in " + ", ".join(CM))])

p("C28", "Copies and pickles of layers are complete and independent",
  "Every layer and kernel, also after it has been called, can be deep-copied, pickled and printed. "
  "A copy has the same parameters, grids and options as the original but shares nothing with it: it computes what the original computed, from its own state, whatever happens to the original afterwards.",
  ["configurations", "histories"], "all layers, kernels and options; all histories of construct, call, copy, train",
  "No test copies a layer; a copy that still refers to the original gives right results until the original is trained or moved.",
  [K + "kernel.py", M + "gconv.py"] + CK + CM,
  [("stored callables", K + "kernel.py: GroupKernel.__init__; " + M + "gconv.py: GroupConvNd.__init__"), ("printing", "extra_repr of the same classes")])

p("C29", "Logarithms of rotations are rotation vectors",
  "The logarithm of a rotation matrix by an angle below a half turn, for any leading shape, is that angle times the unit rotation axis, and the zero vector for the identity. "
  "The logarithm of a non-zero quaternion is the logarithm of its length followed by its half angle times its unit axis, with zero vector part for the identity.",
  ["inputs"], "all rotations below a half turn, all non-zero quaternions, all leading shapes",
  "No test calls a logarithm; mistaken axes, factors of two and singular cases leave shape and range unchanged.",
  [G + "so3.py"],
  [("logarithms", G + "so3.py: so3_log, quaternion_log")])

p("C30", "Layers and networks are equivariant, pooled results invariant",
  "With symmetric padding, a stride that keeps the lattice symmetric and output permutation off, moving the input by a symmetry of the voxel lattice (quarter turns, for E(n) also with reflection) and multiplying all group elements from the left by it moves the output features of every lifting, separable and full layer by that symmetry, whatever the weights. "
  "Norm, activation and group pooling layers commute with it in the same way, and global pooling of such a network gives the same features for the moved input. "
  "The subgroup part of a kernel does not change when input and output elements are multiplied from the left by any one element.",
  ["inputs"], "all features, weights, group elements and reference grids, generators of the lattice symmetries, both dimensions",
  "Equivariance relates two runs on different inputs for all weights and elements; a test that only looks at one run's shapes cannot see it.",
  [M + "gconv.py", K + "kernel.py"] + CM + CK,
  [("layers", M + "gconv.py: GLiftingConv, GSeparableConv, GConv"), ("sampled kernels", "gconv/gnn/kernels/kernel.py: forward"),
   ("pooling", M + "pooling.py: GAvgGlobalPool, GMaxGlobalPool, GAvgGroupPool, GMaxGroupPool")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
