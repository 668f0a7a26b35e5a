"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
G = "e2cnn/group/"; K = "e2cnn/kernels/"; D = "e2cnn/diffops/"; S = "e2cnn/gspaces/"; M = "e2cnn/nn/modules/"; N = "e2cnn/nn/"

prop("C01", "Symmetry groups obey the group laws",
 "For every supported symmetry group (cyclic, dihedral, continuous rotations, rotations with reflections) composition is closed, associative, has the declared identity and inverses, and agrees with composing the planar rotations/reflections the elements stand for. Element equality, membership, order and the enumerated element lists are mutually consistent: equality identifies exactly the elements that act identically on the plane (angles modulo a full turn), and membership accepts exactly the documented elements.",
 ["inputs", "configurations"], "all groups of any order, all pairs/triples of elements, all angles",
 "Tests try two or three group orders and fixed elements; the laws quantify over every order and every element.",
 [G+"groups/cyclicgroup.py", G+"groups/dihedralgroup.py", G+"groups/so2group.py", G+"groups/o2group.py", G+"groups/factory.py", G+"utils.py"],
 [("modular/semidirect arithmetic", G+"groups/*.py combine/inverse"), ("cyclic closeness test", G+"utils.py cycle_isclose")],
 ["combine", "inverse", "equal", "is_element", "elements", "order"])
prop("C02", "Subgroup inclusion and restriction maps are consistent",
 "For every group and every admissible subgroup identifier, the returned embedding is an injective homomorphism into the parent which preserves the planar action of the subgroup (about the chosen reflection axis), and the returned partial inverse recovers the subgroup element, as a valid element, for precisely the parent elements in the image and nothing for all others. Inadmissible identifiers are rejected.",
 ["inputs", "configurations"], "all groups, all subgroup identifiers, all elements, axes and angles",
 "Tests only exercise restrictions of a few groups with one or two axes and never the inverse maps over whole parents.",
 [G+"groups/cyclicgroup.py", G+"groups/dihedralgroup.py", G+"groups/so2group.py", G+"groups/o2group.py"],
 [("subgroup construction", G+"groups/*.py subgroup")], ["subgroup"])
prop("C03", "Every representation is a real orthogonal representation",
 "For every representation the library provides or derives, the matrices returned for group elements satisfy identity, homomorphism and inverse laws, are orthogonal up to the declared change of basis, and equal the change of basis applied to the direct sum of the declared irreducible representations. The declared size, character, triviality predicates and equality agree with those matrices.",
 ["inputs", "configurations"], "all groups, all built-in and derived representations, all elements",
 "Tests check a handful of groups; direct sums, restrictions, quotients and induced representations form an unbounded family.",
 [G+"representation.py", G+"irrep.py", G+"groups/*.py"],
 [("numeric/analytic change of basis", G+"representation.py"), ("block-diagonal evaluation", G+"representation.py direct_sum_factory")],
 ["Representation.__call__", "Representation.character", "irreps", "change_of_basis"])
prop("C04", "Irreducible representations are complete, irreducible and inequivalent",
 "The irreducible representations offered by each group are truly irreducible over the reals, pairwise inequivalent and, for finite groups, account for the whole group (every representation decomposes into them; the regular representation contains each with the right multiplicity). Requesting one by its frequency labels always yields the representation with that rotation and reflection behaviour on the plane, independent of the order of requests.",
 ["inputs", "configurations", "histories"], "all groups and orders, all frequency labels, all request orders",
 "Completeness and irreducibility are statements about all group orders; tests sample a few.",
 [G+"groups/cyclicgroup.py", G+"groups/dihedralgroup.py", G+"groups/so2group.py", G+"groups/o2group.py", G+"irrep.py"],
 [("irrep factories", G+"groups/*.py irrep"), ("lazy registration", G+"groups/*.py _build_representations")])
prop("C05", "Derived representations mean what they say",
 "Direct sums act block-diagonally, a change of basis conjugates, restriction to a subgroup evaluates the original at the embedded element, regular, quotient and induced representations permute (and act within) cosets as documented, and splitting a representation yields a permutation-equivalent block-diagonal list of indecomposable pieces. A representation rebuilt from explicit matrices reproduces those matrices.",
 ["inputs", "configurations", "histories"], "all groups, representations, subgroups, elements and nesting orders of constructions",
 "Compositions of constructions are unbounded and tests check individual ones at fixed orders.",
 [G+"representation.py", G+"group.py", G+"groups/*.py"],
 [("restriction of irreps", G+"groups/*.py _restrict_irrep"), ("induction", G+"representation.py build_induced_representation"), ("splitting", G+"representation.py disentangle"), ("numeric decomposition", G+"representation.py decompose_representation")])
prop("C06", "Declared supported nonlinearities are sound",
 "Whenever a representation, built-in or derived, advertises support for a kind of nonlinearity, the corresponding operation commutes with the action of every group element on that representation. Representations with no trivial structure never advertise acting as an invariant gate.",
 ["inputs", "configurations"], "all representations incl. sums, restrictions, quotients, inductions, changes of basis; all elements",
 "Flags are propagated by set algebra through constructors; tests only check flags on base representations indirectly.",
 [G+"representation.py", G+"group.py", G+"groups/*.py"],
 [("flag propagation", G+"representation.py directsum/change_basis"), ("induced flags", G+"group.py _induced_nonlinearities"), ("restriction flags", G+"group.py restrict_representation")])
prop("C07", "The action on feature fields is a genuine group action",
 "Transforming a feature field by an element rotates/reflects the pixel grid and mixes the channels by the field's representation: exactly (to floating point) for elements that map the grid to itself, composing like the group, with the identity acting trivially, never modifying its input. The reflection axis is honoured and the action of a restricted space is the original action of the embedded element.",
 ["inputs", "configurations"], "all spaces, axes, elements, representations, image sizes (odd/even), batches",
 "Tests transform a few images with loose tolerances; exactness must hold for every element, axis and image size.",
 [S+"gspace.py", S+"r2/*.py", S+"r2/utils.py", N+"geometric_tensor.py"],
 [("grid rotation", S+"r2/utils.py rotate_array"), ("axis bookkeeping", S+"r2/fliprot2d_on_r2.py restrict")],
 ["GeometricTensor.transform", "transform_fibers", "featurefield_action", "restrict"])
prop("C08", "Every kernel basis element is steerable",
 "For every space, pair of input/output representations, radial profile and frequency limit, each kernel of the returned basis satisfies the equivariance constraint at every point of the plane and for every group element, including the origin. The attributes describing each basis element (shape, frequency, radius, irreps) describe the sampled kernel, and sampling into a buffer, masked or point by point gives the same values.",
 ["inputs", "configurations"], "all spaces, axes, representation pairs, radii, frequency limits, points, elements",
 "Tests sample random points for a few group orders; the constraint must hold for all.",
 [K+"irreps_basis.py", K+"steerable_basis.py", K+"basis.py", K+"r2.py", K+"utils.py"],
 [("analytic solutions", K+"irreps_basis.py"), ("combination over irreps", K+"steerable_basis.py"), ("polar composition", K+"basis.py")])
prop("C09", "Kernel bases are linearly independent and complete",
 "The kernels returned for a space, representation pair and maximum frequency are linearly independent and span exactly all equivariant kernels whose angular frequency does not exceed that maximum (for continuous rotations: all of them), for each radial profile. Limiting frequencies by offset only ever removes elements.",
 ["inputs", "configurations"], "all spaces, axes, representation pairs, frequency limits",
 "Tests never check dimension or span; a missing or duplicated solution leaves equivariance tests green.",
 [K+"irreps_basis.py", K+"steerable_basis.py", K+"utils.py", S+"r2/*.py"],
 [("frequency enumeration", K+"utils.py offset_iterator"), ("case split per irrep pair", K+"irreps_basis.py")])
prop("C10", "Differential-operator bases are steerable, independent and complete",
 "For every space and representation pair, each basis element is a matrix of partial-derivative polynomials satisfying the equivariance constraint for every group element, the elements are linearly independent, and they span all equivariant constant-coefficient operators up to the requested derivative frequency and Laplacian power. The attributes of an element report its true derivative order.",
 ["inputs", "configurations"], "all spaces, axes, representation pairs, maximum frequencies and powers",
 "Tests check equivariance of selected cases; completeness and orders are never checked.",
 [D+"irreps_basis.py", D+"steerable_basis.py", D+"basis.py", D+"r2.py", D+"utils.py"],
 [("homogeneous polynomial solutions", D+"irreps_basis.py"), ("Laplacian tensor basis", D+"basis.py TensorBasis")])
prop("C11", "Discretised derivatives are consistent with the operators they stand for",
 "Sampling a differential operator on a grid yields a stencil that, applied to any polynomial the stencil has enough points to resolve, returns the exact derivative at the centre, for any grid spacing. Results do not depend on what was computed before or on saving/loading the on-disk stencil cache, and a saved cache restores exactly what was stored.",
 ["inputs", "configurations", "histories", "crash_points"], "all operators, grid sizes and dilations, orders of calls, cache store/load sequences",
 "Tests compare a few stencils on one grid size; the cache and cross-call history are hardly tested.",
 [D+"utils.py", D+"basis.py", D+"steerable_basis.py"],
 [("stencil solver and memo", D+"utils.py"), ("on-disk cache", D+"utils.py load_cache/store_cache")])
prop("C12", "Convolutional layers are equivariant",
 "For any parameter values, the convolution, transposed convolution and differential-operator layers commute with every symmetry of their space which maps the pixel grid to itself, and with translations on the grid lattice, for every field type, kernel size, stride, padding, dilation, group count, bias and mode. Their output equals the plain convolution of the input with the layer's own expanded filter and bias.",
 ["inputs", "configurations"], "all layer types/configurations, weights, inputs, grid symmetries",
 "The convolution tests are approximate, slow and not in the stable suite; stride/dilation/groups/padding combinations are not covered.",
 [M+"r2_conv/r2convolution.py", M+"r2_conv/r2_transposed_convolution.py", M+"r2_conv/r2diffop.py", M+"r2_conv/basisexpansion_blocks.py"],
 [("steerable filter expansion", M+"r2_conv/basisexpansion_blocks.py"), ("bias restricted to invariants", M+"r2_conv/r2convolution.py")])
prop("C13", "Layer parameters span exactly the sampled steerable filters",
 "A layer's filter is linear in its free parameters; each parameter controls exactly the field pair, frequency and radius its metadata declares, and every filter it can express is, also for elements that do not preserve the grid, the grid sampling of an equivariant kernel within the requested rings, widths and frequency cut-off. No equivariant kernel within the requested band limit that is visible on the grid is missing, and gradients reach every parameter.",
 ["inputs", "configurations"], "all field types (repeated, interleaved), kernel sizes, dilations, cut-offs, rings, widths, filters, offsets",
 "Tests compare two expansion implementations on a few types; neither is compared with the space of equivariant kernels.",
 [M+"r2_conv/basisexpansion_blocks.py", M+"r2_conv/basisexpansion_singleblock.py", M+"r2_conv/r2convolution.py"],
 [("block-wise expansion", M+"r2_conv/basisexpansion_blocks.py"), ("band-limiting and normalisation", M+"r2_conv/basisexpansion_singleblock.py"), ("grid and ring parameters", M+"r2_conv/r2convolution.py compute_basis_params")])
prop("C14", "Evaluation mode computes the trained function through any lifecycle",
 "After any sequence of training steps, mode switches, state saving and loading (in the documented evaluation-mode protocol), copying and parameter updates followed by re-entering evaluation mode, a model's evaluation-mode output equals what its current parameters define, and a freshly built model that loads the saved state computes the same function. Switching modes or saving never changes parameters, and gradients flow in training mode.",
 ["histories", "configurations"], "all sequences of train/eval/step/save/load/copy operations on all layers",
 "Unit tests call eval once; lifecycle sequences are unbounded.",
 [M+"r2_conv/r2convolution.py", M+"r2_conv/r2_transposed_convolution.py", M+"r2_conv/r2diffop.py", M+"batchnormalization/*.py"],
 [("filter materialisation on eval", M+"r2_conv/r2convolution.py train"), ("registered buffers", M+"**")])
prop("C15", "Nonlinearities commute with the group and act field by field",
 "Every nonlinearity accepted for a field type commutes with the action of every group element for any input and any parameter values, keeps fields separate (each output field depends only on its own input field and its gate), and computes its documented function (pointwise, norm-rescaling, gating, concatenation, vector-field). This holds for any mixture, repetition and interleaving of fields in the type.",
 ["inputs", "configurations"], "all nonlinearities, functions, field types and interleavings, parameters, inputs",
 "Tests use the module's own check on homogeneous types with default parameters.",
 [M+"nonlinearities/*.py"],
 [("per-size channel bookkeeping", M+"nonlinearities/norm.py"), ("gate pairing", M+"nonlinearities/gated1.py")])
prop("C16", "Batch normalisation is equivariant and normalises correctly",
 "Each batch-normalisation layer commutes with every group element (transforming each sample of the batch consistently) in training and evaluation mode for any affine parameters, keeps fields separate, and in training mode normalises each field by its statistics (inner and generic variants: those of the batch, giving zero mean on invariant components and unit variance; norm variants: the running second moment updated with the batch). Running statistics follow the documented exponential/cumulative average of those batch statistics, evaluation mode uses exactly these, and resetting restores the initial state.",
 ["inputs", "configurations", "histories"], "all normalisation layers, field types, batch sequences, momenta",
 "Tests check equivariance once for a fixed type; statistics histories and mixed types are not covered.",
 [M+"batchnormalization/*.py"],
 [("field-wise statistics", M+"batchnormalization/inner.py"), ("irrep-wise statistics", M+"batchnormalization/gnorm.py")])
prop("C17", "Spatial pooling, up-sampling and masking respect fields and symmetries",
 "Spatial pooling, anti-aliased pooling, adaptive pooling, up-sampling and masking compute their documented per-channel (or per-field-norm) operation with the given kernel, stride, padding, dilation and rounding, commute with all channel actions they accept, and commute with grid symmetries whenever the windows tile the grid symmetrically. Norm pooling always moves whole fields, never mixing channels from different positions.",
 ["inputs", "configurations"], "all pooling/resampling layers, window configurations, field types, inputs",
 "Tests check a few window sizes; parameter combinations and interleaved fields are not covered.",
 [M+"pooling/*.py", M+"r2upsampling.py", M+"masking_module.py"],
 [("window arithmetic", M+"pooling/*.py"), ("field gather", M+"pooling/norm_max.py")])
prop("C18", "Invariant maps are invariant and field-local",
 "Group pooling, norm pooling and induced-norm pooling return one scalar field per input field, in the order of the input fields, equal to the documented maximum or norm over that field only. The result is unchanged by the channel action of every group element.",
 ["inputs", "configurations"], "all invariant maps, field types and interleavings, inputs, elements",
 "Tests use a single field type ordering; bookkeeping errors appear only with interleaved or repeated sizes.",
 [M+"invariantmaps/*.py", M+"utils.py"],
 [("channel grouping", M+"utils.py indexes_from_labels")])
prop("C19", "Dropout drops whole fields and preserves the mean",
 "In training mode field dropout zeroes or rescales entire fields (one decision per sample, position and field, shared by all channels of that field), pointwise dropout zeroes or rescales entries, survivors are scaled by the inverse keep probability and drop frequencies match the requested probability for every field of the type, in place or not. In evaluation mode the input is returned unchanged.",
 ["inputs", "configurations"], "all field types and interleavings, probabilities incl. 0 and 1, in-place flag, random streams",
 "Tests inspect averages of one configuration; in-place and interleaved types are not covered.",
 [M+"dropout/*.py"],
 [("mask broadcast over field", M+"dropout/field.py")])
prop("C20", "Exported modules compute the same function",
 "Whenever exporting an equivariant module (or a container of them) to a plain module succeeds, the plain module maps every input tensor to the same output as the equivariant module in evaluation mode at the time of the export, regardless of later changes (training, mode switches, loading) made to the equivariant module, and contains no equivariant modules. Export is available for every module and configuration documented as exportable.",
 ["inputs", "configurations", "histories"], "all exportable modules/configurations, inputs, training histories",
 "Tests export a few configurations with default options.",
 [M+"**/*.py export"],
 [("per-module export", M+"**"), ("container export", M+"sequential_module.py")])
prop("C21", "Announced output types and shapes are exact",
 "For every module and every valid input, the output's field type equals the module's announced output type, its tensor has as many channels as that type, and its shape equals the shape the module announces in advance for that input shape.",
 ["inputs", "configurations"], "all modules, window/stride/padding/dilation/rounding/scale configurations, input sizes",
 "Tests check shapes for a few square inputs; the arithmetic must hold for all sizes.",
 [M+"**/*.py evaluate_output_shape"],
 [("shape arithmetic", M+"**")], ["forward hooks on every module call"])
prop("C22", "Containers and structural modules route fields faithfully",
 "Sequential, list, identity, branching, merging, multi-branch, reshuffling, restriction and disentangling modules apply precisely the given sub-modules to precisely the designated fields in order, never dropping, duplicating or mixing channels, and announce types matching the data. Restriction leaves the tensor untouched; disentangling is an invertible per-field change of basis that matches the announced types.",
 ["inputs", "configurations"], "all field types, labels, permutations, subgroups, nesting of modules",
 "Routing bugs show only with interleaved labels/types; tests use a few layouts.",
 [M+"sequential_module.py", M+"branching_module.py", M+"merge_module.py", M+"multiple_module.py", M+"reshuffle_module.py", M+"restriction_module.py", M+"disentangle_module.py", M+"module_list.py"],
 [("channel index maps", M+"branching_module.py"), ("grouping", M+"merge_module.py")])
prop("C23", "Field types and geometric tensors form a consistent algebra",
 "Field-type size, representation, index maps, concatenation, selection, sorting, grouping and restriction agree with each other, and slicing, splitting, direct sum and arithmetic on geometric tensors act on precisely the addressed fields and return the matching type, as the same operations on the raw tensor would. None of these operations modifies its operands except explicitly in-place ones.",
 ["inputs", "configurations"], "all field types, index expressions, scalars, tensors",
 "Tests cover a few index expressions on one type.",
 [N+"field_type.py", N+"geometric_tensor.py"],
 [("field offsets", N+"field_type.py"), ("slicing", N+"geometric_tensor.py __getitem__")])
prop("C24", "Incompatible geometry is rejected",
 "Tensors or types with a different field type, a different symmetry group, a different reflection axis or a different channel count are never silently accepted: wrapping, applying modules, building layers, adding and concatenating reject them, and representations that do not support an operation are rejected at construction. Compatible ones, including independently constructed equal ones, are always accepted.",
 ["inputs", "configurations"], "all pairs of field types, spaces and modules",
 "Tests construct valid networks only.",
 [N+"geometric_tensor.py", N+"field_type.py", S+"r2/*.py", M+"**/*.py"],
 [("type assertions", M+"**"), ("equality of spaces and types", S+"r2/*.py __eq__")])
prop("C25", "Results do not depend on construction history",
 "Building groups, representations, spaces, bases and layers gives the same mathematical result regardless of what was built, cached, initialised or used before in the same process, including objects that merely share a name. Building or using one object never changes the behaviour of another, nor the caller's arguments.",
 ["histories", "configurations"], "all orders of constructions and uses, all cached keys",
 "Every test runs in one order with default caches; cache-key collisions need specific histories.",
 [S+"r2/general_r2.py", M+"r2_conv/basisexpansion_singleblock.py", G+"groups/*.py", N+"init.py", D+"utils.py"],
 [("group singletons", G+"groups/factory.py"), ("basis memo", S+"r2/general_r2.py"), ("sampled-filter memo", M+"r2_conv/basisexpansion_singleblock.py"), ("init memo", N+"init.py")])
prop("C26", "Weight initialisation has its documented statistics",
 "The default initialisation draws weights whose variance makes every output field of a layer have (on average over weights) the same second moment as unit-variance input, for any field types, group counts and kernel sizes, with zero mean; the delta-orthonormal initialisation of an ungrouped layer with an odd kernel yields filters supported at the centre which preserve norms whenever input and output have equal content. Initialisation writes every weight and only the weights.",
 ["inputs", "configurations"], "all field types, kernel sizes, seeds",
 "Test for variance is statistical and outside the stable suite.",
 [N+"init.py"], [("variance computation", N+"init.py generalized_he_init"), ("orthonormal blocks", N+"init.py deltaorthonormal_init")])

prop("C27", "Gradients are the derivatives of what is computed",
 "Back-propagation through any module, network or tensor operation yields the derivative of the function it evaluates, with respect to its inputs and to every trainable parameter, in training and in evaluation mode and with in-place options: no path is cut, counted twice or rescaled, repeated backward passes accumulate, and gradients are finite wherever the outputs are, also where features vanish. In evaluation mode the filters and bias stored by convolutional layers count as constants, as do the statistics of the norm-based batch normalisations.",
 ["inputs", "configurations"], "all modules, options, field types, inputs, parameters, modes",
 "Tests only compare forward values; a detached path or a doubled contribution changes training silently.",
 [M+"**/*.py forward", N+"geometric_tensor.py"],
 [("autograd graph of filters", M+"r2_conv/r2convolution.py expand_parameters"), ("in-place arithmetic on feature maps", M+"nonlinearities/*.py")])

prop("C28", "The equivariance self-check tells the truth",
 "The built-in equivariance check of nonlinearities, invariant maps, structural modules and sequences of them returns an error for every testing element of the space (all elements, for finite groups) and passes whenever the module is equivariant up to the given tolerance; it raises whenever the module visibly deviates for at least one testing element, be it in how channels mix or (general check) in how the grid is moved.",
 ["inputs", "configurations"], "all such modules, spaces, field types, deviations",
 "The tests rely on this check as their oracle and never run it on a module that is not equivariant.",
 [M+"equivariant_module.py check_equivariance", M+"**/*.py check_equivariance"],
 [("testing elements", G+"groups/*.py testing_elements"), ("comparison", M+"equivariant_module.py check_equivariance")])

prop("C29", "Calls are independent of each other",
 "In evaluation mode every module and network is a pure function of its input and its state: a call leaves the input (unless the in-place option is set), the parameters, buffers, mode and random state untouched, gives the same result again after any other calls of any sizes, in any gradient mode and from concurrent threads, treats each sample of a batch as if it were alone, and a result, once returned, belongs to the caller: later calls never alter it, and overwriting it never alters later calls. In training mode, too, earlier results and inputs stay as they were.",
 ["histories", "schedules", "inputs", "configurations"], "all modules and networks, sequences and interleavings of calls, batches",
 "Tests call each module once or twice on one shape from one thread; a reused buffer or cache shows only in longer histories.",
 [M+"**/*.py forward", N+"geometric_tensor.py"],
 [("stored filters and buffers", M+"r2_conv/r2convolution.py"), ("blur filters", M+"pooling/*.py"), ("in-place arithmetic", M+"nonlinearities/*.py")])

prop("C30", "Equality means the same mathematical object",
 "Comparing groups, spaces, representations, field types, kernel bases, operator bases and their factors never fails, is reflexive, symmetric and transitive, and is false for anything foreign. Objects built independently from the same description are equal and have equal hashes; objects which compare equal are interchangeable: same elements and action on the plane, same matrices, same advertised nonlinearities, same sampled kernels, coefficients and attributes. Hence equal objects find each other as dictionary keys, and different ones never do.",
 ["inputs", "configurations"], "all pairs of objects of one kind, in particular those which differ in one ingredient",
 "Tests compare a few objects with themselves; confusions need two objects which differ in one particular ingredient.",
 ["e2cnn/group/representation.py __eq__", "e2cnn/gspaces/r2/*.py __eq__", "e2cnn/kernels/*.py __eq__", "e2cnn/diffops/*.py __eq__", N+"field_type.py __eq__"],
 [("radial profiles", "e2cnn/kernels/basis.py"), ("irrep solutions", "e2cnn/kernels/irreps_basis.py"), ("discretisation arguments", "e2cnn/diffops/basis.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
