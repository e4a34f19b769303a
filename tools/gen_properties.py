import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Networks stay equivariant through every training and lifecycle history",
"A network built from the library's equivariant modules commutes with the action of its symmetry group at every moment of its life: freshly initialised, in the middle of training, after an optimiser step, after switching between train and eval mode, after a checkpoint was restored (including in another process), after being deep-copied. Exactly (up to rounding) this means: transforming the input field by a group element that maps the pixel grid onto itself and running the network gives the same result as running the network and transforming its output field; for modules acting on each pixel separately it holds for every group element. It holds for every supported combination of symmetry group, field types, modules and their options (stride, padding, dilation, groups, ...).",
["histories","configurations","inputs","crash_points"],
"every sequence of training steps, mode switches, checkpoint/restore/crash events and copies; every supported architecture; every input and grid symmetry",
"The tests check a few fixed freshly built layers, one at a time; the convolution tests are not even part of the stable suite. None trains, switches modes, restores or copies and then checks equivariance again.",
["e2cnn/nn/modules","e2cnn/kernels","e2cnn/diffops","e2cnn/gspaces","e2cnn/group"],
[("expansion of learned weights in a basis of equivariant kernels","e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py"),("modules restricted to representations which support them","e2cnn/nn/modules/nonlinearities")],
[("weights","free parameters, any value must give an equivariant map","R2Conv.weights"),("filter","cached expanded filter in eval mode","R2Conv.filter")],
["forward()","GeometricTensor.tensor"])

p("C02","Evaluation mode always computes the function of the current parameters",
"After any history of train/eval switches (of the whole network or of any of its parts), optimiser steps, parameter edits made in training mode, state-dict loads and copies, a network in evaluation mode computes the function defined by its current parameters and running statistics, i.e. the same as a newly built network holding the same values, and never one defined by parameters of the past. Switching modes changes neither the parameters nor the result of layers without mode-dependent behaviour, and gradients computed in training mode always refer to the current parameters.",
["histories","configurations"],
"every interleaving of mode switches at any nesting level, parameter updates, loads, copies and forward passes",
"The tests never run train -> eval -> train -> eval with updates in between, nor load a state dict after the filters were expanded.",
["e2cnn/nn/modules/r2_conv/r2convolution.py","e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py","e2cnn/nn/modules/r2_conv/r2diffop.py","e2cnn/nn/modules/batchnormalization"],
[("train() discards the expanded filter, eval() rebuilds it from the current weights","R2Conv.train / R2Diffop.train / R2ConvTransposed.train")],
[("filter / expanded_bias","expanded parameters, exist only in eval mode","R2Conv")],["forward()","state_dict()","parameters()"])

p("C03","Crash and resume from a checkpoint reproduces the uninterrupted training",
"If training is stopped at any point (crash or kill, also in the middle of a step) and resumed in a new process from the last checkpoint (state dict of the network stored in eval mode as documented, optimiser state, random state), the resumed run produces the same losses, parameters, statistics and predictions as a run that was never interrupted. This holds whatever the new process built or cached before rebuilding the network, and whatever its hash randomisation; the checkpoint always fits the rebuilt network (same names and shapes) and after loading, predictions equal those made when it was saved.",
["crash_points","histories","configurations"],
"every crash step, every checkpoint schedule, every prior history of the new process, every hash seed, every architecture of the zoo",
"No test saves or loads a state dict in another process; tests run with one fixed hash seed.",
["e2cnn/nn","e2cnn/nn/modules/r2_conv","e2cnn/nn/init.py"],
[("deterministic construction: bases, parameter layout and buffer names depend only on the arguments","e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py, e2cnn/nn/field_type.py")],
[("state_dict","durable state of a network","torch.nn.Module")],["state_dict()","load_state_dict()","forward()"])

p("C04","Independently built replicas are the same network",
"Processes which build the same architecture from the same arguments obtain interchangeable networks: the same parameter and buffer names, shapes, meaning and order, so that copying parameter values by name or by position gives the same function and the same gradients. Consequently data-parallel training with gradients averaged position by position keeps all replicas identical and equal to single-process training on the whole batch, whatever the order of arrival of messages, the crash and re-join of replicas, the objects each process built before, and the hash seeds of the processes.",
["schedules","crash_points","histories","configurations"],
"every message order, crash/rejoin schedule, hash seed, prior history of each replica and architecture of the zoo",
"Tests run in one process with one fixed hash seed and never compare two builds.",
["e2cnn/nn/field_type.py","e2cnn/nn/modules","e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py"],
[("ordered iteration over representations, irreps and basis elements","FieldType, block_basisexpansion, GNormBatchNorm, BranchingModule")],
[],["named_parameters()","named_buffers()","forward()","grad"])

p("C05","Results do not depend on what was built before in the process",
"What a constructor or factory returns is determined by its arguments alone: the process-wide caches and registries (groups, representations, kernel and differential operator bases, sampled filters, discretised operators, initialisation variances) are transparent. A layer, type, basis or network built after any history of other constructions - other groups, other frequencies, other axes, other kernel sizes or discretisations, failed constructions - behaves exactly like one built first in a new process: same shapes, same parameters layout, same function for the same parameter values.",
["histories","configurations"],
"every sequence of constructions preceding the construction under test",
"Each test file runs in its own process precisely because the caches make tests depend on what ran before; no test compares a warm cache with a cold one.",
["e2cnn/gspaces/gspace.py","e2cnn/gspaces/r2","e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py","e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py","e2cnn/diffops/utils.py","e2cnn/kernels","e2cnn/diffops","e2cnn/nn/init.py","e2cnn/group/groups"],
[("cache keys compare everything the cached value depends on","basisexpansion_singleblock.block_basisexpansion, GeneralOnR2.build_kernel_basis, KernelBasis.__eq__, discretize_homogeneous_polynomial")],
[("_stored_filters","cache of sampled bases","basisexpansion_singleblock.py"),("_fields_intertwiners_basis_memory","cache of bases per gspace","gspace.py"),("_DIFFOP_CACHE","cache of discretised operators","diffops/utils.py"),("cached_he_vars","cache of init variances","nn/init.py")],
["constructors","forward()","state_dict()"])

p("C06","Networks in one process do not affect each other",
"Networks (and types, tensors and representations) that the user did not explicitly connect do not influence each other, even when they have identical layers and so share cached objects: training one, changing its mode or dtype, loading a state dict into it, exporting it, editing its buffers or parameters in place, or deleting it leaves the outputs, parameters, buffers and dtype of every other network unchanged. Results handed out by a forward pass (and descriptions handed out by other calls) belong to the caller: later passes do not change them and editing them changes nothing of the network. Arguments passed by the caller (lists, dictionaries, tensors) are not modified and may be reused or edited afterwards without changing objects built from them.",
["histories","configurations","schedules"],
"every interleaving of operations on several networks which share configurations",
"Tests build one network at a time and never touch a second one.",
["e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py","e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py","e2cnn/nn/modules","e2cnn/nn/field_type.py","e2cnn/nn/geometric_tensor.py"],
[("cached expansions are handed out as independent modules","block_basisexpansion")],[],["forward()","state_dict()"])

p("C07","Groups and representations are unique, also with concurrent callers",
"Asking for a group through its factory, or for an irrep, a regular, quotient or induced representation, or a subgroup of a group, always yields the one shared instance: all callers, on any number of threads and in any order, get the identical object, fully built, and every object already built is visible through all references to the group. No call fails, deadlocks or returns a partially built object because another thread asks for the same or another object at the same time.",
["schedules","histories"],
"every interleaving of concurrent lookups, at every line, and every order of requests",
"No test uses threads.",
["e2cnn/group/group.py","e2cnn/group/groups","e2cnn/group/utils.py"],
[("registries protected by one re-entrant lock","e2cnn/group/utils.py synchronized")],
[("_cached_group_instances","the unique groups","e2cnn/group/groups"),("Group.representations / irreps","the unique representations","e2cnn/group/group.py")],
["cyclic_group()","irrep()","regular_representation","quotient_representation()","subgroup()"])

p("C08","Concurrent construction and inference give the sequential results",
"Threads that build networks, create types and run inference at the same time - sharing groups, symmetry spaces, cached bases and, for inference, the same network in eval mode - obtain exactly the results they would obtain running one after the other in some order. No interleaving makes a construction or a forward pass fail, deadlock, or return a wrong result, and after all threads are done the shared caches still serve correct objects.",
["schedules","configurations"],
"every interleaving of the threads' steps in the library's code",
"No test uses threads.",
["e2cnn/nn/modules/r2_conv","e2cnn/gspaces","e2cnn/diffops/utils.py","e2cnn/nn/modules","e2cnn/nn/init.py"],
[("caches filled with complete values, forward passes in eval mode write no shared state","basisexpansion_singleblock.py, gspace.py, modules' forward")],[],["constructors","forward()"])

p("C09","The PDO cache file survives crashes and I/O errors",
"Storing the cache of discretised differential operators either completes, or leaves the previous file intact: after a crash or power loss at any point, a full disk, or a failing or short write, the file on disk is absent, the complete previous version or the complete new version, and loading it gives exactly those entries. An error is reported to the caller, never swallowed; a store that returned normally survives a crash of the process; concurrent stores to the same path leave one complete version; no temporary files accumulate after a store that failed with an error and the in-memory cache is not damaged.",
["crash_points","fault_sequences","schedules","histories"],
"every crash point between and inside system calls, every placement of ENOSPC/EIO/short writes/EINTR, every history of stores and concurrent stores",
"The only test stores and loads once without faults.",
["e2cnn/diffops/utils.py"],
[("write to a temporary file, flush, fsync, rename over the target","store_cache")],
[("cache file","pickled dictionary of discretised operators","e2cnn/diffops/utils.py")],["store_cache()","load_cache()","file system"])

p("C10","The PDO cache conserves its entries and never changes a stencil",
"Whatever the history of building differential operators, storing, loading (possibly several files, in several processes, before or after building operators), entries are conserved: after a load everything the file held and everything computed before is served from memory without being recomputed, loading merges and a store then writes all of it. A discretised operator served from the cache, loaded from disk or freshly computed has the same, mathematically correct values, and values handed out to callers can be modified without corrupting later results.",
["histories","crash_points","configurations"],
"every history of builds, stores, loads, process restarts and edits of returned values",
"The only test stores one cache and checks it is not empty; nothing compares a loaded entry with a fresh computation or counts recomputations.",
["e2cnn/diffops/utils.py","e2cnn/diffops/basis.py"],
[("key of the cache contains every argument; load updates the module-level dictionary in place; copies are returned","discretize_homogeneous_polynomial, load_cache")],
[("_DIFFOP_CACHE","entries in memory","e2cnn/diffops/utils.py")],["load_cache()","store_cache()","discretize_homogeneous_polynomial()","R2Diffop"])

p("C11","Exported networks are faithful and independent snapshots",
"At any moment of a network's life, exporting a supported module or a sequence of them gives a plain PyTorch module (one that can be copied or converted like any other) which computes the same function on every input as the original does in evaluation mode at that moment. From then on the two are independent: training, mode switches or edits of the original never change the exported module and vice versa, exporting changes nothing of the original except putting it in eval mode, exporting twice gives the same function, and the exported module can be saved and loaded in a process that has not built the network.",
["histories","configurations","inputs","crash_points"],
"every history before and after export; every exportable architecture and option",
"test_export compares one freshly built network per layer type right after construction; it never trains afterwards, re-exports or stores the result.",
["e2cnn/nn/modules"],
[("export() copies the expanded parameters and settings into torch.nn modules","R2Conv.export, R2ConvTransposed.export, InnerBatchNorm.export, pooling export, SequentialModule.export")],[],["export()","forward()"])

p("C12","An interrupted operation leaves no damage behind",
"If building a group, representation, type, layer or network, or a forward pass in eval mode, is aborted at any point by an exception (KeyboardInterrupt, MemoryError, an error in a dependency), the process-wide state stays usable: repeating the same operation afterwards succeeds and gives the result it gives in an undisturbed process, and so does every other operation. No partially built object is served later, and process-wide settings (random state consumption of other code aside, standard streams, print options, torch defaults, locks) are as before.",
["fault_sequences","histories","configurations"],
"every point (line) of the library at which an exception can be raised, every operation, repeated faults",
"No test injects failures.",
["e2cnn/group","e2cnn/gspaces","e2cnn/nn/modules/r2_conv","e2cnn/diffops/utils.py","e2cnn/nn/init.py"],
[("objects are entered into registries and caches only when complete","Group.regular_representation, SO2._generator, block_basisexpansion, GSpace.build_kernel_basis")],[],["constructors","registries"])

p("C13","Runs are reproducible from the random seed",
"Given the same seed of PyTorch's (and numpy's) generator, building, initialising and training a network gives bit-for-bit reproducible parameters and outputs within the same environment, independent of hash randomisation, of which caches were warm, and of unrelated networks built before the seed was set; the amount of randomness consumed by a construction does not depend on caches either. Evaluation, mode switches, saving and equivariance-independent bookkeeping draw no random numbers, so they can be inserted anywhere without changing the rest of the run.",
["histories","configurations","schedules"],
"every history before seeding, every insertion of evaluation/bookkeeping operations, every hash seed",
"Tests never run the same construction twice with different histories and compare.",
["e2cnn/nn/init.py","e2cnn/nn/modules","e2cnn/diffops","e2cnn/kernels"],
[("draws happen only in initialisation, dropout and explicit random methods","e2cnn/nn/init.py, e2cnn/nn/modules/dropout")],
[("cached_he_vars","cache of initialisation variances","e2cnn/nn/init.py")],["torch.get_rng_state()","parameters()"])

p("C14","Batch-norm statistics follow the documented recursion over any history",
"Each batch-normalisation module's running statistics are exactly the documented moving averages (exponential with the given momentum, or cumulative if momentum is None) of the per-field batch statistics of the training batches seen since construction or the last reset, and nothing else: evaluation passes, mode switches, state-dict round trips and copies neither change nor lose them. The output is the input field normalised by these statistics (the batch's own in training mode where so documented, the running ones in eval mode) and scaled by the learnable parameters, all channels of a field being treated alike, so the fields keep their type.",
["histories","inputs","configurations"],
"every sequence of training/evaluation batches of any size, resets, mode switches and checkpoint round trips; every field type",
"test_batchnorm checks fixed long runs of one module against expected moments; no history of modes, resets or checkpoints, nor cumulative momentum.",
["e2cnn/nn/modules/batchnormalization/inner.py","e2cnn/nn/modules/batchnormalization/norm.py","e2cnn/nn/modules/batchnormalization/gnorm.py","e2cnn/nn/modules/batchnormalization/induced_norm.py"],
[("in-place update of registered buffers, only in training mode","forward() of each batch norm")],
[("running_var / running_mean / num_batches_tracked","moving averages","batchnormalization")],["forward()","state_dict()","reset_running_stats()"])

p("C15","Dropout respects fields for every random outcome",
"For every state of the random generator, field dropout in training mode sets a field's vector at a pixel either to zero or to the input vector divided by (1-p) - never part of a field's channels - and pointwise dropout does so for each channel; the outcome is a function of the generator state only, all fields (contiguous or not, of any size) can be dropped and kept with the stated probability, in-place and out-of-place variants agree, and gradients are masked and scaled like the outputs. In evaluation mode both are the identity and consume no randomness.",
["schedules","inputs","configurations","histories"],
"every outcome of the random generator, every field type, p in [0,1], in-place or not, every sequence of mode switches",
"test_dropout estimates averages over many samples for a few types; it does not look at individual outcomes, in-place use with mixed types, or p=1.",
["e2cnn/nn/modules/dropout/field.py","e2cnn/nn/modules/dropout/pointwise.py"],
[("one mask value per field, broadcast over the field's channels","dropout_field")],[],["forward()","grad"])

p("C16","Objects built earlier stay valid while groups and caches grow",
"Groups are shared and grow: requesting higher frequencies, new irreps, representations, subgroups or restrictions extends the shared instance. Every object obtained earlier - representations, subgroups with their embeddings, types, layers, networks - keeps its identity and values, keeps interoperating with objects obtained later (same group compares equal, types of old and new representations can be combined in one layer, old and new representations can be restricted to old subgroups), and existing networks keep computing the same function.",
["histories","configurations","schedules"],
"every interleaving of group growth, representation building and use of older objects",
"Tests request one maximum frequency per process and never mix objects built before and after growth.",
["e2cnn/group/groups/so2group.py","e2cnn/group/groups/o2group.py","e2cnn/group/group.py","e2cnn/gspaces"],
[("one shared instance updated in place; subgroups extended lazily","SO2._generator, O2._generator, O2._restrict_irrep")],
[("_maximum_frequency","largest frequency built","SO2/O2"),("_subgroups","cached subgroups","Group")],["so2_group()","o2_group()","restrict_representation()","FieldType"])

pure="Pure function of its arguments: no schedule, clock, fault, crash or history enters it."
p("C17","Sampled kernels solve the steerability constraint",
"For every group, pair of representations and bandlimit, each element of the kernel basis satisfies k(gx) = rho_out(g) k(x) rho_in(g)^-1 for every group element and point, the basis elements are linearly independent and span all such kernels up to the bandlimit.",
["inputs","configurations"],"all groups, representations, points and group elements","Tests sample a few representation pairs.",
["e2cnn/kernels"],[("analytic angular solutions","e2cnn/kernels/steerable_basis.py")])
p("C18","Groups satisfy the group axioms, representations are homomorphisms",
"For all elements: combine is associative with identity and inverse, equality respects angle periodicity; every representation satisfies rho(ab) = rho(a)rho(b), is the direct sum of its listed irreps in the stated basis, and its character is its trace.",
["inputs","configurations"],"all groups, elements and representations","Tests sample a few groups.",
["e2cnn/group"],[("analytic definitions","e2cnn/group/groups")])
p("C19","Restriction, induction, quotient and disentangling are correct",
"The restriction of a representation to a subgroup equals the original evaluated through the embedding; induced and quotient representations satisfy their definitions; disentangling yields an equivalent block-diagonal representation with the returned change of basis.",
["inputs","configurations"],"all representations, subgroups and elements","Tests sample a few pairs.",
["e2cnn/group/group.py","e2cnn/group/representation.py"],[("analytic decompositions","_restrict_irrep, build_induced_representation, disentangle")])
p("C20","Types are checked and tensor algebra preserves them",
"Modules reject inputs of another field type; sums, splits, concatenations, slices and transformations of geometric tensors carry the right type and act linearly on the data.",
["inputs","programs"],"all types and tensors","Tests sample a few types.",
["e2cnn/nn/geometric_tensor.py","e2cnn/nn/field_type.py"],[("assertions on types","forward() of modules")])
p("C21","Declared output shapes match the computed ones",
"evaluate_output_shape returns the shape forward produces for every valid input shape and module option.",
["inputs","configurations"],"all shapes and options","Tests compare a few shapes.",
["e2cnn/nn/modules"],[("shape formulas","evaluate_output_shape of modules")])
p("C22","PDO bases solve the equivariance constraint and discretise correctly",
"For every group and pair of representations the basis of partial differential operators is equivariant and complete up to the order, and a discretised operator is exact on polynomials up to its accuracy.",
["inputs","configurations"],"all representations, orders and polynomials","Tests sample a few cases.",
["e2cnn/diffops"],[("analytic solutions and finite differences","e2cnn/diffops/basis.py")])
open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
