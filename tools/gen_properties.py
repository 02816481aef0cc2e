#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(zip(("name","meaning","where"), s)) for s in state],
            mechanism=[dict(zip(("name","where"), m)) for m in mech],
            observe_at=list(observe), hook_needed=hook)))
M="nnx/module.py"; T="nnx/transforms.py"; C="nnx/containers.py"; X="nnx/contextlib.py"; S="nnx/state.py"
F="nnx/partitioning.py"; PT="nnx/pytreelib.py"; SP="nnx/spmd.py"; H="nnx/helpers.py"; TR="nnx/tracers.py"

p("C01","Split then merge rebuilds an isomorphic module graph",
  "Splitting any module graph into its state and definition and merging them back (or cloning it) yields an isomorphic graph: same module types, static attributes, node attributes with their types, values and metadata, and the same sharing and reference cycles. The rebuilt graph consists only of new module objects and the original is left untouched. This holds for every exhaustive choice of filters and whatever order the resulting sub-states are passed back in.",
  ["inputs","histories"],"every module graph (shared submodules, cycles, mixed attribute kinds) reached by any history of attribute edits, every exhaustive filter list, every order of sub-states",
  "The tests round-trip a handful of fixed trees, one shared child and one self-loop; sharing patterns, cycles through several modules and filter/order choices are unbounded.",
  [M],[("definition and state extraction, index-based rebuild", M+": _make_module_def_recursive, _iter_state_recursive, _build_module_recursive, _update_module")],
  [("module graph","objects with named attributes and references",M+": vars(module)")],["Module.partition","ModuleDef.merge","Pure.merge","Module.clone"])
p("C02","A module's state is a canonical, deduplicated, stable snapshot",
  "The state taken from a module contains every node attribute of every distinct reachable module exactly once and nothing else, keyed by the path at which a depth-first walk in attribute-name order first reaches its module, and iterates in sorted path order; it does not depend on the order in which attributes were assigned. It is a snapshot: later changes to the module do not alter a state already taken, and using a state never aliases two modules' variables together.",
  ["inputs","histories"],"every module graph, every assignment order, every later history of mutations",
  "Tests only count entries for a few trees; canonical paths under sharing/cycles, insertion-order independence and snapshot isolation across later mutations are never exercised.",
  [M,S],[("sorted DFS with visited set",M+": _iter_state_recursive"),("sorted mapping",S+": State.__init__")],(),["Module.get_state","Module.partition"])
p("C03","Filters split state completely, disjointly, first match wins",
  "Partitioning a state or module by a list of filters puts every entry in exactly one output, that of the first filter that matches it, and raises an error (changing nothing) if any entry matches none; filtering does the same but silently drops unmatched entries. Filters mean: a type matches instances including subclasses, a callable decides on path and value, `...` matches everything and is accepted only in last position, None matches nothing, a tuple matches if any member does, and the All/Not combinators are conjunction and negation; anything else is rejected with an error.",
  ["inputs"],"every state, every list of (nested) filters",
  "Tests use three or four fixed filter lists on one tree; nested combinators, overlaps, subclass matches and misplaced ellipsis are sampled once or not at all.",
  [F,S],[("first-match split",S+": _split_state"),("filter interpretation",F+": to_predicate")],(),["State.partition","State.filter","Module.partition","Module.filter","Pure.partition","Pure.filter"])
p("C04","Updating a module changes exactly the named paths, later wins",
  "Updating a module from states, another module or a split module sets exactly the node attributes at the given paths (creating missing ones on existing modules) and leaves every other attribute, static value and the sharing structure unchanged; when several states give the same path the last one wins. An update through any path to a shared module is visible through all of them, and a variable keeps its type and metadata; supplying a variable of incompatible type or metadata is an error.",
  ["inputs","histories"],"every module graph, every update given as state, tuple of states, module or split module",
  "Tests update two trees with one state each; precedence, aliasing paths, partial states and incompatible entries are not covered.",
  [M],[("merge of states then set at path",M+": _update_module, _set_value_at_path")],(),["Module.update_state"])
p("C05","Popping state removes and returns exactly the matching entries",
  "Popping with filters removes from the module graph exactly the node attributes that match some filter and returns each, in the state of the first filter it matches, under the same path at which the module's own state would have listed it; everything else (non-matching nodes, static attributes, submodules, sharing) is unchanged. It works on every graph, including shared submodules and cycles, and updating the module with the popped states restores the previous state.",
  ["inputs","histories"],"every module graph, every filter list",
  "Tests pop from one acyclic tree and after one sow; sharing, cycles and agreement of paths with the module's state are never checked.",
  [M],[("recursive removal with visited set",M+": _pop_recursive")],(),["Module.pop_state"])
p("C06","Definitions are equal exactly when module structure is equal",
  "Two module definitions compare equal if and only if the modules they came from have the same structure: same module types, same submodule names and sharing/cycle pattern, and equal static attributes; node values do not matter. Equal definitions have equal hashes, and a definition is a pytree with no leaves that survives flattening and unflattening unchanged.",
  ["inputs"],"every pair of module graphs, including ones differing only in sharing, in one static value or in one type",
  "The tests see definition equality only through one re-jit count; discrimination between near-identical structures (shared vs duplicated child) is never tested.",
  [M],[("structural equality and hash",M+": ModuleDef.__eq__, ModuleDef.__hash__, _moddef_flatten")],(),["ModuleDef.__eq__","hash(ModuleDef)"])
p("C07","Attribute assignment preserves variable kind and never aliases",
  "Reading an attribute that holds a container yields its inner value. Assigning a plain value to it keeps the container's type and metadata and replaces only the value; assigning a container is accepted only when type and metadata match, otherwise an error is raised and the module is unchanged; assigning a container to a fresh attribute stores an independent copy, so two attributes never share one container.",
  ["inputs","histories"],"every sequence of assignments, deletions and reads over every mix of containers, arrays, static values and submodules",
  "Tests cover a few single assignments; multi-step histories (delete then reassign, container onto container, metadata differences) are not explored.",
  [M,C],[("attribute hooks",M+": Module.__getattribute__, Module._setattr"),("compatibility check",C+": Container.replace, Container.is_equivalent")],(),["getattr/setattr/delattr on Module"])
p("C08","Functional calls run the selected method purely on a fresh copy",
  "Calling through a split module, a definition plus states, or a module's functional interface runs exactly the method or submodule selected by any chain of attribute and item accesses, on a fresh copy, with the given arguments. It returns that call's output together with the updated copy (or its split form, or only the output for the output-only interface), equal to what calling the same method directly on a clone would give; the original module, states and definition are not changed.",
  ["inputs","histories"],"every module graph, every access chain of any depth, every method body that reads and writes state",
  "Tests only call the top-level module once through apply; chains of length two or more and isolation from the original are unexercised.",
  [M],[("access-chain recording",M+": DelayedAccessor, CallableProxy"),("clone-run-split",M+": ModuleDef.apply, Pure.apply, Pure.call, Module.apply")],(),["ModuleDef.apply","Pure.apply","Pure.call","Module.apply"])
p("C09","Sown values accumulate in order and never clobber",
  "Sowing a value under a name appends it to a tuple held in a variable of the requested type, in call order, creating the variable on first use; values sown earlier are never lost or reordered until they are popped. Sowing onto an existing attribute that is not a variable of exactly that type holding a tuple raises an error and changes nothing.",
  ["histories","inputs"],"every interleaving of sows, pops, assignments and functional round-trips on shared or distinct modules",
  "Tests sow twice on one module; interleavings with pop, clone, update and wrong-kind attributes over histories are not covered.",
  [M],[("append to tuple variable",M+": Module.sow")],(),["Module.sow"])
p("C10","Graph traversal visits each module once; init flag is scoped",
  "Applying a function to every module of a given type visits each distinct reachable module of that type (including subclasses) exactly once, whatever the sharing or cycles. Running a call in initialising mode makes exactly the modules reachable at the start report that they are initialising during the call, and none of them afterwards, whether the call returns or raises.",
  ["inputs","fault_sequences"],"every module graph, every module type, every method body, normal and exceptional exit",
  "One test visits one shared child; cycles, diamond graphs, exceptions inside init and flag state afterwards are not tested.",
  [M],[("visited-set traversal",M+": Module.for_each, Module._on_all"),("flag set/reset in try/finally",M+": Module.init")],(),["Module.for_each","Module.init","Module.is_initializing"])
p("C11","Operations on split modules agree with those on modules",
  "Filtering, re-partitioning, popping from, updating and merging a split module give the same states and the same rebuilt module as doing the corresponding operation on the module it came from, whether its state is held whole or in several pieces; each returns a new split module and leaves the old one unchanged. In particular an update overrides existing entries with the new values.",
  ["inputs","histories"],"every split module (whole or in pieces), every chain of operations",
  "Tests check only types and lengths of results of each operation in isolation, never the values or agreement with the module.",
  [M],[("split-module operations",M+": Pure.filter, Pure.partition, Pure.pop_state, Pure.update_state, Pure.get_state")],(),["Pure"])
p("C12","State behaves as an immutable sorted mapping with an algebra",
  "A state maps each path to one entry and iterates in sorted path order however it was built; merging states (or using |) gives the union where the later operand wins, subtraction removes exactly the paths present in the other, and none of these operations alters its operands. Flattening and unflattening as a pytree, and mapping a function over its leaves, preserve paths, entry types and metadata.",
  ["inputs"],"every tuple of states, every chain of operations",
  "No test checks merge precedence, subtraction or ordering directly.",
  [S],[("state algebra",S+": State.merge, State.__or__, State.__sub__, _state_flatten_with_keys, _state_unflatten")],(),["State"])
p("C13","Containers keep type and metadata through every operation",
  "Wrapping, copying, replacing fields of, and mapping over a variable or node container preserve its exact type and metadata and produce a new container, never modifying the original; two containers are equal exactly when type, metadata and value are equal. Wrapping a container in another is accepted only for the identical type and metadata (and then unwraps), replacing an unknown field is an error, and static containers contribute no pytree leaves.",
  ["inputs","histories"],"every container type, metadata set and chain of operations",
  "Tests cover four constructions and one tree_map; metadata through replace/copy/with-metadata initialisers is not tested.",
  [C],[("container protocol",C+": Container.replace, Container.copy, Container.is_equivalent, ContainerMetaclass.__call__, NodeBase.__init_subclass__")],(),["Node","Variable","Param","Static","with_metadata"])
p("C14","Modules can be mutated only at the trace level that created them",
  "Setting, deleting, sowing, popping or updating attributes of a module from inside a JAX- or NNX-level trace other than the one in which the module was created raises a trace-level error and leaves the module unchanged; mutation at its own level always succeeds, including after returning from inner traces. A module rebuilt inside a trace belongs to that trace.",
  ["histories","programs"],"every nesting of jit, scan, checkpoint, grad and lifted transforms, every placement of module creation and mutation inside the nesting",
  "Tests check three fixed one-level programs; deeper nestings, mutation after inner traces return, and deletion/pop are never tried.",
  [M,TR],[("trace-state comparison on mutation",M+": Module._setattr"),("trace state capture",TR+": TraceState")],
  [("trace state","(jax trace, nnx trace) at creation",TR+": TraceState")],["nnx.TraceContextError"])
p("C15","RNG contexts work only at their own trace level",
  "Drawing a key from, or splitting, an RNG context from inside a trace other than the one in which the context was created raises a trace-level error and advances nothing; at its own level it always succeeds. A context rebuilt inside a trace from its split form is usable there, including when passed as a context argument to a lifted jit.",
  ["histories","programs"],"every nesting of transforms, every placement of context creation, use, split and rebuild",
  "Tests check three fixed one-level programs; contexts passed through lifted transforms and deeper nestings are untested.",
  [X,TR],[("trace-state comparison on use",X+": Context.make_rng, Context.partition"),("rebuild",X+": ContextDef.merge")],(),["Context.make_rng","Context.partition"])
p("C16","Trace bookkeeping is restored after every transform, even on errors",
  "After any lifted or plain transform finishes, whether it returns or an exception propagates out of it from any depth, the trace level is exactly what it was before: modules and contexts created before it are usable again and ones created inside it are not. This holds for every nesting and independently in every thread.",
  ["fault_sequences","schedules","programs"],"every nesting of transforms, an exception raised at any point, any interleaving of threads",
  "No test raises inside a transform and then continues, and none uses threads.",
  [TR,T],[("push/pop in try/finally, thread-local stack",TR+": nnx_trace, TraceContext")],(),["behaviour of Module/Context mutation after exceptions"])
p("C17","RNG keys are never repeated across draws, streams and forks",
  "Every key drawn from an RNG context differs from every other key drawn from it, from its other streams with different seeds, from any context forked off it at any depth, and from keys drawn by siblings or by the parent after the fork. Sharing a stream between contexts shares its position, so no key is handed out twice.",
  ["histories"],"every interleaving of draws, forks (split and rebuild) and copies to any depth over any number of streams",
  "Tests draw three keys and fork once; the uniqueness claim ranges over all fork trees and draw orders.",
  [X],[("count and fork path folded into the key",X+": Context.make_rng, Context.partition, ContextDef.merge, _stable_hash")],
  [("stream","base key, fork path, draw count",X+": RngStream")],["Context.make_rng"])
p("C18","RNG contexts are reproducible from seed and call history",
  "The keys a context yields are a function only of the seeds and of the sequence of draws and forks performed on that stream: replaying the same history gives the same keys, draws on one stream do not affect another, and rebuilding a context twice from one split form gives two contexts that yield identical sequences. Flags and the set of streams survive splitting and rebuilding; asking for an unknown stream is an error that advances nothing.",
  ["histories","inputs"],"every history of draws, forks, rebuilds over several named streams",
  "Tests compare one key after one rebuild; independence across streams and equality over histories are not covered.",
  [X],[("stream state",X+": Context, ContextDef, context")],(),["nnx.context","Context"])
p("C19","Lifted jit matches running the function eagerly",
  "Calling a function through the lifted jit returns the same output and leaves the module's state exactly as calling the function directly would: every node value assigned and every new variable created inside is propagated to the original objects with type and metadata, nothing else changes, and sharing is respected. With state propagation turned off the module is left untouched; a non-module first argument is rejected.",
  ["inputs","histories","programs"],"every module graph, every function body over its state, every sequence of calls mixing jitted and eager use",
  "Tests jit one assignment of one parameter; functions touching shared modules, creating variables or called repeatedly are not covered.",
  [T],[("split, run, update",T+": JitTransform.__call__")],(),["nnx.jit"])
p("C20","Compiled functions are never stale and never needlessly retraced",
  "Passing modules through jit reuses a compiled function when only node values changed and retraces when anything static changed: a static attribute value, a module type, the attribute set, variable type or metadata, or the sharing structure. The result therefore always reflects the module's current structure.",
  ["histories","inputs"],"every pair and sequence of calls on modules that differ in values or in any single structural aspect",
  "One test checks a single value change and a single added attribute.",
  [M,S,C,T],[("definition and state as pytree metadata",M+": _moddef_flatten, ModuleDef.__eq__"),("container metadata as pytree aux data",C+": NodeBase.__init_subclass__")],(),["jax.jit over Pure","nnx.jit"])
p("C21","Lifted grad differentiates exactly the selected state",
  "The lifted gradient returns one entry for every state entry selected by the filter, under its path, with its container type and metadata, holding the derivative of the loss at the module's current values, and no other entries. State changes made by the loss function are propagated to the module (unless turned off), auxiliary outputs are returned unchanged, and shared parameters receive their total gradient once.",
  ["inputs","programs"],"every module graph, filter, polynomial loss and loss-side state mutation, with and without auxiliary output and state propagation",
  "Tests differentiate a sum of three parameters; shared submodules, state mutation inside the loss, aux output and non-type filters are not covered.",
  [T],[("partition by filter, jax.grad, update",T+": GradTransform")],(),["nnx.grad"])
p("C22","Lifted scan equals applying the layers one after another",
  "Running a scanned module equals a loop that, for each layer in order (or reverse order), runs the body on that layer's slice of every per-layer variable, with broadcast variables shared, carried variables and the carry threaded through, and per-layer inputs and outputs sliced and stacked along their axes. Afterwards per-layer variables hold every layer's final value and carried variables, including ones first created during the loop, the last value, each with type and metadata intact; inconsistent lengths are rejected.",
  ["inputs","programs"],"every split of variables into per-layer (any axis), broadcast and carried, every body, any length, axis choice, direction and unroll factor",
  "Tests check output shapes of three fixed networks; no test compares values with a loop, uses reverse, other axes or creates state inside.",
  [T],[("scan over layers",T+": scan_apply")],(),["nnx.Scan","nnx.scan"])
p("C23","Lifted scan initialisation builds independent per-layer variables",
  "Initialising a scanned module creates every per-layer variable stacked along its declared axis with one slice per layer, each built by the constructor from that layer's share of the split RNG streams (unsplit streams are common to all layers), while broadcast and carried variables keep their unstacked form. Type and metadata are kept, the layer axis name is added to sharding metadata when requested and is absent while a layer runs; missing length is rejected.",
  ["inputs","programs"],"every split of variables and RNG streams, any length, axis and sharding metadata, class and decorator forms",
  "Tests check shapes for length 5 and axis 0 only.",
  [T,SP],[("vmapped construction",T+": scan_init"),("axis metadata",SP+": add_axis, remove_axis")],(),["nnx.Scan","nnx.scan"])
p("C24","Rematerialisation changes nothing observable",
  "A rematerialised module or method returns the same outputs and gradients and leaves the same state and structure as the plain one, for any arguments including static ones, alone or combined with jit and grad. An RNG context passed to it is forked once per call: inside, randomness is drawn from that fork, and the caller's streams advance by exactly that fork.",
  ["inputs","programs"],"every body over module state and RNG context, positional and static arguments, nested in other transforms",
  "Tests check one output shape each.",
  [T],[("checkpoint around split/merge",T+": remat_apply, RematOptions")],(),["nnx.Remat","nnx.remat"])
p("C25","Logical axis names map to mesh axes by rule priority",
  "Translating logical axis names to mesh axes assigns each array dimension the mesh axes of the first rule, in rule order, that names it and whose mesh axes are not already taken by another dimension; a dimension without a usable rule is unsharded, so no mesh axis is ever used twice. The result has one entry per dimension, repeated names are rejected, None stays None, and translating a tree translates each specification independently.",
  ["inputs"],"every list of dimension names and every rule list, including repeated, compound and None rules",
  "One test translates one two-dimensional array with two rules.",
  [SP],[("priority assignment",SP+": _logical_to_mesh_axes, logical_to_mesh_axes, logical_to_mesh")],(),["nnx.logical_to_mesh","logical_to_mesh_axes"])
p("C26","Sharding metadata follows variables and layer axes exactly",
  "The partition specification of a tree has, at each variable, exactly that variable's sharding names (or the unsharded specification for arrays without any), keeping the tree structure, also inside train states and optimiser states. Adding a named layer axis inserts that name at that position of every sharded variable and nothing else, removing it is its exact inverse, and variables without sharding are untouched.",
  ["inputs"],"every tree of sharded and unsharded variables, every axis index and name",
  "Tests check one spec and axis 0 of one layer.",
  [SP,C],[("metadata traversal",SP+": get_partition_spec, add_axis, remove_axis")],(),["nnx.get_partition_spec"])
p("C27","Axis rules are scoped, nested and thread-isolated",
  "Rules installed for a scope are in force exactly inside it, the previous rules return when it ends normally or by exception at any nesting depth, and scopes in one thread never affect another. With no rules in force a logical constraint returns its input unchanged; with rules it constrains to the mapped mesh axes without changing values, and the fallback modes decide what happens to unmatched names. A variable made by an initialiser with logical partitioning keeps its names, and reading it from a module yields the constrained value.",
  ["fault_sequences","schedules","inputs"],"every nesting of scopes, exceptions at any point, any interleaving of threads, every constraint request",
  "No test nests scopes, raises in them or uses threads.",
  [SP],[("thread-local rules with try/finally",SP+": logical_axis_rules, _AxisRules"),("constraint",SP+": with_logical_constraint, _with_sharding_constraint_one_fallback")],(),["nnx.logical_axis_rules","nnx.with_logical_constraint"])
p("C28","Pytree objects are immutable after construction unless declared mutable",
  "After construction a pytree object rejects assignment to any field (unless its class is declared mutable) and always rejects assignment to new fields; during construction any assignment is allowed. Replacing fields returns a new object with exactly those fields changed and container kinds kept, never modifies the original, rejects unknown fields, and the result is again immutable (a dataclass is rebuilt through its constructor, as dataclasses.replace does).",
  ["histories","inputs"],"every sequence of constructions, assignments and replacements on mutable, immutable and dataclass pytrees",
  "Tests try one assignment and one replace per class kind.",
  [PT],[("mutability flags",PT+": Pytree._setattr, _mutable, _initializing, Pytree.replace")],(),["nnx.Pytree"])
p("C29","Pytree flattening is deterministic and loses nothing",
  "Flattening a pytree object yields exactly its node fields' leaves in field-name order, independent of assignment order, each under its field path; rebuilding with the same or mapped leaves gives an object with the same class, static fields and container kinds. Two objects share a tree structure exactly when their class, node fields and static fields agree.",
  ["inputs"],"every set of fields, kinds, nesting and assignment order",
  "Tests check four fixed classes.",
  [PT],[("flatten/unflatten",PT+": Pytree._pytree__flatten, Pytree._pytree__unflatten")],(),["jax.tree_util over Pytree"])
p("C30","Serialising a pytree object and restoring it loses nothing",
  "Exporting a pytree object to a state dictionary lists exactly its node fields (recursively), and restoring that dictionary into an object of the same shape gives back equal node values, structure, container kinds and static fields, without touching the target object. A missing or unknown field is reported as an error. (States are leaves of such a dictionary.)",
  ["inputs","histories"],"every nesting of pytree objects, containers and standard collections; every single-field corruption",
  "One test serialises one two-level object of plain integers.",
  [PT],[("state dict conversion",PT+": Pytree._to_flax_state_dict, Pytree._from_flax_state_dict")],(),["flax.serialization.to_state_dict","flax.serialization.from_state_dict"])
p("C31","Dict and Sequence modules behave as containers and modules",
  "A Dict module behaves as a mapping whose keys are exactly the attributes the user stored, under item and attribute access alike, and a Sequence module as an indexable iterable of its elements in order with the right length, including empty ones; out-of-range and missing keys are errors. Calling a Sequence pipes the output of each element into the next (tuples as positional, dicts as keyword arguments) and hands the RNG context exactly to the elements that accept it.",
  ["inputs","histories"],"every sequence of insertions and lookups, every list of callables with any argument signatures",
  "Tests only construct small instances and read attributes.",
  [H],[("mapping/sequence protocol",H+": Dict, Sequence")],(),["nnx.Dict","nnx.Sequence"])
p("C32","Train state applies gradients functionally and in step",
  "Applying gradients returns a new train state whose parameters and optimiser state are exactly the optimiser's update for those gradients, whose step is one larger, and whose other fields are unchanged unless given; the old train state is unchanged. Applying the model by state names uses exactly the named states, and a train state survives flattening, mapping and being restored from its state dictionary.",
  ["histories","inputs"],"every sequence of gradient applications, field updates and model applications",
  "One test applies one gradient and checks nothing about the result.",
  [H,PT],[("train state",H+": TrainState.apply_gradients, TrainState.apply")],(),["nnx.TrainState"])
p("C33","Normalisation layers use and update the right statistics",
  "A batch normalisation layer normalises with its running statistics when told to and with the batch's own statistics otherwise, and only in the latter case moves the running statistics by the momentum rule; the mode is taken from the call argument, else the layer's setting, else the context flag, else an error. Every feature is normalised, scaled and shifted with its own statistics and parameters, and layer normalisation uses only the current input's statistics.",
  ["histories","inputs"],"every sequence of calls in mixed modes, every combination of settings, axes, scale/bias options",
  "Tests only check shapes; precedence of the three mode sources and statistics over call sequences are untested.",
  ["nnx/nn/normalization.py",M],[("mode precedence",M+": first_from"),("statistics update","nnx/nn/normalization.py: BatchNorm.__call__, _compute_stats, _normalize")],(),["nnx.BatchNorm","nnx.LayerNorm"])
p("C34","Dropout masks, rescales and consumes randomness only when active",
  "An active dropout layer returns, for each element, either zero or the input divided by the keep probability, with one mask shared along broadcast dimensions and a fresh mask per call; when inactive (by call argument, else layer setting, else context flag) or at rate zero it returns the input unchanged, at rate one it returns zeros. It draws exactly one key from its own stream when and only when a random mask is needed, and being active without a context is an error.",
  ["histories","inputs"],"every sequence of calls in mixed modes, rates, broadcast dimensions and streams",
  "No test checks dropout values or RNG consumption.",
  ["nnx/nn/stochastic.py"],[("mask and precedence","nnx/nn/stochastic.py: Dropout.__call__")],(),["nnx.Dropout"])
p("C35","Linear, convolution and embedding layers compute their definition",
  "A linear layer contracts the last input dimension with its kernel and adds the bias; an embedding looks up rows (and attends by inner product) and rejects non-integer inputs; a convolution computes the sum over kernel offsets and input channels of its group with the declared stride, dilations and padding (same, valid, circular, causal or explicit), keeping any number of leading batch dimensions. Parameters have the declared shapes and are drawn from distinct keys, and omitting the bias omits exactly the addition.",
  ["inputs","configurations"],"every shape, stride, dilation, padding mode, group count, bias option and batch rank",
  "No test calls Conv or Embed at all; Linear only through shapes.",
  ["nnx/nn/linear.py"],[("layer definitions","nnx/nn/linear.py: Linear, Conv, Embed, canonicalize_padding")],(),["nnx.Linear","nnx.Conv","nnx.Embed"])
p("C36","Identity survives copies and threads; repr is safe",
  "Every module ever created has an identity distinct from every other live or past one, in any number of threads, and copying an identity never duplicates it, so distinct modules are never confused when split or traversed. Printing any module or state terminates on shared and cyclic graphs, is repeatable, and is unaffected by earlier failed prints or concurrent prints in other threads.",
  ["schedules","inputs","fault_sequences"],"every interleaving of creations and prints across threads, every graph, every failure while printing",
  "One test compares two identifiers; nothing prints a cyclic module, fails while printing or uses threads.",
  ["nnx/ids.py","nnx/reprlib.py",M],[("locked counter","nnx/ids.py: UUIDManager"),("seen-set and indent stack","nnx/reprlib.py: add_indent; "+M+": Module.__nnx_repr__")],(),["repr(Module)","nnx.ids.uuid"])
p("C37","Dataclass field declarations fix each attribute's kind",
  "For dataclass modules and pytrees every field declared as node, static, variable or parameter is wrapped in exactly that container (with its declared type and sharding) when constructed, whether the value came from an argument, a default or a factory, and undeclared fields keep whatever they were given; passing a container of another kind is an error. Inheritance, replacement and splitting keep those kinds; the other options of a declaration (default, init, compare, hash, repr, metadata) and of the decorator (init, frozen, eq, order, unsafe_hash, repr) mean what they mean for a standard dataclass.",
  ["inputs","configurations"],"every set of field declarations, defaults, argument forms and inheritance",
  "Two tests construct one class each.",
  ["nnx/dataclasses.py",M,PT],[("container functions in field metadata","nnx/dataclasses.py: node_field, static_field, var_field, param_field"),("wrapping after construction",M+": ModuleMeta._meta_call")],(),["nnx.dataclass"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
