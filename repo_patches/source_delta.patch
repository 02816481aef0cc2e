From 2e11db3e6e3450bf386723cf97fbec697f3947da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:07 +0000
Subject: [PATCH 01/26] fix: chained accesses on apply/call/init keep the whole
 access path

DelayedAccessor dropped the accessor it was built from, so
moduledef.apply(state).sub.method(x) ran method on the root module.
---
 nnx/module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 6c7b113..e569758 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -54,10 +54,10 @@ class DelayedAccessor:
     return self.accessor(x)
 
   def __getattr__(self, name):
-    return DelayedAccessor(lambda x: getattr(x, name))
+    return DelayedAccessor(lambda x: getattr(self.accessor(x), name))
 
   def __getitem__(self, key):
-    return DelayedAccessor(lambda x: x[key])
+    return DelayedAccessor(lambda x: self.accessor(x)[key])
 
 
 class ApplyCaller(tp.Protocol, tp.Generic[A]):
-- 
2.43.0


From 256f407286b07a115991555fb79d971b7d3385a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:07 +0000
Subject: [PATCH 02/26] fix: Pure.update_state lets the updates override the
 current state

The old state was merged last, so existing paths were never updated.
---
 nnx/module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index e569758..d3a3343 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -354,9 +354,9 @@ class Pure(tp.Tuple[S, ModuleDef[M]]):
       )
 
     if isinstance(self.states, tuple):
-      states += self.states
+      states = self.states + states
     else:
-      states += (self.states,)
+      states = (self.states, *states)
 
     state = State.merge(*states)
     return Pure.new(state, self.moduledef)
-- 
2.43.0


From 2e3524effe24b8684c69c8ae76176decadfb7871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:07 +0000
Subject: [PATCH 03/26] fix: pop_state handles reference cycles and uses the
 state's own paths

Modules were marked visited only after their subtree, so any cycle recursed
forever, and attributes were walked in insertion order, so entries of shared
modules were returned under other paths than get_state/partition use.
---
 nnx/module.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index d3a3343..b19211a 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -904,7 +904,9 @@ def _pop_recursive(
   if module._module__state.id in module_index:
     return
 
-  for name, value in list(vars(module).items()):
+  module_index[module._module__state.id] = len(module_index)
+
+  for name, value in sorted(vars(module).items(), key=lambda x: x[0]):
     if isinstance(value, Module):
       _pop_recursive(value, module_index, (*path_parts, name), states, predicates)
       continue
@@ -918,8 +920,6 @@ def _pop_recursive(
         delattr(module, name)
         break
 
-  module_index[module._module__state.id] = len(module_index)
-
 
 def _update_module(
     module: Module, current_state: State, updates: tp.Union[State, tp.Tuple[State, ...]]
-- 
2.43.0


From 92c14cfc0054f3261866aeff5d239fc8a9f38b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 04/26] fix: deleting module attributes respects the trace
 level

Setting an attribute from another trace level raises TraceContextError, but
deleting one (directly or through pop_state) silently mutated the module.
---
 nnx/module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index b19211a..7935c2d 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -455,6 +455,11 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
     def __setattr__(self, name: str, value: Any) -> None:
       self._setattr(name, value)
 
+    def __delattr__(self, name: str) -> None:
+      if not self._module__state.trace_state.is_valid():
+        raise errors.TraceContextError("Cannot mutate Module from different trace level")
+      object.__delattr__(self, name)
+
   def _setattr(self, name: str, value: Any) -> None:
     if not self._module__state.trace_state.is_valid():
       raise errors.TraceContextError("Cannot mutate Module from different trace level")
-- 
2.43.0


From 62c6bdd5a57e51767377148bf6e6787ed28b4587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 05/26] fix: a Context can be passed through nnx.jit

ContextDef was an unregistered leaf, so jax rejected it as a jit argument, and
the Context was rebuilt before the nnx trace was pushed, so it was never usable
inside the function.
---
 nnx/contextlib.py | 11 +++++++++++
 nnx/transforms.py |  6 +++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/nnx/contextlib.py b/nnx/contextlib.py
index ff07918..1ee4299 100644
--- a/nnx/contextlib.py
+++ b/nnx/contextlib.py
@@ -39,6 +39,17 @@ class ContextDef:
     return Context(rngs=rngs, flags=dict(self._flags))
 
 
+def _contextdef_flatten(contextdef: ContextDef):
+  return (), (contextdef._rng_counts, contextdef._flags)
+
+
+def _contextdef_unflatten(metadata, _) -> ContextDef:
+  return ContextDef(*metadata)
+
+
+jtu.register_pytree_node(ContextDef, _contextdef_flatten, _contextdef_unflatten)
+
+
 class PureContext(tp.Tuple[tp.Dict[str, KeyArray], ContextDef]):
 
   @classmethod
diff --git a/nnx/transforms.py b/nnx/transforms.py
index fe22bed..f22032a 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -42,11 +42,11 @@ class JitTransform(jax.stages.Wrapped):
   ):
     @functools.partial(jax.jit, **jit_kwargs)
     def jitted_fn(pure_module: PureModule[Module], *args, **kwargs):
-      if "ctx" in kwargs and isinstance(kwargs["ctx"], contextlib.PureContext):
-        kwargs["ctx"] = kwargs["ctx"].merge()
-
       nnx_trace = tracers.get_top_trace((args, kwargs))
       with tracers.nnx_trace(nnx_trace):
+        if "ctx" in kwargs and isinstance(kwargs["ctx"], contextlib.PureContext):
+          kwargs["ctx"] = kwargs["ctx"].merge()
+
         module = pure_module.merge()
         out = fun(module, *args, **kwargs)
 
-- 
2.43.0


From 11da85b39d480fef351ecd4be965be62c06dd6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 06/26] fix: an empty Sequence has length 0

It reported length 1 and failed when iterated or called.
---
 nnx/helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index 25187c5..e6d2250 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -49,10 +49,11 @@ class Dict(Module, tp.Mapping[str, A]):
 class Sequence(Module, tp.Generic[A]):
 
   def __init__(self, iterable: tp.Iterable[A]):
-    i = 0
+    length = 0
     for i, value in enumerate(iterable):
       setattr(self, str(i), value)
-    self._length = i + 1
+      length = i + 1
+    self._length = length
 
   def __getitem__(self, key: int) -> A:
     if key >= len(self):
-- 
2.43.0


From b7eea1615c1b30170a6cff507c9ce9f442f6292e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 07/26] fix: Dict lists only the user's keys and raises
 KeyError for missing ones

Iteration and len included the internal module state, and `key in d` or
d.get(key) raised AttributeError for a missing key.
---
 nnx/helpers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index e6d2250..32e2d45 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -14,6 +14,9 @@ M = tp.TypeVar("M", bound=Module)
 
 
 class Dict(Module, tp.Mapping[str, A]):
+  # modules compare by identity, not by content like other mappings
+  __eq__ = Module.__eq__
+  __hash__ = Module.__hash__
 
   @tp.overload
   def __init__(self, __iterable: tp.Iterable[tp.Tuple[str, A]]):
@@ -28,6 +31,8 @@ class Dict(Module, tp.Mapping[str, A]):
       setattr(self, name, value)
 
   def __getitem__(self, key) -> A:
+    if key not in vars(self):
+      raise KeyError(key)
     return getattr(self, key)
 
   def __setitem__(self, key, value):
@@ -40,10 +45,10 @@ class Dict(Module, tp.Mapping[str, A]):
     super().__setattr__(key, value)
 
   def __iter__(self) -> tp.Iterator[str]:
-    return iter(vars(self))
+    return (name for name in vars(self) if not name.startswith("_module__"))
 
   def __len__(self) -> int:
-    return len(vars(self))
+    return sum(1 for _ in self)
 
 
 class Sequence(Module, tp.Generic[A]):
-- 
2.43.0


From 5c9da3ff8cfd551cbe4bb7206cfacc6d944a814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 08/26] fix: MutableLeaf.sharding reads the node's sharding
 metadata

Nodes have no `metadata` attribute, so it always raised AttributeError.
---
 nnx/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/module.py b/nnx/module.py
index 7935c2d..506f394 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -766,7 +766,7 @@ class MutableLeaf(reprlib.Representable):
     if not isinstance(attr, Node):
       return None
 
-    return attr.metadata.get("sharding", None)
+    return getattr(attr, "sharding", None)
 
 
 def _get_module_state(module: Module) -> State:
-- 
2.43.0


From 0e34a3a8f4a586ea594a030b0e233ca6f23fab57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 09/26] fix: invalid filters raise TypeError with a readable
 message

The message used an invalid format specifier, so e.g. an int filter raised
ValueError about the format string instead.
---
 nnx/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/partitioning.py b/nnx/partitioning.py
index 89ed81d..f92a86e 100644
--- a/nnx/partitioning.py
+++ b/nnx/partitioning.py
@@ -32,7 +32,7 @@ def to_predicate(filter: Filter) -> Predicate:
   elif isinstance(filter, tp.Tuple):
     return Any(*filter)
   else:
-    raise TypeError(f"Invalid collection filter: {filter:!r}. ")
+    raise TypeError(f"Invalid collection filter: {filter!r}. ")
 
 
 @dataclasses.dataclass
-- 
2.43.0


From b7cc7ae45ea6b0725d6befb6a48620cb1d901938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 10/26] fix: nnx.jit's lower partitions the module like a call
 does

It passed the Module itself to jax, which always raised TypeError.
---
 nnx/transforms.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index f22032a..6cf0632 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -76,8 +76,13 @@ class JitTransform(jax.stages.Wrapped):
   def __repr__(self):
     return f"JitTransform({self.jitted_fn})"
 
-  def lower(self, *args, **kwargs):
-    return self.jitted_fn.lower(*args, **kwargs)
+  def lower(self, module: tp.Any, *args, **kwargs):
+    if not isinstance(module, Module):
+      raise TypeError(f"Expected Module, got {type(module).__name__}")
+    if "ctx" in kwargs and isinstance(kwargs["ctx"], contextlib.Context):
+      kwargs["ctx"] = kwargs["ctx"].partition()
+
+    return self.jitted_fn.lower(module.partition(), *args, **kwargs)
 
 
 UNSPECIFIED = object()
-- 
2.43.0


From 93bdf4cc9cb6a75f232aa15b409ffd207d7e37f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 11/26] fix: restoring a Pytree rebuilds the structure inside
 its containers

The state dict holds the contents of containers, but they were restored against
the container itself, so e.g. a TrainState's opt_state came back as raw dicts.
---
 nnx/pytreelib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index e33cc14..c347691 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -219,6 +219,7 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
             f" an instance of {type(pytree).__name__},"
             f" at path {serialization.current_path()}"
         )
+      value = getattr(pytree, name)  # unwrap containers, as in _to_flax_state_dict
       value_state = state.pop(name)
       updates[name] = serialization.from_state_dict(value, value_state, name=name)
     if state:
-- 
2.43.0


From 41addb0d4fc454aaf1facb34fa5f5f4394e1607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 12/26] fix: add_axis places a negative layer axis where vmap
 does

---
 nnx/spmd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nnx/spmd.py b/nnx/spmd.py
index 981494c..d03deef 100644
--- a/nnx/spmd.py
+++ b/nnx/spmd.py
@@ -43,9 +43,11 @@ def add_axis(state: State, index: int, params: tp.Mapping[tp.Any, tp.Any]) -> St
         and x.sharding is not None
     ):
       sharding = list(x.sharding)
-      while len(sharding) < index:
+      # a negative index counts from the end of the result
+      position = index if index >= 0 else len(sharding) + 1 + index
+      while len(sharding) < position:
         sharding.append(None)
-      sharding.insert(index, axis_name)
+      sharding.insert(position, axis_name)
       return x.replace(sharding=tuple(sharding))
     return x
 
-- 
2.43.0


From a16edec5c4d6d9082af0366875a1fa3624887f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 13/26] fix: scan keeps broadcast variables created in the loop
 and honours reverse with new state

---
 nnx/transforms.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index 6cf0632..4f594bf 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -577,6 +577,7 @@ def scan_apply(
     broadcast_keys = None
 
   def scan_fn(
+      broadcast_state: State,
       carry: tp.Tuple[State, tp.Any],
       axes: tp.Tuple[
           tp.Optional[tp.Dict[str, jax.Array]], tp.Tuple[State, ...], tp.Any
@@ -611,7 +612,7 @@ def scan_apply(
     )
 
     carry_state_new = carry_state_out - carry_state
-    broadcast_state_new = broadcast_state - broadcast_state_out
+    broadcast_state_new = broadcast_state_out - broadcast_state
 
     # remove new carry state
     carry_state_out = carry_state_out - carry_state_new
@@ -629,7 +630,7 @@ def scan_apply(
     return carry, out
 
   scan_partial = lambda length, unroll: lambda carry, axes: jax.lax.scan(
-      scan_fn,
+      functools.partial(scan_fn, broadcast_state),
       carry,
       axes,
       length=length,
@@ -641,12 +642,14 @@ def scan_apply(
   axes = (axes_keys, axes_states, axes_arg)
 
   abstract_output = jax.eval_shape(scan_partial(length, options.unroll), carry, axes)
-  carry_state_new = abstract_output[1][2]
-  has_new_carry_state = len(jax.tree_util.tree_leaves(carry_state_new)) > 0
-
-  if has_new_carry_state:
-    # run scan for 1 step
-    axes1 = jax.tree_map(lambda x: x[:1], axes)
+  _, broadcast_state_new, carry_state_new, _ = abstract_output[1]
+  has_new_state = len(broadcast_state_new) > 0 or len(carry_state_new) > 0
+
+  if has_new_state:
+    # run scan for 1 step, the last element comes first in reverse order
+    first = slice(-1, None) if options.reverse else slice(None, 1)
+    rest = slice(None, -1) if options.reverse else slice(1, None)
+    axes1 = jax.tree_map(lambda x: x[first], axes)
     carry, scan_out = scan_partial(1, 1)(carry, axes1)
     carry_state, carry_arg = carry
     axes_states1, broadcast_state_new, carry_state_new, out1 = scan_out
@@ -662,21 +665,21 @@ def scan_apply(
     carry = (carry_state, carry_arg)
 
     # run scan for the rest of the steps
-    axes_rest = jax.tree_map(lambda x: x[1:], axes)
+    axes_rest = jax.tree_map(lambda x: x[rest], axes)
     carry, scan_out = scan_partial(length - 1, options.unroll)(carry, axes_rest)
     carry_state, carry_out = carry
-    axes_states_rest, broadcast_state_new, carry_state_new, out_rest = scan_out
+    axes_states_rest, _, _, out_rest = scan_out
 
     # concatenate outputs
     axes_states, out = jax.tree_map(
-        lambda x, y: jnp.concatenate((x, y), axis=0),
+        lambda x, y: jnp.concatenate((y, x) if options.reverse else (x, y), axis=0),
         (axes_states1, out1),
         (axes_states_rest, out_rest),
     )
   else:
     carry, scan_out = scan_partial(length, options.unroll)(carry, axes)
     carry_state, carry_out = carry
-    axes_states, broadcast_state_new, carry_state_new, out = scan_out
+    axes_states, _, _, out = scan_out
 
   # transpose axes state
   axes_states = tuple(
@@ -690,7 +693,7 @@ def scan_apply(
       out,
   )
 
-  module.update_state((*axes_states, carry_state, broadcast_state_new, carry_state_new))
+  module.update_state((*axes_states, broadcast_state, carry_state))
 
   return carry_out, out
 
-- 
2.43.0


From d8179626afcdd8c1460671d650ed10c706cb5a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 14/26] fix: a scanned __init__ can add the layer axis to
 sharding metadata

---
 nnx/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index 4f594bf..b58afef 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -740,6 +740,8 @@ def scan(
         return module
 
       lifted_module = scan_init(options, module_constructor, args, kwargs)
+      # drop what the constructor left behind, its metadata may be out of date
+      module.pop_state(...)
       module.update_state(lifted_module)
 
     wrapper = init_wrapper
-- 
2.43.0


From 5c2c5964f15ec3272ac724f74d067d1e81155990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 15/26] fix: module repr keeps its bookkeeping per thread and
 clears it after failures

---
 nnx/module.py  | 20 ++++++++++++--------
 nnx/reprlib.py |  3 ++-
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 506f394..e785c7d 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -1,4 +1,5 @@
 import dataclasses
+import threading
 import typing as tp
 from abc import ABCMeta
 from functools import partial
@@ -375,7 +376,12 @@ jtu.register_pytree_node(Pure, _pure_module_flatten, _pure_module_unflatten)
 PureModule = Pure[tp.Union[State, tp.Tuple[State, ...]], M]
 
 
-SEEN_MODULES_REPR: tp.Optional[tp.Set[ids.UUID]] = None
+@dataclasses.dataclass
+class ModuleReprContext(threading.local):
+  seen_modules: tp.Optional[tp.Set[ids.UUID]] = None
+
+
+REPR_CONTEXT = ModuleReprContext()
 
 ModuleStateTuple = tuple[bool]
 
@@ -476,20 +482,18 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
     return hash(self._module__state.id)
 
   def __nnx_repr__(self):
-    global SEEN_MODULES_REPR
-
-    if SEEN_MODULES_REPR is None:
-      SEEN_MODULES_REPR = set()
+    if REPR_CONTEXT.seen_modules is None:
+      REPR_CONTEXT.seen_modules = set()
       clear_seen = True
     else:
       clear_seen = False
 
-    if self._module__state.id in SEEN_MODULES_REPR:
+    if self._module__state.id in REPR_CONTEXT.seen_modules:
       yield reprlib.Object(type=type(self), empty_repr="...")
       return
 
     yield reprlib.Object(type=type(self))
-    SEEN_MODULES_REPR.add(self._module__state.id)
+    REPR_CONTEXT.seen_modules.add(self._module__state.id)
 
     try:
       for name, value in vars(self).items():
@@ -499,7 +503,7 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
           yield reprlib.Attr(name, value)
     finally:
       if clear_seen:
-        SEEN_MODULES_REPR = None
+        REPR_CONTEXT.seen_modules = None
 
   @property
   def init(self: M) -> M:
diff --git a/nnx/reprlib.py b/nnx/reprlib.py
index f267941..b46a6f1 100644
--- a/nnx/reprlib.py
+++ b/nnx/reprlib.py
@@ -76,7 +76,8 @@ def get_repr(obj: Representable) -> str:
 
     return f"{get_indent()}{elem.start}{elem.key}{config.value_sep}{value}{elem.end}"
 
-  with add_indent(config.elem_indent):
+  # close the iterator even if a failure keeps it alive through a traceback
+  with contextlib.closing(iterator), add_indent(config.elem_indent):
     elems = list(map(_repr_elem, iterator))
   elems = ",\n".join(elems)
 
-- 
2.43.0


From 1ebc4304b2c384364e63c4dd6d9be5631ed7897f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 16/26] fix: copied modules get their own identity and trace
 level

---
 nnx/module.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index e785c7d..51e23f4 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -1,3 +1,4 @@
+import copy
 import dataclasses
 import threading
 import typing as tp
@@ -409,6 +410,14 @@ class ModuleState(reprlib.Representable):
   def from_tuple(cls, tup: ModuleStateTuple) -> "ModuleState":
     return cls(*tup)
 
+  def __copy__(self) -> "ModuleState":
+    # a copy is a new module: it gets its own id at the current trace level
+    return ModuleState.from_tuple(self.to_tuple())
+
+  def __deepcopy__(self, memo) -> "ModuleState":
+    del memo
+    return self.__copy__()
+
   def __nnx_repr__(self):
     yield reprlib.Object(type(self))
     yield reprlib.Attr("trace_state", self._trace_state)
@@ -481,6 +490,12 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
   def __hash__(self) -> int:
     return hash(self._module__state.id)
 
+  def __copy__(self: M) -> M:
+    module = object.__new__(type(self))
+    vars(module).update(vars(self))
+    vars(module)["_module__state"] = copy.copy(self._module__state)
+    return module
+
   def __nnx_repr__(self):
     if REPR_CONTEXT.seen_modules is None:
       REPR_CONTEXT.seen_modules = set()
-- 
2.43.0


From 9d7b8f06e4a91afe788f36a06352898fe65efaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 17/26] fix: Sequence does not write the context into an
 element's output

---
 nnx/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index 32e2d45..abbc92e 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -84,7 +84,7 @@ class Sequence(Module, tp.Generic[A]):
           kwargs = {}
         elif isinstance(output, tp.Dict):
           args = ()
-          kwargs = output
+          kwargs = dict(output)
         else:
           args = (output,)
           kwargs = {}
-- 
2.43.0


From 1bd805f3cd0ba7efce13294354ee5e9b2723f1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 18/26] fix: replacing fields of a dataclass pytree keeps
 container kinds

---
 nnx/pytreelib.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index c347691..2a79227 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -239,6 +239,16 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
     type as the original object.
     """
     if dataclasses.is_dataclass(self):
+      # the constructor wraps declared fields, keep the containers of the others
+      for field in dataclasses.fields(self):
+        container = vars(self).get(field.name)
+        if (
+            field.init
+            and "nnx_container_fn" not in field.metadata
+            and isinstance(container, containers.Container)
+        ):
+          value = kwargs.get(field.name, container)
+          kwargs[field.name] = container.replace(value=value)
       return dataclasses.replace(self, **kwargs)
 
     unknown_keys = set(kwargs) - set(vars(self))
-- 
2.43.0


From 1f42f4dc2e6a3ff72ae9b5a56e91096f5b9b8810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 19/26] fix: Pure.pop_state accepts `...` like Module.pop_state

---
 nnx/module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nnx/module.py b/nnx/module.py
index 51e23f4..57bf39a 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -320,7 +320,9 @@ class Pure(tp.Tuple[S, ModuleDef[M]]):
     filters = (filter, *filters)
 
     state = self.get_state()
-    *states, rest = state.partition(*filters, ...)
+    # as predicates, so that `...` is accepted as in Module.pop_state
+    predicates = map(partitioning.to_predicate, filters)
+    *states, rest = state.partition(*predicates, ...)
 
     if len(states) == 1:
       states = states[0]
-- 
2.43.0


From 02db0ec57c99719b0606debaa40ee504c10c38a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 20/26] fix: init unmarks the modules it marked even if the
 call replaced them

---
 nnx/module.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 57bf39a..29ea87e 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -527,15 +527,18 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
     accessor = DelayedAccessor()
 
     def _init(accessor, *args, **kwargs):
-      def _set_is_initializing(module: Module, value: bool):
-        module._module__state.is_initializing = value
+      # the call may replace submodules, so remember which ones were marked
+      modules: tp.List[Module] = []
+      self.for_each(Module, modules.append)
 
-      self.for_each(Module, partial(_set_is_initializing, value=True))
+      for module in modules:
+        module._module__state.is_initializing = True
 
       try:
         return accessor(self)(*args, **kwargs)
       finally:
-        self.for_each(Module, partial(_set_is_initializing, value=False))
+        for module in modules:
+          module._module__state.is_initializing = False
 
     return CallableProxy(_init, accessor)  # type: ignore
 
-- 
2.43.0


From 2bc492ead7d3dc6b38e8f7771ed1c1c4ffba8218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 21/26] fix: nested transforms keep their own settings

---
 nnx/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index b58afef..b6cd1a1 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -133,7 +133,7 @@ def jit(
       stateful,
       **jit_kwargs,
   )
-  ref_jit = functools.wraps(fun)(ref_jit)
+  ref_jit = functools.wraps(fun, updated=())(ref_jit)
   # _update_decorator_fields(ref_jit, fun)
   return ref_jit
 
@@ -255,7 +255,7 @@ def grad(
       allow_int=allow_int,
       reduce_axes=reduce_axes,
   )
-  ref_grad = functools.wraps(fun)(ref_grad)
+  ref_grad = functools.wraps(fun, updated=())(ref_grad)
   # _update_decorator_fields(ref_grad, fun)
   return ref_grad
 
-- 
2.43.0


From da9b15d4a241ed1bac7dcabe9b16951b55c4fdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:54 +0000
Subject: [PATCH 22/26] fix: restoring a dataclass pytree does not need every
 node field in its constructor

---
 nnx/pytreelib.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index 2a79227..a0b5d79 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -229,7 +229,12 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
           f" restoring an instance of {type(pytree).__name__}"
           f" at path {serialization.current_path()}"
       )
-    return pytree.replace(**updates)
+    # not every node field of a dataclass can be passed to `replace`
+    pytree = copy(pytree)
+    with _mutable(pytree):
+      for name, value in updates.items():
+        pytree._setattr(name, value)
+    return pytree
 
   def replace(self: P, **kwargs: tp.Any) -> P:
     """
-- 
2.43.0


From d573baf9b1df9831703f1fdf6b6b19a122e2ba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 23/26] fix: declared dataclass fields with init=False can take
 their default

---
 nnx/module.py    | 7 ++++++-
 nnx/pytreelib.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 29ea87e..6bdddc8 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -443,7 +443,12 @@ class ModuleMeta(ABCMeta):
           continue
 
         container_fn = field.metadata["nnx_container_fn"]
-        value = vars(module)[field.name]
+        if field.name in vars(module):
+          value = vars(module)[field.name]
+        elif field.default is not dataclasses.MISSING:
+          value = field.default  # fields with init=False keep it on the class
+        else:
+          raise AttributeError(f"Field '{field.name}' was not set")
         value = container_fn(value)
         vars(module)[field.name] = value
 
diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index a0b5d79..ab77dc5 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -58,7 +58,12 @@ class PytreeMeta(ABCMeta):
           continue
 
         container_fn = field.metadata["nnx_container_fn"]
-        value = vars(obj)[field.name]
+        if field.name in vars(obj):
+          value = vars(obj)[field.name]
+        elif field.default is not dataclasses.MISSING:
+          value = field.default  # fields with init=False keep it on the class
+        else:
+          raise AttributeError(f"Field '{field.name}' was not set")
         value = container_fn(value)
         vars(obj)[field.name] = value
 
-- 
2.43.0


From 7707598de803831d225ebd53fa080c4675259227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:49 +0000
Subject: [PATCH 24/26] fix: Dict lookup does not expose the internal module
 state as a key

---
 nnx/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index abbc92e..e190c15 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -31,7 +31,7 @@ class Dict(Module, tp.Mapping[str, A]):
       setattr(self, name, value)
 
   def __getitem__(self, key) -> A:
-    if key not in vars(self):
+    if key not in vars(self) or key.startswith("_module__"):
       raise KeyError(key)
     return getattr(self, key)
 
-- 
2.43.0


From 6538d7cf52a840080aabc5ece0f22ee134108c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:02 +0000
Subject: [PATCH 25/26] fix: layer normalisation over every axis can share its
 statistics over a named axis

---
 nnx/nn/normalization.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/nnx/nn/normalization.py b/nnx/nn/normalization.py
index 16256c2..0d1921b 100644
--- a/nnx/nn/normalization.py
+++ b/nnx/nn/normalization.py
@@ -79,14 +79,11 @@ def _compute_stats(
     mean = jnp.zeros(mean2.shape, dtype=dtype)
 
   if axis_name is not None:
-    concatenated_mean = jnp.concatenate([mean, mean2])
-    mean, mean2 = jnp.split(
-        lax.pmean(
-            concatenated_mean,
-            axis_name=axis_name,
-            axis_index_groups=axis_index_groups,
-        ),
-        2,
+    # stacked as the statistics are scalars when every axis is reduced
+    mean, mean2 = lax.pmean(
+        jnp.stack([mean, mean2]),
+        axis_name=axis_name,
+        axis_index_groups=axis_index_groups,
     )
   # mean2 - _abs_sq(mean) is not guaranteed to be non-negative due
   # to floating point round-off errors.
-- 
2.43.0


From 5f21f2b73383c7bc699fafbb5ec64b15f3f0d8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:13 +0000
Subject: [PATCH 26/26] fix: a pickled module is restored as a new module, with
 its own id and trace state

---
 nnx/ids.py    | 8 ++++++++
 nnx/module.py | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/nnx/ids.py b/nnx/ids.py
index 7b14b93..5b7fa07 100644
--- a/nnx/ids.py
+++ b/nnx/ids.py
@@ -63,3 +63,11 @@ class UUID:
 
   def __copy__(self):
     return uuid()
+
+  def __reduce__(self):
+    return _new_uuid, ()
+
+
+def _new_uuid() -> UUID:
+  """Unpickled ids are new ids, like copies."""
+  return uuid()
diff --git a/nnx/module.py b/nnx/module.py
index 6bdddc8..96b8613 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -420,6 +420,10 @@ class ModuleState(reprlib.Representable):
     del memo
     return self.__copy__()
 
+  def __reduce__(self):
+    # an unpickled module is a new module too
+    return ModuleState.from_tuple, (self.to_tuple(),)
+
   def __nnx_repr__(self):
     yield reprlib.Object(type(self))
     yield reprlib.Attr("trace_state", self._trace_state)
-- 
2.43.0

