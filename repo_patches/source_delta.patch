From 3a35871e1485c8d017c4f23b9d308ac3b96a3e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 01/17] fix: shut the worker pool down when starting its
 threads fails or is interrupted

---
 .../_execution/run_function_on_graph.py       | 43 +++++++++++--------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/uberjob/_execution/run_function_on_graph.py b/src/uberjob/_execution/run_function_on_graph.py
index 153dc26..083d3a8 100644
--- a/src/uberjob/_execution/run_function_on_graph.py
+++ b/src/uberjob/_execution/run_function_on_graph.py
@@ -16,6 +16,7 @@
 """Functionality for running a function on a graph in parallel in topological order using a thread pool"""
 import os
 import threading
+import time
 from contextlib import contextmanager
 from typing import NamedTuple
 
@@ -44,12 +45,6 @@ def coerce_max_errors(max_errors):
     return max_errors
 
 
-def thread(fn):
-    t = threading.Thread(target=fn)
-    t.start()
-    return t
-
-
 DONE = object()
 
 
@@ -64,19 +59,34 @@ def worker_thread(queue, process_item):
             finally:
                 queue.task_done()
 
-    return thread(process_items)
+    return threading.Thread(target=process_items)
+
+
+def join_worker(worker):
+    # If starting the worker was interrupted, then it may still be coming up.
+    while not worker.is_alive() and worker in threading.enumerate():
+        time.sleep(0.001)
+    if worker.is_alive():
+        worker.join()
 
 
 @contextmanager
-def worker_pool(queue, process_item, worker_count):
+def worker_pool(queue, process_item, worker_count, stop_processing):
     workers = []
     try:
         for _ in range(worker_count):
-            workers.append(worker_thread(queue, process_item))
+            worker = worker_thread(queue, process_item)
+            workers.append(worker)
+            worker.start()
         yield
     finally:
+        # This must happen even if starting the workers fails or is interrupted,
+        # since the workers that did start only exit once they receive DONE.
+        stop_processing()
+        for _ in workers:
+            queue.put(DONE)
         for worker in workers:
-            worker.join()
+            join_worker(worker)
 
 
 class PreparedNodes(NamedTuple):
@@ -154,13 +164,12 @@ def run_function_on_graph(
                         if remaining_pred_count_mapping[successor] == 0:
                             queue.put(successor)
 
-    with worker_pool(queue, process_node, worker_count):
-        try:
-            queue.join()
-        finally:
-            stop = True
-            for _ in range(worker_count):
-                queue.put(DONE)
+    def stop_processing():
+        nonlocal stop
+        stop = True
+
+    with worker_pool(queue, process_node, worker_count, stop_processing):
+        queue.join()
 
     if first_node_error:
         raise first_node_error
-- 
2.43.0


From f92f5652373885143f0761d768aa5445d0c697b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 02/17] fix: do not prune away a dependency cycle that consists
 of literals

---
 src/uberjob/_transformations/pruning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/uberjob/_transformations/pruning.py b/src/uberjob/_transformations/pruning.py
index c4a20f5..f28d002 100644
--- a/src/uberjob/_transformations/pruning.py
+++ b/src/uberjob/_transformations/pruning.py
@@ -60,6 +60,10 @@ def _prune_literal_if_trivial(plan: Plan, literal: Literal) -> None:
     predecessors = list(plan.graph.predecessors(literal))
     successors = list(plan.graph.successors(literal))
 
+    if literal in predecessors:
+        # Keep the cycle so that it gets reported.
+        return
+
     m = len(predecessors)
     n = len(successors)
 
-- 
2.43.0


From 9b49b7ce27f81322db59aec1ed92291bc557ff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 03/17] fix: report a failed modified-time query of a stored
 literal as a CallError at the line that created the literal

---
 src/uberjob/_plan.py                    | 11 +++++++----
 src/uberjob/_transformations/caching.py | 17 +++++++++++++++--
 src/uberjob/graph.py                    |  6 ++++--
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/uberjob/_plan.py b/src/uberjob/_plan.py
index dca52ac..4f3dd68 100644
--- a/src/uberjob/_plan.py
+++ b/src/uberjob/_plan.py
@@ -78,6 +78,11 @@ class Plan:
         validation.assert_can_bind(fn, *args, **kwargs)
         return self._call(get_stack_frame(), fn, *args, **kwargs)
 
+    def _lit(self, stack_frame, value) -> Literal:
+        literal = Literal(value, scope=self._scope, stack_frame=stack_frame)
+        self.graph.add_node(literal)
+        return literal
+
     def lit(self, value) -> Literal:
         """
         Add a literal value to this :class:`~uberjob.Plan`.
@@ -87,9 +92,7 @@ class Plan:
         """
         if isinstance(value, Node):
             raise TypeError(f"The value is already a {Node.__name__}.")
-        literal = Literal(value, scope=self._scope)
-        self.graph.add_node(literal)
-        return literal
+        return self._lit(get_stack_frame(), value)
 
     def add_dependency(self, source: Node, target: Node) -> None:
         """
@@ -118,7 +121,7 @@ class Plan:
             return root
 
         value = recurse(value)
-        return value if isinstance(value, Node) else self.lit(value)
+        return value if isinstance(value, Node) else self._lit(stack_frame, value)
 
     def gather(self, value) -> Node:
         """
diff --git a/src/uberjob/_transformations/caching.py b/src/uberjob/_transformations/caching.py
index c5b4110..93e6217 100644
--- a/src/uberjob/_transformations/caching.py
+++ b/src/uberjob/_transformations/caching.py
@@ -24,7 +24,7 @@ from uberjob._registry import Registry, RegistryValue
 from uberjob._transformations import get_mutable_plan
 from uberjob._transformations.pruning import prune_plan, prune_source_literals
 from uberjob._util import Slot, fully_qualified_name, safe_max
-from uberjob.graph import Call, Dependency, KeywordArg, Node, PositionalArg
+from uberjob.graph import Call, Dependency, KeywordArg, Literal, Node, PositionalArg
 from uberjob.progress._progress_observer import ProgressObserver
 
 
@@ -54,6 +54,14 @@ def _get_stale_scope(call: Call, registry: Registry) -> tuple:
     return (*scope, fully_qualified_name(value_store.__class__))
 
 
+def _get_modified_time_call(literal: Literal, registry: Registry) -> Call:
+    return Call(
+        registry[literal].__class__.get_modified_time,
+        scope=literal.scope,
+        stack_frame=literal.stack_frame,
+    )
+
+
 def _get_stale_nodes(
     plan: Plan,
     registry: Registry,
@@ -121,7 +129,12 @@ def _get_stale_nodes(
                 raise NodeError(node) from exception
             progress_observer.increment_completed(section="stale", scope=scope)
         else:
-            process(node)
+            try:
+                process(node)
+            except BaseException as exception:
+                raise NodeError(
+                    _get_modified_time_call(node, registry)
+                ) from exception
 
     run_function_on_graph(
         plan.graph, process_with_callbacks, worker_count=max_workers, scheduler="cheap"
diff --git a/src/uberjob/graph.py b/src/uberjob/graph.py
index 5577d72..d15920f 100644
--- a/src/uberjob/graph.py
+++ b/src/uberjob/graph.py
@@ -42,12 +42,14 @@ class Literal(Node):
     A symbolic literal value.
 
     :param value: The value of the literal.
+    :param stack_frame: The stack frame where the literal was created.
     """
 
-    __slots__ = ("value",)
+    __slots__ = ("value", "stack_frame")
 
-    def __init__(self, value, *, scope=()):
+    def __init__(self, value, *, scope=(), stack_frame=None):
         self.value = value
+        self.stack_frame = stack_frame
         super().__init__(scope=scope)
 
     def __repr__(self):
-- 
2.43.0


From 2da4594b731961fbb9a720cd4a3dffcda7627ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:54 +0000
Subject: [PATCH 04/17] fix: attribute the calls that gather run's output to
 the line that called run

---
 src/uberjob/_run.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uberjob/_run.py b/src/uberjob/_run.py
index 3b6418d..7845abf 100644
--- a/src/uberjob/_run.py
+++ b/src/uberjob/_run.py
@@ -27,6 +27,7 @@ from uberjob._transformations import get_mutable_plan
 from uberjob._transformations.caching import plan_with_value_stores
 from uberjob._transformations.pruning import prune_plan
 from uberjob._util.retry import create_retry
+from uberjob._util.traceback import get_stack_frame
 from uberjob._util.validation import assert_is_callable, assert_is_instance
 from uberjob.graph import Call, Node
 from uberjob.progress import (
@@ -141,7 +142,9 @@ def run(
 
     plan = get_mutable_plan(plan, inplace=False)
 
-    output_node = plan.gather(output) if output is not None else None
+    output_node = (
+        plan._gather(get_stack_frame(), output) if output is not None else None
+    )
     redirected_output_node = output_node
 
     progress = _coerce_progress(progress)
-- 
2.43.0


From af0ce6bc6079401c81f5986149cdf2c0e7a42856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:21 +0000
Subject: [PATCH 05/17] fix: allow calls with keyword arguments named fn, self
 and stack_frame

---
 src/uberjob/_plan.py            | 2 +-
 src/uberjob/_util/validation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/_plan.py b/src/uberjob/_plan.py
index 4f3dd68..46e63a9 100644
--- a/src/uberjob/_plan.py
+++ b/src/uberjob/_plan.py
@@ -49,7 +49,7 @@ class Plan:
         self._scope = ()
         self._scope_lock = RLock()
 
-    def _call(self, stack_frame, fn: Callable, *args, **kwargs) -> Call:
+    def _call(self, stack_frame, fn: Callable, /, *args, **kwargs) -> Call:
         call = Call(fn, scope=self._scope, stack_frame=stack_frame)
         self.graph.add_node(call)
         for index, arg in enumerate(args):
diff --git a/src/uberjob/_util/validation.py b/src/uberjob/_util/validation.py
index baf40e1..2f4b8a9 100644
--- a/src/uberjob/_util/validation.py
+++ b/src/uberjob/_util/validation.py
@@ -64,7 +64,7 @@ def try_get_signature(fn: Callable):
         return None
 
 
-def assert_can_bind(fn: Callable, *args, **kwargs):
+def assert_can_bind(fn: Callable, /, *args, **kwargs):
     sig = try_get_signature(fn)
     if sig is None:
         return
-- 
2.43.0


From 47ec5b7a9da174f2223398fde97879f97cc541c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 06/17] fix: remove the staging file when renaming it onto the
 target fails

---
 src/uberjob/stores/_file_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uberjob/stores/_file_store.py b/src/uberjob/stores/_file_store.py
index 1d84783..90b000c 100644
--- a/src/uberjob/stores/_file_store.py
+++ b/src/uberjob/stores/_file_store.py
@@ -64,10 +64,10 @@ def staged_write_path(
         staging_path = pathlib.Path(staging_path)
     try:
         yield staging_path
+        os.replace(staging_path, path)
     except BaseException:
         _try_remove(staging_path)
         raise
-    os.replace(staging_path, path)
 
 
 @contextmanager
-- 
2.43.0


From 48b3db9399582ee6160d7bf08c5e65eba8bbdbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 07/17] fix: keep carriage returns in the values of
 TextFileStore

---
 src/uberjob/stores/_text_file_store.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/stores/_text_file_store.py b/src/uberjob/stores/_text_file_store.py
index 5ccec2a..45f9616 100644
--- a/src/uberjob/stores/_text_file_store.py
+++ b/src/uberjob/stores/_text_file_store.py
@@ -35,7 +35,7 @@ class TextFileStore(FileStore):
 
     def read(self) -> str:
         """Read the string value from the file."""
-        with open(self.path, encoding=self.encoding) as inputfile:
+        with open(self.path, encoding=self.encoding, newline="") as inputfile:
             return inputfile.read()
 
     def write(self, value: str) -> None:
@@ -44,7 +44,9 @@ class TextFileStore(FileStore):
 
         :param value: The value.
         """
-        with staged_write(self.path, encoding=self.encoding) as outputfile:
+        with staged_write(
+            self.path, encoding=self.encoding, newline=""
+        ) as outputfile:
             outputfile.write(value)
 
     def __repr__(self):
-- 
2.43.0


From 800d33504799e4b9531f4eb3c9e99ac96a4d1c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 08/17] fix: treat naive modified times and fresh_time as local
 time when comparing them

---
 src/uberjob/_transformations/caching.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/uberjob/_transformations/caching.py b/src/uberjob/_transformations/caching.py
index 93e6217..f7218fa 100644
--- a/src/uberjob/_transformations/caching.py
+++ b/src/uberjob/_transformations/caching.py
@@ -39,11 +39,14 @@ Barrier = BarrierType()
 
 
 def _to_naive_utc_time(value: dt.datetime | None) -> dt.datetime | None:
-    return (
-        value.astimezone(dt.timezone.utc).replace(tzinfo=None)
-        if value and value.tzinfo
-        else value
-    )
+    if value is None:
+        return None
+    try:
+        value = value.astimezone(dt.timezone.utc)
+    except (OverflowError, ValueError):
+        # It is too close to datetime.min or datetime.max to be converted.
+        pass
+    return value.replace(tzinfo=None)
 
 
 def _get_stale_scope(call: Call, registry: Registry) -> tuple:
-- 
2.43.0


From a14fabd34874f7d22229b46d21412164d1381365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 09/17] fix: render progress when scope values cannot be
 ordered

---
 src/uberjob/progress/_simple_progress_observer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/uberjob/progress/_simple_progress_observer.py b/src/uberjob/progress/_simple_progress_observer.py
index 6f1820e..6c97c7f 100644
--- a/src/uberjob/progress/_simple_progress_observer.py
+++ b/src/uberjob/progress/_simple_progress_observer.py
@@ -25,7 +25,15 @@ def _universal_sort_key(*args):
 
 
 def sorted_scope_items(scope_dict):
-    return sorted(scope_dict.items(), key=lambda pair: _universal_sort_key(*pair[0]))
+    try:
+        return sorted(
+            scope_dict.items(), key=lambda pair: _universal_sort_key(*pair[0])
+        )
+    except Exception:
+        # Scope values are only required to be hashable and equatable.
+        return sorted(
+            scope_dict.items(), key=lambda pair: _universal_sort_key(*map(str, pair[0]))
+        )
 
 
 def get_scope_string(scope, *, add_zero_width_spaces=False):
-- 
2.43.0


From beb62f2540ff1b2d8ee501ce081effebd442d9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 10/17] fix: render progress that cannot be encoded, such as
 lone surrogates in scopes

---
 src/uberjob/progress/_console_progress_observer.py | 8 +++++++-
 src/uberjob/progress/_html_progress_observer.py    | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/progress/_console_progress_observer.py b/src/uberjob/progress/_console_progress_observer.py
index b9ee3dc..40c4790 100644
--- a/src/uberjob/progress/_console_progress_observer.py
+++ b/src/uberjob/progress/_console_progress_observer.py
@@ -14,6 +14,7 @@
 # limitations under the License.
 #
 import datetime as dt
+import sys
 import textwrap
 import traceback
 from functools import partial
@@ -109,4 +110,9 @@ class ConsoleProgressObserver(SimpleProgressObserver):
             return buffer.getvalue()
 
     def _output(self, value):
-        print(value, end="", flush=True)
+        try:
+            print(value, end="", flush=True)
+        except UnicodeEncodeError:
+            encoding = sys.stdout.encoding
+            value = value.encode(encoding, errors="backslashreplace").decode(encoding)
+            print(value, end="", flush=True)
diff --git a/src/uberjob/progress/_html_progress_observer.py b/src/uberjob/progress/_html_progress_observer.py
index 6748bff..fc057cd 100644
--- a/src/uberjob/progress/_html_progress_observer.py
+++ b/src/uberjob/progress/_html_progress_observer.py
@@ -230,7 +230,9 @@ class HtmlProgressObserver(SimpleProgressObserver):
         self._output_fn = output
 
     def _render(self, state, new_exception_index, exception_tuples, elapsed):
-        return _render_html(state, exception_tuples, elapsed).encode()
+        return _render_html(state, exception_tuples, elapsed).encode(
+            errors="backslashreplace"
+        )
 
     def _output(self, value):
         self._output_fn(value)
-- 
2.43.0


From 429eeea0236ddaaa662498015c329225a734963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:42 +0000
Subject: [PATCH 11/17] fix: handle the same exception being raised by several
 calls at once

---
 src/uberjob/_execution/run_physical.py  |  3 ++-
 src/uberjob/_transformations/caching.py |  5 ++---
 src/uberjob/_util/traceback.py          | 13 +++++++++++++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/uberjob/_execution/run_physical.py b/src/uberjob/_execution/run_physical.py
index 3294665..03cca81 100644
--- a/src/uberjob/_execution/run_physical.py
+++ b/src/uberjob/_execution/run_physical.py
@@ -24,6 +24,7 @@ from uberjob._plan import Plan
 from uberjob._transformations.pruning import prune_source_literals
 from uberjob._util import Slot
 from uberjob._util.retry import identity
+from uberjob._util.traceback import drop_outer_frames
 from uberjob.graph import Call, Graph, Literal, Node, get_argument_nodes
 from uberjob.progress._null_progress_observer import NullProgressObserver
 from uberjob.progress._progress_observer import ProgressObserver
@@ -102,7 +103,7 @@ def prep_run_physical(
                 bound_call.value.run(node.fn, retry)
             except Exception as exception:
                 # Drop internal frames
-                exception.__traceback__ = exception.__traceback__.tb_next.tb_next
+                drop_outer_frames(exception, 2)
                 progress_observer.increment_failed(
                     section="run",
                     scope=scope,
diff --git a/src/uberjob/_transformations/caching.py b/src/uberjob/_transformations/caching.py
index f7218fa..02aa75f 100644
--- a/src/uberjob/_transformations/caching.py
+++ b/src/uberjob/_transformations/caching.py
@@ -24,6 +24,7 @@ from uberjob._registry import Registry, RegistryValue
 from uberjob._transformations import get_mutable_plan
 from uberjob._transformations.pruning import prune_plan, prune_source_literals
 from uberjob._util import Slot, fully_qualified_name, safe_max
+from uberjob._util.traceback import drop_outer_frames
 from uberjob.graph import Call, Dependency, KeywordArg, Literal, Node, PositionalArg
 from uberjob.progress._progress_observer import ProgressObserver
 
@@ -121,9 +122,7 @@ def _get_stale_nodes(
                 process(node)
             except Exception as exception:
                 # Drop internal frames
-                exception.__traceback__ = (
-                    exception.__traceback__.tb_next.tb_next.tb_next
-                )
+                drop_outer_frames(exception, 3)
                 progress_observer.increment_failed(
                     section="stale",
                     scope=scope,
diff --git a/src/uberjob/_util/traceback.py b/src/uberjob/_util/traceback.py
index 9c7d641..169292b 100644
--- a/src/uberjob/_util/traceback.py
+++ b/src/uberjob/_util/traceback.py
@@ -86,6 +86,19 @@ def get_stack_frame(initial_depth=2):
     return recurse(initial_frame, MAX_TRACEBACK_DEPTH)
 
 
+def drop_outer_frames(exception, count):
+    """
+    Drop up to the given number of outermost frames from the exception's traceback.
+
+    There may be fewer when other threads are raising the same exception.
+    """
+    traceback = exception.__traceback__
+    while traceback is not None and count > 0:
+        traceback = traceback.tb_next
+        count -= 1
+    exception.__traceback__ = traceback
+
+
 def render_symbolic_traceback(stack_frame):
     stack_frames = []
     while stack_frame:
-- 
2.43.0


From 10795708441ab63811b0a19bb6a179b8cad996c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:00 +0000
Subject: [PATCH 12/17] fix: allow calls to unhashable callables

---
 src/uberjob/_util/__init__.py   | 23 +++++++++++++++++++++--
 src/uberjob/_util/validation.py |  5 ++---
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/uberjob/_util/__init__.py b/src/uberjob/_util/__init__.py
index c432564..a27a3ef 100644
--- a/src/uberjob/_util/__init__.py
+++ b/src/uberjob/_util/__init__.py
@@ -13,7 +13,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 #
-from functools import lru_cache
+from functools import lru_cache, wraps
 from reprlib import Repr
 
 
@@ -87,7 +87,26 @@ def repr_helper(instance, *args, defaults=None, **kwargs):
     )
 
 
-@lru_cache(4096)
+def lru_cache_if_hashable(maxsize):
+    """Like lru_cache, but calls with an unhashable argument are allowed and are not cached."""
+
+    def decorator(fn):
+        cached_fn = lru_cache(maxsize)(fn)
+
+        @wraps(fn)
+        def wrapper(arg):
+            try:
+                hash(arg)
+            except TypeError:
+                return fn(arg)
+            return cached_fn(arg)
+
+        return wrapper
+
+    return decorator
+
+
+@lru_cache_if_hashable(4096)
 def fully_qualified_name(x):
     qualname = getattr(x, "__qualname__", None)
     if not qualname:
diff --git a/src/uberjob/_util/validation.py b/src/uberjob/_util/validation.py
index 2f4b8a9..855d840 100644
--- a/src/uberjob/_util/validation.py
+++ b/src/uberjob/_util/validation.py
@@ -15,9 +15,8 @@
 #
 import inspect
 from collections.abc import Callable
-from functools import lru_cache
 
-from uberjob._util import fully_qualified_name
+from uberjob._util import fully_qualified_name, lru_cache_if_hashable
 
 
 def assert_is_callable(argument_value, parameter_name, *, optional=False):
@@ -56,7 +55,7 @@ def assert_is_instance(
         )
 
 
-@lru_cache(4096)
+@lru_cache_if_hashable(4096)
 def try_get_signature(fn: Callable):
     try:
         return inspect.signature(fn)
-- 
2.43.0


From 8613e384fa00d596763d3a79afc4c145c294d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:32 +0000
Subject: [PATCH 13/17] fix: discard a staging file left by a killed process
 before writing a new one

---
 src/uberjob/stores/_file_store.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/uberjob/stores/_file_store.py b/src/uberjob/stores/_file_store.py
index 90b000c..7b398ac 100644
--- a/src/uberjob/stores/_file_store.py
+++ b/src/uberjob/stores/_file_store.py
@@ -62,6 +62,10 @@ def staged_write_path(
     staging_path = f"{path}.STAGING"
     if isinstance(path, pathlib.Path):
         staging_path = pathlib.Path(staging_path)
+    try:
+        os.remove(staging_path)
+    except FileNotFoundError:
+        pass
     try:
         yield staging_path
         os.replace(staging_path, path)
-- 
2.43.0


From 9495207af5ef51eafe32010e5dcd71e9c835a675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 14/17] fix: render scope values that cannot be converted to
 strings

---
 src/uberjob/progress/_simple_progress_observer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/progress/_simple_progress_observer.py b/src/uberjob/progress/_simple_progress_observer.py
index 6c97c7f..62fd060 100644
--- a/src/uberjob/progress/_simple_progress_observer.py
+++ b/src/uberjob/progress/_simple_progress_observer.py
@@ -20,6 +20,14 @@ from abc import ABC, abstractmethod
 from uberjob.progress._progress_observer import ProgressObserver
 
 
+def _safe_str(value):
+    try:
+        return str(value)
+    except Exception:
+        # Scope values are only required to be hashable and equatable.
+        return object.__repr__(value)
+
+
 def _universal_sort_key(*args):
     return tuple((str(type(x)), x) for x in args)
 
@@ -32,12 +40,13 @@ def sorted_scope_items(scope_dict):
     except Exception:
         # Scope values are only required to be hashable and equatable.
         return sorted(
-            scope_dict.items(), key=lambda pair: _universal_sort_key(*map(str, pair[0]))
+            scope_dict.items(),
+            key=lambda pair: _universal_sort_key(*map(_safe_str, pair[0])),
         )
 
 
 def get_scope_string(scope, *, add_zero_width_spaces=False):
-    scope_string = ", ".join(str(value) for value in scope)
+    scope_string = ", ".join(_safe_str(value) for value in scope)
     if add_zero_width_spaces:
         scope_string = scope_string.replace(".", "\u200B.")
     return scope_string
-- 
2.43.0


From 3baebf9d225f596062ee7dfa48c4453f4fa96f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 15/17] fix: render exceptions that cannot be formatted

---
 src/uberjob/progress/_console_progress_observer.py |  4 ++--
 src/uberjob/progress/_html_progress_observer.py    |  4 ++--
 src/uberjob/progress/_ipython_progress_observer.py |  4 ++--
 src/uberjob/progress/_simple_progress_observer.py  | 10 ++++++++++
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/uberjob/progress/_console_progress_observer.py b/src/uberjob/progress/_console_progress_observer.py
index 40c4790..d9e4511 100644
--- a/src/uberjob/progress/_console_progress_observer.py
+++ b/src/uberjob/progress/_console_progress_observer.py
@@ -16,13 +16,13 @@
 import datetime as dt
 import sys
 import textwrap
-import traceback
 from functools import partial
 from io import StringIO
 
 from uberjob.progress._simple_progress_observer import (
     SimpleProgressObserver,
     get_elapsed_string,
+    get_exception_string,
     get_scope_string,
     sorted_scope_items,
 )
@@ -70,7 +70,7 @@ def _print_new_exceptions(print_, new_exception_index, exception_tuples):
             )
             print_(
                 textwrap.indent(
-                    "".join(traceback.format_exception(*exception_tuple)),
+                    get_exception_string(exception_tuple),
                     prefix=" " * 4,
                 )
             )
diff --git a/src/uberjob/progress/_html_progress_observer.py b/src/uberjob/progress/_html_progress_observer.py
index fc057cd..0c4a575 100644
--- a/src/uberjob/progress/_html_progress_observer.py
+++ b/src/uberjob/progress/_html_progress_observer.py
@@ -15,7 +15,6 @@
 #
 import datetime as dt
 import pathlib
-import traceback
 from collections.abc import Callable
 from html import escape
 
@@ -23,6 +22,7 @@ from uberjob.progress._simple_progress_observer import (
     ScopeState,
     SimpleProgressObserver,
     get_elapsed_string,
+    get_exception_string,
     get_scope_string,
     sorted_scope_items,
 )
@@ -186,7 +186,7 @@ def _render_exception_tuples(exception_tuples):
 def _render_exception_tuple(i, scope, exception_tuple):
     show = "show" if i == 0 else ""
     collapsed = "collapsed" if i != 0 else ""
-    exception_tuple_str = "".join(traceback.format_exception(*exception_tuple))
+    exception_tuple_str = get_exception_string(exception_tuple)
     return f"""
         <div class="accordion-item">
           <h2 class="accordion-header" id="heading{i}">
diff --git a/src/uberjob/progress/_ipython_progress_observer.py b/src/uberjob/progress/_ipython_progress_observer.py
index 0fa4870..5242f52 100644
--- a/src/uberjob/progress/_ipython_progress_observer.py
+++ b/src/uberjob/progress/_ipython_progress_observer.py
@@ -15,11 +15,11 @@
 #
 import datetime as dt
 import html
-import traceback
 
 from uberjob.progress._simple_progress_observer import (
     SimpleProgressObserver,
     get_elapsed_string,
+    get_exception_string,
     get_scope_string,
     sorted_scope_items,
 )
@@ -133,7 +133,7 @@ class IPythonProgressObserver(SimpleProgressObserver):
             exception_text_widget = self._get("exception_text", i, default=widgets.HTML)
             exception_text_widget.value = (
                 '<pre style="line-height: 120%">{}</pre>'.format(
-                    html.escape("".join(traceback.format_exception(*exception_tuple)))
+                    html.escape(get_exception_string(exception_tuple))
                 )
             )
             exception_text_widgets.append(exception_text_widget)
diff --git a/src/uberjob/progress/_simple_progress_observer.py b/src/uberjob/progress/_simple_progress_observer.py
index 62fd060..54381cf 100644
--- a/src/uberjob/progress/_simple_progress_observer.py
+++ b/src/uberjob/progress/_simple_progress_observer.py
@@ -15,6 +15,7 @@
 #
 import threading
 import time
+import traceback
 from abc import ABC, abstractmethod
 
 from uberjob.progress._progress_observer import ProgressObserver
@@ -52,6 +53,15 @@ def get_scope_string(scope, *, add_zero_width_spaces=False):
     return scope_string
 
 
+def get_exception_string(exception_tuple):
+    try:
+        return "".join(traceback.format_exception(*exception_tuple))
+    except Exception:
+        # Formatting depends on attributes of the exception, which can be anything.
+        exception_type, _, tb = exception_tuple
+        return "".join(traceback.format_tb(tb)) + f"{exception_type.__name__}\n"
+
+
 def _get_progress_string(*, completed, failed, running, total):
     all_done = completed + failed == total
     started = completed + failed + running > 0
-- 
2.43.0


From 06274ef98685afcfae1a8cb29ad9d7584559715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 16/17] fix: report exceptions whose attributes cannot be
 assigned

---
 src/uberjob/_util/traceback.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uberjob/_util/traceback.py b/src/uberjob/_util/traceback.py
index 169292b..c1e03fa 100644
--- a/src/uberjob/_util/traceback.py
+++ b/src/uberjob/_util/traceback.py
@@ -96,7 +96,8 @@ def drop_outer_frames(exception, count):
     while traceback is not None and count > 0:
         traceback = traceback.tb_next
         count -= 1
-    exception.__traceback__ = traceback
+    # Assigning to __traceback__ would fail for an exception that is immutable.
+    BaseException.with_traceback(exception, traceback)
 
 
 def render_symbolic_traceback(stack_frame):
-- 
2.43.0


From 1423a1f206a5a847a661867765612e7e2b98bd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 17/17] fix: report failures of calls whose scopes cannot be
 represented

---
 src/uberjob/_util/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/uberjob/_util/__init__.py b/src/uberjob/_util/__init__.py
index a27a3ef..8e265c4 100644
--- a/src/uberjob/_util/__init__.py
+++ b/src/uberjob/_util/__init__.py
@@ -30,7 +30,16 @@ def is_ipython():
         return False
 
 
-compact_repr = Repr()
+class CompactRepr(Repr):
+    def repr1(self, x, level):
+        try:
+            return super().repr1(x, level)
+        except Exception:
+            # For example, an int that exceeds the limit for string conversion.
+            return object.__repr__(x)
+
+
+compact_repr = CompactRepr()
 compact_repr.maxstring = 80
 compact_repr.maxother = 80
 compact_repr = compact_repr.repr
-- 
2.43.0

