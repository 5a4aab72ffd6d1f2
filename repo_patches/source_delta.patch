From 21b72853ef651c05848fa6454c95ba4897190b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 01/54] fix: find only the data files of the given basename

str.lstrip and str.rstrip strip sets of characters, so basenames sharing
characters with the index failed, and files of other basenames that start
with the same text were mixed in or raised ValueError.
---
 crowddynamics/io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 986124b..c6db5ff 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -6,6 +6,7 @@ Data flow ::
 
 """
 import os
+import re
 from collections import Iterable, Mapping
 from io import StringIO
 import csv
@@ -55,11 +56,12 @@ def find_npy_files(directory, basename):
     Yields:
         (int, numpy.ndarray): Tuple containing (index, data)
     """
+    pattern = re.compile(re.escape(basename) + r'_([0-9]+)\.npy')
     for root, dirs, files in os.walk(directory):
         for file in files:
-            if file.startswith(basename) and file.endswith('.npy'):
-                index = int(file.lstrip(basename + '_').rstrip('.npy'))
-                yield index, os.path.join(root, file)
+            match = pattern.fullmatch(file)
+            if match:
+                yield int(match.group(1)), os.path.join(root, file)
 
 
 def load_npy(directory, basename):
-- 
2.43.0


From aa2e2ab8f9d89828073e2248d60e28dec91fdaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 02/54] fix: buffer a copy of the data sent to save_npy

The simulation updates its arrays in place, so every buffered row became
the state at the time of the dump.
---
 crowddynamics/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index c6db5ff..fb2f6cd 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -37,7 +37,7 @@ def save_npy(directory, basename):
     index = 0
     while True:
         data = yield  # numpy.ndarray
-        buffer.append(data)
+        buffer.append(np.copy(data))
 
         dump = yield  # bool
         if dump:
-- 
2.43.0


From 9f8c8d4d156b7187bf255b0eb0e3691ea8598218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 03/54] fix: do not use the directory and basename of save_npy
 as a format string

---
 crowddynamics/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index fb2f6cd..52ce5ad 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -32,7 +32,6 @@ def save_npy(directory, basename):
         >>> storage.send(data)
         >>> storage.send(True)  # True dumps data into file
     """
-    filepath = os.path.join(directory, basename + '_{index}.npy')
     buffer = []
     index = 0
     while True:
@@ -41,7 +40,9 @@ def save_npy(directory, basename):
 
         dump = yield  # bool
         if dump:
-            np.save(filepath.format(index=index), np.vstack(buffer))
+            filepath = os.path.join(directory,
+                                    '{}_{}.npy'.format(basename, index))
+            np.save(filepath, np.vstack(buffer))
             buffer.clear()
             index += 1
 
-- 
2.43.0


From daae4aad92403298b5842d8a9b260b0e15b5ad74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 04/54] fix: write csv values under their own key

Values were written in the order of each dictionary, which need not be the
order of the header.
---
 crowddynamics/io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 52ce5ad..c6ceeaf 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -131,15 +131,16 @@ def save_csv(directory, basename):
 
         # Initial data
         data = yield  # dict
-        writer.writerow(data.keys())
-        writer.writerow(data.values())
+        header = list(data.keys())
+        writer.writerow(header)
+        writer.writerow([data[key] for key in header])
         dump = yield  # bool
         if dump:
             dumper()
 
         while True:
             data = yield  # dict
-            writer.writerow(data.values())
+            writer.writerow([data[key] for key in header])
             dump = yield  # bool
             if dump:
                 dumper()
-- 
2.43.0


From 6e2a24784d593f3871835f333749d2d27f6b833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 05/54] fix: save and load single, multi-part and mapped
 geometries as JSON

Mappings are iterable, and so are multi-part geometries, so the tests for
them were never reached: a loaded geometry was iterated by its keys and a
multi-part geometry was saved as a list.
---
 crowddynamics/io.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index c6ceeaf..6ba5574 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -150,24 +150,29 @@ def save_csv(directory, basename):
 
 def geometry_mapping(geom):
     from shapely.geometry import mapping
+    from shapely.geometry.base import BaseGeometry
 
-    if isinstance(geom, Iterable):
-        return [mapping(geo) for geo in geom]
+    if isinstance(geom, BaseGeometry):
+        return mapping(geom)
     elif isinstance(geom, Mapping):
         return {name: mapping(geo) for name, geo in geom.items()}
+    elif isinstance(geom, Iterable):
+        return [mapping(geo) for geo in geom]
     else:
-        return mapping(geom) if geom else geom
+        return geom
 
 
 def geometry_shape(geom):
     from shapely.geometry import shape
 
-    if isinstance(geom, Iterable):
-        return [shape(geo) for geo in geom]
-    elif isinstance(geom, Mapping):
+    if isinstance(geom, Mapping):
+        if isinstance(geom.get('type'), str):
+            return shape(geom)
         return {name: shape(geo) for name, geo in geom.items()}
+    elif isinstance(geom, Iterable):
+        return [shape(geo) for geo in geom]
     else:
-        return shape(geom) if geom else geom
+        return geom
 
 
 def save_geometry_json(filename, geometries):
-- 
2.43.0


From 7f06f3b5071a560dd9fc55d34f06e3d745f884fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 06/54] fix: replace the former geometry file instead of
 appending to it

Two JSON documents in one file cannot be loaded.
---
 crowddynamics/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 6ba5574..3fe7fc3 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -183,7 +183,7 @@ def save_geometry_json(filename, geometries):
         geometries (dict):
 
     """
-    with open(filename, 'a') as fp:
+    with open(filename, 'w') as fp:
         obj = {name: geometry_mapping(geom) for name, geom in
                geometries.items()}
         json.dump(obj, fp, indent=2, separators=(', ', ': '))
-- 
2.43.0


From 39277c1543ac4f5b431b2fc98d6e6e4d122b87fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 07/54] fix: refuse a configuration file when any of its values
 is invalid

---
 crowddynamics/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/config.py b/crowddynamics/config.py
index 2cbdfe6..c9cea89 100644
--- a/crowddynamics/config.py
+++ b/crowddynamics/config.py
@@ -23,7 +23,7 @@ BODY_TYPES_CFG_SPEC = os.path.join(CONFIG_ROOT, 'body_types_spec.cfg')
 def load_config(infile, configspec=None):
     """Load configuration from INI file."""
     config = ConfigObj(infile=infile, configspec=configspec)
-    if configspec and not config.validate(Validator()):
+    if configspec and config.validate(Validator()) is not True:
         raise ValidationError
     return config
 
-- 
2.43.0


From 507b0cbf30e36613725b761574a766750fe63798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 08/54] fix: deprecated functions can be called (func_code is
 Python 2)

---
 crowddynamics/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/exceptions.py b/crowddynamics/exceptions.py
index 3f25134..98f3f06 100644
--- a/crowddynamics/exceptions.py
+++ b/crowddynamics/exceptions.py
@@ -59,8 +59,8 @@ def deprecated(func):
         warnings.warn_explicit(
             "Call to deprecated function {}.".format(func.__name__),
             category=DeprecationWarning,
-            filename=func.func_code.co_filename,
-            lineno=func.func_code.co_firstlineno + 1
+            filename=func.__code__.co_filename,
+            lineno=func.__code__.co_firstlineno + 1
         )
         return func(*args, **kwargs)
     return new_func
-- 
2.43.0


From c02215b43acff122ff2b37fc24dbef37603901f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 09/54] fix: import simulations from the given directory, not
 the current one

---
 crowddynamics/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index ecc7745..6b69728 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -27,7 +27,8 @@ def import_simulations(dir_path='.'):
     for path in os.listdir(dir_path):
         base, ext = os.path.splitext(path)
         if ext == '.py':
-            d.update(import_subclasses(path, MultiAgentSimulation))
+            d.update(import_subclasses(os.path.join(dir_path, path),
+                                       MultiAgentSimulation))
     return d
 
 
-- 
2.43.0


From 2c2cc684652e5352c1530ada7aecefc5112cf9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 10/54] fix: loglevel choices of the run command are strings,
 as click requires

---
 crowddynamics/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index 6b69728..aed9b0d 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -59,8 +59,8 @@ def concat_npy(directory, basename):
 
 
 @main.group(chain=True)
-@click.option('--loglevel', type=click.Choice(LOGLEVELS),
-              default=logging.INFO,
+@click.option('--loglevel', type=click.Choice(list(map(str, LOGLEVELS))),
+              default=str(logging.INFO),
               help='Choices for setting logging level.')
 @click.option('--num', type=int, default=1,
               help='Number of simulations to run.')
-- 
2.43.0


From a0bf7fd98e75e21334137a0914f43c842358adf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 11/54] fix: trait_to_type returns str for Unicode traits
 instead of raising it

---
 crowddynamics/traits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index e7f84d0..c45f917 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -68,7 +68,7 @@ def trait_to_type(trait):
         elif isinstance(trait, Bool):
             return bool
         elif isinstance(trait, Unicode):
-            raise str
+            return str
         else:
             raise InvalidValue('Trait conversion is not supported for: '
                                '{}'.format(trait))
-- 
2.43.0


From 3ce372bec46574a67c060f8928b1e3c75d2d30e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 12/54] fix: option of an Enum trait gives the value of the
 trait, not its string

---
 crowddynamics/traits.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index c45f917..1f6bc14 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -139,10 +139,13 @@ def trait_to_option(name, trait):
                                 default=trait.default_value,
                                 type=str)
         elif isinstance(trait, Enum):
-            # FIXME: trait.values should be strings
+            # Choices are strings, the callback maps them back to the values
+            choices = {str(value): value for value in trait.values}
             return click.Option(param_decls=('--' + name,),
                                 default=str(trait.default_value),
-                                type=click.Choice(list(map(str, trait.values))))
+                                type=click.Choice(list(map(str, trait.values))),
+                                callback=lambda ctx, param, value:
+                                choices.get(value, value))
         elif isinstance(trait, Tuple):
             return click.Option(param_decls=('--' + name,),
                                 default=trait.default_value,
-- 
2.43.0


From 76e000240442f3e64efd5c7154117bc81b3aa770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 13/54] fix: default of the option of a Tuple trait is the
 default of the trait

---
 crowddynamics/traits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index 1f6bc14..76df5c1 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -148,7 +148,7 @@ def trait_to_option(name, trait):
                                 choices.get(value, value))
         elif isinstance(trait, Tuple):
             return click.Option(param_decls=('--' + name,),
-                                default=trait.default_value,
+                                default=trait.make_dynamic_default(),
                                 type=tuple(
                                     trait_to_type(t) for t in trait._traits))
         else:
-- 
2.43.0


From 75875b88afaf2546c867a43fa2b8312ab5535480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 14/54] fix: keep the case of the trait name in the name of its
 option

---
 crowddynamics/traits.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index 76df5c1..b385618 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -119,35 +119,35 @@ def trait_to_dtype(name, trait):
 def trait_to_option(name, trait):
     if is_trait(trait):
         if isinstance(trait, Int):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=('--' + name, name),
                                 default=trait.default_value,
                                 type=click.IntRange(trait.min, trait.max))
         elif isinstance(trait, Float):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=('--' + name, name),
                                 default=trait.default_value,
                                 type=float)
         elif isinstance(trait, Complex):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=('--' + name, name),
                                 default=trait.default_value,
                                 type=complex)
         elif isinstance(trait, Bool):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=('--' + name, name),
                                 default=trait.default_value,
                                 is_flag=True)
         elif isinstance(trait, Unicode):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=('--' + name, name),
                                 default=trait.default_value,
                                 type=str)
         elif isinstance(trait, Enum):
             # Choices are strings, the callback maps them back to the values
             choices = {str(value): value for value in trait.values}
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=('--' + name, name),
                                 default=str(trait.default_value),
                                 type=click.Choice(list(map(str, trait.values))),
                                 callback=lambda ctx, param, value:
                                 choices.get(value, value))
         elif isinstance(trait, Tuple):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=('--' + name, name),
                                 default=trait.make_dynamic_default(),
                                 type=tuple(
                                     trait_to_type(t) for t in trait._traits))
-- 
2.43.0


From 671e49138383f4c6839770983bde514ae6b6eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 15/54] fix: run commands construct their own simulation class
 with the given options

---
 crowddynamics/cli.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index aed9b0d..1e7bb8c 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -71,6 +71,14 @@ def run(context, loglevel, num):
     context.obj = dict(num=num)
 
 
+def simulation_callback(simulation_cls):
+    """Callback that runs the simulation with the options as its traits."""
+    def callback(**kwargs):
+        simulation_cls(**kwargs).run()
+
+    return callback
+
+
 def simulation_commands():
     """Make commands simulations imported from python files in current working 
     directory."""
@@ -78,7 +86,7 @@ def simulation_commands():
     for simulation_name, simulation_cls in simulations.items():
         # New command
         command = click.Command(
-            simulation_name, callback=lambda: simulation_cls().run())
+            simulation_name, callback=simulation_callback(simulation_cls))
 
         # Add the command into run group
         run.add_command(command)
-- 
2.43.0


From 113b780a2a6b72a20271e73a9106d0d07f09fdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 16/54] fix: the installed crowddynamics command knows the run
 commands of simulations

---
 crowddynamics/cli.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index 1e7bb8c..a04d8e2 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -58,7 +58,22 @@ def concat_npy(directory, basename):
     np.save(os.path.join(path, basename + '.npy'), arr)
 
 
-@main.group(chain=True)
+class SimulationGroup(click.Group):
+    """Group that makes its commands from the simulations in current working
+    directory, so that they exist also when started from the entry point."""
+
+    def get_command(self, ctx, cmd_name):
+        if cmd_name not in self.commands:
+            simulation_commands()
+        return super().get_command(ctx, cmd_name)
+
+    def list_commands(self, ctx):
+        if not self.commands:
+            simulation_commands()
+        return super().list_commands(ctx)
+
+
+@main.group(chain=True, cls=SimulationGroup)
 @click.option('--loglevel', type=click.Choice(list(map(str, LOGLEVELS))),
               default=str(logging.INFO),
               help='Choices for setting logging level.')
-- 
2.43.0


From 96d4172cdf52352d1b07623b005dabf280d80805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 17/54] fix: end the queue of a simulation process also after
 other errors

---
 crowddynamics/simulation/multiagent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/simulation/multiagent.py b/crowddynamics/simulation/multiagent.py
index d434525..96b0d4e 100644
--- a/crowddynamics/simulation/multiagent.py
+++ b/crowddynamics/simulation/multiagent.py
@@ -92,7 +92,8 @@ class MultiAgentProcess(Process):
             self.logger.error(
                 'Simulation stopped to error: {}'.format(error))
             self.stop()
-        self.queue.put(self.EndProcess)
+        finally:
+            self.queue.put(self.EndProcess)
 
     @log_with(qualname=True, ignore={'self'})
     def stop(self):
-- 
2.43.0


From 1d8f703d1712ce542a8f6f3d2d3dac6908cc4cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:58 +0000
Subject: [PATCH 18/54] fix: agents loaded from an array do not share its
 memory

---
 crowddynamics/simulation/agents.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 8ca55b7..fccc8f9 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -337,7 +337,8 @@ class AgentType(HasTraits):
         """Set values from array."""
         if len(array) != 1:
             raise ValueError('Array should be length 1')
-        for field, value in zip(array.dtype.fields, array.item()):
+        # Copy, because items of array fields are views into the array
+        for field, value in zip(array.dtype.fields, array.copy().item()):
             setattr(self, field, value)
 
     def __str__(self):
-- 
2.43.0


From d56ef4cab6e9b433c4ad465e19e5a7b6b7a349ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 19/54] fix: shoulders of a new agent follow it to the position
 it is placed at

---
 crowddynamics/simulation/agents.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index fccc8f9..68db83b 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -318,6 +318,10 @@ class AgentType(HasTraits):
 
     array = __array__
 
+    def update_shoulders(self):
+        """Moves the shoulders, if the agent type has them, to the current
+        position and orientation."""
+
     def overlapping(self, others) -> bool:
         """Determines if agent is overlapping with any of the agent supplied
         in other argument.
@@ -409,6 +413,10 @@ class ThreeCircle(AgentType, States, BodyType, TranslationalMotion,
         return self.position + self.r_ts * rotate270(
             unit_vector(self.orientation))
 
+    def update_shoulders(self):
+        self.position_ls = self._default_position_ls()
+        self.position_rs = self._default_position_rs()
+
     def overlapping(self, others):
         return overlapping_three_circles(
             others,
@@ -654,6 +662,7 @@ class Agents(AgentsBase):
             new_agent = group.members[index]
             new_agent.position = position_gen() if callable(position_gen) \
                 else next(position_gen)
+            new_agent.update_shoulders()
 
             # Overlapping check
             neighbours = self._neighbours.nearest(new_agent.position, radius=1)
-- 
2.43.0


From 170f986f85f9b0ab85c8109dd5c0a5bde1aef917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:52 +0000
Subject: [PATCH 20/54] fix: the array of agents has no rows for agents that
 did not fit

---
 crowddynamics/simulation/agents.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 68db83b..60820cb 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -650,10 +650,6 @@ class Agents(AgentsBase):
         if self.agent_type is not group.agent_type:
             raise CrowdDynamicsException
 
-        # resize self.array to fit new agents
-        array = np.zeros(group.size, dtype=group.agent_type.dtype())
-        self.array = np.concatenate((self.array, array))
-
         index = 0
         overlaps = 0
         overlaps_max = 10 * group.size
@@ -676,15 +672,12 @@ class Agents(AgentsBase):
                 overlaps += 1
                 continue
 
-            # Agent can be successfully placed
-            self.array[self.index] = np.array(new_agent)
+            # Agent can be successfully placed. The array grows only now, so
+            # that it never has rows for agents that didn't fit.
+            self.array = np.concatenate((self.array, np.array(new_agent)))
             self._neighbours[new_agent.position] = self.index
             self.index += 1
             index += 1
 
-        # TODO: remove agents that didn't fit from self.array
-        if self.index + 1 < self.array.size:
-            pass
-
         # Array should remain contiguous
         assert self.array.flags.c_contiguous
-- 
2.43.0


From ce5416fc080f9a2850cf9c5589342c707bd1d3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:38 +0000
Subject: [PATCH 21/54] fix: find overlapping agents over the whole reach of
 their extents

---
 crowddynamics/simulation/agents.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 60820cb..eef0742 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -318,6 +318,11 @@ class AgentType(HasTraits):
 
     array = __array__
 
+    @property
+    def extent(self):
+        """Largest distance from the position to the surface of the agent."""
+        return max(self.radius, self.r_t, self.r_ts + self.r_s)
+
     def update_shoulders(self):
         """Moves the shoulders, if the agent type has them, to the current
         position and orientation."""
@@ -638,6 +643,8 @@ class Agents(AgentsBase):
         self.array = np.zeros(0, dtype=self.agent_type.dtype())
         # Block list for speeding up overlapping checks
         self._neighbours = MutableBlockList(cell_size=self.cell_size)
+        # Largest extent of the agents in the block list
+        self._extent = 0.0
 
     def add_non_overlapping_group(self, group, position_gen, obstacles=None):
         """Add group of agents
@@ -660,8 +667,11 @@ class Agents(AgentsBase):
                 else next(position_gen)
             new_agent.update_shoulders()
 
-            # Overlapping check
-            neighbours = self._neighbours.nearest(new_agent.position, radius=1)
+            # Overlapping check. Agents can overlap over more than one cell.
+            reach = new_agent.extent + self._extent
+            neighbours = self._neighbours.nearest(
+                new_agent.position,
+                radius=max(1, int(np.ceil(reach / self.cell_size))))
             if new_agent.overlapping(self.array[neighbours]):
                 # Agent is overlapping other agent.
                 overlaps += 1
@@ -676,6 +686,7 @@ class Agents(AgentsBase):
             # that it never has rows for agents that didn't fit.
             self.array = np.concatenate((self.array, np.array(new_agent)))
             self._neighbours[new_agent.position] = self.index
+            self._extent = max(self._extent, new_agent.extent)
             self.index += 1
             index += 1
 
-- 
2.43.0


From 07cd178fa85da354cd7e0a5085c24b82921278e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 22/54] fix: make the members of a group once, from its
 complete description

---
 crowddynamics/simulation/agents.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index eef0742..ba74fc4 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -588,7 +588,8 @@ class AgentGroup(HasTraits):
 
     """
     agent_type = Type(
-        AgentType,
+        default_value=None,
+        klass=AgentType,
         allow_none=True,
         help='AgentType for generating agent from attributes.')
     size = Int(
@@ -603,8 +604,20 @@ class AgentGroup(HasTraits):
         Instance(AgentType),
         help='')
 
+    # Description from which the members were made
+    _description = None
+
     @observe('size', 'agent_type', 'attributes')
     def _observe_members(self, change):
+        if isinstance(self.attributes, Collection):
+            self.size = len(self.attributes)
+        # Held notifications (of arguments given at construction) arrive one by
+        # one after all parts have been set, but members are made only once.
+        description = (self.size, self.agent_type, self.attributes)
+        if self._description is not None and all(
+                a is b for a, b in zip(self._description, description)):
+            return
+        self._description = description
         if self.size > 0 and self.attributes is not None and self.agent_type is not None:
             if isinstance(self.attributes, Collection):
                 self.members = [self.agent_type(**a) for a in self.attributes]
-- 
2.43.0


From 13be6cade8d122f2614e45dee39996bb68969e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 23/54] fix: moment arm of the second three-circle body starts
 at its own part

---
 crowddynamics/core/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/distance.py b/crowddynamics/core/distance.py
index 681e120..1b6c634 100644
--- a/crowddynamics/core/distance.py
+++ b/crowddynamics/core/distance.py
@@ -100,7 +100,7 @@ def distance_three_circles(x0, r0, x1, r1):
                 j_min = j
 
     r_moment0 = x0[i_min] + r0[i_min] * normal - x0[0]
-    r_moment1 = x0[j_min] - r1[j_min] * normal - x1[0]
+    r_moment1 = x1[j_min] - r1[j_min] * normal - x1[0]
 
     return h_min, normal, r_moment0, r_moment1
 
-- 
2.43.0


From bbbd4886e9fcc475ac19838dfc74bd09885dab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 24/54] fix: flat array of multi-part geometries has the parts

---
 crowddynamics/core/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/geometry.py b/crowddynamics/core/geometry.py
index b254067..1dbd2ac 100644
--- a/crowddynamics/core/geometry.py
+++ b/crowddynamics/core/geometry.py
@@ -42,7 +42,8 @@ def _geom_to_array(geom: BaseGeometry):
         yield np.array([(np.nan, GeomTypes.POLYGON_SHELL)])
         yield np.asarray(geom.exterior)
     elif isinstance(geom, BaseMultipartGeometry):
-        return chain.from_iterable(map(geom_to_array, geom))
+        for geo in geom:
+            yield geom_to_array(geo)
     else:
         raise TypeError
 
-- 
2.43.0


From e8f76df4219bd508fe273e8853226eeaa4023d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 25/54] fix: segments of a polygon include the edges of its
 holes

---
 crowddynamics/core/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/geometry.py b/crowddynamics/core/geometry.py
index 1dbd2ac..3a481ac 100644
--- a/crowddynamics/core/geometry.py
+++ b/crowddynamics/core/geometry.py
@@ -90,7 +90,9 @@ def geom_to_linesegment(geom: BaseGeometry):
     elif isinstance(geom, LineString):
         return zip(geom.coords[:-1], geom.coords[1:])
     elif isinstance(geom, Polygon):
-        return zip(geom.exterior.coords[:-1], geom.exterior.coords[1:])
+        return chain.from_iterable(zip(ring.coords[:-1], ring.coords[1:])
+                                   for ring in chain([geom.exterior],
+                                                     geom.interiors))
     elif isinstance(geom, BaseMultipartGeometry):
         return chain.from_iterable(map(geom_to_linesegment, geom))
     else:
-- 
2.43.0


From c361904e35027bae290a5d2b67a3aa6a1fde0525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:02 +0000
Subject: [PATCH 26/54] fix: parted or overlapping parts do not decide the time
 to collision

---
 crowddynamics/core/motion/power_law.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/motion/power_law.py b/crowddynamics/core/motion/power_law.py
index a189068..2db1282 100644
--- a/crowddynamics/core/motion/power_law.py
+++ b/crowddynamics/core/motion/power_law.py
@@ -314,6 +314,11 @@ def force_social_three_circle(agent, i, j):
             # Coefficients for time-to-collision
             b = -dot(x_rel, v_rel)
             c = dot(x_rel, x_rel) - r_tot ** 2
+
+            # Agents are already overlapping.
+            if c < 0:
+                return force_i, force_j
+
             d = np.sqrt(b ** 2 - a * c)
 
             # No interaction if tau cannot be defined.
@@ -321,7 +326,7 @@ def force_social_three_circle(agent, i, j):
                 continue
 
             tau_new = (b - d) / a
-            if np.isnan(tau) or 0 < tau_new < tau:
+            if tau_new > 0 and (np.isnan(tau) or tau_new < tau):
                 contact_i, contact_j = part_i, part_j
                 tau = tau_new
                 b_min = b
-- 
2.43.0


From ad2882f704ea199a596ff97881515b9f7429a81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:02 +0000
Subject: [PATCH 27/54] fix: gradient of the time to collision between
 shoulders of bodies

---
 crowddynamics/core/motion/power_law.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crowddynamics/core/motion/power_law.py b/crowddynamics/core/motion/power_law.py
index 2db1282..c9ea941 100644
--- a/crowddynamics/core/motion/power_law.py
+++ b/crowddynamics/core/motion/power_law.py
@@ -146,7 +146,7 @@ def gradient_three_circle(x_rel, v_rel, r_off, a, b, d):
         numpy.ndarray:
 
     """
-    return (v_rel - (a * (x_rel + 2 * r_off) + b * v_rel) / d) / a
+    return (v_rel - (a * (x_rel + r_off) + b * v_rel) / d) / a
 
 
 @numba.jit(Tuple((f8, f8[:]))(f8[:], f8[:], f8),
@@ -339,20 +339,19 @@ def force_social_three_circle(agent, i, j):
     r_off_i = np.zeros(2)
     r_off_j = np.zeros(2)
 
-    # TODO: Fix signs
     if contact_i == 1:
         phi = agent[i]['orientation']
-        r_off_i += agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_i -= agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
     elif contact_i == 2:
         phi = agent[i]['orientation']
-        r_off_i -= agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_i += agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
 
     if contact_j == 1:
         phi = agent[j]['orientation']
-        r_off_j += agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_j -= agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
     elif contact_j == 2:
         phi = agent[j]['orientation']
-        r_off_j -= agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_j += agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
 
     x_rel = agent[i]['position'] - agent[j]['position']
     r_off = r_off_i - r_off_j
-- 
2.43.0


From 5412fe69bd5e413e0c5556bdf4835e0946daafec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:35 +0000
Subject: [PATCH 28/54] fix: Euler integrator rotates bodies of any array of
 their type

---
 crowddynamics/core/integrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/integrator.py b/crowddynamics/core/integrator.py
index efec3f1..bbf1664 100644
--- a/crowddynamics/core/integrator.py
+++ b/crowddynamics/core/integrator.py
@@ -155,7 +155,7 @@ def euler_integrator(agents, dt_min, dt_max):
     """
     dt = adaptive_timestep(agents, dt_min, dt_max)
     translational_euler(agents, dt)
-    if agents.dtype is agent_type_three_circle:
+    if is_model(agents, 'three_circle'):
         rotational_euler(agents, dt)
         shoulders(agents)
     return dt
-- 
2.43.0


From 8f3bc87650aff1a75a4c9146e3ec398a8ecdf999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 29/54] fix: timings of players leave the array of players in
 order

---
 crowddynamics/core/rand.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/core/rand.py b/crowddynamics/core/rand.py
index fe83f20..9a0fa45 100644
--- a/crowddynamics/core/rand.py
+++ b/crowddynamics/core/rand.py
@@ -115,9 +115,10 @@ def poisson_timings(players, interval, dt):
     # Compute update times for all agents.
     times = []
     indices = []
-    # TODO: check shuffle doesn't cause any side effects
-    np.random.shuffle(players)
-    for i in players:
+    # Shuffle a copy because shuffling in place would change players of the caller.
+    order = players.copy()
+    np.random.shuffle(order)
+    for i in order:
         for t in poisson_clock(interval, dt):
             times.append(t)
             indices.append(i)
-- 
2.43.0


From 184a8548f61fa7fb62f76272c178610d76d22f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 30/54] fix: cumulative lengths of a line string accumulate

---
 crowddynamics/core/sampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/sampling.py b/crowddynamics/core/sampling.py
index 83a47a9..f6b6390 100644
--- a/crowddynamics/core/sampling.py
+++ b/crowddynamics/core/sampling.py
@@ -11,9 +11,11 @@ from crowddynamics.core.geom2D import polygon_area
 def linestring_length_cumsum(vertices):
     n = len(vertices) - 1
     cumsum = np.zeros(n)
+    total = 0.0
     for i in range(n):
         diff = vertices[i] - vertices[i + 1]
-        cumsum[i] = np.hypot(diff[0], diff[1])
+        total += np.hypot(diff[0], diff[1])
+        cumsum[i] = total
     return cumsum
 
 
-- 
2.43.0


From d67e313c87bd9cde05018cbce0a75f7187239f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:12 +0000
Subject: [PATCH 31/54] fix: points below the grid are not indexed to its first
 cells

---
 crowddynamics/core/steering/quickest_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/steering/quickest_path.py b/crowddynamics/core/steering/quickest_path.py
index 2895773..45a76a4 100644
--- a/crowddynamics/core/steering/quickest_path.py
+++ b/crowddynamics/core/steering/quickest_path.py
@@ -41,7 +41,7 @@ def meshgrid(step: float, minx: float, miny: float,
     def indicer(position):
         """Converts positions to meshgrid indices"""
         shifted = np.asarray(position) - np.array((minx, miny))
-        return (shifted / step).astype(np.int64)
+        return np.floor(shifted / step).astype(np.int64)
 
     return MeshGrid(
         values=values, shape=shape, step=step, bounds=(minx, miny, maxx, maxy),
-- 
2.43.0


From 58bfca640b4a05d2995da4143045f4f23e224aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 32/54] fix: holes of drawn polygons keep what is beneath them

---
 crowddynamics/core/geometry.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/core/geometry.py b/crowddynamics/core/geometry.py
index 3a481ac..12e2504 100644
--- a/crowddynamics/core/geometry.py
+++ b/crowddynamics/core/geometry.py
@@ -119,13 +119,15 @@ def draw_geom(geom: BaseGeometry,
             grid[y, x] = value
     elif isinstance(geom, Polygon):
         i = indicer(geom.exterior)
+        region = np.full(grid.shape, False, dtype=np.bool_)
         x, y = skimage.draw.polygon(i[:, 0], i[:, 1])
-        grid[y, x] = value
+        region[y, x] = True
         x, y = skimage.draw.polygon_perimeter(i[:, 0], i[:, 1])
-        grid[y, x] = value
+        region[y, x] = True
         for j in map(indicer, geom.interiors):
             x, y = skimage.draw.polygon(j[:, 0], j[:, 1])
-            grid[y, x] = 0
+            region[y, x] = False
+        grid[region] = value
     elif isinstance(geom, BaseMultipartGeometry):
         for geo in geom:
             draw_geom(geo, grid, indicer, value)
-- 
2.43.0


From 37f9b76013b3d8928de0a5db790f90181640b35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:31 +0000
Subject: [PATCH 33/54] fix: navigation works in fields without obstacles

---
 crowddynamics/core/steering/obstacle_handling.py | 5 +++++
 crowddynamics/core/steering/quickest_path.py     | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/crowddynamics/core/steering/obstacle_handling.py b/crowddynamics/core/steering/obstacle_handling.py
index 8d462ff..9c9056d 100644
--- a/crowddynamics/core/steering/obstacle_handling.py
+++ b/crowddynamics/core/steering/obstacle_handling.py
@@ -105,6 +105,11 @@ def obstacle_handling_continuous(dmap_obs, dir_map_obs, direction_target,
 @log_with(arguments=False, timed=True)
 def direction_map_obstacles(mgrid, obstacles):
     """Vector field towards obstacles"""
+    if obstacles is None:
+        # Obstacles are infinitely far away from everywhere
+        dmap_obs = np.full(mgrid.shape, -np.inf)
+        return (np.zeros(mgrid.shape), np.zeros(mgrid.shape)), dmap_obs
+
     dmap_obs = distance_map(mgrid, obstacles, None)
     dir_map_obs = direction_map(dmap_obs)
     return dir_map_obs, dmap_obs
diff --git a/crowddynamics/core/steering/quickest_path.py b/crowddynamics/core/steering/quickest_path.py
index 45a76a4..41e2cfc 100644
--- a/crowddynamics/core/steering/quickest_path.py
+++ b/crowddynamics/core/steering/quickest_path.py
@@ -183,6 +183,10 @@ def fill_missing(mask, x, y, u, v):
 
 def shortest_path(mgrid, domain, targets, obstacles, buffer_radius):
     """Vector field guiding towards targets."""
+    if obstacles is None:
+        dmap_targets = distance_map(mgrid, targets, None)
+        return direction_map(dmap_targets), dmap_targets
+
     obstacles_buffered = obstacles.buffer(buffer_radius).intersection(domain)
 
     dmap_targets = distance_map(mgrid, targets, obstacles_buffered)
-- 
2.43.0


From 013d426ee886e141161ed3fd3d3069dd0a816d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 34/54] fix: domain and obstacles of a field can be set to None

---
 crowddynamics/simulation/field.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crowddynamics/simulation/field.py b/crowddynamics/simulation/field.py
index 3671ab1..166aa1b 100644
--- a/crowddynamics/simulation/field.py
+++ b/crowddynamics/simulation/field.py
@@ -90,6 +90,8 @@ class Field(FieldBase):
     @validate('domain')
     def _valid_domain(self, proposal):
         value = proposal['value']
+        if value is None:
+            return value
         if not value.is_valid:
             raise ValidationError('{} should not be invalid'.format(value))
         if value.is_empty:
@@ -99,6 +101,8 @@ class Field(FieldBase):
     @validate('obstacles')
     def _valid_obstacles(self, proposal):
         value = proposal['value']
+        if value is None:
+            return value
         if not value.is_valid:
             raise ValidationError('{} should not be invalid'.format(value))
         if value.is_empty:
-- 
2.43.0


From f2e249ce455423b54570caf7527bf4f29f948dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 35/54] fix: continuous obstacle handling uses both components
 and stays inside the map

---
 crowddynamics/core/steering/obstacle_handling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/steering/obstacle_handling.py b/crowddynamics/core/steering/obstacle_handling.py
index 9c9056d..ec0403c 100644
--- a/crowddynamics/core/steering/obstacle_handling.py
+++ b/crowddynamics/core/steering/obstacle_handling.py
@@ -85,12 +85,12 @@ def obstacle_handling_continuous(dmap_obs, dir_map_obs, direction_target,
 
     for k in range(len(indices)):
         i, j = indices[k, 0], indices[k, 1]
-        u2, v2 = direction_target[k, 1], direction_target[k, 1]
-        x = -dmap_obs[i, j]
+        u2, v2 = direction_target[k, 0], direction_target[k, 1]
 
         if not (0 <= i < n and 0 <= j < m):
             continue
 
+        x = -dmap_obs[i, j]
         if 0 < x < radius:
             # Decreasing function
             p = strength ** (x / radius)
-- 
2.43.0


From 46d366c0a35ec69156587aa96948a5c483bbacf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 36/54] fix: undefined directions of a navigation map leave the
 agent's direction

---
 crowddynamics/core/steering/navigation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/steering/navigation.py b/crowddynamics/core/steering/navigation.py
index 7d81d77..1789155 100644
--- a/crowddynamics/core/steering/navigation.py
+++ b/crowddynamics/core/steering/navigation.py
@@ -72,7 +72,10 @@ def getdefault(indices, dir_map, defaults):
     x, y = dir_map
     for k in range(len(indices)):
         i, j = indices[k]
-        if is_inside((i, j), (0, 0), x.shape):
+        # Direction is not defined (nan) where the gradient of the distance map
+        # vanishes
+        if is_inside((i, j), (0, 0), x.shape) and \
+                not (np.isnan(x[i, j]) or np.isnan(y[i, j])):
             out[k][0] = x[i, j]
             out[k][1] = y[i, j]
     return out
-- 
2.43.0


From bea67a32af53d101ec991a90ae79e183f609d278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 37/54] fix: line obstacles do not vanish from shortest paths
 with zero radius

---
 crowddynamics/core/steering/quickest_path.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/steering/quickest_path.py b/crowddynamics/core/steering/quickest_path.py
index 41e2cfc..4473040 100644
--- a/crowddynamics/core/steering/quickest_path.py
+++ b/crowddynamics/core/steering/quickest_path.py
@@ -187,7 +187,11 @@ def shortest_path(mgrid, domain, targets, obstacles, buffer_radius):
         dmap_targets = distance_map(mgrid, targets, None)
         return direction_map(dmap_targets), dmap_targets
 
-    obstacles_buffered = obstacles.buffer(buffer_radius).intersection(domain)
+    # Lines would vanish if they were buffered by zero
+    obstacles_buffered = obstacles
+    if buffer_radius > 0:
+        obstacles_buffered = obstacles.buffer(buffer_radius)
+    obstacles_buffered = obstacles_buffered.intersection(domain)
 
     dmap_targets = distance_map(mgrid, targets, obstacles_buffered)
     dir_map_targets = direction_map(dmap_targets)
-- 
2.43.0


From 9e342f28d1f6fe2255297e8f2f288f2f6eee31b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 38/54] fix: agents heading exactly at each other are not
 heading away

---
 crowddynamics/core/steering/collective_motion.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crowddynamics/core/steering/collective_motion.py b/crowddynamics/core/steering/collective_motion.py
index c8242c7..f6fcd6b 100644
--- a/crowddynamics/core/steering/collective_motion.py
+++ b/crowddynamics/core/steering/collective_motion.py
@@ -44,15 +44,14 @@ def herding_relationship(x1, x2, v1, v2, phi=np.pi / 2):
     c_i = dot(e_rel, normalize(v1))
     c_j = -dot(e_rel, normalize(v2))
 
-    # 1.0 = cos(0)
     cos_phi = np.cos(phi)
-    if cos_phi < c_i < 1.0:
-        if cos_phi < c_j < 1.0:
+    if cos_phi < c_i:
+        if cos_phi < c_j:
             return False, False
         else:
             return True, False
     else:
-        if cos_phi < c_j < 1.0:
+        if cos_phi < c_j:
             return False, True
         else:
             return True, True
-- 
2.43.0


From 7090df66f0a2ccb2f1964fe7e1d00eb862b949ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 39/54] fix: no nearest neighbours can be requested

---
 crowddynamics/core/steering/collective_motion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crowddynamics/core/steering/collective_motion.py b/crowddynamics/core/steering/collective_motion.py
index f6fcd6b..ea1516e 100644
--- a/crowddynamics/core/steering/collective_motion.py
+++ b/crowddynamics/core/steering/collective_motion.py
@@ -79,6 +79,9 @@ def find_nearest_neighbors(
         fill_value=MISSING_NEIGHBOR, dtype=np.int64)
     '''Current nearest neighbours.'''
 
+    if size_nearest_other == 0:
+        return neighbors
+
     distances = np.full(
         (size, size_nearest_other),
         fill_value=sight, dtype=np.float64)
-- 
2.43.0


From 93a12ff0bf490ead5406b7879c504264f0a2a812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 40/54] fix: number of inactive agents is not increased by
 returning agents

---
 crowddynamics/simulation/logic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index f6dba2b..55e9bdb 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -351,10 +351,9 @@ class InsideDomain(LogicNode):
     def update(self):
         agents = self.simulation.agents.array
         new_state = self.domain_path.contains_points(agents['position'])
-        change = agents['active'] ^ new_state
         agents['active'] = new_state
 
-        self.simulation.data['inactive'] += np.sum(change)
+        self.simulation.data['inactive'] = np.sum(~new_state)
 
 
 class TargetReached(LogicNode):
-- 
2.43.0


From 5a4ffdcf7f7982900dae19f363cd22b9b85defe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 41/54] fix: targets reached are detected from positions and
 named by index

---
 crowddynamics/simulation/logic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index 55e9bdb..1e19d19 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -373,7 +373,7 @@ class TargetReached(LogicNode):
         # We can only measure polygon targets atm
         for i, target in enumerate(self.simulation.field.targets):
             if isinstance(target, Polygon):
-                name = self.prefix.format(i)
+                name = self.prefix.format(index=i)
                 self.names.append(name)
                 self.paths.append(Path(np.asarray(target.exterior)))
                 self.reached_by.append(np.zeros(size, dtype=np.bool_))
@@ -381,6 +381,7 @@ class TargetReached(LogicNode):
 
     def update(self):
         # TODO: update target reached
+        position = self.simulation.agents.array['position']
         for name, path, reached_by in zip(self.names, self.paths, self.reached_by):
-            reached_by |= path.contains_points(self.simulation.agents.array)
+            reached_by |= path.contains_points(position)
             self.simulation.data[name] = np.sum(reached_by)
-- 
2.43.0


From bd7e630794941a7409f3f8ea3de901440227a23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 42/54] fix: classical density has a cell for every point

---
 crowddynamics/core/quantities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index d86bfe9..99c5e0c 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -24,10 +24,10 @@ def density_classical(points, cell_size):
     density of fluids which have :math:`> 10^{18}` particles per
     :math:`\mathrm{mm}^3`.
     """
-    indices = np.floor(points / cell_size)
+    indices = np.floor(points / cell_size).astype(np.int64)
     x, y = indices[:, 0], indices[:, 1]
     x_min, y_min = x.min(), y.min()
-    shape = x.max() - x_min, y.max() - y_min
+    shape = x.max() - x_min + 1, y.max() - y_min + 1
     count = np.zeros(shape, dtype=np.int64)
     for i, j in zip(x, y):
         count[i - x_min, j - y_min] += 1
-- 
2.43.0


From 18a718ed0aa1fd3e5f136387be9fabecc63dd792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 43/54] fix: grid of the first voronoi density covers the
 observed area

---
 crowddynamics/core/quantities.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index 99c5e0c..44f89e3 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -210,8 +210,9 @@ def density_voronoi_1(points, cell_size):
     new_regions, new_vertices = voronoi_finite_polygons_2d(vor)
 
     # Density matrix
-    (imin, imax), (jmin, jmax) = np.int64(bbox_points / cell_size)
-    density = np.zeros(shape=(imax - imin + 1, jmax - imin + 1))
+    (imin, imax), (jmin, jmax) = np.floor(
+        bbox_points / cell_size).astype(np.int64)
+    density = np.zeros(shape=(imax - imin + 1, jmax - jmin + 1))
 
     # Loop over Voronoi regions
     for region in new_regions:
@@ -220,9 +221,10 @@ def density_voronoi_1(points, cell_size):
         minx, miny, maxx, maxy = voronoi_cell.bounds
 
         # Loop over the cells contained by the bounding box of the Voronoi cell
-        # FIXME: index out of bounds
-        for i in range(int(minx / cell_size), int(maxx / cell_size) + 1):
-            for j in range(int(miny / cell_size), int(maxy / cell_size) + 1):
+        for i in range(int(np.floor(minx / cell_size)),
+                       int(np.floor(maxx / cell_size)) + 1):
+            for j in range(int(np.floor(miny / cell_size)),
+                           int(np.floor(maxy / cell_size)) + 1):
                 cell = rectangle(i * cell_size, (i + 1) * cell_size,
                                  j * cell_size, (j + 1) * cell_size)
                 intersection = voronoi_cell & cell
-- 
2.43.0


From 1aef8bef8f2c56a237484dcbd7d6d05873b872e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 44/54] fix: second voronoi density uses the areas of the
 agents' own cells

---
 crowddynamics/core/quantities.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index 44f89e3..08b7a7b 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -1,6 +1,6 @@
 import numba
 import numpy as np
-from numba import f8, i8
+from numba import f8
 from scipy.spatial import Voronoi
 from shapely.geometry.polygon import Polygon
 
@@ -265,25 +265,23 @@ def density_voronoi_2(points, cell_size):
     # Compute areas for all of the Voronoi regions
     area = np.array([polygon_area(new_vertices[i]) for i in new_regions])
 
-    return _core_2(points, cell_size, area, vor.point_region)
+    return _core_2(points, cell_size, area)
 
 
-@numba.jit([f8[:, :](f8[:, :], f8, f8[:], i8[:])],
+@numba.jit([f8[:, :](f8[:, :], f8, f8[:])],
            nopython=True, nogil=True, cache=True)
-def _core_2(points, cell_size, area, point_region):
+def _core_2(points, cell_size, area):
     """Numerical implementation
 
     Args:
         points:
         cell_size:
-        area:
-        point_region:
+        area: Area of the Voronoi cell of each point
 
     Returns:
 
     """
-    # FIXME
-    indices = (points / cell_size).astype(np.int64)
+    indices = np.floor(points / cell_size).astype(np.int64)
     x, y = indices[:, 0], indices[:, 1]
     x_min, y_min = x.min(), y.min()
     shape = x.max() - x_min + 1, y.max() - y_min + 1
@@ -293,7 +291,7 @@ def _core_2(points, cell_size, area, point_region):
     for k, (i, j) in enumerate(zip(x, y)):
         index = i - x_min, j - y_min
         density[index] += 1
-        area_sum[index] += area[point_region[k]]
+        area_sum[index] += area[k]
 
     n, m = density.shape
     for i in range(n):
-- 
2.43.0


From f84f04873a078e2a2e47c72400529e2c93aa464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 45/54] fix: unbounded voronoi cells cover the observation area

---
 crowddynamics/core/quantities.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index 08b7a7b..5c9c460 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -205,9 +205,13 @@ def density_voronoi_1(points, cell_size):
     (xmin, xmax), (ymin, ymax) = bbox_points
     observation_area = rectangle(xmin, xmax, ymin, ymax)
 
-    # Voronoi tesselation
+    # Voronoi tesselation. The far points have to be distant enough for the
+    # edge between them not to cut the observation area.
     vor = Voronoi(points)
-    new_regions, new_vertices = voronoi_finite_polygons_2d(vor)
+    center = points.mean(axis=0)
+    radius = 1e3 * max(np.abs(points - center).max(),
+                       np.abs(vor.vertices - center).max())
+    new_regions, new_vertices = voronoi_finite_polygons_2d(vor, radius)
 
     # Density matrix
     (imin, imax), (jmin, jmax) = np.floor(
-- 
2.43.0


From 155a5faa7ad42f9af75a20f01c99b3c3fed8b490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 46/54] fix: overridden traits of a class are yielded once

---
 crowddynamics/traits.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index b385618..c25612b 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -194,10 +194,15 @@ def class_traits(cls, exclude_attrs=None, exclude_cls=None):
         >>> # excludes private attributes
         >>> class_traits(cls, exclude_attrs=lambda name: name.startswith('_'))
     """
+    names = set()
     for c in inspect.getmro(cls):
         if callable(exclude_cls) and exclude_cls(c):
             continue
-        yield from class_own_traits(c, exclude_attrs)
+        for name, trait in class_own_traits(c, exclude_attrs):
+            # Traits overridden by a subclass are not yielded again
+            if name not in names:
+                names.add(name)
+                yield name, trait
 
 
 def class_to_struct_dtype(cls, exclude_attrs, exclude_cls):
-- 
2.43.0


From 1b883f23bb3904905d288c1b8d71b92c384b0ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 47/54] fix: image of the distance map has the size of the grid

---
 crowddynamics/visualizations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/visualizations.py b/crowddynamics/visualizations.py
index 1dcbc94..59d6ef4 100644
--- a/crowddynamics/visualizations.py
+++ b/crowddynamics/visualizations.py
@@ -139,7 +139,7 @@ def add_distance_map(fig, mgrid, distance_map, **kwargs):
     """
     kwargs.setdefault('palette', 'Greys256')
     minx, miny, maxx, maxy = mgrid.bounds
-    fig.image([distance_map], minx, miny, maxx, maxy, **kwargs)
+    fig.image([distance_map], minx, miny, maxx - minx, maxy - miny, **kwargs)
 
 
 def add_direction_map(fig: Figure, mgrid, direction_map, freq=2, **kwargs):
-- 
2.43.0


From 06726d153db836aa040ebeadb08770ffd9b7d1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 48/54] fix: plot fields without obstacles or domain

---
 crowddynamics/visualizations.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crowddynamics/visualizations.py b/crowddynamics/visualizations.py
index 59d6ef4..3060652 100644
--- a/crowddynamics/visualizations.py
+++ b/crowddynamics/visualizations.py
@@ -115,7 +115,8 @@ def add_field(fig, field):
     """
 
     # Plot spawn and target indices
-    add_geom(fig, field.domain, alpha=0.05)
+    if field.domain is not None:
+        add_geom(fig, field.domain, alpha=0.05)
 
     for spawn in field.spawns:
         add_geom(fig, spawn, alpha=0.5, line_width=0, color='green')
@@ -123,7 +124,8 @@ def add_field(fig, field):
     for target in field.targets:
         add_geom(fig, target, alpha=0.5, line_dash='dashed', color='olive')
 
-    add_geom(fig, field.obstacles, alpha=0.8)
+    if field.obstacles is not None:
+        add_geom(fig, field.obstacles, alpha=0.8)
 
 
 def add_distance_map(fig, mgrid, distance_map, **kwargs):
@@ -191,7 +193,7 @@ def plot_field(field, step=0.02, radius=0.3, strength=0.3, **kwargs):
         'closest', step, radius, strength)
 
     # TODO: masked values on distance map
-    add_distance_map(p, mgrid, distance_map.filled(1.0),
+    add_distance_map(p, mgrid, np.ma.filled(distance_map, 1.0),
                      legend='distance_map')
     add_direction_map(p, mgrid, direction_map, legend='direction_map')
 
@@ -214,10 +216,11 @@ def plot_field(field, step=0.02, radius=0.3, strength=0.3, **kwargs):
                  line_dash='dashed',
                  color='olive',)
 
-    add_geom(p, field.obstacles,
-             legend='obstacles',
-             line_width=3.0,
-             alpha=0.8, )
+    if field.obstacles is not None:
+        add_geom(p, field.obstacles,
+                 legend='obstacles',
+                 line_width=3.0,
+                 alpha=0.8, )
 
     p.legend.location = "top_left"
     p.legend.click_policy = "hide"
-- 
2.43.0


From f3abb38f5240359d3846ef3c62d9cbd0b2c9d5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 49/54] fix: rendered trees keep nodes that have the same name
 apart

---
 crowddynamics/visualizations.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/visualizations.py b/crowddynamics/visualizations.py
index 3060652..8fb1815 100644
--- a/crowddynamics/visualizations.py
+++ b/crowddynamics/visualizations.py
@@ -238,8 +238,16 @@ def render_tree(tree, filepath):
         tree (NodeMixin): 
         filepath (str|Path): 
     """
+    from anytree import PreOrderIter
     from anytree.dotexport import RenderTreeGraph
-    tree = RenderTreeGraph(tree.root)
+
+    # Nodes in dot format are identified by their names
+    names, count = {}, {}
+    for node in PreOrderIter(tree.root):
+        n = count[node.name] = count.get(node.name, 0) + 1
+        names[node] = node.name if n == 1 else '{} ({})'.format(node.name, n)
+
+    tree = RenderTreeGraph(tree.root, nodenamefunc=names.get)
     base, ext = os.path.splitext(filepath)
     if ext == '.png':
         tree.to_picture(filename=filepath)
-- 
2.43.0


From 62b864fe12576a74b4061554c50c1a32b1169170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 50/54] fix: positions sampled from a spawn are in the spawn
 and off the obstacles

---
 crowddynamics/simulation/field.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/field.py b/crowddynamics/simulation/field.py
index 166aa1b..15de98d 100644
--- a/crowddynamics/simulation/field.py
+++ b/crowddynamics/simulation/field.py
@@ -1,7 +1,7 @@
 from functools import lru_cache
 
 import numpy as np
-from shapely.geometry import Polygon
+from shapely.geometry import Point, Polygon
 from shapely.geometry.base import BaseGeometry
 from traitlets import Instance, List, validate
 
@@ -125,7 +125,9 @@ class Field(FieldBase):
         """Generates positions for agents"""
         geom = spawn - obstacles.buffer(radius) if obstacles else spawn
         vertices = np.asarray(geom.convex_hull.exterior)
-        return polygon_sample(vertices)
+        # Convex hull can contain points that are not in the geometry
+        return (vertex for vertex in polygon_sample(vertices)
+                if geom.contains(Point(vertex)))
 
     def sample_spawn(self, spawn_index: int, radius: float = 0.3):
         """Generator for sampling points inside spawn without overlapping with
-- 
2.43.0


From ceeee0fe6be7d9fbaf850e28a1376bf89ab39efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 51/54] fix: maps of a field are computed again when its
 geometry changes

---
 crowddynamics/simulation/field.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/crowddynamics/simulation/field.py b/crowddynamics/simulation/field.py
index 15de98d..a5bf8ca 100644
--- a/crowddynamics/simulation/field.py
+++ b/crowddynamics/simulation/field.py
@@ -1,4 +1,4 @@
-from functools import lru_cache
+from functools import wraps
 
 import numpy as np
 from shapely.geometry import Point, Polygon
@@ -15,6 +15,25 @@ from crowddynamics.exceptions import ValidationError, CrowdDynamicsException, \
 from crowddynamics.simulation.base import FieldBase
 
 
+def cached(method):
+    """Cache values of the method of a field until its geometry changes."""
+
+    @wraps(method)
+    def wrapper(self, *args, **kwargs):
+        geometry = [self.domain, self.obstacles] + self.targets
+        old, values = getattr(self, '_cached', ([], {}))
+        if len(old) != len(geometry) or \
+                any(a is not b for a, b in zip(old, geometry)):
+            values = {}
+            self._cached = geometry, values
+        key = method.__name__, args, tuple(sorted(kwargs.items()))
+        if key not in values:
+            values[key] = method(self, *args, **kwargs)
+        return values[key]
+
+    return wrapper
+
+
 class Field(FieldBase):
     r"""Field is a collection of static geometric objects that can
     exist in crowd dynamics simulations. This module uses geometric types
@@ -84,7 +103,6 @@ class Field(FieldBase):
         Instance(BaseGeometry),
         help='List of spawns')
 
-    # TODO: invalidate caches if field changes?
     # TODO: implement direction and distance map as lazy properties
 
     @validate('domain')
@@ -134,14 +152,14 @@ class Field(FieldBase):
         obstacles"""
         return self._samples(self.spawns[spawn_index], self.obstacles, radius)
 
-    @lru_cache()
+    @cached
     def meshgrid(self, step):
         if self.domain is None:
             raise CrowdDynamicsException(
                 'Domain cannot be dicretized if it is None.')
         return meshgrid(step, *self.domain.bounds)
 
-    @lru_cache()
+    @cached
     def shortest_path_target(self, step, index, radius):
         if isinstance(index, (int, np.int64)):
             targets = self.targets[index]
@@ -154,11 +172,11 @@ class Field(FieldBase):
         return shortest_path(self.meshgrid(step), self.domain, targets,
                              self.obstacles, radius)
 
-    @lru_cache()
+    @cached
     def direction_map_obstacles(self, step):
         return direction_map_obstacles(self.meshgrid(step), self.obstacles)
 
-    @lru_cache()
+    @cached
     def navigation_to_target(self, index, step, radius, strength):
         if not self.targets:
             raise CrowdDynamicsException('No targets are set.')
-- 
2.43.0


From 5d1ca34c1b22856f9315ea47fac389556ea3d234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 52/54] fix: exits that are areas can be detected

---
 crowddynamics/simulation/logic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index 1e19d19..deb6bd5 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -4,7 +4,7 @@ from collections import Callable
 import numpy as np
 from loggingtools.log_with import log_with
 from matplotlib.path import Path
-from shapely.geometry.polygon import Polygon
+from shapely.geometry import LineString, Polygon
 from traitlets.traitlets import Float, Instance, Unicode, default, \
     Int
 
@@ -245,7 +245,9 @@ class ExitDetection(LogicNode):
         field = self.simulation.field
 
         center_door = np.stack([
-            np.mean(np.asarray(target), axis=0) for target in field.targets])
+            np.mean(np.asarray(target), axis=0)
+            if isinstance(target, LineString)
+            else np.asarray(target.centroid) for target in field.targets])
         obstacles = geom_to_linear_obstacles(field.obstacles)
 
         targets, has_detected = exit_detection(
-- 
2.43.0


From 0dbde9c7b7169bedc04aa1ccf8d6fc66722dc92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 53/54] fix: --num sets the number of simulations to run

---
 crowddynamics/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index a04d8e2..e67827d 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -89,7 +89,8 @@ def run(context, loglevel, num):
 def simulation_callback(simulation_cls):
     """Callback that runs the simulation with the options as its traits."""
     def callback(**kwargs):
-        simulation_cls(**kwargs).run()
+        for _ in range(click.get_current_context().obj['num']):
+            simulation_cls(**kwargs).run()
 
     return callback
 
-- 
2.43.0


From 3f5936ffcbba5eadc04f368f24ab1e69780e0d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 54/54] fix: --loglevel sets the logging level

---
 crowddynamics/logging.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crowddynamics/logging.py b/crowddynamics/logging.py
index cf3aa2d..4c6a882 100644
--- a/crowddynamics/logging.py
+++ b/crowddynamics/logging.py
@@ -51,6 +51,10 @@ def user_info():
 
 def setup_logging(loglevel=logging.INFO, log_cfg=LOG_CFG):
     loggingtools.setup_logging(log_cfg, '.logs')
+    # Levels can be given as names or numbers, also when read from options
+    loglevel = str(loglevel)
+    logging.getLogger('crowddynamics').setLevel(
+        int(loglevel) if loglevel.isdigit() else loglevel)
     format_numpy()
     format_pandas()
     user_info()
-- 
2.43.0

