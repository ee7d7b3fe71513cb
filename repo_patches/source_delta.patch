From 0fd6a13c24efb9d63172bd9f790cc3277502ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:42 +0000
Subject: [PATCH 01/25] fix: importing a blueprint with belts facing head on no
 longer crashes

---
 factorio_sat/blueprint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/factorio_sat/blueprint.py b/factorio_sat/blueprint.py
index 649d81e..676e9e6 100644
--- a/factorio_sat/blueprint.py
+++ b/factorio_sat/blueprint.py
@@ -118,6 +118,9 @@ def resolve_belt_input_directions(tiles):
 
         input_direction = None
         for direction in Direction:
+            if direction == tile.output_direction.reverse:  # Belts facing head on don't feed each other
+                continue
+
             x1 = x - direction.dx
             y1 = y - direction.dy
             if x1 < 0 or x1 >= tiles.shape[1] or y1 < 0 or y1 >= tiles.shape[0]:
-- 
2.43.0


From a671b08a2645471620859287b460a9171e44fea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:42 +0000
Subject: [PATCH 02/25] fix: calculate_optimal query --export-blueprints passes
 a belt level rather than its name

---
 factorio_sat/calculate_optimal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index fbd63b3..fd337c9 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -288,13 +288,15 @@ def main():
 
     if args.mode == 'query':
         if args.export_blueprints:
+            level = blueprint.TransportBeltLevel[get_belt_level(args.underground_length).upper()]
+
             def encode_solution(solution, name):
                 label = ' to '.join(name.split('x'))
                 tiles = np.array(solution)
                 for i, row in enumerate(tiles):
                     for j, entry in enumerate(row):
                         tiles[i, j] = blueprint.read_tile(entry)
-                return blueprint.encode_blueprint(blueprint.make_blueprint(tiles, label, get_belt_level(args.underground_length)))
+                return blueprint.encode_blueprint(blueprint.make_blueprint(tiles, label, level))
         else:
             def encode_solution(solution, _):
                 return json.dumps(solution)
-- 
2.43.0


From 0a1caddf6f76ea738b82d9b99dfb2da7d358949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:42 +0000
Subject: [PATCH 03/25] fix: network parse accepts underground belts along the
 first row

---
 factorio_sat/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index b8da5cf..b6b1e4d 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -549,7 +549,7 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
                     dx, dy = tile.direction.vec
                     while True:
                         pos = pos[0] - dx, pos[1] - dy
-                        assert pos[0] >= 0 and pos[0] < tiles.shape[0] and pos[1] >= 1 and pos[1] < tiles.shape[1]
+                        assert pos[0] >= 0 and pos[0] < tiles.shape[0] and pos[1] >= 0 and pos[1] < tiles.shape[1]
 
                         current_tile = tiles[pos]
                         assert current_tile != UndergroundBelt(tile.direction, False)
-- 
2.43.0


From ca676423df6e212bc3b06a8364f87991bf3c9881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:42 +0000
Subject: [PATCH 04/25] fix: make_block applies --underground-length without
 --single-loop

---
 factorio_sat/make_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/make_block.py b/factorio_sat/make_block.py
index 243a454..1c0cff9 100644
--- a/factorio_sat/make_block.py
+++ b/factorio_sat/make_block.py
@@ -86,7 +86,7 @@ def main():
     if args.single_loop:
         grid = solver.Grid(args.width, args.height, args.width * args.height, args.underground_length, edge_mode=edge_mode)
     else:
-        grid = solver.Grid(args.width, args.height, 1, edge_mode=edge_mode)
+        grid = solver.Grid(args.width, args.height, 1, args.underground_length, edge_mode=edge_mode)
 
     grid.prevent_intersection()
     grid.prevent_bad_undergrounding()
-- 
2.43.0


From 7d0b681450ce70cc33e1ba0ed1910155b04329d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:42 +0000
Subject: [PATCH 05/25] fix: make_block --no-parallel no longer crashes

---
 factorio_sat/make_block.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/factorio_sat/make_block.py b/factorio_sat/make_block.py
index 1c0cff9..196ced5 100644
--- a/factorio_sat/make_block.py
+++ b/factorio_sat/make_block.py
@@ -56,10 +56,10 @@ def prevent_parallel(grid: solver.Grid):
                 if tile_b is None:
                     continue
 
-                grid.clauses.append([-tile_a.underground[direction + 0], -tile_b.underground[direction + 0]])
-                grid.clauses.append([-tile_a.underground[direction + 2], -tile_b.underground[direction + 0]])
-                grid.clauses.append([-tile_a.underground[direction + 0], -tile_b.underground[direction + 2]])
-                grid.clauses.append([-tile_a.underground[direction + 2], -tile_b.underground[direction + 2]])
+                grid.clauses.append([-tile_a.underground[direction], -tile_b.underground[direction]])
+                grid.clauses.append([-tile_a.underground[direction.reverse], -tile_b.underground[direction]])
+                grid.clauses.append([-tile_a.underground[direction], -tile_b.underground[direction.reverse]])
+                grid.clauses.append([-tile_a.underground[direction.reverse], -tile_b.underground[direction.reverse]])
 
 
 def main():
-- 
2.43.0


From bd48445609ad3768927e6f303eaf128ec10b0d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:03 +0000
Subject: [PATCH 06/25] fix: calculate_optimal no longer loses its database
 when interrupted while saving

---
 factorio_sat/calculate_optimal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index fd337c9..2e58538 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -283,8 +283,11 @@ def main():
         data = {}
         for store in stores:
             data[store.network_name] = store.to_json()
-        with open(result_file, 'w') as f:
+        # Replace the database in one step, so that being interrupted cannot lose earlier results
+        temporary_file = result_file + '.tmp'
+        with open(temporary_file, 'w') as f:
             json.dump(data, f)
+        os.replace(temporary_file, result_file)
 
     if args.mode == 'query':
         if args.export_blueprints:
-- 
2.43.0


From 24ea4fe4fde9b6334e2007140a415f7806a0ad89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:02 +0000
Subject: [PATCH 07/25] fix: belt_balancer tries every position of the inputs
 and outputs

---
 factorio_sat/belt_balancer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/factorio_sat/belt_balancer.py b/factorio_sat/belt_balancer.py
index 474afcc..14dde68 100644
--- a/factorio_sat/belt_balancer.py
+++ b/factorio_sat/belt_balancer.py
@@ -44,9 +44,9 @@ def setup_balancer_ends_with_offsets(grid, network, start_offset: int, end_offse
 
 def setup_balancer_input(grid: Grid, tiles: Sequence[TileTemplate], direction: int, count: int, rest_empty: bool = True):
     assert count <= len(tiles)
-    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count)]
+    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count + 1)]
 
-    if len(offsets) == 0:
+    if len(offsets) == 1:
         for tile in tiles:
             grid.clauses += [[tile.input_direction[direction]]]
     else:
@@ -66,9 +66,9 @@ def setup_balancer_input(grid: Grid, tiles: Sequence[TileTemplate], direction: i
 
 def setup_balancer_output(grid: Grid, tiles: Sequence[TileTemplate], direction: int, count: int, rest_empty: bool = True):
     assert count <= len(tiles)
-    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count)]
+    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count + 1)]
 
-    if len(offsets) == 0:
+    if len(offsets) == 1:
         for tile in tiles:
             grid.clauses += [[tile.output_direction[direction]], [tile.is_belt]]
     else:
-- 
2.43.0


From 02fdea59762e4fb4d6e239dd076ef9e880de8d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:02 +0000
Subject: [PATCH 08/25] fix: belt_balancer no longer requires belts next to the
 inputs with --use-ends and --180

---
 factorio_sat/belt_balancer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/belt_balancer.py b/factorio_sat/belt_balancer.py
index 14dde68..d184239 100644
--- a/factorio_sat/belt_balancer.py
+++ b/factorio_sat/belt_balancer.py
@@ -59,7 +59,7 @@ def setup_balancer_input(grid: Grid, tiles: Sequence[TileTemplate], direction: i
                 elif rest_empty:
                     consequences += set_all_false(tile.all_direction)
                 else:
-                    consequences += [[-tile.input_direction[direction]], [tile.is_belt]]
+                    consequences += [[-tile.input_direction[direction]]]
             grid.clauses += implies([literal], consequences)
     return offsets
 
-- 
2.43.0


From 07deefaa413a81e5e61d047197f57fd403c8d75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:02 +0000
Subject: [PATCH 09/25] fix: adjacent splitters facing the same way are always
 connected

---
 factorio_sat/solver.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/factorio_sat/solver.py b/factorio_sat/solver.py
index e686613..ff18319 100644
--- a/factorio_sat/solver.py
+++ b/factorio_sat/solver.py
@@ -483,6 +483,13 @@ class Grid(FactorioGrid[TileTemplate, Dict[str, Any]]):
 
                 self.clauses += literals_same(tile_a.output_direction[direction], tile_b.input_direction[direction])
 
+                # A splitter directly behind another splitter is always connected to it
+                self.clauses.append([
+                    -tile_a.is_splitter, -tile_a.input_direction[direction],
+                    -tile_b.is_splitter, -tile_b.output_direction[direction],
+                    tile_a.output_direction[direction],
+                ])
+
                 # Handles special splitter output case
                 self.clauses += implies([tile_a.input_direction[direction], tile_a.is_splitter, -tile_b.is_splitter], [
                     [-tile_b.input_direction[direction.next], -tile_b.output_direction[direction.next]],
-- 
2.43.0


From 986dc23cccd026812f11124f573682cd9b6f400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:35 +0000
Subject: [PATCH 10/25] fix: an interrupted solver is an error rather than
 proof that there is no solution

---
 factorio_sat/template.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index e7997a5..a2cc9de 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -97,6 +97,13 @@ def run_command_solver(cmd: str, clauses: ClauseList) -> Optional[List[LiteralTy
             return interpret_solver_answer(process)
 
 
+def check_solved(solver) -> bool:
+    result = solver.solve()
+    if result is None:
+        raise RuntimeError('Solver was interrupted')
+    return result
+
+
 T = TypeVar('T')
 NestedArray = Union[T, List['NestedArray']]
 
@@ -409,7 +416,7 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                 s = Solver(name=solver, bootstrap_with=self.clauses)
 
             with s:
-                if s.solve():
+                if check_solved(s):
                     return self.parse_solution(s.get_model())
                 else:
                     return None
@@ -428,7 +435,7 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                 s = Solver(name=solver, bootstrap_with=self.clauses)
 
             with s:
-                while s.solve():
+                while check_solved(s):
                     solution = s.get_model()
                     yield self.parse_solution(solution)
 
-- 
2.43.0


From 663832e01789a6231e1cbf165b1c56afe9056f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:35 +0000
Subject: [PATCH 11/25] fix: reading a solution that leaves out unconstrained
 variables no longer crashes

---
 factorio_sat/template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index a2cc9de..610f1e2 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -396,7 +396,8 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
         return self.template.parse(tile, mapping)
 
     def parse_solution(self, solution: List[LiteralType]) -> np.ndarray:
-        mapping = {abs(lit): lit > 0 for lit in solution}
+        # Solvers can leave out variables that no clause mentions
+        mapping = collections.defaultdict(bool, {abs(lit): lit > 0 for lit in solution})
         return np.frompyfunc(functools.partial(self.parse_cell, mapping), 1, 1)(self.tiles)
 
     def check(self, solver: str = 'g3'):
-- 
2.43.0


From 8cc786043022ada79e2ae1dabae1a23dc166c591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:35 +0000
Subject: [PATCH 12/25] fix: make_block --tile --single-loop allows the loop to
 wrap into its first tile

---
 factorio_sat/make_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/make_block.py b/factorio_sat/make_block.py
index 196ced5..a33aadc 100644
--- a/factorio_sat/make_block.py
+++ b/factorio_sat/make_block.py
@@ -22,7 +22,7 @@ def ensure_loop_length(grid: solver.Grid):
             for direction in Direction:
                 dx, dy = direction.vec
                 tile_b = grid.get_tile_instance_offset(x, y, dx, dy)
-                x1, y1 = x + dx, y + dy
+                x1, y1 = (x + dx) % grid.width, (y + dy) % grid.height
 
                 if tile_b is None:
                     continue
-- 
2.43.0


From 916217e017f43730d12b77a1e6804078c4eda30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:25 +0000
Subject: [PATCH 13/25] fix: logarithmic at most one no longer requires at
 least one

---
 factorio_sat/cardinality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/cardinality.py b/factorio_sat/cardinality.py
index c5860b5..1852d31 100644
--- a/factorio_sat/cardinality.py
+++ b/factorio_sat/cardinality.py
@@ -18,7 +18,7 @@ def quadratic_amo(literals: List[LiteralType], _: Optional[AllocatorType] = None
 
 def logarithmic_amo(literals: List[LiteralType], allocator: AllocatorType) -> ClauseList:
     location_literals = [allocator() for _ in range(bin_length(len(literals)))]
-    clauses = [list(literals)]
+    clauses = []
     for i, lit in enumerate(literals):
         clauses += implies([lit], set_number(i, location_literals))
     return clauses
-- 
2.43.0


From 18b9c95eab0d9c2d653802fcfd76c843365750f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:00 +0000
Subject: [PATCH 14/25] fix: make_block --tile --single-loop allows the first
 tile to be an underground exit

---
 factorio_sat/make_block.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/factorio_sat/make_block.py b/factorio_sat/make_block.py
index a33aadc..5bc7133 100644
--- a/factorio_sat/make_block.py
+++ b/factorio_sat/make_block.py
@@ -40,10 +40,13 @@ def ensure_loop_length(grid: solver.Grid):
                     grid.clauses += implies([tile_a.output_direction[direction]], increment_number(tile_a.colour, tile_b.colour))
 
                 grid.clauses += implies([tile_a.input_direction[direction], *invert_components(tile_a.output_direction)],
-                                        increment_number(tile_a.colour, colour_b))
+                                        set_numbers_equal(tile_a.colour, colour_b))
 
-                grid.clauses += implies([*invert_components(tile_b.input_direction), tile_b.output_direction[direction]],
-                                        set_numbers_equal(colour_a, tile_b.colour))
+                is_exit = [*invert_components(tile_b.input_direction), tile_b.output_direction[direction]]
+                if x1 == 0 and y1 == 0:
+                    grid.clauses += implies(is_exit, set_number(grid.colours - 1, colour_a))
+                else:
+                    grid.clauses += implies(is_exit, increment_number(colour_a, tile_b.colour))
                 grid.clauses += implies([tile_a.underground[direction], tile_b.underground[direction]], set_numbers_equal(colour_a, colour_b))
 
 
-- 
2.43.0


From c02017a87b3833c0e6cd5c5dba032b122959b361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:41 +0000
Subject: [PATCH 15/25] fix: rotating or reflecting a layout turns the parts of
 assembling machines with it

---
 factorio_sat/tile.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/tile.py b/factorio_sat/tile.py
index 60087f7..70cd7ce 100644
--- a/factorio_sat/tile.py
+++ b/factorio_sat/tile.py
@@ -189,12 +189,18 @@ class Inserter(TransformableTile):
 
 
 @dataclass(frozen=True)
-class AssemblingMachine(BaseTile):
+class AssemblingMachine(TransformableTile):
     type_key: ClassVar[str] = 'assembling_machine'
 
     x: int
     y: int
 
+    def flip_x(self) -> 'AssemblingMachine':
+        return type(self)(2 - self.x, self.y)
+
+    def rotate_90(self) -> 'AssemblingMachine':
+        return type(self)(self.y, 2 - self.x)
+
     def __post_init__(self):
         assert 0 <= self.x < 3
         assert 0 <= self.y < 3
-- 
2.43.0


From c67000084bf240885f6a7ef5574271b3894ae899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:41 +0000
Subject: [PATCH 16/25] fix: decoding a blueprint without entities gives an
 empty layout

---
 factorio_sat/blueprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/blueprint.py b/factorio_sat/blueprint.py
index 676e9e6..4c15921 100644
--- a/factorio_sat/blueprint.py
+++ b/factorio_sat/blueprint.py
@@ -295,7 +295,7 @@ def main():
     elif args.mode == 'decode':
         while True:
             decoded = decode_blueprint(input())
-            tiles = np.vectorize(write_tile)(import_blueprint(decoded))
+            tiles = np.vectorize(write_tile, otypes=[object])(import_blueprint(decoded))
             print(json.dumps(tiles.tolist()))
     else:
         assert False
-- 
2.43.0


From d09b3a962810d6667f36d12ae0bda2d200dd42f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:09 +0000
Subject: [PATCH 17/25] fix: packing the same blueprint twice numbers each of
 its copies

---
 factorio_sat/blueprint_book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/blueprint_book.py b/factorio_sat/blueprint_book.py
index fe1aced..9b0b625 100644
--- a/factorio_sat/blueprint_book.py
+++ b/factorio_sat/blueprint_book.py
@@ -16,7 +16,7 @@ def pack_book(blueprints, label=None):
     if label is not None:
         blueprint_book['blueprint_book']['label'] = label
 
-    blueprints = list(copy.deepcopy(blueprints))
+    blueprints = [copy.deepcopy(item) for item in blueprints]
 
     for i, item in enumerate(blueprints):
         item['index'] = i
-- 
2.43.0


From 0d42750f46febc371fe812249c03154ed968a41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:38 +0000
Subject: [PATCH 18/25] fix: parsing a layout copes with splitter sides next to
 tiles that carry no belt

---
 factorio_sat/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index b6b1e4d..34a46ff 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -9,7 +9,7 @@ from typing import Tuple
 import numpy as np
 from pysat.solvers import Solver
 
-from .tile import Belt, EmptyTile, FillerTile, Splitter, UndergroundBelt
+from .tile import Belt, BeltConnectedTile, EmptyTile, FillerTile, Splitter, UndergroundBelt
 from .util import bin_length, get_popcount, read_number, set_not_number
 from . import blueprint
 
@@ -620,7 +620,7 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
                     continue
 
                 offset_tile = tiles[pos]
-                if offset_tile is None:
+                if not isinstance(offset_tile, BeltConnectedTile):
                     node[-1].append(None)
                     continue
 
-- 
2.43.0


From 4853c44f15cb6bc5e23299516b248add0cf0a393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:24 +0000
Subject: [PATCH 19/25] fix: a solver's answer that is cut off is an error
 rather than a solution

---
 factorio_sat/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index 610f1e2..35dd772 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -63,7 +63,7 @@ def run_command_solver(cmd: str, clauses: ClauseList) -> Optional[List[LiteralTy
         while True:
             line = result.readline()
             if len(line) == 0:
-                break
+                raise RuntimeError('Solver output ended before the end of the solution')
             if line.startswith('c'):
                 print(line, file=sys.stderr, end='')
                 continue
-- 
2.43.0


From e032291430fa37ede10218ca5b8a396289685c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:08 +0000
Subject: [PATCH 20/25] fix: list every solution with a command solver

With a cmd: solver, --all ended after the first solution without saying so.
---
 factorio_sat/template.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index 35dd772..fdb9ed7 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -424,10 +424,14 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
 
     def itersolve(self, important_variables=set(), solver: str = 'g3') -> Iterator[np.ndarray]:
         if solver.startswith('cmd:'):
-            solution = run_command_solver(solver[4:], self.clauses)
-            if solution is None:
-                return
-            yield self.parse_solution(solution)
+            clauses = list(self.clauses)
+            while True:
+                solution = run_command_solver(solver[4:], clauses)
+                if solution is None:
+                    return
+                yield self.parse_solution(solution)
+
+                clauses.append([-lit for lit in solution if abs(lit) in important_variables])
         else:
             if solver.startswith('lib:'):
                 s = IPASIRLibrary(solver[4:]).create_solver()
-- 
2.43.0


From 92d3fad4b825f3784340804acec1d728d8bc83a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:38 +0000
Subject: [PATCH 21/25] fix: connect the input and output when drawing a
 network that feeds back into them

---
 factorio_sat/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index 34a46ff..d5a2b6b 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -100,7 +100,7 @@ def plot(network, filename=None, engine='dot'):
     for colour, occurences in colour_occurences.items():
         output_count = sum(side == OUTPUT_SIDE for side, _ in occurences)
         input_count = sum(side == INPUT_SIDE for side, _ in occurences)
-        if input_count == 1 and output_count == 1:
+        if input_count == 1 and output_count == 1 and colour not in (network_input_colour, network_output_colour):
             node_a, node_b = [colour for _, colour in sorted(occurences)]
             g.edge(str(node_a), str(node_b), label=str(colour))
         else:
-- 
2.43.0


From 5641cacb31466eaf92d2c7622f3ce56c04e66c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:30 +0000
Subject: [PATCH 22/25] fix: draw inserters

Directions are not integers, so the viewer raised TypeError on every layout with an inserter.
---
 factorio_sat/render.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/render.py b/factorio_sat/render.py
index 34fdd2e..fe79f9e 100644
--- a/factorio_sat/render.py
+++ b/factorio_sat/render.py
@@ -153,7 +153,7 @@ def render_tile(tile: BaseTile, animation: int, layer: RenderLayer):
         if layer == RenderLayer.BOTTOM:
             glPushMatrix()
             glTranslatef(-(8 + 1.5)/32, (8 - (7.5 - 1))/32, 0)
-            tilemaps.INSERTER_PLATFORM[tile.type].render((1 - tile.direction) % 4, 0)
+            tilemaps.INSERTER_PLATFORM[tile.type].render((1 - tile.direction.value) % 4, 0)
             glPopMatrix()
         elif layer == RenderLayer.TOP:
             # Good enough
@@ -176,7 +176,7 @@ def render_tile(tile: BaseTile, animation: int, layer: RenderLayer):
             if t < 0:
                 interior_angle *= -1
 
-            base_angle = 90 * (2 - tile.direction) + interior_angle
+            base_angle = 90 * (2 - tile.direction.value) + interior_angle
 
             glPushMatrix()
 
-- 
2.43.0


From bd360242212140a2f43e716e2c670bded00709c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:30 +0000
Subject: [PATCH 23/25] fix: show elements of list attributes in the viewer

--show-raw underground.0 looked the index up in the tile instead of in the attribute.
---
 factorio_sat/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/render.py b/factorio_sat/render.py
index fe79f9e..db63c1c 100644
--- a/factorio_sat/render.py
+++ b/factorio_sat/render.py
@@ -350,7 +350,7 @@ def render_attributes(solution, font, names: List[str]):
                 sub_item = item
                 for piece in name.split('.'):
                     try:
-                        sub_item = item[int(piece)]
+                        sub_item = sub_item[int(piece)]
                         continue
                     except ValueError:
                         pass
-- 
2.43.0


From 0e4e5fc8dce2dcd632d4a479279419d61e766494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:06 +0000
Subject: [PATCH 24/25] fix: read networks with very long belts

---
 factorio_sat/network.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index d5a2b6b..5b6d20c 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -561,23 +561,21 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
             raise RuntimeError(f'Unknown tile type: {tile}')
 
     def trace(colour: int, pos: Tuple[int, int], is_forward: bool):
-        if pos[0] < 0 or pos[0] >= tiles.shape[0] or pos[1] < 0 or pos[1] >= tiles.shape[1]:
-            return
+        while pos[0] >= 0 and pos[0] < tiles.shape[0] and pos[1] >= 0 and pos[1] < tiles.shape[1]:
+            tile = tiles[pos]
+            if tile == EmptyTile():
+                return
 
-        tile = tiles[pos]
-        if tile == EmptyTile():
-            return
-
-        if isinstance(tile, Splitter):
-            return
+            if isinstance(tile, Splitter):
+                return
 
-        if colour_mapping[pos] is not None:
-            assert colour_mapping[pos] == colour
-            return
+            if colour_mapping[pos] is not None:
+                assert colour_mapping[pos] == colour
+                return
 
-        colour_mapping[pos] = colour
+            colour_mapping[pos] = colour
 
-        trace(colour, next_tile(pos, is_forward), is_forward)
+            pos = next_tile(pos, is_forward)
 
     for x, row in enumerate(tiles):
         for y, tile in enumerate(row):
-- 
2.43.0


From 201f9b7c17e838fe81622e9b71045e2ec24ccf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:06 +0000
Subject: [PATCH 25/25] fix: no 2 by 2 loops across the edges of tilable blocks

---
 factorio_sat/optimisations.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/factorio_sat/optimisations.py b/factorio_sat/optimisations.py
index d3bdb64..2aba39e 100644
--- a/factorio_sat/optimisations.py
+++ b/factorio_sat/optimisations.py
@@ -41,12 +41,15 @@ def prevent_empty_along_underground(grid: Grid):
 
 
 def prevent_small_loops(grid: Grid):
-    for x in range(grid.width - 1):
-        for y in range(grid.height - 1):
-            tile00 = grid.get_tile_instance(x + 0, y + 0)
-            tile01 = grid.get_tile_instance(x + 0, y + 1)
-            tile10 = grid.get_tile_instance(x + 1, y + 0)
-            tile11 = grid.get_tile_instance(x + 1, y + 1)
+    for x in range(grid.width):
+        for y in range(grid.height):
+            tile00 = grid.get_tile_instance_offset(x, y, 0, 0)
+            tile01 = grid.get_tile_instance_offset(x, y, 0, 1)
+            tile10 = grid.get_tile_instance_offset(x, y, 1, 0)
+            tile11 = grid.get_tile_instance_offset(x, y, 1, 1)
+
+            if any(tile is None for tile in (tile00, tile01, tile10, tile11)):
+                continue
 
             grid.clauses.append([
                 -tile00.input_direction[2],
-- 
2.43.0

