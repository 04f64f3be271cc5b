From 3fefd6360326f8563d0ee72d7f02446607babaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:59 +0000
Subject: [PATCH 01/44] fix: close the gzip stream in Map.write so that the
 file is complete

---
 redeclipse/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 3f67c1f..287b340 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -143,6 +143,7 @@ class Map:
         # self.pbar_1 = tqdm(total=8)
         self._savechildren(handle, self.world)
         self.pbar_0.close()
+        handle.close()
         # self.pbar_1.close()
 
     def _write_custom(self, handle, fmt, data):
-- 
2.43.0


From 5b6775fcad41eca474a3424595b2a2aeb0ec3388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:59 +0000
Subject: [PATCH 02/44] fix: write single byte fields of 128 and more as one
 byte

---
 redeclipse/__init__.py          | 2 +-
 redeclipse/entities/__init__.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 287b340..8a0aea1 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -153,7 +153,7 @@ class Map:
         handle.write(struct.pack('B', char))
 
     def _write_int_as_chr(self, handle, data):
-        handle.write(struct.pack('c', str.encode(chr(data))))
+        handle.write(struct.pack('B', data))
 
     def _write_int(self, handle, value):
         if isinstance(value, int):
diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index f023699..bb87c3c 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -60,8 +60,8 @@ class Entity:
         )
 
     def serialize(self):
-        return [self.o.x, self.o.y, self.o.z, str.encode(chr(self.type.value))] + \
-            [str.encode(chr(x)) for x in self.reserved]
+        return [self.o.x, self.o.y, self.o.z, bytes([self.type.value])] + \
+            [bytes([x]) for x in self.reserved]
 
     def to_dict(self):
         data = {
-- 
2.43.0


From 55e1328d9e46cdd3401a22decb58d3aaffa3ec3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:59 +0000
Subject: [PATCH 03/44] fix: reject unknown octree tags instead of reading on
 from a wrong position

---
 redeclipse/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 8a0aea1..9f4cd76 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -479,8 +479,8 @@ class MapParser(object):
         elif octsav & 0x7 == OCT.OCTSAV_LODCUBE.value:
             c.haschildren = True
         else:
-            failed = True
-            return failed, c
+            # Cannot recover
+            raise Exception("Don't know how to handle octree tag %s" % octsav)
 
         c.texture = []
         for i in range(6):
-- 
2.43.0


From 87b62ac070701483e73ea3890f5f0b7160219d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:59 +0000
Subject: [PATCH 04/44] fix: write the number of map variables actually present

---
 redeclipse/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 9f4cd76..3698dc6 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -98,6 +98,7 @@ class Map:
         self._write_int(handle, self.headersize)
         # Write the header block
         self.meta['numents'] = len(self.ents)
+        self.meta['numvars'] = len(self.map_vars)
         for key in self.meta:
             if key in ('gameident', 'skybox', 'z'):
                 self._write_str(handle, tb(self.meta[key]))
-- 
2.43.0


From 06ecbfdcca1d81856bf743caaf3b135de01f102a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:59 +0000
Subject: [PATCH 05/44] fix: store the skybox as a map variable, not as an
 extra header string

---
 redeclipse/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index 3698dc6..e104219 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -330,7 +330,7 @@ class Map:
         Attach a skybox to the map
         """
         # pass
-        self.meta['skybox'] = sb.get_short_path()
+        self.map_vars[b'skybox'] = tb(sb.get_short_path())
 
 
 class MapParser(object):
-- 
2.43.0


From 49eeca1e927031bf7caa1ec6ebd68050ddab3c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:59 +0000
Subject: [PATCH 06/44] fix: keep the first root octant's own tag when writing
 generated maps

---
 redeclipse/cli/__init__.py    | 1 -
 redeclipse/cli/perlin.py      | 1 -
 redeclipse/cli/rooms.py       | 1 -
 redeclipse/cli/snow_forest.py | 1 -
 4 files changed, 4 deletions(-)

diff --git a/redeclipse/cli/__init__.py b/redeclipse/cli/__init__.py
index f6ce541..341841e 100644
--- a/redeclipse/cli/__init__.py
+++ b/redeclipse/cli/__init__.py
@@ -32,7 +32,6 @@ def output(v, mymap, upm, prefabs, args):
                 handle.write(line + '\n')
 
         mymap.world = v.to_octree()
-        mymap.world[0].octsav = 0
         mymap.write(args.mpz_out.name)
 
     if args.graph:
diff --git a/redeclipse/cli/perlin.py b/redeclipse/cli/perlin.py
index 999ccdc..31b79a2 100644
--- a/redeclipse/cli/perlin.py
+++ b/redeclipse/cli/perlin.py
@@ -73,7 +73,6 @@ def main():
                     v.set_point(i, j, k, cube.newtexcube(tex=q))
 
     mymap.world = v.to_octree()
-    mymap.world[0].octsav = 0
     mymap.write(args.output)
 
 
diff --git a/redeclipse/cli/rooms.py b/redeclipse/cli/rooms.py
index f5b9811..fd64796 100644
--- a/redeclipse/cli/rooms.py
+++ b/redeclipse/cli/rooms.py
@@ -83,7 +83,6 @@ def main(mpz_in, mpz_out, size=2**7, seed=42, rooms=200, debug=False, magica=Non
         print('voxel')
 
     mymap.world = v.to_octree()
-    mymap.world[0].octsav = 0
     mymap.write(mpz_out.name)
 
 
diff --git a/redeclipse/cli/snow_forest.py b/redeclipse/cli/snow_forest.py
index 4b923b2..e6d400b 100644
--- a/redeclipse/cli/snow_forest.py
+++ b/redeclipse/cli/snow_forest.py
@@ -140,7 +140,6 @@ def main():
                 mymap.ents.append(rock)
 
     mymap.world = v.to_octree()
-    mymap.world[0].octsav = 0
     mymap.write(args.output)
 
 
-- 
2.43.0


From bbdbfc161628e04dc9f5278f1b92370de9767075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:16 +0000
Subject: [PATCH 07/44] fix: the first attribute of a player start is a team,
 not a weapon

---
 redeclipse/entities/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index bb87c3c..f9df349 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -15,7 +15,6 @@ class Entity:
                 'type', 'flags', 'modes', 'muts', 'id'
             ]
         elif self.type == EntType.ET_PLAYERSTART:
-            self.attrs[0] = WeaponType(self.attrs[0])
             self.attr_annotations = [
                 'team', 'yaw', 'pitch', 'modes', 'muts', 'id'
             ]
-- 
2.43.0


From b8623fb5f53761d3ee1ddc71c53c491e66196765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:16 +0000
Subject: [PATCH 08/44] fix: Entity.from_dict passes the position the
 constructor expects

---
 redeclipse/entities/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index f9df349..a6d0dab 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -1,3 +1,4 @@
+from redeclipse.vector import FineVector
 from redeclipse.vector.re import ivec3
 from redeclipse.enums import EntType, WeaponType
 
@@ -85,9 +86,7 @@ class Entity:
     def from_dict(cls, d):
         attrs = [d['attr'][x] if isinstance(d['attr'][x], int) else WeaponType[d['attr'][x]] for x in d['attr']['_order']]
         e = Entity(
-            x=d['position'][0],
-            y=d['position'][1],
-            z=d['position'][2],
+            xyz=FineVector(*d['position']) / 4,
             type=EntType[d['type']],
             attrs=attrs,
             links=d['links'],
-- 
2.43.0


From 08826b21f81938fe2d50d183da61629cd5865527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:16 +0000
Subject: [PATCH 09/44] fix: give MapModel its attribute names so that it can
 be exported

---
 redeclipse/entities/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/redeclipse/entities/model.py b/redeclipse/entities/model.py
index 9708c1c..057b34f 100644
--- a/redeclipse/entities/model.py
+++ b/redeclipse/entities/model.py
@@ -11,6 +11,11 @@ class MapModel(Entity):
 
         self.o = ivec3(*(xyz * 4))
         self.type = EntType.ET_MAPMODEL
+        self.attr_annotations = [
+            'type', 'yaw', 'pitch', 'roll', 'blend', 'scale', 'flags',
+            'colour', 'palette', 'palindex', 'spinyaw', 'spinpitch',
+            'spinroll'
+        ]
         self.attrs = [
             type, yaw, pitch, roll, blend, scale, flags, colour, palette,
             palindex, spinyaw, spinpitch, spinroll
-- 
2.43.0


From e659065392563f1791c7ee60a142c41e6be578b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:16 +0000
Subject: [PATCH 10/44] fix: weapon entities hold a WeaponType, as to_dict
 expects

---
 redeclipse/entities/weapon.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redeclipse/entities/weapon.py b/redeclipse/entities/weapon.py
index 85592c1..594d73b 100644
--- a/redeclipse/entities/weapon.py
+++ b/redeclipse/entities/weapon.py
@@ -1,6 +1,6 @@
 from redeclipse.entities import Entity
 from redeclipse.vector.re import ivec3
-from redeclipse.enums import EntType
+from redeclipse.enums import EntType, WeaponType
 
 
 class Weapon(Entity):
@@ -14,7 +14,7 @@ class Weapon(Entity):
             'type', 'flags', 'modes', 'muts', 'id'
         ]
         self.attrs = [
-            type, flags, modes, muts, id
+            WeaponType(type), flags, modes, muts, id
         ]
         self.links = [] if links is None else links
         self.reserved = [0, 0, 0] if reserved is None else reserved
@@ -31,7 +31,7 @@ class Grenade(Entity):
             'type', 'flags', 'modes', 'muts', 'id'
         ]
         self.attrs = [
-            9, flags, modes, muts, id
+            WeaponType.GRENADE, flags, modes, muts, id
         ]
         self.links = [] if links is None else links
         self.reserved = [0, 0, 0] if reserved is None else reserved
@@ -48,7 +48,7 @@ class Shotgun(Entity):
             'type', 'flags', 'modes', 'muts', 'id'
         ]
         self.attrs = [
-            3, flags, modes, muts, id
+            WeaponType.SHOTGUN, flags, modes, muts, id
         ]
         self.links = [] if links is None else links
         self.reserved = [0, 0, 0] if reserved is None else reserved
-- 
2.43.0


From e45b09a0e376f908c5d65a54a688596d1693c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:16 +0000
Subject: [PATCH 11/44] fix: place every kind of entity from coarse positions
 too

---
 redeclipse/entities/__init__.py | 5 +++--
 redeclipse/entities/model.py    | 3 ++-
 redeclipse/entities/weapon.py   | 9 ++++++---
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/redeclipse/entities/__init__.py b/redeclipse/entities/__init__.py
index a6d0dab..9ff169b 100644
--- a/redeclipse/entities/__init__.py
+++ b/redeclipse/entities/__init__.py
@@ -97,8 +97,9 @@ class Entity:
 
 class PlayerSpawn(Entity):
 
-    def __init__(self, xyz=(0, 0, 0), team=0, yaw=0, pitch=0, modes=0, muts=0, id=0, links=None, reserved=None):
-        self.o = ivec3(*(xyz * 4))
+    def __init__(self, xyz=FineVector(0, 0, 0), team=0, yaw=0, pitch=0, modes=0, muts=0, id=0, links=None, reserved=None):
+        xyz = xyz.fine() * 4
+        self.o = ivec3(*xyz)
         self.type = EntType.ET_PLAYERSTART
         self.attr_annotations = [
             'team', 'yaw', 'pitch', 'modes', 'muts', 'id'
diff --git a/redeclipse/entities/model.py b/redeclipse/entities/model.py
index 057b34f..57ce9c8 100644
--- a/redeclipse/entities/model.py
+++ b/redeclipse/entities/model.py
@@ -9,7 +9,8 @@ class MapModel(Entity):
                  scale=0, flags=0, colour=0, palette=0, palindex=0, spinyaw=0,
                  spinpitch=0, spinroll=0, links=None, reserved=None):
 
-        self.o = ivec3(*(xyz * 4))
+        xyz = xyz.fine() * 4
+        self.o = ivec3(*xyz)
         self.type = EntType.ET_MAPMODEL
         self.attr_annotations = [
             'type', 'yaw', 'pitch', 'roll', 'blend', 'scale', 'flags',
diff --git a/redeclipse/entities/weapon.py b/redeclipse/entities/weapon.py
index 594d73b..28df5ff 100644
--- a/redeclipse/entities/weapon.py
+++ b/redeclipse/entities/weapon.py
@@ -8,7 +8,8 @@ class Weapon(Entity):
     def __init__(self, xyz, type=0, flags=0, modes=0, muts=0, id=0,
                  links=None, reserved=None):
 
-        self.o = ivec3(*(xyz * 4))
+        xyz = xyz.fine() * 4
+        self.o = ivec3(*xyz)
         self.type = EntType.ET_WEAPON
         self.attr_annotations = [
             'type', 'flags', 'modes', 'muts', 'id'
@@ -25,7 +26,8 @@ class Grenade(Entity):
     def __init__(self, xyz, flags=0, modes=0, muts=0, id=0,
                  links=None, reserved=None):
 
-        self.o = ivec3(*(xyz * 4))
+        xyz = xyz.fine() * 4
+        self.o = ivec3(*xyz)
         self.type = EntType.ET_WEAPON
         self.attr_annotations = [
             'type', 'flags', 'modes', 'muts', 'id'
@@ -42,7 +44,8 @@ class Shotgun(Entity):
     def __init__(self, xyz, flags=0, modes=0, muts=0, id=0,
                  links=None, reserved=None):
 
-        self.o = ivec3(*(xyz * 4))
+        xyz = xyz.fine() * 4
+        self.o = ivec3(*xyz)
         self.type = EntType.ET_WEAPON
         self.attr_annotations = [
             'type', 'flags', 'modes', 'muts', 'id'
-- 
2.43.0


From f5a87bdee5eeb8e0bcb0f6855abdf430cd4e8ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:40 +0000
Subject: [PATCH 12/44] fix: PoleRoom asks for whole random numbers

---
 redeclipse/prefabs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index a10de65..fc49db3 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -652,7 +652,7 @@ class PoleRoom(_LargeRoom):
                         length = FineVector(1, 1, 8 * self._height)
                         voff = ABOVE_FINE
                     else:
-                        offset = random.randint(1, 8 * self._height / 2)
+                        offset = random.randint(1, 8 * self._height // 2)
                         length = FineVector(1, 1, (8 * self._height) - (2 * offset))
                         voff = (ABOVE_FINE * offset)
 
-- 
2.43.0


From e2571a5c76947320044b1577a3aa90440d3ab0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:40 +0000
Subject: [PATCH 13/44] fix: low ImposingRingRooms no longer clear voxels of
 the room above

---
 redeclipse/prefabs/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index fc49db3..aa2d9ab 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -764,10 +764,12 @@ class ImposingRingRoom(_LargeRoom):
             for i in range(2, self._height * 8 - 1, 2):
                 self.x('ring', world, FineVector(-2, -2, i), 12, tex=accent_tex)
 
-        self.x('rectangular_prism', world, FineVector(-4, 2, 1), FineVector(3, 4, 8), subtract=True)
-        self.x('rectangular_prism', world, FineVector(2, -4, 1), FineVector(4, 3, 8), subtract=True)
-        self.x('rectangular_prism', world, FineVector(9, 2, 1), FineVector(3, 4, 8), subtract=True)
-        self.x('rectangular_prism', world, FineVector(2, 9, 1), FineVector(4, 3, 8), subtract=True)
+        # Cut passages through the rings, without cutting into whatever is above us.
+        height = min(8, (8 * self._height) - 1)
+        self.x('rectangular_prism', world, FineVector(-4, 2, 1), FineVector(3, 4, height), subtract=True)
+        self.x('rectangular_prism', world, FineVector(2, -4, 1), FineVector(4, 3, height), subtract=True)
+        self.x('rectangular_prism', world, FineVector(9, 2, 1), FineVector(3, 4, height), subtract=True)
+        self.x('rectangular_prism', world, FineVector(2, 9, 1), FineVector(4, 3, height), subtract=True)
 
     def light(self, xmap):
         LIGHTMAN.light(xmap, self.pos + NORTH + HALF_HEIGHT + TILE_CENTER)
-- 
2.43.0


From cba203d204d5beb990daf2bfe4ab18dc32314db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:40 +0000
Subject: [PATCH 14/44] fix: turn the boundary additions of voxel rooms only
 once

---
 redeclipse/prefabs/magica.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/magica.py b/redeclipse/prefabs/magica.py
index 5e6ace0..907f565 100644
--- a/redeclipse/prefabs/magica.py
+++ b/redeclipse/prefabs/magica.py
@@ -18,7 +18,7 @@ class MagicaRoom(Room):
     ]
 
     def __init__(self, pos, roof=False, orientation=EAST, randflags=None):
-        self._off = FineVector(self.boundary_additions.get('WEST', 0), self.boundary_additions.get('SOUTH', 0), 0).rotate(orientation)
+        self._off = FineVector(self.boundary_additions.get('WEST', 0), self.boundary_additions.get('SOUTH', 0), 0)
         self.orientation = orientation
         self.pos = CoarseVector(*pos)
         if randflags:
-- 
2.43.0


From 5bd5dbed37cf1d8e007aa1496d756ef5c038f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:40 +0000
Subject: [PATCH 15/44] fix: turn pushers and trees about the centre of their
 cell, like the blocks around them

---
 redeclipse/prefabs/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index aa2d9ab..a24526a 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -318,14 +318,14 @@ class JumpCorridor3(Room):
         (a, b, c) = self.pos
 
         pusher_a = Pusher(
-            xyz=self.pos + FineVector(7, 4, 1).rotate(self.orientation),
+            xyz=self.pos + FineVector(7, 4, 1).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             maxrad=15 * SIZE_OFFSET,
             yaw=rotate_yaw(270, self.orientation),
             force=175 * SIZE_OFFSET,
         )
 
         pusher_b = Pusher(
-            xyz=self.pos + (EAST + EAST + FineVector(1, 4, 1)).rotate(self.orientation),
+            xyz=self.pos + (EAST + EAST + FineVector(1, 4, 1)).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             maxrad=15 * SIZE_OFFSET,
             yaw=rotate_yaw(90, self.orientation),
             force=175 * SIZE_OFFSET,
@@ -380,7 +380,7 @@ class JumpCorridorVertical(Room):
         self.light(xmap)
 
         pusher_a = Pusher(
-            xyz=self.pos + FineVector(5, 4, 1).rotate(self.orientation),
+            xyz=self.pos + FineVector(5, 4, 1).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             pitch=74,
             yaw=rotate_yaw(270, self.orientation),
             force=400 * SIZE_OFFSET,
@@ -388,7 +388,7 @@ class JumpCorridorVertical(Room):
         xmap.ents.append(pusher_a)
 
         pusher_b = Pusher(
-            xyz=self.pos + FineVector(6, 4, 17).rotate(self.orientation),
+            xyz=self.pos + FineVector(6, 4, 17).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             pitch=40,
             yaw=rotate_yaw(90, self.orientation),
             force=200 * SIZE_OFFSET,
@@ -469,7 +469,7 @@ class JumpCorridorVerticalCenter(JumpCorridorVertical):
             force = 700 * SIZE_OFFSET
 
         pusher_a = Pusher(
-            xyz=self.pos + FineVector(4, 4, 1).rotate(self.orientation),
+            xyz=self.pos + FineVector(4, 4, 1).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             pitch=90,
             maxrad=5,
             yaw=rotate_yaw(0, self.orientation),
@@ -812,7 +812,7 @@ class AltarRoom(_3X3Room):
 
         if self._randflags[0]:
             tree = MapModel(
-                xyz=self.pos + FineVector(4, 4, 3).rotate(self.orientation),
+                xyz=self.pos + FineVector(4, 4, 3).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
                 yaw=rotate_yaw(270, self.orientation),
                 type=124
             )
-- 
2.43.0


From ffee1e2a0b39b618831a84d1a061e1612164260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:01 +0000
Subject: [PATCH 16/44] fix: turn the pusher of station_tube_jumpx about the
 centre of its cell

---
 redeclipse/prefabs/spacestation/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/spacestation/__init__.py b/redeclipse/prefabs/spacestation/__init__.py
index cd335d1..9ff4c1c 100644
--- a/redeclipse/prefabs/spacestation/__init__.py
+++ b/redeclipse/prefabs/spacestation/__init__.py
@@ -264,7 +264,7 @@ class station_tube_jumpx(MagicaRoom):
         LIGHTMAN.light(xmap, self.pos + (EAST + NORTH + ABOVE).rotate(self.orientation), size_factor=2)
 
         pusher_a = Pusher(
-            xyz=self.pos + (EAST + NORTH + FineVector(4, 5, 12)).rotate(self.orientation),
+            xyz=self.pos + (EAST + NORTH + FineVector(4, 5, 12)).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
             pitch=90,
             maxrad=1,
             yaw=rotate_yaw(0, self.orientation),
-- 
2.43.0


From b4547d4d8bff40fc665549eb90ac0baf6c56d64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:01 +0000
Subject: [PATCH 17/44] fix: LightManager.light accepts positions that need no
 centring

---
 redeclipse/lighting/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redeclipse/lighting/__init__.py b/redeclipse/lighting/__init__.py
index 03eb654..cb41a34 100644
--- a/redeclipse/lighting/__init__.py
+++ b/redeclipse/lighting/__init__.py
@@ -37,6 +37,7 @@ class LightManager:
 
         :param boolean autocenter: Automatically add FineVector(4, 4, 4) to the position
         """
+        pos = position
         if autocenter:
             pos = position + TILE_CENTER + HALF_HEIGHT
 
-- 
2.43.0


From 8aa05d3591a15f73fa2bae8139ad393edbdbc0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:01 +0000
Subject: [PATCH 18/44] fix: turn the light of large rooms with the room, not
 with the whole map

---
 redeclipse/prefabs/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index a24526a..6859a22 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -615,8 +615,8 @@ class _LargeRoom(_3X3Room):
         h = 6
         if self._height > 1:
             h = 12
-        position = self.pos + NORTH + TILE_CENTER + FineVector(0, 0, h)
-        LIGHTMAN.light(xmap, position.rotate(self.orientation))
+        position = self.pos + NORTH.rotate(self.orientation) + TILE_CENTER + FineVector(0, 0, h)
+        LIGHTMAN.light(xmap, position, autocenter=False)
 
 
 class PoleRoom(_LargeRoom):
-- 
2.43.0


From 8a5ecf3c4e6cc8f0926ae3c6024719d7518d45b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:01 +0000
Subject: [PATCH 19/44] fix: centre the light of ImposingRingRoom once and turn
 it with the room

---
 redeclipse/prefabs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index 6859a22..9b7ccb0 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -772,7 +772,7 @@ class ImposingRingRoom(_LargeRoom):
         self.x('rectangular_prism', world, FineVector(2, 9, 1), FineVector(4, 3, height), subtract=True)
 
     def light(self, xmap):
-        LIGHTMAN.light(xmap, self.pos + NORTH + HALF_HEIGHT + TILE_CENTER)
+        LIGHTMAN.light(xmap, self.pos + NORTH.rotate(self.orientation))
 
 
 class AltarRoom(_3X3Room):
-- 
2.43.0


From 9841b7e561f6e497eef94bb98bc13b0067c117d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:01 +0000
Subject: [PATCH 20/44] fix: CrossingWalkways puts its lights in the room, not
 at the map origin

---
 redeclipse/prefabs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index 9b7ccb0..fefe538 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -900,7 +900,7 @@ class CrossingWalkways(_LargeRoom):
 
     def light(self, xmap):
         for i in range(self._height):
-            LIGHTMAN.light(xmap, SELF + (ABOVE * i))
+            LIGHTMAN.light(xmap, self.pos + (ABOVE * i))
 
 
 class PlusPlatform(_LargeRoom):
-- 
2.43.0


From f45f817e2bc2f12f890a58400d27a33d8c058c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:33 +0000
Subject: [PATCH 21/44] fix: keep the lights of three voxel rooms inside the
 room

---
 redeclipse/prefabs/castle/__init__.py       | 5 ++---
 redeclipse/prefabs/spacestation/__init__.py | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/redeclipse/prefabs/castle/__init__.py b/redeclipse/prefabs/castle/__init__.py
index 06cf242..ce0accd 100644
--- a/redeclipse/prefabs/castle/__init__.py
+++ b/redeclipse/prefabs/castle/__init__.py
@@ -91,8 +91,8 @@ class castle_gate_simple(MagicaRoom):
     ]
 
     def render_extra(self, world, xmap):
-        LIGHTMAN.light(xmap, self.pos + (EAST + NORTH).rotate(self.orientation))
-        LIGHTMAN.light(xmap, self.pos + (EAST + NORTH + ABOVE).rotate(self.orientation))
+        LIGHTMAN.light(xmap, self.pos + EAST.rotate(self.orientation))
+        LIGHTMAN.light(xmap, self.pos + (EAST + ABOVE).rotate(self.orientation))
 
 
 class castle_large(MagicaRoom):
@@ -206,7 +206,6 @@ class castle_wall_section_endcap(MagicaRoom):
 
     def render_extra(self, world, xmap):
         LIGHTMAN.light(xmap, self.pos + ABOVE)
-        LIGHTMAN.light(xmap, self.pos + (EAST + EAST + ABOVE).rotate(self.orientation))
 
 
 class castle_wall_section_long(MagicaRoom):
diff --git a/redeclipse/prefabs/spacestation/__init__.py b/redeclipse/prefabs/spacestation/__init__.py
index 9ff4c1c..66d3e6a 100644
--- a/redeclipse/prefabs/spacestation/__init__.py
+++ b/redeclipse/prefabs/spacestation/__init__.py
@@ -224,7 +224,7 @@ class station_tube3(MagicaRoom):
     ]
 
     def render_extra(self, world, xmap):
-        LIGHTMAN.light(xmap, self.pos + (ABOVE + EAST).rotate(self.orientation), size_factor=2)
+        LIGHTMAN.light(xmap, self.pos + EAST.rotate(self.orientation), size_factor=2)
 
 
 class station_tube3layered(MagicaRoom):
-- 
2.43.0


From 2bf4cda273bf422accceadaff265e5ff6ba23723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:33 +0000
Subject: [PATCH 22/44] fix: keep the light of low PoleRooms inside the room

---
 redeclipse/prefabs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index fefe538..cd45960 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -660,7 +660,7 @@ class PoleRoom(_LargeRoom):
 
     def light(self, xmap):
         light = Light(
-            xyz=self.pos + FineVector(3, 4, 10),
+            xyz=self.pos + FineVector(3, 4, 5 * self._height),
             red=255,
             green=255,
             blue=255,
-- 
2.43.0


From 2f3a38174209f5d5538f7fd2f5f2c6e9b8344e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:06 +0000
Subject: [PATCH 23/44] fix: 3x3 rooms keep the flags they are given

---
 redeclipse/prefabs/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index cd45960..bc1843f 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -138,6 +138,8 @@ class _3X3Room(Room):
         part of placement, we wouldn't want to place a partial room."""
         self.pos = CoarseVector(*pos)
         self.orientation = orientation
+        if randflags:
+            self._randflags = randflags
 
     def _get_doorways(self):
         return [
-- 
2.43.0


From 2b2cfab142ad1059a57d8a018b37c45a3f5b26e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:31 +0000
Subject: [PATCH 24/44] fix: TestRoom2 occupies the cells it draws

---
 redeclipse/prefabs/__init__.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/redeclipse/prefabs/__init__.py b/redeclipse/prefabs/__init__.py
index bc1843f..72bd182 100644
--- a/redeclipse/prefabs/__init__.py
+++ b/redeclipse/prefabs/__init__.py
@@ -210,6 +210,17 @@ class TestRoom2(Room):
         self.x('rectangular_prism', world, SELF, FineVector(2, 4, 1), tex=TEXMAN.get_c('accent'))
         self.x('ring', world, ABOVE, 8, tex=TEXMAN.get_c('accent'))
 
+    def _get_doorways(self):
+        return [
+            {'orientation': NORTH, 'offset': NORTH},
+            {'orientation': SOUTH, 'offset': SOUTH},
+            {'orientation': EAST, 'offset': EAST * 2},
+            {'orientation': WEST, 'offset': WEST},
+        ]
+
+    def _get_positions(self):
+        return [SELF, EAST, ABOVE]
+
 
 class NLongCorridor(Room):
     room_type = 'hallway'
-- 
2.43.0


From 119b339283363507f50b2ebc6ea9ac56b816a66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:19 +0000
Subject: [PATCH 25/44] fix: only accept rooms that lie inside the map

---
 redeclipse/upm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index ae714b3..4269bb1 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -48,9 +48,9 @@ class UnusedPositionManager:
         :rtype: boolean
         """
         # TODO: dependent on world size.
-        return 0 <= position.x <= 32 and \
-            0 <= position.y <= 32 and \
-            0 <= position.z <= 32
+        return 0 <= position.x < 32 and \
+            0 <= position.y < 32 and \
+            0 <= position.z < 32
 
     def _yield_mirrored(self, room):
         for orientation in self.mirror_rotations:
@@ -93,6 +93,9 @@ class UnusedPositionManager:
             for position in used:
                 if position in self.occupied.keys() or position in added_occupied:
                     return False
+                # Don't add the room if a part of it is off the edge.
+                if not self.is_legal(position):
+                    return False
             added_occupied = added_occupied.union(set(used))
             # Don't add the room if the door is off the edge.
             for door in room.get_doorways():
-- 
2.43.0


From 4daeae2c471e69c18f0a068c59430a556d83ddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:19 +0000
Subject: [PATCH 26/44] fix: choose the options of a room before looking for
 its door

---
 redeclipse/upm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 4269bb1..2e03731 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -298,6 +298,8 @@ class UnusedPositionManager:
             # not be necessary but it doesn't hurt anything.
             for orientation in random.sample(CARDINALS, 4):
                 kwargs = {'orientation': orientation}
+                # Add our random options, the doors may depend on them
+                kwargs.update(roomClass.randOpts(prev_room))
                 # Initialize room, required to correctly calculate get_positions()/get_doorways()
                 r = roomClass(pos=CoarseVector(2, 2, 3), **kwargs)
                 # We've already picked a prev_room_door (and we know its orientation)
@@ -313,8 +315,6 @@ class UnusedPositionManager:
                 for chosen_door in options:
                     # Room offset
                     room_offset = chosen_door['offset'] - prev_room_door + prev_room_orientation
-                    # Add our random options
-                    kwargs.update(roomClass.randOpts(prev_room))
                     # Last, we yield all possible versions of this room (in case
                     # some of them don't fit.)
                     r = roomClass(pos=CoarseVector(2, 2, 3) - room_offset, **kwargs)
-- 
2.43.0


From e75253d35a8452c499db43c06171fb96806c95b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:19 +0000
Subject: [PATCH 27/44] fix: debug endcaps skip doors to a cell that was capped
 before

---
 redeclipse/upm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index 2e03731..c7bdb73 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -324,6 +324,9 @@ class UnusedPositionManager:
                         yield r
 
     def _room_cap_debug(self, pos, typ, ori):
+        # Another cap (for a second door to the same place) may be here already
+        if pos in self.occupied.keys() and not self.noclip:
+            return None
         return TestRoom(pos, orientation=EAST)
 
     def _room_cap_real(self, prev_room_door, prev_room, prev_room_orientation, possible_endcaps=None):
-- 
2.43.0


From 6e7c5499fa5f73551cbdc0a6acabfe6c2b87a8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:19 +0000
Subject: [PATCH 28/44] fix: random_position reports that there is no open door

---
 redeclipse/upm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/upm.py b/redeclipse/upm.py
index c7bdb73..902a65e 100644
--- a/redeclipse/upm.py
+++ b/redeclipse/upm.py
@@ -155,7 +155,7 @@ class UnusedPositionManager:
         :returns: a doorway from the set of unoccupied doorways.
         :rtype: tuple of (position, room, orientation), whatever the heck those are.
         """
-        if len(self.occupied.keys()) > 0:
+        if len(self.unoccupied) > 0:
             return random.choice(self.unoccupied)
         else:
             raise Exception("No more space!")
-- 
2.43.0


From ecb0219a858b8cc2499372174f1b949a8df2bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:19 +0000
Subject: [PATCH 29/44] fix: magica_rooms mirrors once unless told otherwise

---
 redeclipse/cli/magica_rooms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/cli/magica_rooms.py b/redeclipse/cli/magica_rooms.py
index f3b1aa7..9420ade 100644
--- a/redeclipse/cli/magica_rooms.py
+++ b/redeclipse/cli/magica_rooms.py
@@ -131,7 +131,7 @@ if __name__ == '__main__':
     parser.add_argument('--rooms', default=200, type=int, help="Number of rooms to place")
     parser.add_argument('--debug', action='store_true', help="Debugging")
     parser.add_argument('--ctf', action='store_true', help="Include flags for CTFs")
-    parser.add_argument('--mirror', type=int, choices=[1, 2, 4], help="Mirror mode (1 = unmirrored, 2 = 2-way mirroring, 4 = 4-way mirroring)")
+    parser.add_argument('--mirror', type=int, choices=[1, 2, 4], default=2, help="Mirror mode (1 = unmirrored, 2 = 2-way mirroring, 4 = 4-way mirroring)")
     parser.add_argument('--flavor', nargs='*', choices=redeclipse.worldflavors.choices)
     args = parser.parse_args()
     # Build our map
-- 
2.43.0


From 3f02f894285768503771b66e7ea6cf4bec19f48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:07 +0000
Subject: [PATCH 30/44] fix: mirrored transition tables apply in both
 directions when picking rooms

---
 redeclipse/prefabs/distributions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/redeclipse/prefabs/distributions.py b/redeclipse/prefabs/distributions.py
index 6c6457a..1deb60d 100644
--- a/redeclipse/prefabs/distributions.py
+++ b/redeclipse/prefabs/distributions.py
@@ -17,6 +17,11 @@ class DistributionManager:
             in self.transition_probabilities.keys()
             if k == clsname.room_type
         }
+        if self.mirror:
+            # The table holds either direction, as in ``tp``
+            for (k, v), probability in self.transition_probabilities.items():
+                if v == clsname.room_type:
+                    filtered.setdefault(k, probability)
         return filtered
 
 
-- 
2.43.0


From 15b5c17a4b01951e1c6c5cdd54133bb36b9aad7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:36 +0000
Subject: [PATCH 31/44] fix: themed texture managers return a texture id for
 unknown categories

---
 redeclipse/textures/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/textures/__init__.py b/redeclipse/textures/__init__.py
index 3f1ea2f..93957f2 100644
--- a/redeclipse/textures/__init__.py
+++ b/redeclipse/textures/__init__.py
@@ -210,7 +210,7 @@ class ThemedTextureManager(TextureManager):
         elif category == 'accent':
             return self.get(random.choice(self.theme.AccentMaterial))
 
-        return random.choice(self.theme.GenericMaterial)
+        return self.get(random.choice(self.theme.GenericMaterial))
 
     def discover_textures(self):
         super().discover_textures()
-- 
2.43.0


From 23fdc3fa1c31a1f73f0533da98bcfa4f36449562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:36 +0000
Subject: [PATCH 32/44] fix: end the texcolor line of bumpspecmapworld textures

---
 redeclipse/textures/basetex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/textures/basetex.py b/redeclipse/textures/basetex.py
index d6aa77a..4bf3f08 100644
--- a/redeclipse/textures/basetex.py
+++ b/redeclipse/textures/basetex.py
@@ -92,7 +92,7 @@ texture s "{0.basepath}/{0.s}"
 """.format(self, idx=idx)
 
         if self.texcolor:
-            conf += "texcolor %s %s %s" % self.texcolor
+            conf += "texcolor %s %s %s\n" % self.texcolor
         return conf
 
 
-- 
2.43.0


From a1f4517c29df8cb044934b6e5416c5d00f1018a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:36 +0000
Subject: [PATCH 33/44] fix: leave out the depth map of textures that have none

---
 redeclipse/textures/basetex.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/redeclipse/textures/basetex.py b/redeclipse/textures/basetex.py
index 4bf3f08..cee2e63 100644
--- a/redeclipse/textures/basetex.py
+++ b/redeclipse/textures/basetex.py
@@ -124,8 +124,10 @@ class DefaultBumpSpecMapParallaxWorld(BaseTex):
 
         conf += """texture c "{0.basepath}/{0.c}" 0 0 0 0.500000 // {idx} {0.__class__}
 texture n "{0.basepath}/{0.n}"
-texture s "{0.basepath}/{0.s}"
-texture z "{0.basepath}/{0.z}"\n""".format(self, idx=idx)
+texture s "{0.basepath}/{0.s}"\n""".format(self, idx=idx)
+
+        if self.z:
+            conf += """texture z "{0.basepath}/{0.z}"\n""".format(self)
 
         if self.texcolor:
             conf += "texcolor %s %s %s\n\n" % self.texcolor
@@ -166,9 +168,12 @@ class DefaultBumpSpecMapParallaxGlowWorld(BaseTex):
 
         conf += """texture c "{0.basepath}/{0.c}" 0 0 0 0.500000 // {idx} {0.__class__}
 texture n "{0.basepath}/{0.n}"
-texture s "{0.basepath}/{0.s}"
-texture z "{0.basepath}/{0.z}"
-texture g "{0.basepath}/{0.g}"\n""".format(self, idx=idx)
+texture s "{0.basepath}/{0.s}"\n""".format(self, idx=idx)
+
+        if self.z:
+            conf += """texture z "{0.basepath}/{0.z}"\n""".format(self)
+
+        conf += """texture g "{0.basepath}/{0.g}"\n""".format(self)
 
         if self.texcolor:
             conf += "texcolor %s %s %s\n\n" % self.texcolor
-- 
2.43.0


From 1ce64f3fd10a4084fc3bb599e5622543803211b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:36 +0000
Subject: [PATCH 34/44] fix: default theme names only textures that exist

---
 redeclipse/textures/dull_theme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redeclipse/textures/dull_theme.py b/redeclipse/textures/dull_theme.py
index 5048c4f..235cd4f 100644
--- a/redeclipse/textures/dull_theme.py
+++ b/redeclipse/textures/dull_theme.py
@@ -3,13 +3,13 @@ from itertools import chain
 
 GenericMaterial = [
     'tex%s' % x for x in
-    range(4, 9)
+    range(4, 8)
 ]
 
 
 FloorMaterial = [
     'tex%s' % x for x in
-    chain(range(4, 8), [9], range(92, 116), range(504, 505))
+    chain(range(4, 8), [9], range(92, 115), range(504, 505))
 ]
 
 
-- 
2.43.0


From 729ad105b21653897315688b6dad65fbf50b2605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:16 +0000
Subject: [PATCH 35/44] fix: count the voxels that are written to .vox files,
 not those left out

---
 redeclipse/magicavoxel/writer.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/redeclipse/magicavoxel/writer.py b/redeclipse/magicavoxel/writer.py
index 0b69018..c4cc4a3 100644
--- a/redeclipse/magicavoxel/writer.py
+++ b/redeclipse/magicavoxel/writer.py
@@ -2,7 +2,13 @@ import struct
 
 
 def to_magicavoxel(voxel_world, handle, texman):
-    cs = 4 * (1 + len(voxel_world.world))
+    # Only coordinates of one byte can be written.
+    voxels = [
+        ((x, y, z), value)
+        for ((x, y, z), value) in voxel_world.world.items()
+        if 0 <= x <= 255 and 0 <= y <= 255 and 0 <= z <= 255
+    ]
+    cs = 4 * (1 + len(voxels))
     handle.write(struct.pack('4s', b'VOX '))
     handle.write(struct.pack('i', 150))
     handle.write(struct.pack('4s', b'MAIN'))
@@ -19,14 +25,12 @@ def to_magicavoxel(voxel_world, handle, texman):
     handle.write(struct.pack('4s', b'XYZI'))
     handle.write(struct.pack('i', cs))  # chunk size TODO
     handle.write(struct.pack('i', 0))  # child chunk size
-    handle.write(struct.pack('i', len(voxel_world.world)))  # numvoxels
+    handle.write(struct.pack('i', len(voxels)))  # numvoxels
 
     def m(x):
         return int(x)
 
-    for ((x, y, z), value) in voxel_world.world.items():
-        if x > 255 or y > 255 or z > 255 or x < 0 or y < 0 or z < 0:
-            continue
+    for ((x, y, z), value) in voxels:
         handle.write(struct.pack('BBBB', m(x), m(y), m(z), m(value.texture[0] + 1)))
         # handle.write(struct.pack('BBBB', m(x), m(y), m(z), 1))
 
-- 
2.43.0


From 80c55f79a2d143f3f3f1d0d44a72e201a4a7487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:16 +0000
Subject: [PATCH 36/44] fix: the size in .vox files includes the last row of
 voxels

---
 redeclipse/magicavoxel/writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redeclipse/magicavoxel/writer.py b/redeclipse/magicavoxel/writer.py
index c4cc4a3..3285216 100644
--- a/redeclipse/magicavoxel/writer.py
+++ b/redeclipse/magicavoxel/writer.py
@@ -18,9 +18,9 @@ def to_magicavoxel(voxel_world, handle, texman):
     handle.write(struct.pack('4s', b'SIZE'))
     handle.write(struct.pack('i', 12))
     handle.write(struct.pack('i', 0))
-    handle.write(struct.pack('i', int(voxel_world.xmax)))  # x
-    handle.write(struct.pack('i', int(voxel_world.ymax)))  # y
-    handle.write(struct.pack('i', int(voxel_world.zmax)))  # z
+    handle.write(struct.pack('i', min(int(voxel_world.xmax) + 1, 256)))  # x
+    handle.write(struct.pack('i', min(int(voxel_world.ymax) + 1, 256)))  # y
+    handle.write(struct.pack('i', min(int(voxel_world.zmax) + 1, 256)))  # z
     # xyzi chunk
     handle.write(struct.pack('4s', b'XYZI'))
     handle.write(struct.pack('i', cs))  # chunk size TODO
-- 
2.43.0


From f08888220f03bb7d8fcd08ebc5fc942da17e3044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:16 +0000
Subject: [PATCH 37/44] fix: the main chunk of .vox files covers its children

---
 redeclipse/magicavoxel/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/magicavoxel/writer.py b/redeclipse/magicavoxel/writer.py
index 3285216..9db51a5 100644
--- a/redeclipse/magicavoxel/writer.py
+++ b/redeclipse/magicavoxel/writer.py
@@ -13,7 +13,7 @@ def to_magicavoxel(voxel_world, handle, texman):
     handle.write(struct.pack('i', 150))
     handle.write(struct.pack('4s', b'MAIN'))
     handle.write(struct.pack('i', 0))  # Chunk size
-    handle.write(struct.pack('i', cs + 36 + 1024))  # child chunk size TODO
+    handle.write(struct.pack('i', 24 + 12 + cs + 12 + 1024))  # child chunk size
     # Size chunk
     handle.write(struct.pack('4s', b'SIZE'))
     handle.write(struct.pack('i', 12))
-- 
2.43.0


From 3cfdcb71be31bf171471bf48c6cabb6902381d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:16 +0000
Subject: [PATCH 38/44] fix: write all 256 palette entries of .vox files

---
 redeclipse/magicavoxel/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/magicavoxel/writer.py b/redeclipse/magicavoxel/writer.py
index 9db51a5..f25884f 100644
--- a/redeclipse/magicavoxel/writer.py
+++ b/redeclipse/magicavoxel/writer.py
@@ -45,5 +45,5 @@ def to_magicavoxel(voxel_world, handle, texman):
     for idx, (tex_key, tex) in enumerate(texman.atlas.items()):
         handle.write(struct.pack('BBBB', n(tex.r), n(tex.g), n(tex.b), 255))  # white
 
-    for i in range(255 - len(texman.atlas)):
+    for i in range(256 - len(texman.atlas)):
         handle.write(struct.pack('BBBB', 0, 0, 0, 255))  # white
-- 
2.43.0


From 463249ff8542017f497ec93b07491c696d9d5e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:19 +0000
Subject: [PATCH 39/44] fix: snow_forest passes the positions of entities as
 xyz

---
 redeclipse/cli/snow_forest.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/redeclipse/cli/snow_forest.py b/redeclipse/cli/snow_forest.py
index e6d400b..06748d9 100644
--- a/redeclipse/cli/snow_forest.py
+++ b/redeclipse/cli/snow_forest.py
@@ -4,6 +4,7 @@ from redeclipse.entities.model import MapModel
 from redeclipse.entities import PlayerSpawn
 from redeclipse.cli import parse
 from redeclipse.objects import cube
+from redeclipse.vector import FineVector
 import argparse
 import random
 import noise
@@ -107,9 +108,7 @@ def main():
                 tree_count += 1
                 # Place tree
                 tree = MapModel(
-                    x=i * 4,
-                    y=j * 4,
-                    z=heightmap[(i, j)] * 4,
+                    xyz=FineVector(i, j, heightmap[(i, j)]),
                     type=137,
                     yaw=random.randint(0, 360),
                     scale=random.randint(56, 200),
@@ -118,9 +117,7 @@ def main():
 
             if point_spawn(i, j):
                 spawn = PlayerSpawn(
-                    x=i * 4,
-                    y=j * 4,
-                    z=heightmap[(i, j)] * 4,
+                    xyz=FineVector(i, j, heightmap[(i, j)]),
                     team=0,
                     yaw=random.randint(0, 360),
                 )
@@ -128,9 +125,7 @@ def main():
 
             if point_rock(i, j):
                 rock = MapModel(
-                    x=i * 4,
-                    y=j * 4,
-                    z=heightmap[(i, j)] * 4 - random.randint(0, 5),
+                    xyz=FineVector(i, j, heightmap[(i, j)] - random.randint(0, 5) / 4),
                     type=122,
                     yaw=random.randint(0, 360),
                     roll=random.randint(0, 360),
-- 
2.43.0


From 53771281ead44a099a49e106761390ceaeddaf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:19 +0000
Subject: [PATCH 40/44] fix: cli/rooms asks for a room that does not exist and
 calls the position manager wrongly

---
 redeclipse/cli/rooms.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/redeclipse/cli/rooms.py b/redeclipse/cli/rooms.py
index fd64796..3258ea6 100644
--- a/redeclipse/cli/rooms.py
+++ b/redeclipse/cli/rooms.py
@@ -35,7 +35,6 @@ def main(mpz_in, mpz_out, size=2**7, seed=42, rooms=200, debug=False, magica=Non
         p.FlatSpace,
         p.Stair,
         p.DigitalRoom,
-        p.DoricTemple,
         p.ImposingRingRoom,
         p.ImposingBlockRoom,
     ]
@@ -48,7 +47,7 @@ def main(mpz_in, mpz_out, size=2**7, seed=42, rooms=200, debug=False, magica=Non
     # We use the spawn room as our base starting room
     Room = possible_rooms[0]
     b = Room(pos=STARTING_POSITION, orientation=EAST)
-    [m.render(v, mymap) for m in upm.register_room(b)]
+    upm.register_room(b)
     # Convert rooms to int
     rooms = int(rooms)
     sunlight = Sunlight(
@@ -59,11 +58,13 @@ def main(mpz_in, mpz_out, size=2**7, seed=42, rooms=200, debug=False, magica=Non
     )
     mymap.ents.append(sunlight)
 
-    # TODO: This isn't called correctly
-    upm.place_rooms(v, mymap, debug, rooms=rooms)
+    # Place all rooms
+    upm.place_rooms(debug, possible_rooms, rooms=rooms)
 
     # Apply endcaps
-    for room in upm.endcap(debug=debug, possible_endcaps=possible_endcaps):
+    upm.endcap(debug=debug, possible_endcaps=possible_endcaps)
+
+    for room in upm.rooms:
         room.render(v, mymap)
 
     # from redeclipse.aftereffects import grid, decay, gradient3, box
-- 
2.43.0


From c5012770b3f9fcc1500f5a31d736d31b8912b31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:47 +0000
Subject: [PATCH 41/44] fix: maps with faces without surface can be exported

cubext.to_dict called to_dict of the None that stands for a face without surface.
---
 redeclipse/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/objects.py b/redeclipse/objects.py
index 245090b..61a50c9 100644
--- a/redeclipse/objects.py
+++ b/redeclipse/objects.py
@@ -157,7 +157,7 @@ class cubext:
             'surfaceinfo': self.surfaceinfo,
             'maxverts': self.maxverts,
             'verts': self.verts,
-            'surfaces': [x.to_dict() for x in self.surfaces],
+            'surfaces': [None if x is None else x.to_dict() for x in self.surfaces],
         }
 
     @classmethod
-- 
2.43.0


From 9254bb33c62bfde4204e55e2451ee3c1aeb9ae0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:47 +0000
Subject: [PATCH 42/44] fix: imported slots keep their offset, scroll and
 colour scale as vectors

VSlot.from_dict left the lists of the export there, which neither to_dict nor MapWriter can use.
---
 redeclipse/objects.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/redeclipse/objects.py b/redeclipse/objects.py
index 61a50c9..f9132b4 100644
--- a/redeclipse/objects.py
+++ b/redeclipse/objects.py
@@ -64,8 +64,12 @@ class VSlot:
     @classmethod
     def from_dict(cls, d):
         v = VSlot(d['a'], d['b'])
+        vectors = {'offset': ivec2, 'scroll': vec2, 'colorscale': vec3}
         for prop in d['_order']:
-            setattr(v, prop, d[prop])
+            if prop in vectors and d[prop]:
+                setattr(v, prop, vectors[prop](*d[prop]))
+            else:
+                setattr(v, prop, d[prop])
         return v
 
 
-- 
2.43.0


From 54fa1cb094b7eb1823abea04bca01f66dcd555ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:47 +0000
Subject: [PATCH 43/44] fix: export map variables that are not UTF-8

Bytes of texts which are not UTF-8 made to_dict fail; they are kept as escapes now.
---
 redeclipse/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/redeclipse/__init__.py b/redeclipse/__init__.py
index e104219..c8459a6 100644
--- a/redeclipse/__init__.py
+++ b/redeclipse/__init__.py
@@ -276,7 +276,11 @@ class Map:
             'version': self.version,
             'headersize': self.headersize,
             'meta': [(key, bytes.decode(value) if isinstance(value, bytes) else value) for (key, value) in self.meta.items()],
-            'map_vars': [(bytes.decode(key), bytes.decode(value) if isinstance(value, bytes) else value) for (key, value) in self.map_vars.items()],
+            'map_vars': [
+                # Texts of the game need not be UTF-8.
+                (bytes.decode(key, errors='surrogateescape'), bytes.decode(value, errors='surrogateescape') if isinstance(value, bytes) else value)
+                for (key, value) in self.map_vars.items()
+            ],
             'texmru': self.texmru,
             'entities': [ent.to_dict() for ent in self.ents],
             'world': (x.to_dict() for x in self.world),
@@ -303,9 +307,9 @@ class Map:
         map_vars = OrderedDict()
         for (key, value) in data['map_vars']:
             if isinstance(value, str):
-                map_vars[str.encode(key)] = str.encode(value)
+                map_vars[str.encode(key, errors='surrogateescape')] = str.encode(value, errors='surrogateescape')
             else:
-                map_vars[str.encode(key)] = value
+                map_vars[str.encode(key, errors='surrogateescape')] = value
 
         # TODO
         world = {}
-- 
2.43.0


From 7bb837c634e32f0430a7ff80f4e1327c89d758b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:42 +0000
Subject: [PATCH 44/44] fix: cli/rooms opens the .vox file for bytes

The writer of .vox files writes bytes, so --magica ended in a TypeError.
---
 redeclipse/cli/rooms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redeclipse/cli/rooms.py b/redeclipse/cli/rooms.py
index 3258ea6..6f8a5b5 100644
--- a/redeclipse/cli/rooms.py
+++ b/redeclipse/cli/rooms.py
@@ -92,7 +92,7 @@ if __name__ == '__main__':
     parser.add_argument('mpz_in', type=argparse.FileType('r'), help='Input .mpz file')
     parser.add_argument('mpz_out', type=argparse.FileType('w'), help='Output .mpz file')
 
-    parser.add_argument('--magica', type=argparse.FileType('w'), help='Output .vox file')
+    parser.add_argument('--magica', type=argparse.FileType('wb'), help='Output .vox file')
 
     parser.add_argument('--size', default=2**8, type=int, help="World size. Danger!")
     parser.add_argument('--seed', default=42, type=int, help="Random seed")
-- 
2.43.0

