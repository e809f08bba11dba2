From a17bab739ab5ef98c3a3ed67cdd2e1aab3f5edfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 01/90] fix: OList deletes the item on del olist[index]

The removal was announced but the item stayed in the list.
---
 vrml/olist.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrml/olist.py b/vrml/olist.py
index c129852..a1e7f36 100644
--- a/vrml/olist.py
+++ b/vrml/olist.py
@@ -87,6 +87,7 @@ class OList( list ):
             return current 
         else:
             value = self[index]
+            super( OList,self ).__delitem__( index )
             self._sendRemoved( value )
         return value
     def __delslice__( self, i,j):
-- 
2.43.0


From 75dd379455a60eafdc83397b00c3588837b4eaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 02/90] fix: OList += returns the list itself

x += y rebound x to a plain list of only the new values.
---
 vrml/olist.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vrml/olist.py b/vrml/olist.py
index a1e7f36..b3da76b 100644
--- a/vrml/olist.py
+++ b/vrml/olist.py
@@ -122,6 +122,9 @@ class OList( list ):
         return self.__setitem__( slice(i,j), iterable)
     def __iadd__( self, iterable ):
         """Do an in-place add"""
-        return self.__setitem__( slice(len(self),len(self)), iterable )
-    extend = __iadd__
+        self.__setitem__( slice(len(self),len(self)), iterable )
+        return self
+    def extend( self, iterable ):
+        """Append all values in the iterable"""
+        self += iterable
     
-- 
2.43.0


From df1cfa5f5a4e45dee960d639d4ec125f8ddb3015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 03/90] fix: OList clear() and *= send the change events

Both changed the membership silently.
---
 vrml/olist.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vrml/olist.py b/vrml/olist.py
index b3da76b..29be33b 100644
--- a/vrml/olist.py
+++ b/vrml/olist.py
@@ -127,4 +127,14 @@ class OList( list ):
     def extend( self, iterable ):
         """Append all values in the iterable"""
         self += iterable
+    def __imul__( self, count ):
+        """Do an in-place repeat"""
+        if count <= 0:
+            del self[:]
+        else:
+            self.extend( list( self ) * (count-1) )
+        return self
+    def clear( self ):
+        """Remove all values from the list"""
+        del self[:]
     
-- 
2.43.0


From 3e2b9a8efc056dd50c0ce28a9fa737f4a44baf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 04/90] fix: deleting a field value removes it without the
 accelerator too

The pure-Python BaseField only checked that there was a value: fdel and
del node.field left it in place, and del node.field sent no notification.
The accelerated BaseField does both.
---
 vrml/field.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/vrml/field.py b/vrml/field.py
index 95b8e09..34ea18e 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -166,20 +166,21 @@ else:
             return defaultobj
 
         def __delete__(self, client):
-            """Delete our value from client's dictionary"""
-            try:
-                client.__dict__[self.name]
-            except KeyError:
-                raise AttributeError(self.name)
+            """Delete our value from client's dictionary (notifies)"""
+            self.fdel(client)
 
         def fdel(self, client, notify=True):
             """Delete with notify"""
-            self.__delete__(client)
+            try:
+                value = client.__dict__.pop(self.name)
+            except KeyError:
+                raise AttributeError(self.name)
             if notify:
                 dispatcher.send(
                     ('del', self),
                     client,
                 )
+            return value
 
 
 class Field(BaseField):
-- 
2.43.0


From a114e0b5007f2a60b48456e2edb1d648c70e192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 05/90] fix: arrays compare equal only if all elements do

safeCompare used any, so a field value sharing one element with its
(array) default was dropped when a node was written out.
---
 vrml/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/arrays.py b/vrml/arrays.py
index 2c765f9..27e2c78 100644
--- a/vrml/arrays.py
+++ b/vrml/arrays.py
@@ -75,7 +75,7 @@ def safeCompare(first, second):
     if isinstance(first, (int, float, str)):
         return first == second
     if isinstance(first, ArrayType) and isinstance(second, ArrayType):
-        return bool(any(first == second))
+        return first.shape == second.shape and bool(all(first == second))
     elif type(first) != type(second):
         return False
     return bool(first == second)
-- 
2.43.0


From 76e7368a955a4bf08443ea239a660378ee33ba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 06/90] fix: the NULL node is equal to itself and hashable

NullNode.__eq__ was written as a __cmp__ (0 for equal), so NULL == NULL was
false, and defining __eq__ alone made the node unhashable.
---
 vrml/node.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index 7fbcc36..337fc77 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -283,10 +283,17 @@ class NullNode(Node):
     def __eq__(self, other):
         """Compare the NULL node to other objects"""
         try:
-            if protoName(self) == protoName(other):
-                return 0
+            return protoName(self) == protoName(other)
         except (AttributeError, TypeError, ValueError):
-            return -1  # could be 1, doesn't really matter
+            return False
+
+    def __ne__(self, other):
+        """Compare the NULL node to other objects"""
+        return not self == other
+
+    def __hash__(self):
+        """All NULL nodes are equal, so they hash equal"""
+        return hash(self.PROTO)
 
     def clone(self):
         """Replicate the null object (return another pointer to it)"""
-- 
2.43.0


From 9af7cbc3ec4db0646767a0b6537887f2acc94437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 07/90] fix: getField returns the field object for storage
 names

It returned the name it was given.
---
 vrml/protofunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/protofunctions.py b/vrml/protofunctions.py
index fd1fa1b..6f495a6 100644
--- a/vrml/protofunctions.py
+++ b/vrml/protofunctions.py
@@ -129,11 +129,11 @@ def getField(cls, field):
         # OK, may be a space-prefixed name...
         for fieldObject in getFields(cls):
             if fieldObject.name == field:
-                return field
+                return fieldObject
         # OK, may be an event with space-prefixed name
         for fieldObject in getFields(cls, 1):
             if fieldObject.name == field:
-                return field
+                return fieldObject
         # OK, may be one of the "component" events
         # of a field...
         if field.startswith("set_"):
-- 
2.43.0


From 3493649780f85a46dc84532fcb550ad3cce625f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 08/90] fix: MFVec2d fields store doubles

The field was built on the single-precision MFVec2f.
---
 vrml/fieldtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 5911c56..f172935 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -1050,7 +1050,7 @@ class MFVec2fEvt(
     fieldType = 'MFVec2f'
 
 
-class MFVec2d(_MFVec2f, field.Field):
+class MFVec2d(_MFVec2d, field.Field):
     """MFVec2d Field class"""
 
 
-- 
2.43.0


From 7beed463627f72101f85ab3b7ca3e86411d8a3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 09/90] fix: vector fields accept a single number

The number was overwritten by the array it was to fill.
---
 vrml/fieldtypes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index f172935..d7d1488 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -519,8 +519,7 @@ class _SFVec(object):
         if isinstance(value, (str, unicode)):
             value = [float(x) for x in value.replace(',', ' ').split()]
         if isinstance(value, (int, long, float)):
-            value = arrays.zeros(self.dimension, self.targetType)
-            value[:] = float(value)
+            value = arrays.full(self.dimension, float(value), self.targetType)
         elif isinstance(value, arrays.ArrayType):
             if arrays.typeCode(value) not in self.acceptedTypes:
                 value = value.astype(self.targetType)
-- 
2.43.0


From c96b0e2453ae8bcb00f561f6e4e46cb06a761ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 10/90] fix: matrix fields accept sequences

The reshaped array was dropped, so any (nested or flat) sequence for a
matrix-valued field was refused.
---
 vrml/fieldtypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index d7d1488..5a997dd 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -526,7 +526,7 @@ class _SFVec(object):
             value = value.reshape(self.dimension)
         elif isinstance(value, field.SEQUENCE_TYPES):
             value = arrays.asarray([float(x) for x in collapse(value)], self.targetType)
-            value.reshape(self.dimension)
+            value = value.reshape(self.dimension)
         else:
             try:
                 value = arrays.asarray(value, self.targetType)
@@ -536,7 +536,7 @@ class _SFVec(object):
                     % (self.typeName(), repr(value))
                 )
             else:
-                value.reshape(self.dimension)
+                value = value.reshape(self.dimension)
         if value.shape != self.dimension:
             raise ValueError(
                 """%s value of incorrect shape (is %s, should be %s)"""
-- 
2.43.0


From 59f0edac2a2ea134a1b080b3f3d90464a1486324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 11/90] fix: multiple-value array fields accept strings

str.replace was called with one argument.
---
 vrml/fieldtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 5a997dd..b7566d4 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -589,7 +589,7 @@ class _SFArray(object):
         if isinstance(value, (str, unicode)):
             value = [
                 float(x)
-                for x in value.replace(',', ' ').replace('[', ' ').replace(']').split()
+                for x in value.replace(',', ' ').replace('[', ' ').replace(']', ' ').split()
             ]
         if field.UNPACK_TYPES and isinstance(value, field.UNPACK_TYPES):
             value = list(value)
-- 
2.43.0


From 50495f36b623d319b98e66ba0a44ded4e3a57d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 12/90] fix: a path's scale-only matrix depends on center

The center takes part in the local matrix if there is a scale or a
rotation, but changes to it invalidated the path's matrix only when
rotations were included.
---
 vrml/vrml97/nodepath.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrml/vrml97/nodepath.py b/vrml/vrml97/nodepath.py
index c5db622..1361455 100644
--- a/vrml/vrml97/nodepath.py
+++ b/vrml/vrml97/nodepath.py
@@ -75,6 +75,7 @@ class _NodePath( object ):
                     holder.depend( item, 'scaleOrientation' )
                 if rotate:
                     holder.depend( item, 'rotation' )
+                if scale or rotate:
                     holder.depend( item, 'center' )
             return child_holder.data[inverse]
         matrix = transformmatrix.compressMatrices( 
-- 
2.43.0


From e3687fd88fb15d6cca20402a5b8d6ae316c39256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 13/90] fix: invalidating a path marks all paths below it

Only two levels of child paths were marked as broken.
---
 vrml/vrml97/nodepath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/vrml97/nodepath.py b/vrml/vrml97/nodepath.py
index 1361455..d139b36 100644
--- a/vrml/vrml97/nodepath.py
+++ b/vrml/vrml97/nodepath.py
@@ -127,8 +127,8 @@ class _NodePath( object ):
     def invalidate( self ):
         """Set this path to be invalid (and all children paths)"""
         self.broken = True 
-        for desc in self.iterdescendents( ):
-            desc.broken = True 
+        for child in self.iterchildren( ):
+            child.invalidate()
 
 class NodePath( _NodePath, nodepath.NodePath ):
     """Strong-reference version of VRML97 NodePath"""
-- 
2.43.0


From 9ca99656eeaf851960f89d93fd4ab4950f3ded34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 14/90] fix: decimal integers may have leading zeros

VRML97 integers are decimal unless they start with 0x, but int(x, 0) refuses
text such as 007.
---
 vrml/vrml97/parseprocessor.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 670236e..7e83d15 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -19,6 +19,15 @@ def getString(*args, **named):
     return as_str(base)
 
 
+def asInt(text):
+    """Convert VRML97 (decimal or 0x) integer text to an integer"""
+    try:
+        return int(text, 0)
+    except ValueError:
+        # decimals may have leading zeros...
+        return int(text, 10)
+
+
 class ParseProcessor(DispatchProcessor):
     """Builds in-memory node-graph from VRML97 parse-tree"""
 
@@ -371,7 +380,7 @@ class ParseProcessor(DispatchProcessor):
 
     def SFInt32(self, table, buffer):
         (tup,) = table
-        return int(getString(tup, buffer), 0)
+        return asInt(getString(tup, buffer))
 
     def SFVec3f(self, table, buffer):
         return [float(getString(item, buffer)) for item in table]
@@ -400,13 +409,13 @@ class ParseProcessor(DispatchProcessor):
         # localisation
         if not tuples:
             return []
-        return [int(buffer[start:stop], 0) for (tag, start, stop, children) in tuples]
+        return [asInt(buffer[start:stop]) for (tag, start, stop, children) in tuples]
 
     SFImage = MFInt32
 
     def MFUInt32(self, tuples, buffer):
         # localisation
-        return [long(buffer[start:stop], 0) for (tag, start, stop, children) in tuples]
+        return [asInt(buffer[start:stop]) for (tag, start, stop, children) in tuples]
 
     def MFFloat(self, tuples, buffer):
         return [float(buffer[start:stop]) for (tag, start, stop, children) in tuples]
-- 
2.43.0


From faf8c5cbab7b251f825c1452ff196bb56492f5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 15/90] fix: rotMatrix handles a zero axis without the
 accelerator

The pure-Python version divided by zero where the accelerated one uses the
default (y) axis.
---
 vrml/vrml97/_transformmatrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrml/vrml97/_transformmatrix.py b/vrml/vrml97/_transformmatrix.py
index f9de42a..cdc70b1 100644
--- a/vrml/vrml97/_transformmatrix.py
+++ b/vrml/vrml97/_transformmatrix.py
@@ -23,6 +23,9 @@ def rotMatrix( source=None ):
         (x,y,z, a) = source
     if a % TWOPI:
         # normalize the rotation vector!
+        if x == y == z == 0.0:
+            # no axis, use the default one (as does the accelerated version)
+            y = 1.0
         squared = x*x + y*y + z*z
         if squared != 1.0:
             length = squared ** .5
-- 
2.43.0


From 797432fc7c0c0c508fdfdfa9abe52be1f51791cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 16/90] fix: addRoute does not store callable watches as ROUTE
 nodes

The (source,field,target) tuple was appended to the routes list, where
linearising, copying and the list's own owner expect ROUTE nodes.
---
 vrml/vrml97/scenegraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrml/vrml97/scenegraph.py b/vrml/vrml97/scenegraph.py
index 83eedf2..62e589a 100644
--- a/vrml/vrml97/scenegraph.py
+++ b/vrml/vrml97/scenegraph.py
@@ -150,6 +150,7 @@ class SceneGraph( nodetypes.Traversable, node.Node ):
                 field = protofunctions.getField( source, sourceField )
                 field.watch( source, target, ('set',field) )
                 field.watch( source, target, ('del',field) )
+                return route
         self.routes.append( route )
         return route
 ##	def addIsMap( self, name, node, field ):
-- 
2.43.0


From 1a925d95ac365f695449d3c33caf500a8c86f31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 17/90] fix: a comment may end at the end of the file

A last comment line without a newline was not recognised, so the parse
stopped before it.
---
 vrml/vrml200x/parser.py | 2 +-
 vrml/vrml97/parser.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/vrml200x/parser.py b/vrml/vrml200x/parser.py
index afa1964..1b9e13a 100644
--- a/vrml/vrml200x/parser.py
+++ b/vrml/vrml200x/parser.py
@@ -72,7 +72,7 @@ SFString       := '"',(CHARNODBLQUOTE/ESCAPEDCHAR/SIMPLEBACKSLASH)*,'"'!
 CHARNODBLQUOTE :=  -[\134"]+
 SIMPLEBACKSLASH := '\134'
 ESCAPEDCHAR    := '\\"'/'\134\134'
-<ts>           :=  ( [ \011-\015,]+ / ('#',-'\012'*,'\n')+ )*
+<ts>           :=  ( [ \011-\015,]+ / ('#',-'\012'*,'\n'?)+ )*
 '''
 
 class VRMLParser( Parser ):
diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index 7538e50..3c15c98 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -57,7 +57,7 @@ SFString       := '"',(CHARNODBLQUOTE/ESCAPEDCHAR/SIMPLEBACKSLASH)*,'"'!
 CHARNODBLQUOTE :=  -[\134"]+
 SIMPLEBACKSLASH := '\134'
 ESCAPEDCHAR    := '\\"'/'\134\134'
-<ts>           :=  ( [ \011-\015,]+ / ('#',-'\012'*,'\n')+ )*
+<ts>           :=  ( [ \011-\015,]+ / ('#',-'\012'*,'\n'?)+ )*
 '''
 
 class VRMLParser( Parser ):
-- 
2.43.0


From d94f0fc090b99170516d48429eb5531617423ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 18/90] fix: MFColor accepts a single colour name

The characters of the name were taken as a sequence of colours.
---
 vrml/fieldtypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index b7566d4..18ae29a 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -856,6 +856,8 @@ class _MFColor(_Color, _MFVec3f):
             # allow for string-based specifications...
             result = []
             current = []
+            if isinstance(value, (str, unicode)):
+                value = [value]
             for item in value:
                 if isinstance(item, (str, unicode)):
                     if current:
-- 
2.43.0


From 4f13acbbdb1f6005220caa23c759681369b87b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 19/90] fix: lists of strings are not linearised as lists of
 nodes

Any MFString value was first tried as an MFNode, which left a stray opening
bracket in the output.
---
 vrml/vrml97/linearise.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index daeac81..00a1870 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -469,6 +469,12 @@ class Lineariser:
         Nodes, ProtoTypes and ExternProtos (well, not according to the
         parsers, but someone might attempt it).
         '''
+        if not getattr(field, 'nodes', 0):
+            # simple values are never (lists of) nodes
+            result = field.vrmlstr(anyobj, self)
+            if result is not None:
+                self.buffer.write(result)
+            return
         try:
             if field is node.RootScenegraphNode:
                 return
-- 
2.43.0


From 9780aa265d9f4bfc4b7ebcac34139f3e61ffc214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 20/90] fix: externalURL is not written as a declared field

The base Node's externalURL field was written into every PROTO, EXTERNPROTO
and Script declaration, and looking for an external URL replaced the field
of the linearised prototype with a list.
---
 vrml/vrml97/linearise.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index 00a1870..1844b77 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -207,7 +207,7 @@ class Lineariser:
         # is now a type, so it is trying to access an instance variable
         externalURL = clientNode.externalURL
         if hasattr(externalURL, '__get__'):
-            externalURL = clientNode.externalURL.__get__(clientNode)
+            externalURL = externalURL.getDefault()
         if externalURL:
             buffer.write('EXTERNPROTO %s [' % (clientName,))
         else:
@@ -215,7 +215,9 @@ class Lineariser:
         # write the declaration...
         self._indent()
         self._eventDict(clientNode)
-        self._fieldDict(clientNode, requireDefault=1)  # clientNode.__gi__ == "PROTO")
+        self._fieldDict(
+            clientNode, requireDefault=1, skipFields=('externalURL',)
+        )  # clientNode.__gi__ == "PROTO")
         self._dedent()
         linvalues = self.linvalues
         if externalURL:
@@ -331,7 +333,13 @@ class Lineariser:
         self._fieldDict(
             getPrototype(clientNode),
             requireDefault=1,
-            skipFields=(' DEF', 'url', 'directOutput', 'mustEvaluate'),
+            skipFields=(
+                ' DEF',
+                'url',
+                'directOutput',
+                'mustEvaluate',
+                'externalURL',
+            ),
         )
         self._dedent()
         self._attrDict(clientNode)
-- 
2.43.0


From 15c31acfcc748927e767a400925a848d9ccdca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 21/90] fix: EXTERNPROTO declarations are written without
 default values

VRML97 (and this library's grammar) has no default values there.
---
 vrml/field.py            | 17 ++++++++++++-----
 vrml/vrml97/linearise.py | 11 ++++++++---
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/vrml/field.py b/vrml/field.py
index 34ea18e..b1368a3 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -284,12 +284,10 @@ class Field(BaseField):
         """Convert the given value to a VRML97 representation"""
         return ""
 
-    def fieldVrmlstr(self, lineariser):
-        """Write the field's definition to the lineariser
+    def declVrmlstr(self, lineariser):
+        """Write the field's declaration, without a default value
 
-        Basically this gives you a VRML97 fragment
-        which can be used for creating a PROTO which
-        will have the equivalent of this field available.
+        This is the form used in EXTERNPROTO declarations
         """
         if self.exposure:
             exposed = "exposedField"
@@ -303,6 +301,15 @@ class Field(BaseField):
                 self.name,
             )
         )
+
+    def fieldVrmlstr(self, lineariser):
+        """Write the field's definition to the lineariser
+
+        Basically this gives you a VRML97 fragment
+        which can be used for creating a PROTO which
+        will have the equivalent of this field available.
+        """
+        self.declVrmlstr(lineariser)
         result = self.vrmlstr(
             # coerce is necessary because the
             # default values are often not in
diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index 1844b77..72e602f 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -216,8 +216,10 @@ class Lineariser:
         self._indent()
         self._eventDict(clientNode)
         self._fieldDict(
-            clientNode, requireDefault=1, skipFields=('externalURL',)
-        )  # clientNode.__gi__ == "PROTO")
+            clientNode,
+            requireDefault=not externalURL,
+            skipFields=('externalURL',),
+        )
         self._dedent()
         linvalues = self.linvalues
         if externalURL:
@@ -426,7 +428,10 @@ class Lineariser:
         fields.sort(key=namekey)
         for field in fields:
             buffer.write('%(full_element_separator)s%(curindent)s' % (self.linvalues))
-            field.fieldVrmlstr(self)
+            if requireDefault:
+                field.fieldVrmlstr(self)
+            else:
+                field.declVrmlstr(self)
 
     def _fieldref(self, clientNode, *args, **namedargs):
         self.buffer.write('IS %s' % clientNode.declaredName)
-- 
2.43.0


From dd9cde1d5da5efbf7adc03096b24e826d968d357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 22/90] fix: IS mappings of events and of Script fields are
 written

Only mappings of a non-Script node's own fields were written; a Script's
mapped fields and all mapped events lost their IS.
---
 vrml/vrml97/linearise.py | 45 +++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index 72e602f..d323250 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -331,10 +331,12 @@ class Lineariser:
         self._indent()
         linvalues = self.linvalues
 
-        self._eventDict(getPrototype(clientNode))
+        isMaps = self._isMaps(clientNode)
+        self._eventDict(getPrototype(clientNode), isMaps=isMaps)
         self._fieldDict(
             getPrototype(clientNode),
             requireDefault=1,
+            isMaps=isMaps,
             skipFields=(
                 ' DEF',
                 'url',
@@ -353,19 +355,22 @@ class Lineariser:
         self.alreadydone[id(clientNode)] = startind, buffer.tell()
         return None
 
-    def _attrDict(self, object):
-        """Write out the attribute dictionary for an object"""
-        buffer = self.buffer
-        linvalues = self.linvalues
+    def _isMaps(self, object):
+        """Get object's field/event name : IS name mapping in the current PROTO"""
+        isMaps = {}
         if self.curproto:
             set = node.ismaps(self.curproto[-1])
-            isMaps = {}
             for fieldName, fieldList in set.items():
                 for n, field in fieldList:
                     if n is object:
                         isMaps[field] = fieldName
-        else:
-            isMaps = {}
+        return isMaps
+
+    def _attrDict(self, object):
+        """Write out the attribute dictionary for an object"""
+        buffer = self.buffer
+        linvalues = self.linvalues
+        isMaps = self._isMaps(object)
         if protoName(object) == "Script":
             items = [
                 field
@@ -398,8 +403,18 @@ class Lineariser:
                     % (field.name,)
                 )
                 self._sffield(val, field)
+        if protoName(object) != "Script":
+            # IS mappings of events (and of the component events of fields)
+            names = [field.name for field in items]
+            for name, isName in sorted(isMaps.items()):
+                if name not in names:
+                    buffer.write(
+                        '%(full_element_separator)s%(curindent)s%(indent)s%%s IS %%s\t'
+                        % linvalues
+                        % (name, isName)
+                    )
 
-    def _eventDict(self, clientNode):
+    def _eventDict(self, clientNode, isMaps={}):
         '''
         Event Dictionaries have two possible sources of information,
         the eventDict and the isNames dictionary.  The first provides
@@ -414,9 +429,12 @@ class Lineariser:
         for field in [f for f in fields if (f.name and f.name[0] != ' ')]:
             buffer.write('%(full_element_separator)s%(curindent)s' % (self.linvalues))
             field.eventVrmlstr(self)
-            # XXX do IS-mapping here!
+            if field.name in isMaps:
+                buffer.write(' IS %s' % (isMaps[field.name],))
 
-    def _fieldDict(self, clientNode, requireDefault=1, skipFields=('DEF',)):
+    def _fieldDict(
+        self, clientNode, requireDefault=1, skipFields=('DEF',), isMaps={}
+    ):
         buffer = self.buffer
         fields = [
             field
@@ -428,7 +446,10 @@ class Lineariser:
         fields.sort(key=namekey)
         for field in fields:
             buffer.write('%(full_element_separator)s%(curindent)s' % (self.linvalues))
-            if requireDefault:
+            if field.name in isMaps:
+                field.declVrmlstr(self)
+                buffer.write('IS %s' % (isMaps[field.name],))
+            elif requireDefault:
                 field.fieldVrmlstr(self)
             else:
                 field.declVrmlstr(self)
-- 
2.43.0


From 17a9dd925c35688c0f3315effb67e647c36fd867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 23/90] fix: routes through events keep their value and stop at
 cycles

Forwarding to an event sent a new 'set' message, which lost the record of
visited fields (a cycle of events recursed without end), and then passed on
None as the value to later routes.
---
 vrml/route.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrml/route.py b/vrml/route.py
index 1297887..7eba8d6 100644
--- a/vrml/route.py
+++ b/vrml/route.py
@@ -96,7 +96,9 @@ class ROUTE( node.Node ):
                     traceback.print_exc()
             else:
                 try:
-                    value = destinationField.__set__( destination, value )
+                    # observers are told by the 'route' message below, which
+                    # (unlike a 'set') carries the visited record
+                    destinationField.__set__( destination, value, notify = 0 )
                 except (ValueError, TypeError):
                     traceback.print_exc()
             dispatcher.send(
-- 
2.43.0


From 05092e9c6f70715f0f3a8ef66397e92738fb38d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 24/90] fix: a value refused by a route's destination is not
 passed on

The destination's field was left alone, but its observers and later routes
were sent the refused value as if it had been set.
---
 vrml/route.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrml/route.py b/vrml/route.py
index 7eba8d6..cea6ca8 100644
--- a/vrml/route.py
+++ b/vrml/route.py
@@ -94,6 +94,7 @@ class ROUTE( node.Node ):
                     value = destinationField.fset( destination, value, notify = 0 )
                 except (ValueError, TypeError):
                     traceback.print_exc()
+                    return
             else:
                 try:
                     # observers are told by the 'route' message below, which
-- 
2.43.0


From 6471a69c9b3d0a4a497a2b49b62cbd19d530ef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 25/90] fix: the X3D keywords inputOutput and outputOnly are
 understood

The VRML200x grammar accepts them, but the processor took them for field and
eventIn.
---
 vrml/vrml97/parseprocessor.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 7e83d15..1b710f8 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -19,6 +19,11 @@ def getString(*args, **named):
     return as_str(base)
 
 
+# VRML97 and VRML200x spellings
+EXPOSED = ('exposedField', 'inputOutput')
+EVENT_OUT = ('eventOut', 'outputOnly')
+
+
 def asInt(text):
     """Convert VRML97 (decimal or 0x) integer text to an integer"""
     try:
@@ -248,7 +253,7 @@ class ParseProcessor(DispatchProcessor):
                 field.newField(
                     getString(name, buffer),
                     datatype,
-                    getString(exposure, buffer) == 'exposedField',
+                    getString(exposure, buffer) in EXPOSED,
                     value,
                 ),
             )
@@ -264,7 +269,7 @@ class ParseProcessor(DispatchProcessor):
             field.newField(
                 getString(name, buffer),
                 datatype,
-                getString(exposure, buffer) == 'exposedField',
+                getString(exposure, buffer) in EXPOSED,
             ),
         )
 
@@ -276,7 +281,7 @@ class ParseProcessor(DispatchProcessor):
             field.newEvent(
                 getString(name, buffer),
                 datatype,
-                getString(direction, buffer) == 'eventOut',
+                getString(direction, buffer) in EVENT_OUT,
             ),
         )
 
@@ -288,7 +293,7 @@ class ParseProcessor(DispatchProcessor):
         else:
             mapName = None
         return (
-            field.newEvent(name, datatype, direction == 'eventOut'),
+            field.newEvent(name, datatype, direction in EVENT_OUT),
             mapName,
         )
 
@@ -304,7 +309,7 @@ class ParseProcessor(DispatchProcessor):
                 fieldObject = field.newField(
                     getString(name, buffer),
                     datatype,
-                    getString(exposure, buffer) == 'exposedField',
+                    getString(exposure, buffer) in EXPOSED,
                 )
             else:
                 mapName = None
@@ -312,7 +317,7 @@ class ParseProcessor(DispatchProcessor):
                 fieldObject = field.newField(
                     getString(name, buffer),
                     datatype,
-                    getString(exposure, buffer) == 'exposedField',
+                    getString(exposure, buffer) in EXPOSED,
                     value,
                 )
             return (fieldObject, mapName)
-- 
2.43.0


From 75f918cd83e385e54f40a628318b0b7a3325d2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 26/90] fix: ElevationGrid spacing defaults to 1.0

ISO/IEC 14772-1 gives 1.0 for xSpacing and zSpacing, which must be > 0.
---
 vrml/vrml97/basenodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/vrml97/basenodes.py b/vrml/vrml97/basenodes.py
index ce401cb..cd5f42e 100644
--- a/vrml/vrml97/basenodes.py
+++ b/vrml/vrml97/basenodes.py
@@ -166,7 +166,7 @@ class ElevationGrid( nodetypes.Geometry, node.Node ):
     PROTO = 'ElevationGrid'
     #Fields
     zDimension = field.newField( 'zDimension', 'SFInt32', 0, 0)
-    xSpacing = field.newField( 'xSpacing', 'SFFloat', 0, 0.0)
+    xSpacing = field.newField( 'xSpacing', 'SFFloat', 0, 1.0)
     creaseAngle = field.newField( 'creaseAngle', 'SFFloat', 0, 0.0)
     normal = field.newField( 'normal', 'SFNode', 1, node.NULL)
     solid = field.newField( 'solid', 'SFBool', 0, 1)
@@ -176,7 +176,7 @@ class ElevationGrid( nodetypes.Geometry, node.Node ):
     color = field.newField( 'color', 'SFNode', 1, node.NULL)
     colorPerVertex = field.newField( 'colorPerVertex', 'SFBool', 0, 1)
     xDimension = field.newField( 'xDimension', 'SFInt32', 0, 0)
-    zSpacing = field.newField( 'zSpacing', 'SFFloat', 0, 0.0)
+    zSpacing = field.newField( 'zSpacing', 'SFFloat', 0, 1.0)
     normalPerVertex = field.newField( 'normalPerVertex', 'SFBool', 0, 1)
     #Events
     set_height = field.newEvent( 'set_height', 'MFFloat', 0)
-- 
2.43.0


From 75359922ee9cfa40215b6631f90dbd4164220647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 27/90] fix: WeakList works with Python 3

__getslice__ is gone (so comparison, membership, search, removal, sorting and
repr all failed), slices reach __getitem__, sort takes key and reverse, item
assignment used an undefined name and += replaced the list by None.
---
 vrml/weaklist.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/vrml/weaklist.py b/vrml/weaklist.py
index bfff2e0..0301e09 100644
--- a/vrml/weaklist.py
+++ b/vrml/weaklist.py
@@ -52,7 +52,7 @@ class WeakList( list ):
         """
         return [
             self.unwrap(obj)
-            for obj in super( WeakList,self).__getslice__(0,len(self))
+            for obj in super( WeakList,self).__iter__()
         ]
     def __iter__( self ):
         """Iterate over the list, yielding strong references"""
@@ -66,7 +66,7 @@ class WeakList( list ):
         if isinstance( index, slice ):
             item = [self.wrap(x) for x in item]
         else:
-            item = self.wrap(x)
+            item = self.wrap(item)
         return super( WeakList,self).__setitem__(
             index, item
         )
@@ -84,11 +84,17 @@ class WeakList( list ):
         return super( WeakList, self).extend([
             self.wrap(obj) for obj in sequence 
         ])
-    __iadd__ = extend
+    def __iadd__( self, sequence ):
+        """Extend this list in-place with another sequence"""
+        self.extend( sequence )
+        return self
 
     def __getitem__( self, index ):
         """Get the item at the given index"""
-        return self.unwrap(super (WeakList,self).__getitem__( index))
+        item = super (WeakList,self).__getitem__( index)
+        if isinstance( index, slice ):
+            return [ self.unwrap(obj) for obj in item ]
+        return self.unwrap( item )
     def pop( self, index=-1 ):
         """Pop an item from the list, removing it and returning it"""
         return self.unwrap( super(WeakList,self).pop(index))
@@ -108,17 +114,14 @@ class WeakList( list ):
         result = t.remove( item )
         self[:] = t
         return result
-    def sort( self, function = None):
+    def sort( self, *arguments, **named ):
         """Sort the list of objects
 
         This sorts the objects referenced,
         then rebuilds the list of references!
         """
         t = self.get()
-        if function is not None:
-            result = t.sort( function )
-        else:
-            result = t.sort( )
+        result = t.sort( *arguments, **named )
         self[:] = t
         return result
     def __eq__( self, sequence ):
-- 
2.43.0


From 3c5ccb72f6af0303a25d0d14e49633e93e65366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 28/90] fix: WeakTuple works with Python 3

A tuple's content is fixed in __new__, so the constructor failed (and would
have held strong references); weakref.ReferenceError is the built-in
ReferenceError, slices reach __getitem__, and a tuple is comparable with
tuples, not lists.
---
 vrml/weaktuple.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/vrml/weaktuple.py b/vrml/weaktuple.py
index 7ca6708..2ff8f19 100644
--- a/vrml/weaktuple.py
+++ b/vrml/weaktuple.py
@@ -25,13 +25,13 @@ class WeakTuple( tuple ):
     missing items as does the WeakList.  This can
     occur for basically _any_ use of the tuple.
     """
-    def __init__( self, sequence=() ):
+    def __new__( cls, sequence=() ):
         """Initialize the tuple
 
         The WeakTuple will store weak references to objects
         within the sequence.
         """
-        super( WeakTuple, self).__init__( [self.wrap(obj) for obj in sequence])
+        return super( WeakTuple, cls).__new__( cls, [cls.wrap(obj) for obj in sequence])
 
     def valid( self ):
         """Explicit validity check for the tuple
@@ -43,10 +43,10 @@ class WeakTuple( tuple ):
         try:
             list( self )
             return 1
-        except weakref.ReferenceError:
+        except ReferenceError:
             return 0
         
-    def wrap( self, item ):
+    def wrap( item ):
         """Wrap an individual item in a weak-reference
 
         If the item is already a weak reference, we store
@@ -57,6 +57,7 @@ class WeakTuple( tuple ):
         if isinstance( item, weakref.ReferenceType ):
             item = item()
         return weakref.ref( item )
+    wrap = staticmethod( wrap )
     def unwrap( self, item ):
         """Unwrap an individual item
 
@@ -66,7 +67,7 @@ class WeakTuple( tuple ):
         """
         ref = item()
         if ref is None:
-            raise weakref.ReferenceError( """%s instance no longer valid (item %s has been collected)"""%( self.__class__.__name__, item))
+            raise ReferenceError( """%s instance no longer valid (item %s has been collected)"""%( self.__class__.__name__, item))
         return ref
 
     def __iter__( self ):
@@ -78,13 +79,10 @@ class WeakTuple( tuple ):
 
     def __getitem__( self, index ):
         """Get the item at the given index"""
-        return self.unwrap(super (WeakTuple,self).__getitem__( index ))
-    def __getslice__( self, start, stop ):
-        """Get the items in the range start to stop"""
-        return [
-            self.unwrap(obj) 
-            for obj in super (WeakTuple,self).__getslice__( start, stop)
-        ]
+        item = super (WeakTuple,self).__getitem__( index )
+        if isinstance( index, slice ):
+            return tuple([ self.unwrap(obj) for obj in item ])
+        return self.unwrap( item )
     def __contains__( self, item ):
         """Return boolean indicating whether the item is in the tuple"""
         for node in self:
@@ -113,24 +111,24 @@ class WeakTuple( tuple ):
     
     def __eq__( self, sequence ):
         """Compare the tuple to another (==)"""
-        return list(self) == sequence
+        return tuple(self) == sequence
     def __ge__( self, sequence ):
         """Compare the tuple to another (>=)"""
-        return list(self) >= sequence
+        return tuple(self) >= sequence
     def __gt__( self, sequence ):
         """Compare the tuple to another (>)"""
-        return list(self) > sequence
+        return tuple(self) > sequence
         
     def __le__( self, sequence ):
         """Compare the tuple to another (<=)"""
-        return list(self) <= sequence
+        return tuple(self) <= sequence
     def __lt__( self, sequence ):
         """Compare the tuple to another (<)"""
-        return list(self) < sequence
+        return tuple(self) < sequence
 
     def __ne__( self, sequence ):
         """Compare the tuple to another (!=)"""
-        return list(self) != sequence
+        return tuple(self) != sequence
 
     def __repr__( self ):
         """Return a code-like representation of the weak tuple"""
-- 
2.43.0


From 5a2849b2ce658bef4218efa8435ec6f0f8684960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 29/90] fix: the patched WeakKeyDictionary initialises its base
 class

The Python 3 base class keeps more state than data and _remove, so len() and
iteration failed.
---
 vrml/weakkeydictfix.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/vrml/weakkeydictfix.py b/vrml/weakkeydictfix.py
index a7341ae..08a1fef 100644
--- a/vrml/weakkeydictfix.py
+++ b/vrml/weakkeydictfix.py
@@ -16,18 +16,7 @@ class WeakKeyDictionary( weakref.WeakKeyDictionary ):
         dict -- previously-existing weak key records or
             None to create a new dictionary
         """
-        self.data = {}
-        def remove(k, selfref=ref(self)):
-            self = selfref()
-            if self is not None and self.data:
-                try:
-                    v = self.data.get( k )
-                    del self.data[k]
-                except (KeyError,RuntimeError):
-                    pass
-            # now v goes out of scope and is deleted...
-        self._remove = remove
-        if dict is not None: self.update(dict)
+        super( WeakKeyDictionary, self ).__init__( dict )
     def __delitem__(self, key):
         """Overridden delitem to avoid scanning"""
         try:
-- 
2.43.0


From 0985ec67cec21785a5614846fcc3603b4bb4da01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 30/90] fix: child lists and nodes assigned by attribute are
 treated as by fset

Assigning to (or reading the default of) an MFNode field by attribute
stored a list whose changes were not announced and whose nodes did not
adopt the scene; the announcements also carried the node rather than the
list, went to the node's other lists, ignored notify=0 and were missing
for assignments which did not change the membership.
---
 vrml/node.py | 103 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 72 insertions(+), 31 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index 337fc77..34eb9b8 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -384,6 +384,10 @@ class SFNode(_SFNode, field.Field):
     a sub-class of _SFNode and field.Field
     """
 
+    def __set__(self, client, value):
+        """Attribute assignment is the same as fset"""
+        self.fset(client, value)
+
 
 SFNode.requiredTypes = (Node,)
 
@@ -447,19 +451,26 @@ assert PrototypedNode.scenegraph.name == " scenegraph", PrototypedNode.scenegrap
 assert Node.rootSceneGraph.name == " root", Node.rootSceneGraph.name
 
 
-def _changeSender(nodeRef, field):
+def _changeSender(nodeRef, nodeField, listRef):
     """Utility function to send node-change messages on olist updates"""
 
-    def onOListChange(sender, signal, value):
-        client = nodeRef()
-        if client:
-            dispatcher.send(
-                ('set', field),
-                client,
-                value=sender,
-                subsignal=signal,
-                subvalue=value,
-            )
+    def onOListChange(sender, signal, value, field=None):
+        client, current = nodeRef(), listRef()
+        if (
+            client is None
+            or current is None
+            or field is not nodeField
+            or client.__dict__.get(nodeField.name) is not current
+            or getattr(current, 'inFieldSet', False)
+        ):
+            return
+        dispatcher.send(
+            ('set', nodeField),
+            client,
+            value=current,
+            subsignal=signal,
+            subvalue=value,
+        )
 
     return onOListChange
 
@@ -486,29 +497,20 @@ class _MFNode(object):
         """
         previous = client.__dict__.get(self.name)
         if previous is not None:
-            previous[:] = self.coerce(value)
+            value = self.coerce(value)
+            # the list tells about its changed children, the field
+            # tells about its new value only once, and only if asked to
+            previous.inFieldSet = True
+            try:
+                previous[:] = value
+            finally:
+                previous.inFieldSet = False
             value = previous
+            if notify:
+                dispatcher.send(('set', self), client, value=value)
         else:
             value = super(_MFNode, self).fset(client, value, notify)
-            # register for updates to the list...
-            # we just send "changed" events for the field whenever
-            # there's an update to the list... a bit wasteful, as
-            # our clients might want to know about just the changed
-            # values, but for now...
-            value.setSender(client, field=self)
-            cs = _changeSender(weakref.ref(client), self)
-            dispatcher.connect(
-                cs,
-                sender=client,
-                signal=olist.OList.DEL_CHILD_EVT,
-                weak=False,  # don't weakref receiver so it will hang around...
-            )
-            dispatcher.connect(
-                cs,
-                sender=client,
-                signal=olist.OList.NEW_CHILD_EVT,
-                weak=False,  # don't weakref receiver so it will hang around...
-            )
+            self.watchList(client, value)
         if value:
             clientRoot = Node.rootSceneGraph.fget(client)
             if clientRoot:
@@ -518,6 +520,24 @@ class _MFNode(object):
                         Node.rootSceneGraph.fset(val, clientRoot, notify=0)
         return value
 
+    def watchList(self, client, value):
+        """Make changes to the list (value) be changes to client's field
+
+        we just send "changed" events for the field whenever
+        there's an update to the list... a bit wasteful, as
+        our clients might want to know about just the changed
+        values, but for now...
+        """
+        value.setSender(client, field=self)
+        cs = _changeSender(weakref.ref(client), self, weakref.ref(value))
+        for signal in (olist.OList.DEL_CHILD_EVT, olist.OList.NEW_CHILD_EVT):
+            dispatcher.connect(
+                cs,
+                sender=client,
+                signal=signal,
+                weak=False,  # don't weakref receiver so it will hang around...
+            )
+
     def coerce(self, value):
         """Coerce value to an MFNode list-of-objects"""
         SF = self.__class__.baseSFNode
@@ -552,6 +572,27 @@ class _MFNode(object):
 class MFNode(_MFNode, field.Field):
     """MFNode Field class"""
 
+    def __set__(self, client, value):
+        """Attribute assignment is the same as fset"""
+        self.fset(client, value)
+
+    def __delete__(self, client):
+        """Attribute deletion is the same as fdel"""
+        self.fdel(client)
+
+    def fdel(self, client, notify=1):
+        """Delete the client's value, which is then no longer ours"""
+        value = super(MFNode, self).fdel(client, notify)
+        value.setSender(None)
+        return value
+
+    def getDefault(self, client=None):
+        """Get the default value of this field (and watch client's list)"""
+        value = super(MFNode, self).getDefault(client)
+        if client is not None and not isinstance(client, type):
+            self.watchList(client, value)
+        return value
+
 
 class MFNodeEvt(_MFNode, field.Event):
     """MFNode Event class"""
-- 
2.43.0


From f646293f35e33b0f3ed3985f182a34827c546c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 31/90] fix: copies share no nodes with the original and belong
 to the copied scene

Nodes held by SFNode and MFNode fields were not copied but shared, child
lists of a copy were plain lists, a node reachable from itself was copied
without end and the copied nodes stayed in the scene of the original.
---
 vrml/node.py              | 33 +++++++++++++++++++++++++++------
 vrml/vrml97/scenegraph.py | 10 ++++++++--
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index 34eb9b8..8c2d1ce 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -130,13 +130,14 @@ class Node(object):
         previous = copier.use(self)
         if previous is not None:
             return previous
-        dictionary = {}
-        for field in getFields(self):
-            if field.fhas(self):
-                dictionary[field.name] = field.copy(self, copier)
         newNode = type(self).__new__(type(self))
-        newNode.__dict__.update(dictionary)
+        # register first, as the node may be referenced from its own fields
         copier.use(self, newNode)
+        for field in getFields(self):
+            if field.fhas(self):
+                newNode.__dict__[field.name] = value = field.copy(self, copier)
+                if isinstance(field, MFNode):
+                    field.watchList(newNode, value)
         return newNode
 
     def toString(self, **namedargs):
@@ -299,6 +300,10 @@ class NullNode(Node):
         """Replicate the null object (return another pointer to it)"""
         return self
 
+    def copy(self, copier=None):
+        """There is only the one NULL object"""
+        return self
+
     def __str__(self):
         """Get a human-friendly representation of the NULL node"""
         return "NULL"
@@ -376,6 +381,12 @@ class _SFNode(object):
         """Convert the given value to a VRML97 representation"""
         return lineariser._linear(value)
 
+    def copyValue(self, value, copier=None):
+        """Copy a value for copier"""
+        if hasattr(value, 'copy'):
+            return value.copy(copier)
+        return value
+
 
 class SFNode(_SFNode, field.Field):
     """(Restricted) SFNode type
@@ -405,6 +416,14 @@ class WeakSFNode(_SFNode, field.WeakField, field.Field):
 
     fieldType = 'WeakSFNode'
 
+    def copyValue(self, value, copier=None):
+        """Copy a value for copier, refers to the copy if there is one"""
+        if not value:
+            return NULL
+        if copier is not None:
+            value = copier.use(value) or value
+        return weakref.ref(value)
+
 
 class RootScenegraphNode(WeakSFNode):
     fieldType = 'RootScenegraphNode'
@@ -560,7 +579,9 @@ class _MFNode(object):
     def copyValue(self, value, copier=None):
         """Copy a value for copier"""
         SF = self.__class__.baseSFNode
-        return [SF.copyValue(node, copier) for node in value]
+        if copier is None:
+            copier = copiermodule.Copier()
+        return self.baseObjectType([SF.copyValue(node, copier) for node in value])
 
 
 ##class WeakMFNode( MFNode ):
diff --git a/vrml/vrml97/scenegraph.py b/vrml/vrml97/scenegraph.py
index 62e589a..35b018c 100644
--- a/vrml/vrml97/scenegraph.py
+++ b/vrml/vrml97/scenegraph.py
@@ -170,13 +170,19 @@ class SceneGraph( nodetypes.Traversable, node.Node ):
                 newPrototypes[key] = protofunctions.copyProto( value, copier )
         else:
             newPrototypes = self.protoTypes.copy()
+        # the scene itself is copied before the named nodes, so that
+        # they refer to the new scene
+        node = super( SceneGraph, self).copy( copier )
         newDefs = {}
         for key,value in self.defNames.items():
             if (not key) or value is None:
                 continue
             newDefs[key] = value.copy( copier )
-        node = super( SceneGraph, self).copy( copier )
         node.protoTypes = newPrototypes
         node.defNames = newDefs
+        node.root = None
+        if self.root is not None:
+            root = self.root()
+            if root is not None:
+                node.root = weakref.ref( copier.use( root ) or root )
         return node
-    
-- 
2.43.0


From 4cfa7f97c9b7079eff967a7c28cdf7aa2b5b2d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 32/90] fix: IS mappings join a PROTO instance to its own copy
 of the body

They joined it to the body's template instead, so that instances shared
it, and only the last destination of a field got the initial value.
---
 vrml/node.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index 8c2d1ce..a121109 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -199,6 +199,8 @@ class PrototypedNode(object):
         for fieldName, mappings in isMappings:
             sourceField = getField(self, fieldName)
             for destination, destinationField in mappings:
+                # the mappings are those of the template's nodes
+                destination = destination.copy(copier)
                 r = route.IS(
                     source=self,
                     sourceField=fieldName,
@@ -206,18 +208,33 @@ class PrototypedNode(object):
                     destinationField=destinationField,
                 )
                 sg.routes.append(r)
-            if hasattr(sourceField, 'getDefault'):
-                default = sourceField.getDefault()
-                try:
-                    getField(destination, destinationField).fset(
-                        destination,
-                        default,
-                        notify=0,
-                    )
-                except AttributeError:
-                    pass
+                if hasattr(sourceField, 'getDefault'):
+                    self._initialIS(r, sourceField.getDefault())
         PrototypedNode.scenegraph.fset(self, sg)
 
+    def _initialIS(self, isRoute, value):
+        """Set the initial value of an IS mapping's destination
+
+        If the destination is itself prototyped, the value
+        is also given to the nodes in its scenegraph.
+        """
+        from vrml import route
+
+        destination = isRoute.destination
+        try:
+            destinationField = getField(destination, isRoute.destinationField)
+            value = destinationField.fset(destination, value, notify=0)
+        except AttributeError:
+            return
+        if isinstance(destination, PrototypedNode):
+            for r in PrototypedNode.scenegraph.fget(destination).routes:
+                if (
+                    isinstance(r, route.IS)
+                    and r.source is destination
+                    and getField(destination, r.sourceField) is destinationField
+                ):
+                    self._initialIS(r, value)
+
     def renderedChildren(self, types=None):
         """Get the rendered children of the scenegraph"""
         if types:
-- 
2.43.0


From 90d05fa23dc243b86a8d71de6dd244f16f7e3272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 33/90] fix: names may begin with a keyword

Node types and fields whose name begins with USE, DEF, PROTO, ROUTE,
Script, IS, NULL, TRUE or FALSE were read as that keyword.
---
 vrml/vrml200x/parser.py | 26 ++++++++++++++------------
 vrml/vrml97/parser.py   | 26 ++++++++++++++------------
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/vrml/vrml200x/parser.py b/vrml/vrml200x/parser.py
index 1b9e13a..588418a 100644
--- a/vrml/vrml200x/parser.py
+++ b/vrml/vrml200x/parser.py
@@ -32,9 +32,9 @@ asClause       := 'AS',ts,name
 
 vrmlFile       := header, vrmlScene, !, EOF
 vrmlScene      := rootItem*
-rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',ts,USE,ts)/Script/Node),ts
+rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',kw,ts,USE,ts)/Script/Node),ts
 
-Proto          := 'PROTO',ts,!, nodegi,ts,'[',ts,(fieldDecl/eventDecl)*,']', ts, '{', ts, vrmlScene,ts, '}', ts
+Proto          := 'PROTO',kw,ts,!, nodegi,ts,'[',ts,(fieldDecl/eventDecl)*,']', ts, '{', ts, vrmlScene,ts, '}', ts
 fieldDecl	   := fieldExposure,ts,!,dataType,ts,name,ts,Field,ts
 
 # inputOutput/initializeOnly not in the grammar
@@ -44,30 +44,32 @@ eventDecl      := eventDirection, ts, !,dataType, ts, name, ts
 
 # inputOnly/outputOnly not in the grammar
 eventDirection := 'inputOnly'/'outputOnly'/'eventIn'/'eventOut'
-ExternProto    := 'EXTERNPROTO',ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl)*,']', ts, ExtProtoURL
+ExternProto    := 'EXTERNPROTO',kw,ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl)*,']', ts, ExtProtoURL
 extFieldDecl   := fieldExposure,ts,!,dataType,ts,name,ts
 ExtProtoURL    := '['?,(ts,SFString)*, ts, ']'?, ts  # just an MFString by another name :)
 
-ROUTE          := 'ROUTE',ts, !,name,'.',name, ts, 'TO', ts, name,'.',name, ts
+ROUTE          := 'ROUTE',kw,ts, !,name,'.',name, ts, 'TO', ts, name,'.',name, ts
 
-Node           := ('DEF',ts,!,name,ts)?,nodegi,ts,'{',ts,(Proto/ExternProto/ROUTE/Attr)*,ts,!,'}', ts
+Node           := ('DEF',kw,ts,!,name,ts)?,nodegi,ts,'{',ts,(Proto/ExternProto/ROUTE/Attr)*,ts,!,'}', ts
 
-Script         := ('DEF',ts,!,name,ts)?,'Script',ts,!,'{',ts,(ScriptFieldDecl/ScriptEventDecl/Proto/ExternProto/ROUTE/Attr)*,ts,'}', ts
-ScriptEventDecl := eventDirection, ts, !,dataType, ts, name, ts, ('IS', ts,!, IS,ts)?
-ScriptFieldDecl := fieldExposure,ts,!,dataType,ts,name,ts,(('IS', ts,!,IS,ts)/Field),ts
+Script         := ('DEF',kw,ts,!,name,ts)?,'Script',kw,ts,!,'{',ts,(ScriptFieldDecl/ScriptEventDecl/Proto/ExternProto/ROUTE/Attr)*,ts,'}', ts
+ScriptEventDecl := eventDirection, ts, !,dataType, ts, name, ts, ('IS',kw, ts,!, IS,ts)?
+ScriptFieldDecl := fieldExposure,ts,!,dataType,ts,name,ts,(('IS',kw, ts,!,IS,ts)/Field),ts
 
-SFNull         := 'NULL', ts
+SFNull         := 'NULL',kw, ts
 
 # should really have an optimised way of declaring a different reporting name for the same production...
 USE            := name
 IS             := name
 nodegi         := name 
-Attr           := name, ts, (('IS', ts,IS,ts)/Field), ts
-Field          := ( '[',ts,((SFNumber/SFBool/SFString/('USE',ts,USE,ts)/Script/Node),ts)*, ']'!, ts )/((SFNumber/SFBool/SFNull/SFString/('USE',ts,USE,ts)/Script/Node),ts)+
+Attr           := name, ts, (('IS',kw, ts,IS,ts)/Field), ts
+Field          := ( '[',ts,((SFNumber/SFBool/SFString/('USE',kw,ts,USE,ts)/Script/Node),ts)*, ']'!, ts )/((SFNumber/SFBool/SFNull/SFString/('USE',kw,ts,USE,ts)/Script/Node),ts)+
 
 name           := -[][0-9{}\000-\020"'#,.\\ ],  -[][{}\000-\020"'#,.\\ ]*
+# a keyword ends where a name would, e.g. "USEful" is a name, not "USE ful"
+<kw>           := ?[][{}\000-\020"'#,.\\ ]/EOF
 SFNumber       := [-+]*, ( ('0',[xX],[0-9A-Fa-f]+) / ([0-9.]+,([eE],[-+0-9.]+)?))
-SFBool         := 'TRUE'/'FALSE'
+SFBool         := ('TRUE'/'FALSE'),kw
 SFString       := '"',(CHARNODBLQUOTE/ESCAPEDCHAR/SIMPLEBACKSLASH)*,'"'!
 CHARNODBLQUOTE :=  -[\134"]+
 SIMPLEBACKSLASH := '\134'
diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index 3c15c98..a0e4d3e 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -19,40 +19,42 @@ from simpleparse.common import chartypes
 grammar = r'''
 header         := -[\n]*
 vrmlFile       := header, vrmlScene, !, EOF
-rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',ts,USE,ts)/Script/Node),ts
+rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',kw,ts,USE,ts)/Script/Node),ts
 vrmlScene      := rootItem*
 
-Proto          := 'PROTO',ts,!, nodegi,ts,'[',ts,(fieldDecl/eventDecl)*,']', ts, '{', ts, vrmlScene,ts, '}', ts
+Proto          := 'PROTO',kw,ts,!, nodegi,ts,'[',ts,(fieldDecl/eventDecl)*,']', ts, '{', ts, vrmlScene,ts, '}', ts
 fieldDecl	   := fieldExposure,ts,!,dataType,ts,name,ts,Field,ts
 fieldExposure  := 'field'/'exposedField'
 dataType       := ('SF'/'MF')?,name
 eventDecl      := eventDirection, ts, !,dataType, ts, name, ts
 eventDirection := 'eventIn'/'eventOut'
-ExternProto    := 'EXTERNPROTO',ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl)*,']', ts, ExtProtoURL
+ExternProto    := 'EXTERNPROTO',kw,ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl)*,']', ts, ExtProtoURL
 extFieldDecl   := fieldExposure,ts,!,dataType,ts,name,ts
 ExtProtoURL    := '['?,(ts,SFString)*, ts, ']'?, ts  # just an MFString by another name :)
 
-ROUTE          := 'ROUTE',ts, !,name,'.',name, ts, 'TO', ts, name,'.',name, ts
+ROUTE          := 'ROUTE',kw,ts, !,name,'.',name, ts, 'TO', ts, name,'.',name, ts
 
-Node           := ('DEF',ts,!,name,ts)?,nodegi,ts,'{',ts,(Proto/ExternProto/ROUTE/Attr)*,ts,!,'}', ts
+Node           := ('DEF',kw,ts,!,name,ts)?,nodegi,ts,'{',ts,(Proto/ExternProto/ROUTE/Attr)*,ts,!,'}', ts
 
-Script         := ('DEF',ts,!,name,ts)?,'Script',ts,!,'{',ts,(ScriptFieldDecl/ScriptEventDecl/Proto/ExternProto/ROUTE/Attr)*,ts,'}', ts
-ScriptEventDecl := eventDirection, ts, !,dataType, ts, name, ts, ('IS', ts,!, IS,ts)?
-ScriptFieldDecl := fieldExposure,ts,!,dataType,ts,name,ts,(('IS', ts,!,IS,ts)/Field),ts
+Script         := ('DEF',kw,ts,!,name,ts)?,'Script',kw,ts,!,'{',ts,(ScriptFieldDecl/ScriptEventDecl/Proto/ExternProto/ROUTE/Attr)*,ts,'}', ts
+ScriptEventDecl := eventDirection, ts, !,dataType, ts, name, ts, ('IS',kw, ts,!, IS,ts)?
+ScriptFieldDecl := fieldExposure,ts,!,dataType,ts,name,ts,(('IS',kw, ts,!,IS,ts)/Field),ts
 
-SFNull         := 'NULL', ts
+SFNull         := 'NULL',kw, ts
 
 # should really have an optimised way of declaring a different reporting name for the same production...
 USE            := name
 IS             := name
 nodegi         := name 
-Attr           := name, ts, (('IS', ts,IS,ts)/Field), ts
-Field          := ( '[',ts,((vector/SFNumber/SFBool/SFString/('USE',ts,USE,ts)/Script/Node),ts)*, ']'!, ts )/((SFNumber/SFBool/SFNull/SFString/('USE',ts,USE,ts)/Script/Node),ts)+
+Attr           := name, ts, (('IS',kw, ts,IS,ts)/Field), ts
+Field          := ( '[',ts,((vector/SFNumber/SFBool/SFString/('USE',kw,ts,USE,ts)/Script/Node),ts)*, ']'!, ts )/((SFNumber/SFBool/SFNull/SFString/('USE',kw,ts,USE,ts)/Script/Node),ts)+
 
 vector         := '[',ts,((vector/SFNumber),ts)*,']'
 name           := -[][0-9{}\000-\020"'#,.\\ ],  -[][{}\000-\020"'#,.\\ ]*
+# a keyword ends where a name would, e.g. "USEful" is a name, not "USE ful"
+<kw>           := ?[][{}\000-\020"'#,.\\ ]/EOF
 SFNumber       := [-+]*, ( ('0',[xX],[0-9A-Fa-f]+) / ([0-9.]+,([eE],[-+0-9.]+)?))
-SFBool         := 'TRUE'/'FALSE'
+SFBool         := ('TRUE'/'FALSE'),kw
 SFString       := '"',(CHARNODBLQUOTE/ESCAPEDCHAR/SIMPLEBACKSLASH)*,'"'!
 CHARNODBLQUOTE :=  -[\134"]+
 SIMPLEBACKSLASH := '\134'
-- 
2.43.0


From 78e54173a68c3755b11a40ce89ff38ebdfad12a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 34/90] fix: NavigationInfo type defaults to ["WALK", "ANY"]

as given by ISO/IEC 14772-1 section 6.29
---
 vrml/vrml97/basenodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/basenodes.py b/vrml/vrml97/basenodes.py
index cd5f42e..fc1510e 100644
--- a/vrml/vrml97/basenodes.py
+++ b/vrml/vrml97/basenodes.py
@@ -330,7 +330,7 @@ class NavigationInfo( nodetypes.Children, nodetypes.NavigationInfo, node.Node ):
     speed = field.newField( 'speed', 'SFFloat', 1, 1.0)
     avatarSize = field.newField( 'avatarSize', 'MFFloat', 1, [0.25, 1.6000000000000001, 0.75])
     headlight = field.newField( 'headlight', 'SFBool', 1, 1)
-    type = field.newField( 'type', 'MFString', 1, ['WALK'])
+    type = field.newField( 'type', 'MFString', 1, ['WALK', 'ANY'])
     visibilityLimit = field.newField( 'visibilityLimit', 'SFFloat', 1, 0.0)
     #Events
     set_bind = field.newEvent( 'set_bind', 'SFBool', 0)
-- 
2.43.0


From 291a5809ee59dc4061487fc953fdacda13507e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 35/90] fix: array fields store C-contiguous arrays

contiguous() kept the memory layout of Fortran-ordered arrays.
---
 vrml/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/arrays.py b/vrml/arrays.py
index 27e2c78..02e0ad9 100644
--- a/vrml/arrays.py
+++ b/vrml/arrays.py
@@ -83,4 +83,4 @@ def safeCompare(first, second):
 
 def contiguous(a):
     """Force to a contiguous array"""
-    return array(a, typeCode(a))
+    return array(a, typeCode(a), order="C")
-- 
2.43.0


From b5faf0e13b763885b5df82ad1c9e2bba06b55288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 36/90] fix: a replaced cache holder does not remove its
 successor's data

A holder that depended on an object's existence deleted the entry of its
client and key when the object died, even if a newer holder had taken the
entry over.
---
 vrml/cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrml/cache.py b/vrml/cache.py
index 56d04be..68a91af 100644
--- a/vrml/cache.py
+++ b/vrml/cache.py
@@ -229,7 +229,8 @@ class CacheHolder( object ):
             client_id = id(client)
             current = cache.get( client_id )
             self.data = None
-            if current is None:
+            if current is None or current.get( self.key ) is not self:
+                # already gone, or replaced by a newer holder
                 return 0
             try:
                 del current[ self.key ]
-- 
2.43.0


From d37c51035e67817f8ad57f3e82d753bb083274c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 37/90] fix: transformmatrix.center accepts non-zero
 translations and centers

It asked for the truth value of a matrix, which raises ValueError.
---
 vrml/vrml97/transformmatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/transformmatrix.py b/vrml/vrml97/transformmatrix.py
index 2cd2ca3..1cef5a4 100644
--- a/vrml/vrml97/transformmatrix.py
+++ b/vrml/vrml97/transformmatrix.py
@@ -188,6 +188,6 @@ def center(
     T,T1 = transMatrix( translation )
     C,C1 = transMatrix( center )
     for x in (T,C):
-        if x:
+        if x is not None:
             parentMatrix = dot( x, parentMatrix)
     return dot( ORIGINPOINT, parentMatrix )
-- 
2.43.0


From 24a9fd034d7ce318ab32888f7b0ad9c9ee9e43d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 38/90] fix: without the accelerator too, del node.field does
 not depend on fdel overrides

The accelerated __delete__ does not call fdel, so for a field class which
overrides fdel the two builds treated del node.field differently.
---
 vrml/field.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vrml/field.py b/vrml/field.py
index b1368a3..a56afee 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -167,10 +167,14 @@ else:
 
         def __delete__(self, client):
             """Delete our value from client's dictionary (notifies)"""
-            self.fdel(client)
+            self._del(client, True)
 
         def fdel(self, client, notify=True):
             """Delete with notify"""
+            return self._del(client, notify)
+
+        def _del(self, client, notify):
+            """Delete the value, with notifications"""
             try:
                 value = client.__dict__.pop(self.name)
             except KeyError:
-- 
2.43.0


From e6e7d04a9e0095b83bbd785651c140364f6592bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:07 +0000
Subject: [PATCH 39/90] fix: a file without statements is an empty scene

White space and comments were only accepted around statements, so that a
file consisting of the header and a line break was refused.
---
 vrml/vrml200x/parser.py | 2 +-
 vrml/vrml97/parser.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/vrml200x/parser.py b/vrml/vrml200x/parser.py
index 588418a..e664dcd 100644
--- a/vrml/vrml200x/parser.py
+++ b/vrml/vrml200x/parser.py
@@ -30,7 +30,7 @@ importStatement := 'IMPORT',ts,name,ts,'.',ts,name,(ts,asClause)?,ts
 exportStatement := 'EXPORT',ts,name,(ts,asClause)?,ts
 asClause       := 'AS',ts,name
 
-vrmlFile       := header, vrmlScene, !, EOF
+vrmlFile       := header, vrmlScene, ts, !, EOF
 vrmlScene      := rootItem*
 rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',kw,ts,USE,ts)/Script/Node),ts
 
diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index a0e4d3e..15992fc 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -18,7 +18,7 @@ from simpleparse.common import chartypes
 #print file
 grammar = r'''
 header         := -[\n]*
-vrmlFile       := header, vrmlScene, !, EOF
+vrmlFile       := header, vrmlScene, ts, !, EOF
 rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',kw,ts,USE,ts)/Script/Node),ts
 vrmlScene      := rootItem*
 
-- 
2.43.0


From f25335c7796f88c8d02b6a2531184b08cdc249fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:16 +0000
Subject: [PATCH 40/90] fix: values of the wrong kind for boolean, string and
 node fields are refused

The parser took a number for FALSE, a number or a word for an empty string
and anything but a node for an empty list of nodes, and ignored all but
the first node given for an SFNode field.
---
 vrml/vrml97/parseprocessor.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 1b710f8..80b6a4f 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -24,6 +24,17 @@ EXPOSED = ('exposedField', 'inputOutput')
 EVENT_OUT = ('eventOut', 'outputOnly')
 
 
+# what is a value for a field of each type
+NODE_VALUES = ('USE', 'Script', 'Node', 'SFNull')
+VALUE_KINDS = {
+    'SFNode': NODE_VALUES,
+    'MFNode': NODE_VALUES,
+    'SFBool': ('SFBool',),
+    'SFString': ('SFString',),
+    'MFString': ('SFString',),
+}
+
+
 def asInt(text):
     """Convert VRML97 (decimal or 0x) integer text to an integer"""
     try:
@@ -360,7 +371,8 @@ class ParseProcessor(DispatchProcessor):
     def Field(self, table, buffer):
         '''A field value (of any type)'''
         (tag, start, stop, sublist) = table
-        if sublist and sublist[0][0] in ('USE', 'Script', 'Node', 'SFNull'):
+        self.checkKind(self.fieldTypeStack[-1], table, buffer)
+        if sublist and sublist[0][0] in NODE_VALUES:
             if self.fieldTypeStack[-1] == 'SFNode':
                 return dispatch(self, sublist[0], buffer)
             else:
@@ -372,6 +384,25 @@ class ParseProcessor(DispatchProcessor):
             function = getattr(self, self.fieldTypeStack[-1])
             return function(sublist, buffer)
 
+    def checkKind(self, fieldType, table, buffer):
+        '''Raise ValueError if the value isn't of the kind fieldType holds
+
+        Numbers are checked when they are converted.
+        '''
+        (tag, start, stop, sublist) = table
+        kinds = VALUE_KINDS.get(fieldType)
+        if kinds is None:
+            return
+        wrong = [item for item in sublist if item[0] not in kinds]
+        if wrong or (fieldType == 'SFNode' and len(sublist) != 1):
+            raise ValueError(
+                """Not a value for an %s field on line %s"""
+                % (
+                    fieldType,
+                    lines(end=start, buffer=buffer),
+                )
+            )
+
     def SFBool(self, table, buffer):
         '''Boolean, in Python tradition is either 0 or 1'''
         (tup,) = table
-- 
2.43.0


From 1242a1092e4967b53cefb93a1aba89215ba60bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 41/90] fix: comments and the header also end at a carriage
 return

With CR line ends the header was taken to be the whole file, and a comment
swallowed everything up to the next line feed.
---
 vrml/vrml200x/parser.py | 2 +-
 vrml/vrml97/parser.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vrml/vrml200x/parser.py b/vrml/vrml200x/parser.py
index e664dcd..6cc231c 100644
--- a/vrml/vrml200x/parser.py
+++ b/vrml/vrml200x/parser.py
@@ -74,7 +74,7 @@ SFString       := '"',(CHARNODBLQUOTE/ESCAPEDCHAR/SIMPLEBACKSLASH)*,'"'!
 CHARNODBLQUOTE :=  -[\134"]+
 SIMPLEBACKSLASH := '\134'
 ESCAPEDCHAR    := '\\"'/'\134\134'
-<ts>           :=  ( [ \011-\015,]+ / ('#',-'\012'*,'\n'?)+ )*
+<ts>           :=  ( [ \011-\015,]+ / ('#',-[\012\015]*)+ )*
 '''
 
 class VRMLParser( Parser ):
diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index 15992fc..b4cd754 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -17,7 +17,7 @@ from simpleparse.common import chartypes
 
 #print file
 grammar = r'''
-header         := -[\n]*
+header         := -[\012\015]*
 vrmlFile       := header, vrmlScene, ts, !, EOF
 rootItem       := ts,(Proto/ExternProto/ROUTE/('USE',kw,ts,USE,ts)/Script/Node),ts
 vrmlScene      := rootItem*
@@ -59,7 +59,7 @@ SFString       := '"',(CHARNODBLQUOTE/ESCAPEDCHAR/SIMPLEBACKSLASH)*,'"'!
 CHARNODBLQUOTE :=  -[\134"]+
 SIMPLEBACKSLASH := '\134'
 ESCAPEDCHAR    := '\\"'/'\134\134'
-<ts>           :=  ( [ \011-\015,]+ / ('#',-'\012'*,'\n'?)+ )*
+<ts>           :=  ( [ \011-\015,]+ / ('#',-[\012\015]*)+ )*
 '''
 
 class VRMLParser( Parser ):
-- 
2.43.0


From ea9a5046c6c13f2da59f781ce127228244470f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:20 +0000
Subject: [PATCH 42/90] fix: error messages about text with characters beyond
 U+FFFF do not exhaust memory

---
 vrml/vrml97/parseprocessor.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 80b6a4f..ad85325 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -1,6 +1,7 @@
 """SimpleParse post-processor builds node-graph from parse-tree
 """
 
+import re
 from simpleparse.dispatchprocessor import *
 from vrml import node, field
 from vrml.protofunctions import *
@@ -19,6 +20,17 @@ def getString(*args, **named):
     return as_str(base)
 
 
+LINE = re.compile(r'[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+')
+
+
+def lines(start=None, end=None, buffer=None):
+    """Count the lines in the given slice of buffer
+
+    simpleparse's version does not terminate for characters beyond U+FFFF
+    """
+    return len(LINE.findall(as_str(buffer[start or 0 : end or len(buffer)])))
+
+
 # VRML97 and VRML200x spellings
 EXPOSED = ('exposedField', 'inputOutput')
 EVENT_OUT = ('eventOut', 'outputOnly')
-- 
2.43.0


From bc28833e74703fcf4c78425b469a73203cb9f727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:20 +0000
Subject: [PATCH 43/90] fix: the URLs of an EXTERNPROTO are required and their
 brackets balanced

---
 vrml/vrml97/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index b4cd754..0027189 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -30,7 +30,7 @@ eventDecl      := eventDirection, ts, !,dataType, ts, name, ts
 eventDirection := 'eventIn'/'eventOut'
 ExternProto    := 'EXTERNPROTO',kw,ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl)*,']', ts, ExtProtoURL
 extFieldDecl   := fieldExposure,ts,!,dataType,ts,name,ts
-ExtProtoURL    := '['?,(ts,SFString)*, ts, ']'?, ts  # just an MFString by another name :)
+ExtProtoURL    := (('[',ts,(SFString,ts)*,']'!)/(SFString,ts)+), ts  # just an MFString by another name :)
 
 ROUTE          := 'ROUTE',kw,ts, !,name,'.',name, ts, 'TO', ts, name,'.',name, ts
 
-- 
2.43.0


From 46f211f67e0ecb72fdb04297a6c7416da721c3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 44/90] fix: NULL and nodes are refused as defaults of declared
 fields of other types

---
 vrml/vrml97/parseprocessor.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index ad85325..0ad31b8 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -402,10 +402,13 @@ class ParseProcessor(DispatchProcessor):
         Numbers are checked when they are converted.
         '''
         (tag, start, stop, sublist) = table
-        kinds = VALUE_KINDS.get(fieldType)
-        if kinds is None:
-            return
-        wrong = [item for item in sublist if item[0] not in kinds]
+        if fieldType in VALUE_KINDS:
+            kinds = VALUE_KINDS[fieldType]
+            wrong = [item for item in sublist if item[0] not in kinds]
+        elif fieldType.endswith('Node'):
+            wrong = []
+        else:
+            wrong = [item for item in sublist if item[0] in NODE_VALUES]
         if wrong or (fieldType == 'SFNode' and len(sublist) != 1):
             raise ValueError(
                 """Not a value for an %s field on line %s"""
-- 
2.43.0


From 00f4a40915689dcacc0f8548c8f178e347d6e2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 45/90] fix: wrong default values are refused where the field
 is declared

---
 vrml/vrml97/parseprocessor.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 0ad31b8..1bc9efd 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -271,15 +271,15 @@ class ParseProcessor(DispatchProcessor):
         self.fieldTypeStack.append(datatype)
         try:
             value = dispatch(self, value, buffer)
-            addField(
-                self.prototypeStack[-1],
-                field.newField(
-                    getString(name, buffer),
-                    datatype,
-                    getString(exposure, buffer) in EXPOSED,
-                    value,
-                ),
+            fieldObject = field.newField(
+                getString(name, buffer),
+                datatype,
+                getString(exposure, buffer) in EXPOSED,
+                value,
             )
+            # a default that is no value of the type is refused here
+            fieldObject.coerce(value)
+            addField(self.prototypeStack[-1], fieldObject)
         finally:
             self.fieldTypeStack.pop()
 
@@ -343,6 +343,7 @@ class ParseProcessor(DispatchProcessor):
                     getString(exposure, buffer) in EXPOSED,
                     value,
                 )
+                fieldObject.coerce(value)
             return (fieldObject, mapName)
         finally:
             self.fieldTypeStack.pop()
-- 
2.43.0


From dd8bd8c8e31eeaa7988fec8f9de1a737314cf2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 46/90] fix: a name has at least one character, also at the end
 of the text

---
 vrml/vrml200x/parser.py | 2 +-
 vrml/vrml97/parser.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/vrml200x/parser.py b/vrml/vrml200x/parser.py
index 6cc231c..f60f269 100644
--- a/vrml/vrml200x/parser.py
+++ b/vrml/vrml200x/parser.py
@@ -65,7 +65,7 @@ nodegi         := name
 Attr           := name, ts, (('IS',kw, ts,IS,ts)/Field), ts
 Field          := ( '[',ts,((SFNumber/SFBool/SFString/('USE',kw,ts,USE,ts)/Script/Node),ts)*, ']'!, ts )/((SFNumber/SFBool/SFNull/SFString/('USE',kw,ts,USE,ts)/Script/Node),ts)+
 
-name           := -[][0-9{}\000-\020"'#,.\\ ],  -[][{}\000-\020"'#,.\\ ]*
+name           := -[][0-9{}\000-\020"'#,.\\ ]+,  -[][{}\000-\020"'#,.\\ ]*
 # a keyword ends where a name would, e.g. "USEful" is a name, not "USE ful"
 <kw>           := ?[][{}\000-\020"'#,.\\ ]/EOF
 SFNumber       := [-+]*, ( ('0',[xX],[0-9A-Fa-f]+) / ([0-9.]+,([eE],[-+0-9.]+)?))
diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index 0027189..e69feb8 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -50,7 +50,7 @@ Attr           := name, ts, (('IS',kw, ts,IS,ts)/Field), ts
 Field          := ( '[',ts,((vector/SFNumber/SFBool/SFString/('USE',kw,ts,USE,ts)/Script/Node),ts)*, ']'!, ts )/((SFNumber/SFBool/SFNull/SFString/('USE',kw,ts,USE,ts)/Script/Node),ts)+
 
 vector         := '[',ts,((vector/SFNumber),ts)*,']'
-name           := -[][0-9{}\000-\020"'#,.\\ ],  -[][{}\000-\020"'#,.\\ ]*
+name           := -[][0-9{}\000-\020"'#,.\\ ]+,  -[][{}\000-\020"'#,.\\ ]*
 # a keyword ends where a name would, e.g. "USEful" is a name, not "USE ful"
 <kw>           := ?[][{}\000-\020"'#,.\\ ]/EOF
 SFNumber       := [-+]*, ( ('0',[xX],[0-9A-Fa-f]+) / ([0-9.]+,([eE],[-+0-9.]+)?))
-- 
2.43.0


From cf35e7ff123809c481b91fd3391d91f57e3db402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 47/90] fix: a node that is a declared default and used again
 is written in full

---
 vrml/vrml97/linearise.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index d323250..a8bed92 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -201,6 +201,9 @@ class Lineariser:
         self._indent(0)
         oldbuffer = self.buffer
         buffer = self.buffer = StringIO()  # local buffer only for this particular proto
+        # which nodes are done, and where, is about the local buffer too
+        oldalreadydone = self.alreadydone
+        self.alreadydone = {}
 
         # write header (PROTO x [, EXTERNPROTO x [ )
         # TODO: the externalURL descriptor no longer works, likely because the proto node
@@ -242,6 +245,7 @@ class Lineariser:
                 buffer.write('\n}#End PROTO %s\n' % (clientName))
             else:
                 buffer.write('\n}\n')
+        self.alreadydone = oldalreadydone
         self.alreadydone[id(clientNode)] = (
             self.protobuffer.tell(),
             self.protobuffer.tell() + buffer.tell(),
-- 
2.43.0


From 69f21c271c1a53a056130ff7ac3e07d3c60e851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:52 +0000
Subject: [PATCH 48/90] fix: a prototype without a scene graph can be written

---
 vrml/vrml97/linearise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index a8bed92..05868ad 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -237,7 +237,7 @@ class Lineariser:
             # references to prototypes not already linearised will cause a recursive
             # call to proto that will write those into the protobuffer before returning
             sg = getSceneGraph(clientNode)
-            if sg is not None:
+            if sg:
                 self._sceneGraph(sg)
             if 'EndComments' in linvalues and linvalues['EndComments'] * 60 < (
                 (buffer.tell())
-- 
2.43.0


From ced6a5b057729d1a7696ba0aaade49de5a77eb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 49/90] fix: planeCull refuses None instead of crashing

---
 accelerate/src/frustcullaccel.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/accelerate/src/frustcullaccel.pyx b/accelerate/src/frustcullaccel.pyx
index 32b3436..8203dcb 100644
--- a/accelerate/src/frustcullaccel.pyx
+++ b/accelerate/src/frustcullaccel.pyx
@@ -4,7 +4,7 @@ cimport numpy as np
 
 ctypedef np.float32_t DTYPE_T
 
-def planeCull( np.ndarray[DTYPE_T,ndim=2] planes, np.ndarray[DTYPE_T,ndim=2] points, float minDistance = 0.0 ):
+def planeCull( np.ndarray[DTYPE_T,ndim=2] planes not None, np.ndarray[DTYPE_T,ndim=2] points not None, float minDistance = 0.0 ):
     """Find first plane in planes which entirely excludes points
     
     planes[][4] -- frustum.Frustum.planes (plane equations of the frustum)
-- 
2.43.0


From a8d1c2df492835b4d7a3a0c60f66c75e0c23fa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 50/90] fix: colour texts with other characters than
 hexadecimal digits after # are refused

---
 vrml/csscolors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/csscolors.py b/vrml/csscolors.py
index 7e424c4..c8ee4aa 100644
--- a/vrml/csscolors.py
+++ b/vrml/csscolors.py
@@ -5,8 +5,8 @@ def stringToColor( value ):
     possible = cssColors.get( value )
     if possible:
         return possible
-    if value and value[0] == '#':
-        # HTML-style #hex encoding
+    if value and value[0] == '#' and not value[1:].strip( '0123456789abcdef' ):
+        # HTML-style #hex encoding (int alone would also take signs, spaces, underscores...)
         possible = int( value[1:],16)
         return toFloat(possible,16),toFloat(possible,8), toFloat(possible,0)
     else:
-- 
2.43.0


From e47c9dad62d4f81a1e22d0bd11e90633a9886d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 51/90] fix: five CSS colour names give the colours of the CSS
 specification

---
 vrml/csscolors.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vrml/csscolors.py b/vrml/csscolors.py
index c8ee4aa..409f595 100644
--- a/vrml/csscolors.py
+++ b/vrml/csscolors.py
@@ -77,10 +77,10 @@ cssColors = {
     'beige' : (0.9608,0.9608,0.8627),
     'lightyellow' : (1.0,1.0,0.8784),
     'lightgoldenrodyellow' : (0.9804,0.9804,0.8235),
-    'darkgoldenrod' : (0.7216,0.7137,0.0431),
+    'darkgoldenrod' : (0.7216,0.5255,0.0431),
     'olive' : (0.502,0.502,0.0),
     'yellow' : (1.0,1.0,0.0),
-    'yellowgreen' : (0.6627,0.8039,0.1961),
+    'yellowgreen' : (0.6039,0.8039,0.1961),
     'olivedrab' : (0.4196,0.5569,0.1373),
     'darkolivegreen' : (0.3333,0.4196,0.1843),
     'greenyellow' : (0.6784,1.0,0.1843),
@@ -118,7 +118,7 @@ cssColors = {
     'powderblue' : (0.6902,0.8784,0.902),
     'lightblue' : (0.6784,0.8471,0.902),
     'deepskyblue' : (0.0,0.749,1.0),
-    'skyblue' : (0.5294,0.8078,0.9294),
+    'skyblue' : (0.5294,0.8078,0.9216),
     'lightskyblue' : (0.5294,0.8078,0.9804),
     'steelblue' : (0.2745,0.5098,0.7059),
     'aliceblue' : (0.9412,0.9725,1.0),
@@ -127,7 +127,7 @@ cssColors = {
     'dodgerblue' : (0.1176,0.5647,1.0),
     'lightsteelblue' : (0.6902,0.7686,0.8706),
     'cornflowerblue' : (0.3922,0.5843,0.9294),
-    'royalblue' : (0.0157,0.0863,0.5647),
+    'royalblue' : (0.2549,0.4118,0.8824),
     'ghostwhite' : (0.9725,0.9725,1.0),
     'lavender' : (0.902,0.902,0.9804),
     'midnightblue' : (0.098,0.098,0.4392),
@@ -157,7 +157,7 @@ cssColors = {
     'hotpink' : (1.0,0.4118,0.7059),
     'lavenderblush' : (1.0,0.9412,0.9608),
     'palevioletred' : (0.8588,0.4392,0.5765),
-    'pink' : (1.0,0.7529,0.8039),
+    'pink' : (1.0,0.7529,0.7961),
     'crimson' : (0.8627,0.0784,0.2353),
     'lightpink' : (1.0,0.7137,0.7569),
 }
-- 
2.43.0


From 5885248682ab2385203d2bf4b039564635e152fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 52/90] fix: a weak path's nodes, not its references, are added
 to a strong path

---
 vrml/nodepath.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrml/nodepath.py b/vrml/nodepath.py
index db38c3f..b5bdece 100644
--- a/vrml/nodepath.py
+++ b/vrml/nodepath.py
@@ -46,6 +46,9 @@ class NodePath( list ):
         """Return a new path with other as tail"""
         if isinstance( other, node.Node ):
             other = [other]
+        elif isinstance( other, list ):
+            # a weak path's own storage holds references, not nodes
+            other = list( other )
         return self.__class__( super(NodePath, self).__add__( other))
     def __getslice__(self, start, stop):
         """Return a new path with our items from start to stop"""
-- 
2.43.0


From 95b1d7959621eda769c83d5dc16551bf24d52f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 53/90] fix: WeakList operations that still gave out weak
 references give items

---
 vrml/weaklist.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/vrml/weaklist.py b/vrml/weaklist.py
index 0301e09..f5be9eb 100644
--- a/vrml/weaklist.py
+++ b/vrml/weaklist.py
@@ -60,6 +60,9 @@ class WeakList( list ):
         while index < len(self):
             yield self[index]
             index += 1
+    def __reversed__( self ):
+        """Iterate over the list backward, yielding strong references"""
+        return reversed( self.get())
 
     def __setitem__( self, index, item ):
         """Set the item at the given index"""
@@ -88,6 +91,22 @@ class WeakList( list ):
         """Extend this list in-place with another sequence"""
         self.extend( sequence )
         return self
+    def __imul__( self, count ):
+        """Repeat this list in-place (each entry has its own reference)"""
+        self[:] = self.get() * count
+        return self
+    def __add__( self, sequence ):
+        """Return the items and those of another list as a list"""
+        if isinstance( sequence, WeakList ):
+            sequence = sequence.get()
+        return self.get() + sequence
+    def __mul__( self, count ):
+        """Return the items, repeated, as a list"""
+        return self.get() * count
+    __rmul__ = __mul__
+    def copy( self ):
+        """Return a weak list of the same items"""
+        return self.__class__( self.get())
 
     def __getitem__( self, index ):
         """Get the item at the given index"""
@@ -105,9 +124,9 @@ class WeakList( list ):
     def count( self, item ):
         """Return integer count of instances of item in list"""
         return self.get().count(item)
-    def index( self, item ):
+    def index( self, item, *arguments ):
         """Return integer index of item in list"""
-        return self.get().index(item)
+        return self.get().index(item, *arguments)
     def remove( self, item ):
         """Remove the given item from the list"""
         t = self.get()
-- 
2.43.0


From 3d75e2cd117d212bc2124c51350c0fece0ac40d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 54/90] fix: paths differ (!=) exactly when they are not equal,
 also a strong and a weak one

---
 vrml/nodepath.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrml/nodepath.py b/vrml/nodepath.py
index b5bdece..c59bfbd 100644
--- a/vrml/nodepath.py
+++ b/vrml/nodepath.py
@@ -61,6 +61,9 @@ class NodePath( list ):
             if self [index] is not other [index]:
                 return 0
         return 1
+    def __ne__( self, other ):
+        """Check whether we differ from another path (or from any other object)"""
+        return not isinstance( other, list ) or not self == other
 
 class WeakNodePath( NodePath, weaklist.WeakList ):
     """Node path that uses weak-references to nodes
-- 
2.43.0


From 3425d5565c8fc3e9f4e438baa06312a8bc7b896e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 55/90] fix: a field hidden by an event of a derived prototype
 is not listed

---
 vrml/protofunctions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrml/protofunctions.py b/vrml/protofunctions.py
index 6f495a6..92c4111 100644
--- a/vrml/protofunctions.py
+++ b/vrml/protofunctions.py
@@ -167,12 +167,13 @@ def getFields(cls, events=0):
                 [
                     (key, value)
                     for key, value in mro[-1].__dict__.items()
-                    if isinstance(value, wanted)
+                    if isinstance(value, (field.Field, field.Event))
                 ]
             )
         )
         mro = mro[:-1]
-    return list(items.values())
+    # a field may be hidden by an event of a derived class, and the reverse
+    return [value for value in items.values() if isinstance(value, wanted)]
 
 
 ##def clonePROTO( cls ):
-- 
2.43.0


From 28ed97f104c9a9140337c1f83582da8aa048ba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 56/90] fix: writing a scene no longer changes the formatting
 options it was given (a failed write left its indentation in the module's
 defaults)

---
 vrml/vrml97/linearise.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index 05868ad..5568ae1 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -56,9 +56,9 @@ class Lineariser:
     def __init__(self, linvalues=None, alreadydone=None, *args, **namedargs):
         if linvalues is None:
             linvalues = defaults
-        if namedargs:
-            linvalues = linvalues.copy()
-            linvalues.update(namedargs)
+        # our own copy, as the current indentation is kept in it
+        linvalues = linvalues.copy()
+        linvalues.update(namedargs)
         self.linvalues = linvalues
         if alreadydone is None:
             self.alreadydone = {}
-- 
2.43.0


From 7b3787a3b3b839106f5d3f13e45adbb8a5d92f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 57/90] fix: declarations of a parsed scene stay out of the
 base prototypes, and a scene that failed out of later ones (PROTO sceneGraph
 broke the rest of its scene; a given basePrototypes changed meaning for the
 next)

---
 vrml/vrml97/parseprocessor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 1bc9efd..3b018f0 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -116,7 +116,8 @@ class ParseProcessor(DispatchProcessor):
             protoTypes = None
         else:
             root = None
-            protoTypes = self.basePrototypes
+            # declarations of the scene are not to show in other scenes
+            protoTypes = self.basePrototypes.copy()
         self.sceneGraphStack.append(
             self.basePrototypes.get('sceneGraph')(
                 root=root,
@@ -124,8 +125,10 @@ class ParseProcessor(DispatchProcessor):
                 baseURI=self.baseURI,
             )
         )
-        dispatchList(self, children, buffer)
-        node = self.sceneGraphStack.pop()
+        try:
+            dispatchList(self, children, buffer)
+        finally:
+            node = self.sceneGraphStack.pop()
         return node
 
     ### The two prototype sub-types
-- 
2.43.0


From 5e134fdf43b541939808ea8039fa1b69c0ded7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 58/90] fix: a ProtoNamespace can be copied, so that parsed
 scenes have one (names as attributes) and not a plain dict

---
 vrml/protonamespace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrml/protonamespace.py b/vrml/protonamespace.py
index 38cd565..101f9d7 100644
--- a/vrml/protonamespace.py
+++ b/vrml/protonamespace.py
@@ -9,5 +9,6 @@ class ProtoNamespace( dict ):
         raise AttributeError( '%r object has no %r attribute'%( self.__class__.__name__, key))
     def __copy__( self ):
         """Produce a ProtoNamespace copy of self"""
-        return self.__class__( super(ProtoNamespace,self).__copy__())
+        return self.__class__( self )
+    copy = __copy__
     
-- 
2.43.0


From 0b77c98931088ac56b82e768b2d4a32d450b5727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 59/90] fix: X3D headers with COMPONENT statements, several
 META statements, comments or blanks are read

---
 vrml/vrml200x/parser.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vrml/vrml200x/parser.py b/vrml/vrml200x/parser.py
index f60f269..802a931 100644
--- a/vrml/vrml200x/parser.py
+++ b/vrml/vrml200x/parser.py
@@ -10,18 +10,19 @@ from simpleparse.common import chartypes
 
 #print file
 grammar = r'''
-header         := headerStatement,profileStatement,componentStatement*,metaStatement*
+header         := headerStatement,ts,profileStatement,ts,(componentStatement,ts)*,(metaStatement,ts)*
 headerStatement  := ('#X3D',ts,SFNumber,ts,'utf8',ts,headerComment?,newLine)/('#',headerComment?,newLine)
 headerComment  := -newLine+
-profileStatement := 'PROFILE', ts, profileName,newLine
+profileStatement := 'PROFILE',kw, ts, profileName
 profileName    := name
 <newLine>      := ('\r\n'/'\r'/'\n')
 
-componentStatement := 'COMPONENT',ts, componentNameId, ts,':', ts, componentSupportLevel
-componentNameId := name
+componentStatement := 'COMPONENT',kw,ts, componentNameId, ts,':', ts, componentSupportLevel
+# a name, up to the colon
+componentNameId := -[][0-9{}\000-\020"'#,.\\: ]+,  -[][{}\000-\020"'#,.\\: ]*
 componentSupportLevel := SFNumber
 
-metaStatement  := 'META',ts, metakey,ts,metavalue
+metaStatement  := 'META',kw,ts, metakey,ts,metavalue
 metakey        := SFString
 metavalue      := SFString
 
-- 
2.43.0


From 37d22ce07bb686caf7301b535426afa879f51718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 60/90] fix: the X3D header line may give its version without V
 (it took the PROFILE line for its comment)

---
 vrml/vrml200x/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrml/vrml200x/parser.py b/vrml/vrml200x/parser.py
index 802a931..43b98a2 100644
--- a/vrml/vrml200x/parser.py
+++ b/vrml/vrml200x/parser.py
@@ -11,7 +11,8 @@ from simpleparse.common import chartypes
 #print file
 grammar = r'''
 header         := headerStatement,ts,profileStatement,ts,(componentStatement,ts)*,(metaStatement,ts)*
-headerStatement  := ('#X3D',ts,SFNumber,ts,'utf8',ts,headerComment?,newLine)/('#',headerComment?,newLine)
+# e.g. "#X3D V3.0 utf8 comment"
+headerStatement  := '#',headerComment?,newLine
 headerComment  := -newLine+
 profileStatement := 'PROFILE',kw, ts, profileName
 profileName    := name
-- 
2.43.0


From 7a4c822b6ee2d5875f1e71d0a831b1d0e47f543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:49 +0000
Subject: [PATCH 61/90] fix: error messages give the right line for what begins
 a line

---
 vrml/vrml97/parseprocessor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 3b018f0..60adda2 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -20,15 +20,18 @@ def getString(*args, **named):
     return as_str(base)
 
 
-LINE = re.compile(r'[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+')
+LINE_END = re.compile(r'\r\n|\r|\n')
 
 
 def lines(start=None, end=None, buffer=None):
-    """Count the lines in the given slice of buffer
+    """Get the number of the line (within the given slice) that end is on
 
     simpleparse's version does not terminate for characters beyond U+FFFF
+    and gives the line before for the beginning of a line
     """
-    return len(LINE.findall(as_str(buffer[start or 0 : end or len(buffer)])))
+    if end is None:
+        end = len(buffer)
+    return len(LINE_END.findall(as_str(buffer[start or 0 : end]))) + 1
 
 
 # VRML97 and VRML200x spellings
-- 
2.43.0


From f61e8639c86485ea17f485b64b49bb683edf8c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:49 +0000
Subject: [PATCH 62/90] fix: the appearance of a new ShaderGeometry is NULL
 (its default was refused)

---
 vrml/vrml97/shaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/shaders.py b/vrml/vrml97/shaders.py
index 225daa7..50ab4bb 100644
--- a/vrml/vrml97/shaders.py
+++ b/vrml/vrml97/shaders.py
@@ -23,7 +23,7 @@ class ShaderGeometry( nodetypes.Children, nodetypes.Rendering, node.Node ):
     attributes = field.newField( 'attributes','MFNode',1,list )
     slices = field.newField( 'slices', 'MFNode',1,list )
     uniforms = field.newField( 'uniforms','MFNode',1,list )
-    appearance = field.newField( 'appearance', 'SFNode',1,list )
+    appearance = field.newField( 'appearance', 'SFNode',1,node.NULL )
 
 class ShaderSlice( node.Node ):
     """Segment of a shader geometry element to render"""
-- 
2.43.0


From 134be6a47db616881345af7da95aa03a440e5a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:50 +0000
Subject: [PATCH 63/90] fix: the SFMatrix field and event types are registered
 as the others are

---
 vrml/fieldtypes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 18ae29a..a00d98f 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -1417,6 +1417,8 @@ field.register(SFArray32)
 field.register(MFVec2f)
 field.register(MFVec3f)
 field.register(MFVec4f)
+field.register(SFMatrix3f)
+field.register(SFMatrix4f)
 field.register(MFMatrix3f)
 field.register(MFMatrix4f)
 field.register(SFVec2d)
@@ -1425,6 +1427,8 @@ field.register(SFVec4d)
 field.register(MFVec2d)
 field.register(MFVec3d)
 field.register(MFVec4d)
+field.register(SFMatrix3d)
+field.register(SFMatrix4d)
 field.register(MFMatrix3d)
 field.register(MFMatrix4d)
 
@@ -1454,6 +1458,8 @@ field.register(SFArray32Evt)
 field.register(MFVec2fEvt)
 field.register(MFVec3fEvt)
 field.register(MFVec4fEvt)
+field.register(SFMatrix3fEvt)
+field.register(SFMatrix4fEvt)
 field.register(MFMatrix3fEvt)
 field.register(MFMatrix4fEvt)
 field.register(SFVec2dEvt)
@@ -1462,6 +1468,8 @@ field.register(SFVec4dEvt)
 field.register(MFVec2dEvt)
 field.register(MFVec3dEvt)
 field.register(MFVec4dEvt)
+field.register(SFMatrix3dEvt)
+field.register(SFMatrix4dEvt)
 field.register(MFMatrix3dEvt)
 field.register(MFMatrix4dEvt)
 
-- 
2.43.0


From 69d07213fcafbb775732e7f2045b21d30f9f881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:50 +0000
Subject: [PATCH 64/90] fix: double-precision matrix fields too are the
 identity by default

---
 vrml/fieldtypes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index a00d98f..d1217bc 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -786,12 +786,20 @@ class _SFMatrix3d(_SFVec):
 
     dimension = (3, 3)
 
+    def defaultDefault(self):
+        """Default default value for vectors/colours"""
+        return arrays.identity(self.dimension[0], self.targetType)
+
 
 class _SFMatrix4d(_SFVec):
     """4x4 matrix field/event type base-class"""
 
     dimension = (4, 4)
 
+    def defaultDefault(self):
+        """Default default value for vectors/colours"""
+        return arrays.identity(self.dimension[0], self.targetType)
+
 
 class _SFColor(_Color, _SFVec3f):
     """SFColor field/event type base-class"""
-- 
2.43.0


From 1ca077ae0f095fe4ae072f2a860665b16300ac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:11 +0000
Subject: [PATCH 65/90] fix: matrix values are written as numbers (rows were
 written as numpy prints them)

---
 vrml/fieldtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index d1217bc..225cf9d 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -552,7 +552,7 @@ class _SFVec(object):
     def vrmlstr(self, value, lineariser=None):
         """Convert the given value to a VRML97 representation"""
         return _linvalues(lineariser)['numsep'].join(
-            [SFFloat_vrmlstr(obj, lineariser) for obj in value]
+            [SFFloat_vrmlstr(obj, lineariser) for obj in arrays.ravel(value)]
         )
 
     def copyValue(self, value, copier=None):
-- 
2.43.0


From 7978cf5751ee84ef0b51f088c04bbe73d62ff873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 66/90] fix: SFArray values are written in full (long ones lost
 entries, all lost digits)

---
 vrml/fieldtypes.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vrml/fieldtypes.py b/vrml/fieldtypes.py
index 225cf9d..a54b4c9 100644
--- a/vrml/fieldtypes.py
+++ b/vrml/fieldtypes.py
@@ -635,7 +635,14 @@ class _SFArray(object):
 
     def vrmlstr(self, value, lineariser=None):
         """Convert the given value to a VRML97 representation"""
-        return str(value)
+        if arrays.typeCode(value) == 'V':
+            return str(value)
+        elif not arrays.shape(value):
+            return SFFloat_vrmlstr(value, lineariser)
+        linvalues = _linvalues(lineariser)
+        return '[%s]' % linvalues['numsep'].join(
+            [self.vrmlstr(item, lineariser) for item in value]
+        )
 
     def copyValue(self, value, copier=None):
         """Copy a value for copier"""
-- 
2.43.0


From 92bad08fc466a8a704dc4f76fc9d3019ae4fa777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 67/90] fix: values of all field types can be read (those of
 the shader nodes could only be written)

---
 vrml/vrml97/parseprocessor.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 60adda2..4958e1b 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -440,13 +440,16 @@ class ParseProcessor(DispatchProcessor):
         (tup,) = table
         return asInt(getString(tup, buffer))
 
+    SFUInt32 = SFInt32
+
     def SFVec3f(self, table, buffer):
         return [float(getString(item, buffer)) for item in table]
 
     def SFVec2f(self, table, buffer):
         return [float(getString(item, buffer)) for item in table]
 
-    SFColor = SFVec3f
+    SFColor = SFVec4f = SFVec2d = SFVec3d = SFVec4d = SFVec3f
+    SFMatrix3f = SFMatrix4f = SFMatrix3d = SFMatrix4d = SFVec3f
 
     def SFRotation(self, table, buffer):
         return [float(getString(item, buffer)) for item in table]
@@ -460,9 +463,11 @@ class ParseProcessor(DispatchProcessor):
             else:
                 result.append(float(buffer[start:stop]))
         if final:
-            result = array(result, 'f')
+            result = array(result, 'd')
         return result
 
+    SFArray32 = SFArray
+
     def MFInt32(self, tuples, buffer):
         # localisation
         if not tuples:
@@ -479,6 +484,8 @@ class ParseProcessor(DispatchProcessor):
         return [float(buffer[start:stop]) for (tag, start, stop, children) in tuples]
 
     MFColor = MFRotation = MFVec2f = MFVec3f = MFTime = MFFloat32 = MFFloat
+    MFVec4f = MFVec2d = MFVec3d = MFVec4d = MFFloat
+    MFMatrix3f = MFMatrix4f = MFMatrix3d = MFMatrix4d = MFFloat
 
     def MFString(self, tuples, buffer):
         bigresult = []
-- 
2.43.0


From 807c4128d25f4ee0dc83d11926f2b0063c36cf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 68/90] fix: keep the empty body of a prototype that has none
 with that prototype

The loop's variable was left at the last class of the MRO, i.e. Node: the
template of the first such prototype was stored in the base class, and was
shared by every prototype without a body from then on.
---
 vrml/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/node.py b/vrml/node.py
index a121109..2b59f2b 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -190,7 +190,7 @@ class PrototypedNode(object):
             from vrml.vrml97 import scenegraph
 
             template = scenegraph.SceneGraph()
-            PrototypedNode.scenegraph.fset(cls, template)
+            PrototypedNode.scenegraph.fset(self.__class__, template)
             isMappings = []
         # 			raise ValueError( """Attempting to instantiate a prototyped node with no scenegraph defined: %s"""%( self,))
 
-- 
2.43.0


From 79946a146cec5dcd54b1e0a1da908fe440dfff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:36 +0000
Subject: [PATCH 69/90] fix: a refused text left its unfinished nodes with the
 processor

---
 vrml/vrml97/parseprocessor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 4958e1b..3b440dd 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -132,6 +132,9 @@ class ParseProcessor(DispatchProcessor):
             dispatchList(self, children, buffer)
         finally:
             node = self.sceneGraphStack.pop()
+            if not self.sceneGraphStack:
+                # nodes which a refused text left unfinished
+                del self.nodeStack[:]
         return node
 
     ### The two prototype sub-types
-- 
2.43.0


From ebf25bd406a813490d0da5607a6fc03abefde002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 70/90] fix: slice assignment, extend and += of an OList accept
 items without a hash

---
 vrml/olist.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vrml/olist.py b/vrml/olist.py
index 29be33b..4a5ab4b 100644
--- a/vrml/olist.py
+++ b/vrml/olist.py
@@ -97,7 +97,13 @@ class OList( list ):
         if isinstance( index, slice ):
             values = list(value)
             previous = self.__getitem__( index )
-            currents = set( previous )
+            try:
+                currents = set( previous )
+                for value in values:
+                    hash( value )
+            except TypeError:
+                # items that have no hash are found by comparing
+                currents = list( previous )
             super(OList,self).__setitem__( index, values )
             for value in values:
                 if value not in currents:
-- 
2.43.0


From 147340244a75faddc0840d3cc04ac547d7ca4680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:24 +0000
Subject: [PATCH 71/90] fix: the body and the location of a prototype can be
 deleted

---
 accelerate/src/fieldaccel2.pyx | 10 +++++++++-
 vrml/field.py                  | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/accelerate/src/fieldaccel2.pyx b/accelerate/src/fieldaccel2.pyx
index 9abc0bb..44870b5 100644
--- a/accelerate/src/fieldaccel2.pyx
+++ b/accelerate/src/fieldaccel2.pyx
@@ -64,7 +64,15 @@ cdef class BaseField( object ):
     cdef _del(self, client, int notify):
         """Delete the value, with notifications"""
         try:
-            value = client.__dict__.pop( self.name )
+            if isinstance( client, type ):
+                # a class's dictionary can't be changed directly
+                value = client.__dict__[self.name]
+                if value is self:
+                    # is the declaration, not a value
+                    raise KeyError( self.name )
+                delattr( client, self.name )
+            else:
+                value = client.__dict__.pop( self.name )
         except KeyError as err:
             raise AttributeError( self.name )
         if notify:
diff --git a/vrml/field.py b/vrml/field.py
index a56afee..480b7e8 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -176,7 +176,15 @@ else:
         def _del(self, client, notify):
             """Delete the value, with notifications"""
             try:
-                value = client.__dict__.pop(self.name)
+                if isinstance(client, type):
+                    # a class's dictionary can't be changed directly
+                    value = client.__dict__[self.name]
+                    if value is self:
+                        # is the declaration, not a value
+                        raise KeyError(self.name)
+                    delattr(client, self.name)
+                else:
+                    value = client.__dict__.pop(self.name)
             except KeyError:
                 raise AttributeError(self.name)
             if notify:
-- 
2.43.0


From cde0e4f3a562205ddac1f96cb37b10ba9e8801f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:24 +0000
Subject: [PATCH 72/90] fix: reading the body or the location of a prototype
 that has none doesn't give it one, shared by its nodes

---
 accelerate/src/fieldaccel2.pyx | 5 ++++-
 vrml/field.py                  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/accelerate/src/fieldaccel2.pyx b/accelerate/src/fieldaccel2.pyx
index 44870b5..a49f174 100644
--- a/accelerate/src/fieldaccel2.pyx
+++ b/accelerate/src/fieldaccel2.pyx
@@ -57,7 +57,10 @@ cdef class BaseField( object ):
             defaultobj = self.defaultobj()
         else:
             defaultobj = self.defaultobj
-        if client is not None:
+        if isinstance( client, type ):
+            # reading a prototype's value doesn't declare it
+            defaultobj = self.coerce( defaultobj )
+        elif client is not None:
             defaultobj = self._set( client, defaultobj, 0 )
         return defaultobj
 
diff --git a/vrml/field.py b/vrml/field.py
index 480b7e8..8959612 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -161,7 +161,10 @@ else:
                 defaultobj = self.defaultobj()
             else:
                 defaultobj = self.defaultobj
-            if client is not None:
+            if isinstance(client, type):
+                # reading a prototype's value doesn't declare it
+                defaultobj = self.coerce(defaultobj)
+            elif client is not None:
                 defaultobj = self._set(client, defaultobj)
             return defaultobj
 
-- 
2.43.0


From c99fa03de733cb64b0bc2bf5b109563edcf7fc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:46 +0000
Subject: [PATCH 73/90] fix: an empty body made for a node isn't kept as its
 prototype's own, which would hide one that a base gets later

---
 vrml/node.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/vrml/node.py b/vrml/node.py
index 2b59f2b..a05a7f5 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -190,7 +190,6 @@ class PrototypedNode(object):
             from vrml.vrml97 import scenegraph
 
             template = scenegraph.SceneGraph()
-            PrototypedNode.scenegraph.fset(self.__class__, template)
             isMappings = []
         # 			raise ValueError( """Attempting to instantiate a prototyped node with no scenegraph defined: %s"""%( self,))
 
-- 
2.43.0


From b6db528aa4b5f2e9d3d1d92e7123c6e535c1a156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:47 +0000
Subject: [PATCH 74/90] fix: the X3D parser refuses a location list with one
 bracket, or of no strings, as the VRML97 one does

---
 vrml/vrml200x/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml200x/parser.py b/vrml/vrml200x/parser.py
index 43b98a2..9098e39 100644
--- a/vrml/vrml200x/parser.py
+++ b/vrml/vrml200x/parser.py
@@ -48,7 +48,7 @@ eventDecl      := eventDirection, ts, !,dataType, ts, name, ts
 eventDirection := 'inputOnly'/'outputOnly'/'eventIn'/'eventOut'
 ExternProto    := 'EXTERNPROTO',kw,ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl)*,']', ts, ExtProtoURL
 extFieldDecl   := fieldExposure,ts,!,dataType,ts,name,ts
-ExtProtoURL    := '['?,(ts,SFString)*, ts, ']'?, ts  # just an MFString by another name :)
+ExtProtoURL    := (('[',ts,(SFString,ts)*,']'!)/(SFString,ts)+), ts  # just an MFString by another name :)
 
 ROUTE          := 'ROUTE',kw,ts, !,name,'.',name, ts, 'TO', ts, name,'.',name, ts
 
-- 
2.43.0


From af8c8ba2060dd3f6e20048ab8d689c877c1e204b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:04 +0000
Subject: [PATCH 75/90] fix: the children of a node and other kinds of lists
 are written as lists of nodes

---
 vrml/vrml97/linearise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index 5568ae1..2d62b31 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -103,7 +103,7 @@ class Lineariser:
         )  # used to look up whether we need to output a prototype...
         self.curproto = []
         self.indentationlevel = 0
-        if type(clientNode) in (list, tuple):
+        if isinstance(clientNode, (list, tuple)):
             for child in clientNode:
                 self._linear(child)
                 self.buffer.write('\n')
-- 
2.43.0


From 379f039212fe2a11748220e71ef37ac3433ae269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 76/90] fix: the matrices of types derived from Transform use
 those types' own defaults

---
 vrml/vrml97/basenodes.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vrml/vrml97/basenodes.py b/vrml/vrml97/basenodes.py
index fc1510e..7a0351e 100644
--- a/vrml/vrml97/basenodes.py
+++ b/vrml/vrml97/basenodes.py
@@ -604,9 +604,15 @@ class Transform( nodetypes.Children, nodetypes.Transforming, node.Node ):
             if rotate:
                 fields.append( 'rotation' )
             d = self.__dict__
-            forward,inverse = transformmatrix.localMatrices(
-                **dict([(k,d.get(k)) for k in fields] )
-            )
+            values = {}
+            for k in fields:
+                value = d.get(k)
+                if value is None:
+                    # derived types can have defaults of their own
+                    f = getattr( self.__class__, k )
+                    value = f.coerce( f.getDefault())
+                values[k] = value
+            forward,inverse = transformmatrix.localMatrices( **values )
             if doConnect:
                 for k in fields:
                     holder.depend( self, k )
-- 
2.43.0


From b9c7cd39eb1bd94483003923c48d5b87561b2ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:00 +0000
Subject: [PATCH 77/90] fix: the _changed name of a field called set_... is
 found

---
 vrml/protofunctions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vrml/protofunctions.py b/vrml/protofunctions.py
index 92c4111..6af637a 100644
--- a/vrml/protofunctions.py
+++ b/vrml/protofunctions.py
@@ -137,8 +137,13 @@ def getField(cls, field):
         # OK, may be one of the "component" events
         # of a field...
         if field.startswith("set_"):
-            return getField(cls, field[4:])
-        elif field.endswith("_changed"):
+            try:
+                return getField(cls, field[4:])
+            except AttributeError:
+                # may still be the "_changed" event of a "set_..." field
+                if not field.endswith("_changed"):
+                    raise
+        if field.endswith("_changed"):
             return getField(cls, field[:-8])
     raise AttributeError(
         """The prototype %s does not define a field named %s"""
-- 
2.43.0


From 68b1bd7237a97c7c45b4ff7f97becd23ff51b765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:56 +0000
Subject: [PATCH 78/90] fix: names made for routed nodes aren't those of nodes
 the scene hasn't registered

---
 vrml/vrml97/linearise.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index 2d62b31..604bffc 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -123,6 +123,7 @@ class Lineariser:
         A little niave, the sceneGraph just outputs everything
         in its prototypes, then everything in its childlist, then all its ROUTES
         '''
+        self.usedNames = None
         [self._preroute(clientNode, route) for route in clientNode.routes]
         if clientNode is None:
             startind = self.buffer.tell()
@@ -467,15 +468,36 @@ class Lineariser:
         for child in (clientNode.source, clientNode.destination):
             DEF = defName(child)
             if not DEF:
+                if self.usedNames is None:
+                    self.usedNames = self._usedNames(sceneGraph)
                 count = 0
                 PROTO = protoName(child)
                 while 1:
                     name = "%s_%s" % (PROTO, count)
-                    if sceneGraph.getDEF(name) is None:
+                    if sceneGraph.getDEF(name) is None and name not in self.usedNames:
                         sceneGraph.regDefName(name, child)
                         break
                     count += 1
 
+    def _usedNames(self, sceneGraph):
+        """Get the names of the sceneGraph's nodes, including those it hasn't registered"""
+        names, seen = set(), set()
+        nodes = list(sceneGraph.children)
+        while nodes:
+            child = nodes.pop()
+            if id(child) in seen or not isinstance(child, node.Node):
+                continue
+            seen.add(id(child))
+            names.add(defName(child))
+            for field in getFields(child):
+                if getattr(field, 'nodes', 0) and field.name[:1] != ' ':
+                    value = field.fget(child)
+                    if isinstance(value, list):
+                        nodes.extend(value)
+                    else:
+                        nodes.append(value)
+        return names
+
     def _route(self, clientNode):
         '''Linearise a route'''
         # should check here to make sure the ROUTEs are valid
-- 
2.43.0


From 2a00ca1e327ce4c6fb9ea729d015584ac7f14dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:07 +0000
Subject: [PATCH 79/90] fix: a scene doesn't keep the last node that has no
 name, as one called ''

---
 vrml/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrml/node.py b/vrml/node.py
index a05a7f5..b36b54a 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -471,7 +471,8 @@ class RootScenegraphNode(WeakSFNode):
             elif field.name == ' DEF':
                 try:
                     DEF = field.__get__(client)
-                    value.regDefName(DEF, client)
+                    if DEF:
+                        value.regDefName(DEF, client)
                 except AttributeError:
                     pass
         return result
-- 
2.43.0


From fa3de65fc4f29f0fbb31f1b0d31f3a05a1f608ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 80/90] fix: the error for a refused text gives the line of the
 faulty word, not that of the statement's beginning

---
 vrml/vrml97/parseprocessor.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 3b440dd..f7b4016 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -168,19 +168,20 @@ class ParseProcessor(DispatchProcessor):
         (tag, start, stop, sublist) = table
         if sublist[0][0] == 'name':
             name = getString(sublist[0], buffer)
-            GI = getString(sublist[1], buffer)
+            gi = sublist[1]
             rest = sublist[2:]
         else:
             name = ""
-            GI = getString(sublist[0], buffer)
+            gi = sublist[0]
             rest = sublist[1:]
+        GI = getString(gi, buffer)
         prototype = self.sceneGraphStack[-1].getProto(GI)
         if prototype is None:
             raise NameError(
                 """Prototype %s used without declaration on line %s"""
                 % (
                     GI,
-                    lines(end=start, buffer=buffer),
+                    lines(end=gi[1], buffer=buffer),
                 )
             )
         newNode = prototype()
@@ -255,13 +256,13 @@ class ParseProcessor(DispatchProcessor):
         (tag, start, stop, sublist) = table
         (s, sf, d, df) = [getString(item, buffer) for item in sublist]
         (sn, dn) = [self.sceneGraphStack[-1].getDEF(name) for name in (s, d)]
-        for node, name in ((sn, s), (dn, d)):
+        for node, name, item in ((sn, s, sublist[0]), (dn, d, sublist[2])):
             if node is None:
                 raise NameError(
                     """ROUTE of un-DEF'd name %s on line %s"""
                     % (
                         name,
-                        lines(end=start, buffer=buffer),
+                        lines(end=item[1], buffer=buffer),
                     )
                 )
         self.sceneGraphStack[-1].addRoute(
@@ -424,7 +425,7 @@ class ParseProcessor(DispatchProcessor):
                 """Not a value for an %s field on line %s"""
                 % (
                     fieldType,
-                    lines(end=start, buffer=buffer),
+                    lines(end=wrong[0][1] if wrong else start, buffer=buffer),
                 )
             )
 
-- 
2.43.0


From 6207551993caa04900a162015e70dc111d68b18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:34 +0000
Subject: [PATCH 81/90] fix: white space and comments are allowed around the
 period of a ROUTE's names

---
 vrml/vrml200x/parser.py | 2 +-
 vrml/vrml97/parser.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrml/vrml200x/parser.py b/vrml/vrml200x/parser.py
index 9098e39..e48334b 100644
--- a/vrml/vrml200x/parser.py
+++ b/vrml/vrml200x/parser.py
@@ -50,7 +50,7 @@ ExternProto    := 'EXTERNPROTO',kw,ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl
 extFieldDecl   := fieldExposure,ts,!,dataType,ts,name,ts
 ExtProtoURL    := (('[',ts,(SFString,ts)*,']'!)/(SFString,ts)+), ts  # just an MFString by another name :)
 
-ROUTE          := 'ROUTE',kw,ts, !,name,'.',name, ts, 'TO', ts, name,'.',name, ts
+ROUTE          := 'ROUTE',kw,ts, !,name,ts,'.',ts,name, ts, 'TO', ts, name,ts,'.',ts,name, ts
 
 Node           := ('DEF',kw,ts,!,name,ts)?,nodegi,ts,'{',ts,(Proto/ExternProto/ROUTE/Attr)*,ts,!,'}', ts
 
diff --git a/vrml/vrml97/parser.py b/vrml/vrml97/parser.py
index e69feb8..6e41a47 100644
--- a/vrml/vrml97/parser.py
+++ b/vrml/vrml97/parser.py
@@ -32,7 +32,7 @@ ExternProto    := 'EXTERNPROTO',kw,ts,!,nodegi,ts,'[',ts,(extFieldDecl/eventDecl
 extFieldDecl   := fieldExposure,ts,!,dataType,ts,name,ts
 ExtProtoURL    := (('[',ts,(SFString,ts)*,']'!)/(SFString,ts)+), ts  # just an MFString by another name :)
 
-ROUTE          := 'ROUTE',kw,ts, !,name,'.',name, ts, 'TO', ts, name,'.',name, ts
+ROUTE          := 'ROUTE',kw,ts, !,name,ts,'.',ts,name, ts, 'TO', ts, name,ts,'.',ts,name, ts
 
 Node           := ('DEF',kw,ts,!,name,ts)?,nodegi,ts,'{',ts,(Proto/ExternProto/ROUTE/Attr)*,ts,!,'}', ts
 
-- 
2.43.0


From a99c20dc725344737cb09a904299eec044b018ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:06 +0000
Subject: [PATCH 82/90] fix: a node without a name that is used again is
 written again, not copied with the DEFs in it

---
 vrml/vrml97/linearise.py | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index 604bffc..7040164 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -577,23 +577,14 @@ class Lineariser:
             if DEF:
                 return 'USE ' + DEF
             # else have to linearise again, should warn the user
-            else:
-                keyvals = self.alreadydone[id(clientNode)]
-                index = self.buffer.tell()
-                try:
-                    start, stop = keyvals
-                    self.buffer.seek(start)
-                    val = self.buffer.read(stop - start)
-                    self.buffer.seek(index)
-                    return (
-                        '#WARNING HERE -- USE of node with no DEF name, Node duplicated\n'
-                        + val
-                    )
-                except TypeError:
-                    return '''#ERROR HERE -- USE of a parent node that has no DEF name USE ignored'''
-        else:
-            ind = self.alreadydone[id(clientNode)] = self.buffer.tell()
-            return ind
+            if not isinstance(self.alreadydone[id(clientNode)], tuple):
+                return '''#ERROR HERE -- USE of a parent node that has no DEF name USE ignored'''
+            # (again, not as a copy of the text, as that could have DEFs in it)
+            self.buffer.write(
+                '#WARNING HERE -- USE of node with no DEF name, Node duplicated\n'
+            )
+        ind = self.alreadydone[id(clientNode)] = self.buffer.tell()
+        return ind
 
     def _nullNode(self, clientNode):
         self.buffer.write('NULL')
-- 
2.43.0


From d87cdd2f61c4d886074a9f856f589d5a0c77fed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:37 +0000
Subject: [PATCH 83/90] fix: items of a deleted slice are announced as removed
 when they are, not before

---
 vrml/olist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/olist.py b/vrml/olist.py
index 4a5ab4b..e5d6939 100644
--- a/vrml/olist.py
+++ b/vrml/olist.py
@@ -81,9 +81,9 @@ class OList( list ):
         """Delete a single item"""
         if isinstance( index, slice ):
             current = self.__getitem__( index )
+            super( OList,self ).__delitem__( index )
             for value in current:
                 self._sendRemoved( value )
-            super( OList,self ).__delitem__( index )
             return current 
         else:
             value = self[index]
-- 
2.43.0


From 4eeee82d8de9233b2c19754569b91cc2d1054b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:35 +0000
Subject: [PATCH 84/90] fix: a value that an event's handler refuses goes no
 further when it came over a route

---
 vrml/route.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrml/route.py b/vrml/route.py
index cea6ca8..888405a 100644
--- a/vrml/route.py
+++ b/vrml/route.py
@@ -102,6 +102,7 @@ class ROUTE( node.Node ):
                     destinationField.__set__( destination, value, notify = 0 )
                 except (ValueError, TypeError):
                     traceback.print_exc()
+                    return
             dispatcher.send(
                 signal = ('route',destinationField),
                 sender = destination,
-- 
2.43.0


From 517fc068462ba317ae6dbafe6a99759b9927fa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:22 +0000
Subject: [PATCH 85/90] fix: a number out of a field's range is refused with
 ValueError, as other values are

---
 accelerate/src/fieldaccel2.pyx | 2 +-
 vrml/field.py                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/accelerate/src/fieldaccel2.pyx b/accelerate/src/fieldaccel2.pyx
index a49f174..c1eeb6b 100644
--- a/accelerate/src/fieldaccel2.pyx
+++ b/accelerate/src/fieldaccel2.pyx
@@ -90,7 +90,7 @@ cdef class BaseField( object ):
             value = self.coerce( value )
         except ValueError as x:
             raise ValueError( """Field %s could not accept value %s (%s)"""%( self, value, x))
-        except TypeError as x:
+        except (TypeError, OverflowError) as x:
             raise ValueError( """Field %s could not accept value %s of type %s (%s)"""%( self, value, type(value), x))
         if isinstance( client, type ):
             setattr( client, self.name, value )
diff --git a/vrml/field.py b/vrml/field.py
index 8959612..689077d 100644
--- a/vrml/field.py
+++ b/vrml/field.py
@@ -132,7 +132,7 @@ else:
                 raise ValueError(
                     """Field %s could not accept value %s (%s)""" % (self, value, x)
                 )
-            except TypeError as x:
+            except (TypeError, OverflowError) as x:
                 raise ValueError(
                     """Field %s could not accept value %s of type %s (%s)"""
                     % (self, value, type(value), x)
-- 
2.43.0


From d2bb172cb1ca6c9a79cd62441604749a6d209dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:55 +0000
Subject: [PATCH 86/90] fix: values written at a PROTO instance are initial
 values, not events

---
 vrml/node.py                  | 25 ++++++++++++++++---------
 vrml/vrml97/parseprocessor.py |  7 +++----
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/vrml/node.py b/vrml/node.py
index b36b54a..364a066 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -217,8 +217,6 @@ class PrototypedNode(object):
         If the destination is itself prototyped, the value
         is also given to the nodes in its scenegraph.
         """
-        from vrml import route
-
         destination = isRoute.destination
         try:
             destinationField = getField(destination, isRoute.destinationField)
@@ -226,13 +224,22 @@ class PrototypedNode(object):
         except AttributeError:
             return
         if isinstance(destination, PrototypedNode):
-            for r in PrototypedNode.scenegraph.fget(destination).routes:
-                if (
-                    isinstance(r, route.IS)
-                    and r.source is destination
-                    and getField(destination, r.sourceField) is destinationField
-                ):
-                    self._initialIS(r, value)
+            PrototypedNode.updateIS(destination, destinationField, value)
+
+    def updateIS(self, field, value):
+        """Give the initial value of our field to the nodes tied to it with IS
+
+        Initial values are no events, so they aren't routed on.
+        """
+        from vrml import route
+
+        for r in PrototypedNode.scenegraph.fget(self).routes:
+            if (
+                isinstance(r, route.IS)
+                and r.source is self
+                and getField(self, r.sourceField) is field
+            ):
+                self._initialIS(r, value)
 
     def renderedChildren(self, types=None):
         """Get the rendered children of the scenegraph"""
diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index f7b4016..7a34807 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -383,11 +383,10 @@ class ParseProcessor(DispatchProcessor):
             self.fieldTypeStack.append(field.typeName())
             try:
                 value = dispatch(self, value, buffer)
+                value = field.fset(clientNode, value, notify=0)
                 if isinstance(clientNode, node.PrototypedNode):
-                    # prototyped nodes get IS-value updates
-                    field.fset(clientNode, value, notify=1)
-                else:
-                    field.fset(clientNode, value, notify=0)
+                    # prototyped nodes get IS-value updates, but no events
+                    node.PrototypedNode.updateIS(clientNode, field, value)
             finally:
                 self.fieldTypeStack.pop()
 
-- 
2.43.0


From 665b8623f0f6b03a163610944caa37a68883d9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:19 +0000
Subject: [PATCH 87/90] fix: comparing a path (==) with something that is no
 sequence raised TypeError

---
 vrml/nodepath.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrml/nodepath.py b/vrml/nodepath.py
index c59bfbd..a5a5bda 100644
--- a/vrml/nodepath.py
+++ b/vrml/nodepath.py
@@ -55,6 +55,8 @@ class NodePath( list ):
         return self.__class__(super (NodePath, self).__getslice__(start, stop))
     def __eq__( self, other ):
         """Check whether we are equal to another path"""
+        if not isinstance( other, (list,tuple) ):
+            return 0
         if len(self) != len(other):
             return 0
         for index in range(len(self)):
@@ -63,7 +65,7 @@ class NodePath( list ):
         return 1
     def __ne__( self, other ):
         """Check whether we differ from another path (or from any other object)"""
-        return not isinstance( other, list ) or not self == other
+        return not self == other
 
 class WeakNodePath( NodePath, weaklist.WeakList ):
     """Node path that uses weak-references to nodes
-- 
2.43.0


From 944ceb2c03a780547d2737d5343c89fc90970041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:48 +0000
Subject: [PATCH 88/90] fix: nodes given to a Script's fields were shared by
 the instances of a PROTO around it (and by copies)

---
 vrml/vrml97/parseprocessor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrml/vrml97/parseprocessor.py b/vrml/vrml97/parseprocessor.py
index 7a34807..4afbec2 100644
--- a/vrml/vrml97/parseprocessor.py
+++ b/vrml/vrml97/parseprocessor.py
@@ -221,6 +221,10 @@ class ParseProcessor(DispatchProcessor):
                 setattr(vProto, f.name, f)
                 if mapName is not None:
                     isMaps.append((mapName, f.name))
+                elif isinstance(f, (node.SFNode, node.MFNode)):
+                    # a node given here is this script's value, which is
+                    # copied with it, not (only) its declaration's default
+                    f.fset(newNode, f.getDefault(), notify=0)
             elif item[0] == 'Attr':
                 attributes.append(item)
             else:
-- 
2.43.0


From 2009592915715a2e69a3629f7a45222fbd92d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:29 +0000
Subject: [PATCH 89/90] fix: values set on a Script's fields were lost when it
 was written

---
 vrml/vrml97/linearise.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vrml/vrml97/linearise.py b/vrml/vrml97/linearise.py
index 7040164..5301c90 100644
--- a/vrml/vrml97/linearise.py
+++ b/vrml/vrml97/linearise.py
@@ -349,6 +349,7 @@ class Lineariser:
                 'mustEvaluate',
                 'externalURL',
             ),
+            client=clientNode,
         )
         self._dedent()
         self._attrDict(clientNode)
@@ -438,7 +439,12 @@ class Lineariser:
                 buffer.write(' IS %s' % (isMaps[field.name],))
 
     def _fieldDict(
-        self, clientNode, requireDefault=1, skipFields=('DEF',), isMaps={}
+        self,
+        clientNode,
+        requireDefault=1,
+        skipFields=('DEF',),
+        isMaps={},
+        client=None,
     ):
         buffer = self.buffer
         fields = [
@@ -454,6 +460,10 @@ class Lineariser:
             if field.name in isMaps:
                 field.declVrmlstr(self)
                 buffer.write('IS %s' % (isMaps[field.name],))
+            elif client is not None:
+                # a script's values are written where they're declared
+                field.declVrmlstr(self)
+                self._sffield(field.fget(client), field)
             elif requireDefault:
                 field.fieldVrmlstr(self)
             else:
-- 
2.43.0


From 48a88492561abfeabfc5826f31e7cbe4cc8557ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:46 +0000
Subject: [PATCH 90/90] fix: show the DEF name of a node in its str(), where it
 is stored under the field's name ' DEF'

---
 vrml/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrml/node.py b/vrml/node.py
index 364a066..732f5da 100644
--- a/vrml/node.py
+++ b/vrml/node.py
@@ -84,7 +84,7 @@ class Node(object):
 
     def __str__(self):
         """Get a friendly representation of the Node"""
-        if 'DEF' in self.__dict__ and defName(self):
+        if ' DEF' in self.__dict__ and defName(self):
             return """%s( DEF=%r @0x%X )""" % (
                 self.__class__.__name__,
                 defName(self),
-- 
2.43.0

