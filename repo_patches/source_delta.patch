From 7dd9864b3712cc60a49530c7a4308a452b554def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:39 +0000
Subject: [PATCH 01/56] fix: XigtXML reader stored the corpus type as a plain
 attribute

---
 xigt/codecs/xigtxml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index da41112..4f4b6d0 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -241,7 +241,8 @@ def default_decode_xigtcorpus(elem, igts=None, mode='full'):
     assert tag == 'xigt-corpus'
     return XigtCorpus(
         id=elem.get('id'),
-        attributes=get_attributes(elem, ignore=('id',)),
+        type=elem.get('type'),
+        attributes=get_attributes(elem, ignore=('id', 'type')),
         metadata=[decode_metadata(md) for md in elem.findall('metadata')],
         # NOTE: possible bug here; does nsiterparse run with elem.findall?
         igts=igts or [decode_igt(igt) for igt in elem.findall('igt')],
-- 
2.43.0


From 81569f960c9d06965b8b24d1bea552ef30369eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:39 +0000
Subject: [PATCH 02/56] fix: XigtJSON reader dropped the corpus type

---
 xigt/codecs/xigtjson.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 557054f..8344ea9 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -61,6 +61,7 @@ def decode(obj, mode='full', nsmap=None):
     nsmap = active_namespaces(obj, nsmap)
     return XigtCorpus(
         id=obj.get('id'),
+        type=obj.get('type'),
         attributes=obj.get('attributes', {}),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
-- 
2.43.0


From b965f2b4fd4ae12f906eb14f16963e17d6e0d5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:39 +0000
Subject: [PATCH 03/56] fix: XigtXML reader dropped id and type attributes of
 metadata children

---
 xigt/codecs/xigtxml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 4f4b6d0..57c6b22 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -341,7 +341,8 @@ def default_decode_metachild(elem):
     text = elem.text or ''
     mc = MetaChild(
         tag,
-        attributes=get_attributes(elem, ignore=('id', 'type')),
+        # arbitrary XML, so id and type are attributes like any other
+        attributes=get_attributes(elem),
         text=text if text.strip() else None,
         children=[decode_metachild(mc) for mc in elem],
         namespace=ns,
-- 
2.43.0


From 49a32de97e9b779588f702cedc52b8d86d8fc9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:39 +0000
Subject: [PATCH 04/56] fix: XigtJSON writer dropped empty item text

---
 xigt/codecs/xigtjson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 8344ea9..c755424 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -254,6 +254,6 @@ def encode_tier(tier, nscontext=None):
 
 def encode_item(item, nscontext=None):
     obj, ns = _make_obj(item, nscontext)
-    if item.text: obj['text'] = item.text
+    if item.text is not None: obj['text'] = item.text
     return obj
 
-- 
2.43.0


From a550c05c2d5ff0d146bdaca89c66384433e2c37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:09 +0000
Subject: [PATCH 05/56] fix: XigtJSON writer dropped an empty type

---
 xigt/codecs/xigtjson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index c755424..35c0c29 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -190,7 +190,7 @@ def _make_obj(x, nscontext=None):
     nsmap = dict(set(active_nsmap.items()).difference(nscontext.items()))
     obj = {}
     if x.id: obj['id'] = x.id
-    if x.type: obj['type'] = x.type
+    if x.type is not None: obj['type'] = x.type
     # might need to re-add prefixes to namespaced attribute keys
     if x.attributes:
         attrs = {}
-- 
2.43.0


From 324b9593b29dcbe432744b64e1d38c2ac8ad6ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:09 +0000
Subject: [PATCH 06/56] fix: XigtJSON writer kept namespace prefixes in a
 global, shared by all threads

---
 xigt/codecs/xigtjson.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 35c0c29..87966af 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -179,14 +179,14 @@ def active_namespaces(obj, nsmap):
 
 # Encoding #############################################################
 
-inv_nsmap = {}
+def _invert_nsmap(nsmap):
+    return dict((uri, pre) for pre, uri in nsmap.items())
 
 def _make_obj(x, nscontext=None):
     if nscontext is None: nscontext = {}
     active_nsmap = dict(nscontext)
     active_nsmap.update(x.nsmap)
-    inv_nsmap.clear()
-    inv_nsmap.update((uri, pre) for pre, uri in active_nsmap.items())
+    inv_nsmap = _invert_nsmap(active_nsmap)
     nsmap = dict(set(active_nsmap.items()).difference(nscontext.items()))
     obj = {}
     if x.id: obj['id'] = x.id
@@ -228,6 +228,7 @@ def encode_meta(m, nscontext=None):
 
 def encode_metachild(mc, nscontext=None):
     obj, ns = _make_obj(mc, nscontext)
+    inv_nsmap = _invert_nsmap(ns)
     if obj.get('namespace') in inv_nsmap:
         obj['name'] = '{}:{}'.format(inv_nsmap[obj['namespace']], mc.name)
         del obj['namespace']
-- 
2.43.0


From 8bfbb7f95950282a3b5fc3e0697323d0964a2d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:10 +0000
Subject: [PATCH 07/56] fix: XigtJSON reader left namespaced attributes
 prefixed and lost inherited namespaces

---
 xigt/codecs/xigtjson.py | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 87966af..71a7b9c 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -62,14 +62,14 @@ def decode(obj, mode='full', nsmap=None):
     return XigtCorpus(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         igts=[decode_igt(igt, nsmap)
               for igt in obj.get('igts', [])],
         mode=mode,
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
 
 def decode_igt(obj, nsmap=None):
@@ -77,13 +77,13 @@ def decode_igt(obj, nsmap=None):
     igt = Igt(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         tiers=[decode_tier(tier, nsmap)
                for tier in obj.get('tiers', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return igt
 
@@ -93,13 +93,13 @@ def decode_tier(obj, nsmap=None):
     tier = Tier(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         items=[decode_item(item, nsmap)
                for item in obj.get('items', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return tier
 
@@ -109,10 +109,10 @@ def decode_item(obj, nsmap=None):
     item = Item(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return item
 
@@ -122,11 +122,11 @@ def decode_metadata(obj, nsmap=None):
     metadata = Metadata(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metas=[decode_meta(meta, nsmap)
                for meta in obj.get('metas', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return metadata
 
@@ -139,12 +139,12 @@ def decode_meta(obj, nsmap=None):
     meta = Meta(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return meta
 
@@ -161,16 +161,27 @@ def decode_metachild(obj, nsmap=None):
             namespace = nsmap[namespace]
     mc = MetaChild(
         name,
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
         namespace=namespace,
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return mc
 
 
+def decode_attributes(obj, nsmap):
+    # namespaced attribute keys are prefixed in JSON (see _make_obj())
+    attrs = {}
+    for k, v in obj.get('attributes', {}).items():
+        prefix, key = ns_split(k)
+        if prefix in nsmap and not k.startswith('{'):
+            k = '{%s}%s' % (nsmap[prefix], key)
+        attrs[k] = v
+    return attrs
+
+
 def active_namespaces(obj, nsmap):
     nsmap = {} if nsmap is None else dict(nsmap)
     nsmap.update(obj.get('namespaces', {}))
-- 
2.43.0


From 56b594313359278679f71956606e70f4c41ea809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:42 +0000
Subject: [PATCH 08/56] fix: XigtXML writer mishandled namespaces without a
 usable prefix

---
 xigt/codecs/xigtxml.py | 52 +++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 57c6b22..ea89a4b 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -358,32 +358,46 @@ def default_decode_metachild(elem):
 
 # thanks: http://effbot.org/zone/element-namespaces.htm
 def _build_elem(tag, obj, nscontext):
+    nsmap = getattr(obj, 'nsmap', {})
+    # the default namespace does not apply to attributes and would capture
+    # all unprefixed subelements, so only non-empty prefixes are written
+    revmap = dict((v, k) for k, v in nsmap.items() if k)
+    newmap = dict((k, v) for k, v in nsmap.items()
+                  if k and nscontext.get(k) != v)
+
+    def prefix(uri):
+        # get the prefix from the nsmap, backing off to declaring a default
+        # or generated one
+        if uri not in revmap:
+            pre = _namespace_map.get(uri)
+            if pre != 'xml':  # always declared
+                i = 0
+                while not pre or pre in nsmap or pre in newmap:
+                    pre = 'ns%d' % i
+                    i += 1
+                newmap[pre] = uri
+            revmap[uri] = pre
+        return revmap[uri]
+
     ns = getattr(obj, 'namespace', None)
-    revmap = dict((v, k) for k, v in getattr(obj, 'nsmap', {}).items())
-    if revmap.get(ns) is not None:
-        tag = '{}:{}'.format(revmap[ns], tag)
+    if ns and (ns in revmap or isinstance(obj, MetaChild)):
+        tag = '{}:{}'.format(prefix(ns), tag)
+    attributes = []
+    for attr, val in getattr(obj, 'attributes', {}).items():
+        uri, attr = _qname_split(attr)
+        if uri:
+            attr = '{}:{}'.format(prefix(uri), attr)
+        attributes.append((attr, val))
     e = Element(tag)
     # element attributes (including namespaces)
-    if hasattr(obj, 'nsmap'):
-        for pre, uri in obj.nsmap.items():
-            if nscontext.get(pre) != uri:
-                e.set(_QName('xmlns:%s' % pre, sortkey=xigt_attrsort), uri)
+    for pre, uri in newmap.items():
+        e.set(_QName('xmlns:%s' % pre, sortkey=xigt_attrsort), uri)
     if getattr(obj, 'id') is not None:
         e.set(_QName('id', sortkey=xigt_attrsort), obj.id)
     if getattr(obj, 'type') is not None:
         e.set(_QName('type', sortkey=xigt_attrsort), obj.type)
-    if hasattr(obj, 'attributes'):
-        for attr, val in obj.attributes.items():
-            uri, attr = _qname_split(attr)
-            if uri:
-                # get the prefix from the nsmap,
-                # backing off to the default set
-                try:
-                    pre = revmap[uri]
-                except KeyError:
-                    pre = _namespace_map[uri]
-                attr = '{}:{}'.format(pre, attr)
-            e.set(_QName(attr, sortkey=xigt_attrsort), val)
+    for attr, val in attributes:
+        e.set(_QName(attr, sortkey=xigt_attrsort), val)
     return e
 
 
-- 
2.43.0


From 73b68e24fdcbcdace4be87c4ba38ef38917d68d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:09 +0000
Subject: [PATCH 09/56] fix: XigtXML reader confused by nested igt elements,
 junk after the root, and other documents

---
 xigt/codecs/xigtxml.py | 44 +++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index ea89a4b..f72c5ce 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -198,31 +198,39 @@ def ns_iterparse(fh, events=('start', 'end')):
 
 # Decoding #############################################################
 
-def iter_elements(tag, events, root, break_on=None):
-    if break_on is None:
-        break_on = []
-    event, elem = next(events)
-    while (event, elem.tag) not in break_on:
-        if event == 'end' and elem.tag == tag:
-            yield elem
-            root.clear()  # free memory after we're done with an element
-        event, elem = next(events)
+def iter_elements(tag, events, root):
+    # The start event of the first element has already been consumed. Only
+    # direct subelements of root are considered, because metadata may contain
+    # arbitrary elements. All events are consumed, because the document may
+    # be malformed after root, too.
+    depth = 1
+    for event, elem in events:
+        if event == 'start':
+            depth += 1
+        else:
+            depth -= 1
+            if depth == 0 and elem.tag == tag:
+                yield elem
+                root.clear()  # free memory after we're done with an element
 
 
 def default_decode(events, mode='full'):
     """Decode a XigtCorpus element."""
     event, elem = next(events)
     root = elem  # store root for later instantiation
-    while (event, elem.tag) not in [('start', 'igt'), ('end', 'xigt-corpus')]:
-        event, elem = next(events)
+    if root.tag != 'xigt-corpus':
+        raise XigtError('Not a XigtXML corpus: <{}>'.format(root.tag))
     igts = None
-    if event == 'start' and elem.tag == 'igt':
-        igts = (
-            decode_igt(e)
-            for e in iter_elements(
-                'igt', events, root, break_on=[('end', 'xigt-corpus')]
-            )
-        )
+    depth = 0
+    for event, elem in events:
+        if event == 'start':
+            if depth == 0 and elem.tag == 'igt':
+                igts = (decode_igt(e)
+                        for e in iter_elements('igt', events, root))
+                break
+            depth += 1
+        else:
+            depth -= 1
     xc = decode_xigtcorpus(root, igts=igts, mode=mode)
     return xc
 
-- 
2.43.0


From 2f34564a469d310f791ead675e8d40f8a9b59bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:06 +0000
Subject: [PATCH 10/56] fix: container edits, refused ones in particular, left
 ids, parents and contents inconsistent

---
 xigt/metadata.py | 12 +++----
 xigt/mixins.py   | 93 +++++++++++++++++++++++++++++++++++++++---------
 xigt/model.py    |  9 ++---
 3 files changed, 83 insertions(+), 31 deletions(-)

diff --git a/xigt/metadata.py b/xigt/metadata.py
index 9f786d5..c82e6b8 100644
--- a/xigt/metadata.py
+++ b/xigt/metadata.py
@@ -38,8 +38,7 @@ class XigtMetadataMixin(object):
         if isinstance(value, Metadata):
             raise XigtError('The metadata attribute must be a sequence '
                             'of Metadata objects.')
-        self._md.clear()
-        self._md.extend(value)
+        self._md._replace_all(value)
 
     # possibly pending deprecation
 
@@ -113,8 +112,7 @@ class Metadata(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @metas.setter
     def metas(self, value):
-        self.clear()
-        self.extend(value or [])
+        self._replace_all([] if value is None else value)
 
     # deprecated properties
 
@@ -161,8 +159,7 @@ class Meta(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @children.setter
     def children(self, value):
-        self.clear()
-        self.extend(value or [])
+        self._replace_all([] if value is None else value)
 
 
 class MetaChild(XigtContainerMixin, XigtAttributeMixin):
@@ -202,5 +199,4 @@ class MetaChild(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @children.setter
     def children(self, value):
-        self.clear()
-        self.extend(value or [])
+        self._replace_all([] if value is None else value)
diff --git a/xigt/mixins.py b/xigt/mixins.py
index 9557ff4..945aa46 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -1,4 +1,5 @@
 
+from operator import index
 import warnings
 
 from xigt.consts import (
@@ -63,20 +64,38 @@ class XigtContainerMixin(list):
         # only allow list indices, not dict keys (IDs)
         # NOTE: this method is destructive. check for broken refs here?
         self._assert_type(obj)
+        if isinstance(idx, slice):
+            raise XigtStructureError('Slice assignment is not supported.')
         try:
             cur_obj = list.__getitem__(self, idx)
         except TypeError:
             idx = int(idx)
             cur_obj = list.__getitem__(self, idx)
-        if cur_obj.id is not None:
-            del self._dict[cur_obj.id]
-        self._create_id_mapping(obj)
+        if self._dict.get(obj.id) is not cur_obj:
+            self._assert_unique(obj, self._dict)
         list.__setitem__(self, idx, obj)
+        self._delete_id_mapping(cur_obj)
+        self._create_id_mapping(obj)
+        obj._parent = self._container
 
     def __delitem__(self, obj_id):
         # NOTE: this method is destructive. check for broken refs here?
-        obj = self[obj_id]
-        self.remove(obj)
+        if isinstance(obj_id, slice):
+            objs = list.__getitem__(self, obj_id)
+        else:
+            objs = [self[obj_id]]
+            if not isinstance(obj_id, int):
+                obj_id = next(
+                    i for i, obj in enumerate(list.__iter__(self))
+                    if obj is objs[0]
+                )
+        list.__delitem__(self, obj_id)
+        for obj in objs:
+            self._delete_id_mapping(obj)
+
+    def __iadd__(self, objs):
+        self.extend(objs)
+        return self
 
     def get(self, obj_id, default=None):
         try:
@@ -102,25 +121,37 @@ class XigtContainerMixin(list):
 
     def append(self, obj):
         self._assert_type(obj)
-        obj._parent = self._container
         self._create_id_mapping(obj)
         list.append(self, obj)
+        obj._parent = self._container
 
     def insert(self, i, obj):
         self._assert_type(obj)
-        obj._parent = self._container
+        i = index(i)  # don't fail after creating the id mapping
         self._create_id_mapping(obj)
         list.insert(self, i, obj)
+        obj._parent = self._container
 
     def extend(self, objs):
+        if objs is self:
+            objs = list(objs)
         for obj in objs:
             self.append(obj)
 
     def remove(self, obj):
         # NOTE: this method is destructive. check for broken refs here?
-        if obj.id is not None:
-            del self._dict[obj.id]
-        list.remove(self, obj)
+        del self[self.index(obj)]
+
+    def pop(self, i=-1):
+        obj = list.pop(self, i)
+        self._delete_id_mapping(obj)
+        return obj
+
+    def sort(self, key=None, reverse=False):
+        # list.sort() empties the list while sorting, but the keys may
+        # depend on its contents (e.g., when resolving references)
+        objs = sorted(list.__iter__(self), key=key, reverse=reverse)
+        list.__setitem__(self, slice(None), objs)
 
     def clear(self):
         self._dict.clear()
@@ -128,18 +159,46 @@ class XigtContainerMixin(list):
         # list.clear(self)
         listclear(self)
 
+    def _replace_all(self, objs):
+        # objs may be lazily selected from the current contents, and it may
+        # be invalid, so inspect all of it before changing anything
+        objs = list(objs)
+        for obj in objs:
+            self._assert_type(obj)
+        ids = self._make_index(objs)
+        list.__setitem__(self, slice(None), objs)
+        self._dict = ids
+        for obj in objs:
+            obj._parent = self._container
+
+    def _assert_unique(self, obj, ids):
+        if obj.id is not None and obj.id in ids:
+            raise XigtError(
+                'Id "{}" already exists in collection.'.format(obj.id),
+            )
+
     def _create_id_mapping(self, obj):
         if obj.id is not None:
-            if obj.id in self._dict:
-                raise XigtError(
-                    'Id "{}" already exists in collection.'.format(obj.id),
-                )
+            self._assert_unique(obj, self._dict)
             self._dict[obj.id] = obj
 
+    def _delete_id_mapping(self, obj):
+        # the id may have changed since the mapping was created
+        _id = obj.id
+        if self._dict.get(_id) is not obj:
+            _id = next((k for k, v in self._dict.items() if v is obj), None)
+        self._dict.pop(_id, None)
+
+    def _make_index(self, objs):
+        ids = {}
+        for obj in objs:
+            if obj.id is not None:
+                self._assert_unique(obj, ids)
+                ids[obj.id] = obj
+        return ids
+
     def refresh_index(self):
-        self._dict = {}
-        for obj in self:
-            self._create_id_mapping(obj)
+        self._dict = self._make_index(list.__iter__(self))
 
     # deprecated methods
 
diff --git a/xigt/model.py b/xigt/model.py
index 014c9ac..98bbcd3 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -111,8 +111,7 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         return list(self)
     @igts.setter
     def igts(self, value):
-        self.clear()
-        self.extend(value or [])
+        self._replace_all([] if value is None else value)
 
 
 class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
@@ -197,8 +196,7 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         return list(self)
     @tiers.setter
     def tiers(self, value):
-        self.clear()
-        self.extend(value or [])
+        self._replace_all([] if value is None else value)
 
     def get_item(self, item_id, default=None):
         return self._itemdict.get(item_id, default)
@@ -298,8 +296,7 @@ class Tier(XigtContainerMixin, XigtAttributeMixin,
         return list(self)
     @items.setter
     def items(self, value):
-        self.clear()
-        self.extend(value or [])
+        self._replace_all([] if value is None else value)
 
     def allowed_reference_attributes(self):
         # tiers get _tier_refattrs[tier.type]; if a type is not
-- 
2.43.0


From be5bbe3af75b48b64bde420b521715dc017046e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:41 +0000
Subject: [PATCH 11/56] fix: partial passes over a lazily loaded corpus lost
 Igts, and failed ones made it look complete

---
 xigt/model.py | 58 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/xigt/model.py b/xigt/model.py
index 98bbcd3..327828d 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -75,10 +75,14 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         )
         XigtMetadataMixin.__init__(self, metadata)
         self.mode = mode
+        self._generator = None
+        self._generator_error = None
+        if igts is None:
+            igts = []
         if mode == FULL:
-            self.extend(igts or [])
+            self.extend(igts)
         else:
-            self._generator = igts
+            self._generator = iter(igts)
 
     def __repr__(self):
         return '<XigtCorpus object (id: {}) with {} Igts at {}>'.format(
@@ -93,18 +97,43 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         )
 
     def __iter__(self):
-        if self.mode == FULL:
-            for igt in XigtContainerMixin.__iter__(self):
+        # passes may be abandoned or interleaved, so each one keeps its own
+        # position and loads the next Igt only when it needs it
+        i = 0
+        while True:
+            if self.mode in (FULL, INCREMENTAL):
+                while i < len(self):
+                    yield list.__getitem__(self, i)
+                    i += 1
+            if self.mode == FULL:
+                break
+            igt = self._load_next()
+            if self.mode not in (FULL, INCREMENTAL):
                 yield igt
-        else:
-            for igt in self._generator:
-                if self.mode == INCREMENTAL:
-                    self.add(igt)
-                else:
-                    # don't add, but set the parent
-                    igt._parent = self
-                yield igt
-            self.mode = FULL
+
+    def _load_next(self):
+        # once loading has failed, the corpus must not appear to be complete
+        if self._generator_error is not None:
+            raise self._generator_error
+        try:
+            try:
+                igt = next(self._generator)
+            except StopIteration:
+                self.mode = FULL
+                self._generator = None
+                return None
+            if self.mode == INCREMENTAL:
+                self.append(igt)
+            else:
+                # don't append, but set the parent
+                igt._parent = self
+        except Exception as ex:
+            self._generator_error = ex
+            raise
+        except BaseException:
+            self._generator_error = XigtError('Loading was interrupted.')
+            raise
+        return igt
 
     @property
     def igts(self):
@@ -112,6 +141,9 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
     @igts.setter
     def igts(self, value):
         self._replace_all([] if value is None else value)
+        # anything not yet loaded is replaced, too
+        self.mode = FULL
+        self._generator = None
 
 
 class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
-- 
2.43.0


From 577a2f16b5056dadbce3eb224a6a9015202a4c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:41 +0000
Subject: [PATCH 12/56] fix: refreshed item index of an Igt kept stale items

---
 xigt/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xigt/model.py b/xigt/model.py
index 327828d..73c8bea 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -186,15 +186,18 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
 
         xs = [i for t in self.tiers for i in t.items]
         if items:
-            idict = self._itemdict
+            idict = {}
             for item in xs:
                 i_id = item.id
+                if i_id is None:
+                    continue
                 if idict.get(i_id, item) != item:
                     warnings.warn(
                         'Item "{}" already exists in Igt.'.format(i_id),
                         XigtWarning
                     )
                 idict[i_id] = item
+            self._itemdict = idict
 
         ids = ref.ids
         xs = self.tiers + xs
-- 
2.43.0


From c5d6c17b20c9ac11517c1f0841d8d974771b6997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:41 +0000
Subject: [PATCH 13/56] fix: cycle detection of query.ancestors() confused tier
 ids with their characters

---
 xigt/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/query.py b/xigt/query.py
index d25c540..0f83486 100644
--- a/xigt/query.py
+++ b/xigt/query.py
@@ -41,7 +41,7 @@ def ancestors(obj, refattrs=(ALIGNMENT, SEGMENTATION)):
         # cycle detection; break if we've now encountered something twice
         if reftier.id in visited:
             break
-        visited.update(reftier.id)
+        visited.add(reftier.id)
         tier = reftier
         items = refitems
 
-- 
2.43.0


From f7703349a881812bbfe329706dcde46a3ed8eb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:42 +0000
Subject: [PATCH 14/56] fix: sorting tiers by dependencies never ended on
 cyclic references

---
 xigt/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xigt/model.py b/xigt/model.py
index 73c8bea..1b9d7bd 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -266,7 +266,10 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         for t in self:
             key = [(idx[t.id],0)]  # default value
             tmp = pr.get(t.id)
-            while tmp:  # iterative depth first
+            seen = set([t.id])
+            # iterative depth first; stop on dangling or cyclic references
+            while tmp and tmp[0] in idx and tmp[0] not in seen:
+                seen.add(tmp[0])
                 key.append((idx[tmp[0]], tmp[1]))
                 tmp = pr.get(tmp[0])
             dfi[t.id] = tuple(reversed(key))  # highest ancestor first
-- 
2.43.0


From 979943aa2f374fc4b18b1bbc6e9441ecd51335fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:04 +0000
Subject: [PATCH 15/56] fix: xigtxml.loads() ignored the declared encoding of
 bytes

---
 xigt/codecs/xigtxml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index f72c5ce..80bf621 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -1,5 +1,5 @@
 
-from io import StringIO
+from io import BytesIO, StringIO
 from xml.etree.ElementTree import (
     tostring,
     iterparse,
@@ -56,7 +56,9 @@ def load(fh, mode='full'):
 
 
 def loads(s):
-    if hasattr(s, 'decode'): s = s.decode('utf-8')
+    # leave decoding to the parser, as bytes may declare their encoding
+    if isinstance(s, bytes):
+        return load(BytesIO(s))
     return load(StringIO(s))
 
 
-- 
2.43.0


From 00c276ae52a11a6d3bd70a61b00af598be692bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:04 +0000
Subject: [PATCH 16/56] fix: xigtxml.dump() wrote before unflushed text of the
 handle

---
 xigt/codecs/xigtxml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 80bf621..1929a59 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -68,6 +68,7 @@ def dump(f, xc, encoding='utf-8', indent=2):
             'Second argument of dump() must be an instance of XigtCorpus.'
         )
     if hasattr(f, 'buffer') and encoding != 'unicode':
+        f.flush()  # what was written before comes first
         f = f.buffer
     root = _build_corpus(xc)
     _indent(root, indent=indent)
-- 
2.43.0


From 943b262ed7155f2f7fef10fea0d8a42d47d99bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:09 +0000
Subject: [PATCH 17/56] fix: writing to a path or handle destroyed its contents
 before finding the corpus cannot be serialized

---
 xigt/codecs/xigtjson.py |  7 ++++---
 xigt/codecs/xigtxml.py  | 25 +++++++++++++++++++++----
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 71a7b9c..c60b984 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -26,12 +26,13 @@ def dump(f, xc, encoding='utf-8', indent=2):
         raise XigtError(
             'Second argument of dump() must be an instance of XigtCorpus.'
         )
-    data = encode(xc)
+    # if something cannot be serialized, fail before touching the output
+    s = json.dumps(encode(xc), indent=indent)
     if hasattr(f, 'write'):
-        json.dump(data, f, indent=indent)
+        f.write(s)
     else:
         with open(f, 'w') as fh:
-            json.dump(data, fh, indent=indent)
+            fh.write(s)
 
 def dumps(xc, encoding='unicode', indent=2):
     if not isinstance(xc, XigtCorpus):
diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 1929a59..869d5d0 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -1,5 +1,5 @@
 
-from io import BytesIO, StringIO
+from io import BytesIO, RawIOBase, StringIO
 from xml.etree.ElementTree import (
     tostring,
     iterparse,
@@ -67,12 +67,29 @@ def dump(f, xc, encoding='utf-8', indent=2):
         raise XigtError(
             'Second argument of dump() must be an instance of XigtCorpus.'
         )
+    root = _build_corpus(xc)
+    _indent(root, indent=indent)
+    # serialize everything before touching the output, so it stays as it is
+    # if something cannot be serialized
+    buf = StringIO() if encoding == 'unicode' else BytesIO()
+    ElementTree(root).write(buf, encoding=encoding)
+    data = buf.getvalue()
+    if not hasattr(f, 'write'):
+        if encoding == 'unicode':
+            data = data.encode('utf-8')
+        with open(f, 'wb') as fh:
+            fh.write(data)
+        return
     if hasattr(f, 'buffer') and encoding != 'unicode':
         f.flush()  # what was written before comes first
         f = f.buffer
-    root = _build_corpus(xc)
-    _indent(root, indent=indent)
-    ElementTree(root).write(f, encoding=encoding)
+    written = f.write(data)
+    # unbuffered handles may write only a part of the data
+    while isinstance(f, RawIOBase) and (written or 0) < len(data):
+        if written is None:
+            raise BlockingIOError('The output cannot be written to.')
+        data = data[written:]
+        written = f.write(data)
 
 
 def dumps(xc, encoding='unicode', indent=2):
-- 
2.43.0


From 568f7b763b84ff0e6ef97c4442d2f6b1f1d43543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:10 +0000
Subject: [PATCH 18/56] fix: XigtJSON reader kept all Igts of transient corpora

---
 xigt/codecs/xigtjson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index c60b984..c40990d 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -66,8 +66,8 @@ def decode(obj, mode='full', nsmap=None):
         attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
-        igts=[decode_igt(igt, nsmap)
-              for igt in obj.get('igts', [])],
+        igts=(decode_igt(igt, nsmap)
+              for igt in obj.get('igts', [])),
         mode=mode,
         namespace=obj.get('namespace'),
         nsmap=nsmap if 'namespaces' in obj else None
-- 
2.43.0


From 17984649a6781a21796926fbb60f0004af506457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:11 +0000
Subject: [PATCH 19/56] fix: files were read and written in the locale's
 encoding

---
 xigt/codecs/xigtjson.py     | 7 ++++---
 xigt/exporters/latex.py     | 3 ++-
 xigt/importers/odin.py      | 4 +++-
 xigt/importers/toolbox.py   | 2 +-
 xigt/scripts/xigt_export.py | 7 +++++--
 xigt/scripts/xigt_import.py | 4 +++-
 6 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index c40990d..28226e6 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -13,7 +13,8 @@ def load(fh, mode='full'):
     if hasattr(fh, 'read'):
         return decode(json.load(fh), mode=mode)
     else:
-        with open(fh, 'r') as fh_:
+        # JSON is never in the locale's encoding
+        with open(fh, 'rb') as fh_:
             return decode(json.load(fh_), mode=mode)
 
 
@@ -31,8 +32,8 @@ def dump(f, xc, encoding='utf-8', indent=2):
     if hasattr(f, 'write'):
         f.write(s)
     else:
-        with open(f, 'w') as fh:
-            fh.write(s)
+        with open(f, 'wb') as fh:
+            fh.write(s.encode('utf-8'))
 
 def dumps(xc, encoding='unicode', indent=2):
     if not isinstance(xc, XigtCorpus):
diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 3190491..1021185 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -1,5 +1,6 @@
 
 from __future__ import print_function
+import io
 import re
 import logging
 from itertools import groupby, chain
@@ -38,7 +39,7 @@ footer = '''
 
 def xigt_export(xc, outpath, config=None):
     config = prepare_config(config)
-    with open(outpath, 'w') as out_fh:
+    with io.open(outpath, 'w', encoding='utf-8') as out_fh:
         print(header, file=out_fh)
         for s in export_corpus(xc, config):
             print(s, file=out_fh)
diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index 153d07c..1b7f0c0 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -23,6 +23,7 @@
 # used_igt_ids: don't reuse these IDs on <igt> elements
 
 
+import io
 import sys
 from os import mkdir
 import os.path
@@ -77,7 +78,8 @@ def xigt_import(inpath, outpath, options=None):
 
 
 def _xigt_import(infile, outfile, options):
-    with open(infile, 'r') as in_fh, open(outfile, 'w') as out_fh:
+    with io.open(infile, 'r', encoding='utf-8') as in_fh, \
+            open(outfile, 'wb') as out_fh:
         igts = odin_igts(in_fh, options)
         xc = XigtCorpus(
             igts=igts,
diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index f8d4290..870141a 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -122,7 +122,7 @@ def xigt_import(infile, outfile, options=None, encoding='utf-8'):
     # just use existing info to create marker-based alignment info
     options['tb_alignments'] = _make_tb_alignments(options) 
 
-    with open(infile, 'rb') as in_fh, open(outfile, 'w') as out_fh:
+    with open(infile, 'rb') as in_fh, open(outfile, 'wb') as out_fh:
         in_lines = (_respace_decode(line, encoding) for line in in_fh)
         tb = toolbox.read_toolbox_file(in_lines)
         igts = toolbox_igts(tb, options)
diff --git a/xigt/scripts/xigt_export.py b/xigt/scripts/xigt_export.py
index d782433..ea13261 100755
--- a/xigt/scripts/xigt_export.py
+++ b/xigt/scripts/xigt_export.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 
 import argparse
+import io
 import logging
 from xigt.codecs import xigtxml
 
@@ -8,13 +9,15 @@ def run(infile, outpath, out_format, config=None):
     cfg = None
     if config:
         import json
-        cfg = json.load(open(config,'r'))
+        with io.open(config, 'r', encoding='utf-8') as cfg_fh:
+            cfg = json.load(cfg_fh)
     if out_format == 'latex':
         import xigt.exporters.latex as exporter
     elif out_format == 'itsdb':
         import xigt.exporters.itsdb as exporter
     # elif ...
-    with open(infile, 'r') as in_fh:
+    # leave decoding to the parser
+    with open(infile, 'rb') as in_fh:
         xc = xigtxml.load(in_fh, mode='transient')
         exporter.xigt_export(xc, outpath, config=cfg)
 
diff --git a/xigt/scripts/xigt_import.py b/xigt/scripts/xigt_import.py
index a2fca18..921f9b3 100755
--- a/xigt/scripts/xigt_import.py
+++ b/xigt/scripts/xigt_import.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 
 import argparse
+import io
 import logging
 import json
 
@@ -15,7 +16,8 @@ def run(args):
         import xigt.importers.odin as importer
     # elif ...
     if config is not None:
-        config = json.load(open(config, 'r'))
+        with io.open(config, 'r', encoding='utf-8') as cfg_fh:
+            config = json.load(cfg_fh)
     importer.xigt_import(infile, outfile, config)
 
 def main(arglist=None):
-- 
2.43.0


From 825ca77b42406527e6802a00690b84f028e0a234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:26 +0000
Subject: [PATCH 20/56] fix: xigt sort failed with several keys

---
 xigt/scripts/xigt_sort.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xigt/scripts/xigt_sort.py b/xigt/scripts/xigt_sort.py
index 21e20bb..65c6165 100644
--- a/xigt/scripts/xigt_sort.py
+++ b/xigt/scripts/xigt_sort.py
@@ -39,9 +39,10 @@ def make_sortkey(sortkeys):
             return int(x)
         except ValueError:
             return x
-    key = lambda x: [k for sk in sortkeys
-                     for k in map(safe_int,
-                                  re.split(r'(\d+)', xp.find(x, sk) or ''))]
+    # one list per sort key, so numbers only get compared to numbers
+    key = lambda x: [[safe_int(k)
+                      for k in re.split(r'(\d+)', xp.find(x, sk) or '')]
+                     for sk in sortkeys]
     return key
 
 def main(arglist=None):
-- 
2.43.0


From b9584b27b21a41957c60b21051cdc87af2dde48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:26 +0000
Subject: [PATCH 21/56] fix: xigt sort wrote XML in the locale's encoding
 without declaring it

---
 xigt/scripts/xigt_sort.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xigt/scripts/xigt_sort.py b/xigt/scripts/xigt_sort.py
index 65c6165..58edee5 100644
--- a/xigt/scripts/xigt_sort.py
+++ b/xigt/scripts/xigt_sort.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 
 from __future__ import print_function
+import sys
 import re
 import argparse
 import logging
@@ -29,6 +30,10 @@ def run(args):
                 tier.sort(key=make_sortkey(args.item_key))
     if args.in_place:
         xigtxml.dump(args.infile, xc)
+    elif hasattr(sys.stdout, 'buffer'):
+        # the locale's encoding would have to be declared
+        xigtxml.dump(sys.stdout, xc)
+        print()
     else:
         print(xigtxml.dumps(xc))
 
-- 
2.43.0


From 9b41ff890ae3c52ef3dcf94540f24bd36deadc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:26 +0000
Subject: [PATCH 22/56] fix: xigt sort --in-place could lose the corpus when
 failing to write it

---
 xigt/scripts/xigt_sort.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/xigt/scripts/xigt_sort.py b/xigt/scripts/xigt_sort.py
index 58edee5..c2e5684 100644
--- a/xigt/scripts/xigt_sort.py
+++ b/xigt/scripts/xigt_sort.py
@@ -1,8 +1,11 @@
 #!/usr/bin/env python
 
 from __future__ import print_function
+import os
 import sys
 import re
+import shutil
+import tempfile
 import argparse
 import logging
 
@@ -29,7 +32,7 @@ def run(args):
             for tier in igt:
                 tier.sort(key=make_sortkey(args.item_key))
     if args.in_place:
-        xigtxml.dump(args.infile, xc)
+        replace_file(args.infile, xc)
     elif hasattr(sys.stdout, 'buffer'):
         # the locale's encoding would have to be declared
         xigtxml.dump(sys.stdout, xc)
@@ -37,6 +40,25 @@ def run(args):
     else:
         print(xigtxml.dumps(xc))
 
+def replace_file(path, xc):
+    # write to a temporary file first, so that the only copy of the corpus
+    # is not lost if something goes wrong (crash, full disk, etc.)
+    path = os.path.realpath(path)
+    fd, tmp_path = tempfile.mkstemp(
+        prefix='.' + os.path.basename(path)[:100] + '.',
+        dir=os.path.dirname(path)
+    )
+    try:
+        with os.fdopen(fd, 'wb') as fh:
+            xigtxml.dump(fh, xc)
+            fh.flush()
+            os.fsync(fh.fileno())
+        shutil.copymode(path, tmp_path)
+        os.rename(tmp_path, path)
+    except:
+        os.remove(tmp_path)
+        raise
+
 def make_sortkey(sortkeys):
     # return int values if possible (for int comparison), otherwise strings
     def safe_int(x):
-- 
2.43.0


From a52adffde0170a585154c0c96025e5389dd9786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:22 +0000
Subject: [PATCH 23/56] fix: partitioning overwrote files of equal normalized
 keys and wrote outside of the output directory

Different keys with the same normalized form, and missing keys and the
default key, led to the same file, so IGTs were lost. Path separators in
keys could lead to files outside of the output directory, even the inputs.
---
 xigt/scripts/xigt_partition.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/xigt/scripts/xigt_partition.py b/xigt/scripts/xigt_partition.py
index 9b4511f..a19f9b6 100644
--- a/xigt/scripts/xigt_partition.py
+++ b/xigt/scripts/xigt_partition.py
@@ -2,6 +2,7 @@
 
 import sys
 import os
+import re
 from collections import defaultdict
 import argparse
 import logging
@@ -17,14 +18,19 @@ def run(args):
     keypath = args.key_path
     for fn in args.infiles:
         logging.info('Indexing {}'.format(fn))
-        index(fn, keypath, idx)
+        index(fn, keypath, idx, args.default_key)
+    used = set()
     for key, fn_idx in idx.items():
         logging.info('Writing {} (grouped from {} files)'
                      .format(key, len(fn_idx)))
-        if key is None:
-            key = args.default_key
-        out_fn = os.path.join(args.outdir, normalize_key(key) + '.xml')
-        write(out_fn, fn_idx)
+        # different keys may have the same normalized form
+        name = normalize_key(key)
+        n = 2
+        while name.lower() in used:  # consider case-insensitive filesystems
+            name = '{}-{}'.format(normalize_key(key), n)
+            n += 1
+        used.add(name.lower())
+        write(os.path.join(args.outdir, name + '.xml'), fn_idx)
 
 def create_outdir(outdir):
     if os.path.isdir(outdir):
@@ -36,14 +42,17 @@ def create_outdir(outdir):
         logging.error('Output directory could not be created.')
         sys.exit(1)
 
-def index(fn, by, idx):
+def index(fn, by, idx, default_key):
     xc = xigtxml.load(fn, mode='transient')
     for i, igt in enumerate(xc):
         idx_key = xp.find(igt, by)
+        if idx_key is None:
+            idx_key = default_key
         idx[idx_key][fn].add(i)
 
 def normalize_key(key):
-    return key.replace(':', '-')
+    # path separators would lead to files outside of the output directory
+    return re.sub(r'[:/\\]', '-', key)
 
 def write(out_fn, fn_idx):
     xc = XigtCorpus()
-- 
2.43.0


From 7b395edc48424e898eead2466513762ab8ee7302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:05 +0000
Subject: [PATCH 24/56] fix: xigt validate passed or aborted on unreadable
 corpora, and passed invalid ones with --quiet

Corpora are loaded incrementally, so errors also occur while validating,
and they prevented the validation of the remaining corpora. The verbosity
determined which violations count, so with --quiet none did. Files were
read in the locale's encoding.
---
 xigt/scripts/xigt_validate.py | 49 +++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 4d4be94..a06c607 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -331,10 +331,18 @@ def filter_empty_reports(report, minlevel=None):
 
 # FORMATTING AND PRINTING
 
+def safe_print(s):
+    # the locale's encoding must not affect which corpora are examined
+    try:
+        print(s)
+    except UnicodeEncodeError:
+        encoding = sys.stdout.encoding
+        print(s.encode(encoding, 'backslashreplace').decode(encoding))
+
 def print_report(report, args, nestlevel=0):
     if report_is_empty(report):
         return
-    print(format_heading(report, nestlevel, args))
+    safe_print(format_heading(report, nestlevel, args))
     for record in report.get('records', []):
         msg = format_message(record, nestlevel, args)
         logging.log(record['level'], msg)
@@ -388,31 +396,34 @@ def format_message(record, nestlevel, args):
 
 def run(args):
     passed = []
-    from xml.etree import ElementTree as ET
     ids = Counter()
+    # being quiet must not make invalid corpora pass
+    minlevel = min(logging.getLogger().getEffectiveLevel(), logging.ERROR)
     for i, f in enumerate(args.files):
-        with open(f, 'r') as fh:
-            try:
+        try:
+            # leave decoding to the parser
+            with open(f, 'rb') as fh:
                 xc = xigtxml.load(fh, mode='transient')
-            except ET.ParseError:
-                print('Corpus {} ({}) failed to load. First verify '
-                      'that the XML file is valid by doing a schema '
-                      'validation.'
-                      .format(i, f))
-            else:
                 context = make_context(
                     xc, i, '<xigt-corpus>', 'collection', ids=ids
                 )
+                # problems may occur while validating because the corpus
+                # is loaded incrementally
                 report = validate_corpus(xc, context)
-                report = filter_empty_reports(
-                    report, minlevel=logging.getLogger().getEffectiveLevel()
-                )
-                if report_is_empty(report):
-                    passed.append(True)
-                else:
-                    passed.append(False)
-                    print_report(report, args)
-                add_id(ids, xc)
+        except Exception as ex:
+            passed.append(False)
+            safe_print('Corpus {} ({}) failed to load. First verify '
+                       'that the XML file is valid by doing a schema '
+                       'validation. ({}: {})'
+                       .format(i, f, type(ex).__name__, ex))
+            continue
+        report = filter_empty_reports(report, minlevel=minlevel)
+        if report_is_empty(report):
+            passed.append(True)
+        else:
+            passed.append(False)
+            print_report(report, args)
+        add_id(ids, xc)
     return all(passed)
 
 def main(arglist=None):
-- 
2.43.0


From 080dd6eee53cf8ff01babc6f442444065167ccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:23 +0000
Subject: [PATCH 25/56] fix: xigt validate missed references into empty tiers
 and took numbers for ids

---
 xigt/scripts/xigt_validate.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index a06c607..cc7b829 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -187,9 +187,11 @@ def add_id(ids, obj):
 
 def get_referred_tier(item, refattr):
     tierref = item.tier.attributes.get(refattr)
-    if not tierref:
-        return None
-    return item.igt.get(tierref)
+    return get_by_id(item.igt, tierref)
+
+def get_by_id(container, _id):
+    # container.get() would accept indices, too
+    return next((x for x in container if x.id and x.id == _id), None)
 
 
 # TEST FUNCTIONS
@@ -221,7 +223,7 @@ def has_type(obj):
 
 def reference_id_in_igt(tier, refattr):
     refid = tier.attributes.get(refattr)
-    if refid and tier.igt.get(refid) is None:
+    if refid and get_by_id(tier.igt, refid) is None:
         return ('The reference attribute "{}" {{modal}} select an '
                 'available <tier> id.'.format(refattr))
 
@@ -239,7 +241,7 @@ def item_refattrs_specified_on_tier(tier):
 def algnexpr_ids_in_referred_tier(item, refattr):
     itemref = item.attributes.get(refattr)
     reftier = get_referred_tier(item, refattr)
-    if not itemref or not reftier:
+    if not itemref or reftier is None:
         return
     missing = []
     for ae_id in ids(itemref):
@@ -256,7 +258,7 @@ def algnexpr_ids_in_referred_tier(item, refattr):
 def algnexpr_spans_in_aligned_item(item, refattr):
     itemref = item.attributes.get(refattr)
     reftier = get_referred_tier(item, refattr)
-    if not itemref or not reftier:
+    if not itemref or reftier is None:
         return
     error_spans = []
     for span in spans(itemref):
@@ -285,7 +287,7 @@ def algnexpr_spans_in_aligned_item(item, refattr):
 def algnexpr_spans_do_not_overlap(item, refattr):
     itemref = item.attributes.get(refattr)
     reftier = get_referred_tier(item, refattr)
-    if not itemref or not reftier:
+    if not itemref or reftier is None:
         return
     spans_by_id = defaultdict(Counter)
     for span in spans(itemref):
-- 
2.43.0


From f8496d48aa8d8c73ff7ddcaca1cf4196457ef5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:37 +0000
Subject: [PATCH 26/56] fix: xigt validate crashed on ranges of items without a
 value and on space-separated references

---
 xigt/scripts/xigt_validate.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index cc7b829..26880ea 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -9,7 +9,7 @@ warnings.simplefilter('ignore')
 
 from xigt.codecs import xigtxml
 from xigt.ref import (ids, spans, selection_re, span_re)
-from xigt.errors import XigtAttributeError
+from xigt.errors import XigtAttributeError, XigtStructureError
 
 datalevels = ['corpus', 'igt', 'tier', 'item']
 reference_attributes = ['alignment', 'segmentation', 'content']
@@ -193,6 +193,12 @@ def get_by_id(container, _id):
     # container.get() would accept indices, too
     return next((x for x in container if x.id and x.id == _id), None)
 
+def get_value(item):
+    try:
+        return item.value()
+    except (XigtStructureError, KeyError):
+        return None  # bad references get their own messages
+
 
 # TEST FUNCTIONS
 
@@ -264,7 +270,10 @@ def algnexpr_spans_in_aligned_item(item, refattr):
     for span in spans(itemref):
         if span in alignment_expression_delimiters:
             continue  # schema validator should catch bad algnexprs like '+w3'
-        sel_delim, item_id, _range = selection_re.match(span).groups()
+        selection = selection_re.match(span)
+        if selection is None:
+            continue  # some other delimiter
+        sel_delim, item_id, _range = selection.groups()
         if _range:
             _, start, end = span_re.match(_range).groups()
             start = int(start)
@@ -274,7 +283,7 @@ def algnexpr_spans_in_aligned_item(item, refattr):
         tgt_item = reftier.get(item_id)
         if tgt_item is None:
             continue  # this should be caught by algnexpr_ids_in_referred_tier
-        item_len = len(tgt_item.value())
+        item_len = len(get_value(tgt_item) or '')
         if start > item_len or end > item_len:
             error_spans.append(span)
     if error_spans:
@@ -297,10 +306,10 @@ def algnexpr_spans_do_not_overlap(item, refattr):
             tgt_item = reftier.get(span)
             if tgt_item is None:
                 continue  # this should be caught by algnexpr_ids_in_referred_tier
-            val = tgt_item.value()
+            val = get_value(tgt_item)
             if val is None:
                 continue  # does this need to be handled?
-            item_len = len(tgt_item.value())
+            item_len = len(val)
             spans_by_id[span].update(range(0, item_len))
         else:
             item_id, start, end = span
-- 
2.43.0


From 96afb52d790f6d75a7f754bf375534c76d6a0869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:37 +0000
Subject: [PATCH 27/56] fix: xigt query crashed on or garbled queries with
 braces

---
 xigt/scripts/xigt_query.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/xigt/scripts/xigt_query.py b/xigt/scripts/xigt_query.py
index 8235ebb..5bde2ca 100755
--- a/xigt/scripts/xigt_query.py
+++ b/xigt/scripts/xigt_query.py
@@ -72,10 +72,7 @@ def make_job(args):
     agenda = job['agenda']
     for action, vals in args.agenda:
         if action == 'description' and agenda:
-            agendum = agenda[-1]
-            agendum['description'] = safe_format(
-                vals, query=agendum['query'], subquery=agendum.get('subquery')
-            )
+            agenda[-1]['description'] = vals
         else:
             if action in ('find', 'unique', 'count'):
                 query, subquery = vals[0], ''
@@ -87,9 +84,7 @@ def make_job(args):
                 'action': action,
                 'query': query,
                 'subquery': subquery,
-                'description': safe_format(
-                    description, query=query, subquery=subquery
-                )
+                'description': description
             })
     return job
 
@@ -110,9 +105,19 @@ def process_agenda(xc, agenda):
     return results
 
 
+def describe(agendum, match):
+    # format only once, because queries and matches may have braces
+    return safe_format(
+        agendum['description'],
+        query=agendum['query'],
+        subquery=agendum['subquery'],
+        match=match
+    )
+
+
 def find_pattern(xc, agendum):
     for match in xp.findall(xc, agendum['query']):
-        print(' ', agendum['description'].format(match=match))
+        print(' ', describe(agendum, match))
 
 
 def tally_pattern(xc, agendum):
@@ -121,19 +126,19 @@ def tally_pattern(xc, agendum):
         group = CSTuple(xp.findall(match, agendum['subquery']))
         counts[group] += 1
     return [
-        (count, agendum['description'].format(match=match))
+        (count, describe(agendum, match))
         for match, count in counts.most_common()
     ]
 
 
 def unique_pattern(xc, agendum):
     counts = Counter(xp.findall(xc, agendum['query']))
-    return (len(counts), agendum['description'].format(match=''))
+    return (len(counts), describe(agendum, ''))
 
 
 def count_pattern(xc, agendum):
     count = len(xp.findall(xc, agendum['query']))
-    return (count, agendum['description'].format(match=''))
+    return (count, describe(agendum, ''))
 
 
 def print_results(results):
-- 
2.43.0


From ac8bf8adcc5b7344fe741a6b3e101bbf67edb3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:08 +0000
Subject: [PATCH 28/56] fix: [incr tsdb()] export evaluated the last cell's
 expression for all cells, failed by default, and reported success without
 relations

The default cells wrote objects instead of strings and failed on empty
tiers. The caller's configuration was modified, so using it twice failed.
---
 xigt/exporters/itsdb.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/xigt/exporters/itsdb.py b/xigt/exporters/itsdb.py
index 38258e7..ec5601e 100644
--- a/xigt/exporters/itsdb.py
+++ b/xigt/exporters/itsdb.py
@@ -11,11 +11,14 @@ except ImportError:
         '  https://github.com/goodmami/pydelphin'
     )
 
+from xigt.errors import XigtError
+
 DEFAULT_CELLS = [
     # i-input is a string of either the first phrase (preferred) or all words
     ('i-input',
-     'next(igt.select(type="phrases"), [""])[0] or '
-     '" ".join(item.get_content() '
+     'next((item.value() for tier in igt.select(type="phrases") '
+     '      for item in tier[:1]), None) or '
+     '" ".join(item.value() or "" '
      '         for item in next(igt.select(type="words"),[]))'),
     #('i-wf', '0 if igt.get_meta("judgment") else 1'),
 ]
@@ -23,8 +26,7 @@ DEFAULT_CELLS = [
 def xigt_export(xc, outpath, config=None):
     config = prepare_config(config)
     if not config.get('relations') or not isfile(config['relations']):
-        logging.error('Relations file required for [incr tsdb()] export.')
-        return
+        raise XigtError('Relations file required for [incr tsdb()] export.')
     itsdb.make_skeleton(
         outpath,
         config['relations'],
@@ -32,8 +34,7 @@ def xigt_export(xc, outpath, config=None):
     )
 
 def prepare_config(config):
-    if config is None:
-        config = {}
+    config = dict(config or {})  # don't modify the original
     config.setdefault('i-id_start', 0)
     config.setdefault('i-id_skip', 10)
     # attempt to find default Relations file
@@ -48,10 +49,13 @@ def prepare_config(config):
             config['relations'] = rel_path
     # evaluate lambda expressions now, since they won't change
     config.setdefault('cells', DEFAULT_CELLS)
-    config['cells'] = [(key, lambda igt: eval(mapper))
+    config['cells'] = [(key, make_mapper(mapper))
                        for key, mapper in config['cells']]
     return config
 
+def make_mapper(mapper):
+    return lambda igt: eval(mapper)
+
 def export_corpus(xc, config):
     id_start = config['i-id_start']
     id_skip = config['i-id_skip']
-- 
2.43.0


From 2318e86facbb3bca15ecbce65fd52abb18b0c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:47 +0000
Subject: [PATCH 29/56] fix: LaTeX export lost or repeated tokens and aborted
 on IGTs with unexpected alignments

Missing, unknown, crossing or reversed alignments aborted the export of
the whole corpus, or led to lost, repeated or reordered tokens, as did
empty tiers. The caller's configuration was modified.
---
 xigt/exporters/latex.py | 69 ++++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 1021185..0dacbb8 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -10,6 +10,7 @@ except ImportError:
     from itertools import izip_longest as zip_longest
 from collections import deque
 from xigt import ref
+from xigt.errors import XigtError, XigtStructureError
 from xigt.exporters.util import sub
 
 DEFAULT_TIER_TYPES = ('words', 'morphemes', 'glosses')
@@ -47,8 +48,7 @@ def xigt_export(xc, outpath, config=None):
         print(footer, file=out_fh)
 
 def prepare_config(config):
-    if config is None:
-        config = {}
+    config = dict(config or {})  # don't modify the original
     config.setdefault('tier_types', DEFAULT_TIER_TYPES)
     config.setdefault('item_substitutions', [])
     config.setdefault('tier_substitutions', [])
@@ -67,9 +67,25 @@ def escape(s):
 def export_corpus(xc, config):
     for igt in xc:
         logging.debug('Exporting {}'.format(str(igt.id)))
-        x = export_igt(igt, config)
+        try:
+            x = export_igt(igt, config)
+        except XigtError as ex:
+            # one bad IGT should not prevent the export of the others
+            logging.error('Cannot export {}: {}'.format(str(igt.id), str(ex)))
+            x = cannot_export(igt)
         yield x
 
+def cannot_export(igt):
+    return '%\n% cannot export IGT {}\n%'.format(igt.id)
+
+def get_value(item):
+    try:
+        return item.value()
+    except (KeyError, RecursionError):
+        raise XigtStructureError(
+            'Cannot resolve the value of item (id: {}).'.format(item.id)
+        )
+
 def export_igt(igt, config):
     tier_types = config['tier_types']
     item_subs = config['item_substitutions']
@@ -80,23 +96,22 @@ def export_igt(igt, config):
         if typ is not None and typ.lower() in tier_types:
             tiers.append(tier)
     if len(tiers) < 2:
-        return '%\n% cannot export IGT {}\n%'.format(igt.id)
-    logging.debug('Aligning tiers: {}'.format(', '.join(t.id for t in tiers)))
+        return cannot_export(igt)
+    logging.debug('Aligning tiers: {}'.format(', '.join(str(t.id) for t in tiers)))
     lines = []
     all_groups = group_alignments(tiers)
     for col in all_groups:
         logging.debug('Col {}'.format([[i.id for i in r] for r in col]))
     lines.append('\\begin{exe}\\small')
     lines.append('\\ex\\g{}'.format('l' * len(tiers)))
-    depth = len(all_groups[0])
-    for i in range(depth):
+    for i in range(len(tiers)):
         toks = []
         tier_type = tiers[i].type
         for col in all_groups:
             items = col[i]
             toks.append('{{{}}}'.format(
                 ' '.join(
-                    sub(escape(item.get_content() or '{}'),
+                    sub(escape(get_value(item) or '{}'),
                         tier_type,
                         item_subs)
                     for item in items
@@ -107,7 +122,7 @@ def export_igt(igt, config):
     for tier in igt.tiers:
         if tier.type == 'translations' and len(tier) > 0:
             lines.append('\\trans {}'.format(
-                sub(escape(tier[0].get_content() or '{}'),
+                sub(escape(get_value(tier[0]) or '{}'),
                     tier.type,
                     tier_subs)
             ))
@@ -124,13 +139,12 @@ def group_alignments(tiers):
     #    or as a list
     # [columns [rows [tokens]]]
     trellis = [[[item]] for item in tiers[0].items]
-    for tier in tiers[1:]:
-        trellis = align_tier(trellis, tier)
+    for depth, tier in enumerate(tiers[1:], 1):
+        trellis = align_tier(trellis, tier, depth)
     return trellis
 
 
-def align_tier(trellis, tier):
-    depth = len(trellis[0])
+def align_tier(trellis, tier, depth):
     agenda = get_agenda(tier) # list of (aligned ids, item)
     delay = deque()  # when we need to postpone an agendum
     idx = -1  # current trellis position
@@ -139,22 +153,27 @@ def align_tier(trellis, tier):
         ids, items = agendum
         logging.debug('Agendum: {} -> {}'.format([i.id for i in items], ids))
         debug_display_trellis(trellis)
-        # no alignment
-        if not ids:
+        cols = [idxmap[_id] for _id in ids if _id in idxmap]
+        # no (usable) alignment
+        if not cols:
             logging.debug('Delay')
             delay.append(agendum)
             continue
-        # assumes ids are ordered
-        start = idxmap[ids[0]]
-        end = idxmap[ids[-1]]
+        # items stay in order, so don't go back to earlier positions
+        start = max(min(cols), idx)
+        end = max(max(cols), idx)
         logging.debug('idx: {}\tstart: {}\tend: {}\tdepth: {}'
                       .format(idx, start, end, depth))
+        # fill in from delayed agenda if we stay at the same position...
+        if idx == start:
+            while delay:
+                trellis[idx][depth].extend(delay.popleft()[1])
         # if the next aligned thing is ahead of idx, move ahead
         while idx < start:
             idx += 1
             trellis[idx].append([])
             logging.debug('Added row at idx {}'.format(idx))
-        # now fill in from delayed agenda
+        # ... or before the next position
         if delay:
             trellis, num = add_delayed(trellis, delay, start, depth)
             # this changed the size, so shift all indices up by num
@@ -173,21 +192,21 @@ def align_tier(trellis, tier):
         trellis[idx][depth].extend(items)
         logging.debug('Added items at idx {} depth {}: {}'
                       .format(idx, depth, items))
-    # when agendum is done, just append any remaining delayed items
-    trellis, _ = add_delayed(trellis, delay, len(trellis), depth)
     # if the agenda was shorter than the prev tier, fill in empty values
     idx += 1
     while idx < len(trellis):
         logging.debug('Filling in empty slot at idx {}'.format(idx))
         trellis[idx].append([])
         idx += 1
+    # when agendum is done, just append any remaining delayed items
+    trellis, _ = add_delayed(trellis, delay, len(trellis), depth)
     logging.debug('Agenda done.')
     for col in trellis:
         logging.debug('Col {}'.format(col))
     return trellis
 
 def get_agenda(tier):
-    agenda = [(ref.ids(item.alignment or item.segmentation), item)
+    agenda = [(ref.ids(item.alignment or item.segmentation or ''), item)
               for item in tier.items]
     # then group those with the same alignment (still a list [(ids, item)])
     agenda = deque(tuple([k, [g[1] for g in gs]])
@@ -203,9 +222,9 @@ def add_delayed(trellis, delay, pos, depth):
     num = 0
     while delay:
         _, delayed_items = delay.popleft()
-        col = [[]] * (depth)
+        col = [[] for _ in range(depth)]
         col.append(delayed_items)
-        trellis.insert(pos, col)
+        trellis.insert(pos + num, col)
         logging.debug('Added delayed items at {}: {}'
                       .format(pos, delayed_items))
         num += 1
@@ -226,7 +245,7 @@ def merge_columns(trellis, start, end):
 def debug_display_trellis(trellis):
     strs = []
     for col in trellis:
-        toks = [' '.join(i.id for i in row) if row else '[]' for row in col]
+        toks = [' '.join(str(i.id) for i in row) if row else '[]' for row in col]
         maxlen = max(len(t) for t in toks)
         toks = [t.ljust(maxlen) for t in toks]
         strs.append(toks)
-- 
2.43.0


From 9ba8722ee6220b8eae6ae6d844452d6eb648119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:55 +0000
Subject: [PATCH 30/56] fix: ODIN import replaced valid characters, aborted on
 bad blocks, and took paths and suffixes for patterns

Characters outside of the BMP were replaced although XML can hold them,
but invalid ones in headers were not. One malformed block prevented the
import of the others. The caller's options were modified.
---
 xigt/importers/odin.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index 1b7f0c0..db4c93c 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -38,7 +38,7 @@ import odintxt # https://github.com/xigt/odin-utils
 
 from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
 from xigt.codecs import xigtxml
-from xigt.errors import XigtImportError
+from xigt.errors import XigtError, XigtImportError
 
 _nsmap={
     "olac": "http://www.language-archives.org/OLAC/1.1/",
@@ -48,8 +48,7 @@ _nsmap={
 
 def xigt_import(inpath, outpath, options=None):
 
-    if options is None:
-        options = {}
+    options = dict(options or {})  # don't modify the original
     options.setdefault('input_file_suffix', '.txt')
     options.setdefault('replacement_char', '\uFFFD')
     # options.setdefault('clean', True)
@@ -67,9 +66,13 @@ def xigt_import(inpath, outpath, options=None):
         suffix = options['input_file_suffix']
         if not os.path.exists(outpath):
             prepare_outdir(outpath)
-        filepattern = '*{}'.format(suffix)
-        for infile in glob.glob(os.path.join(inpath, filepattern)):
-            outfile = re.sub(suffix + r'$', '.xml', os.path.basename(infile))
+        # the path and suffix are not patterns
+        filepattern = os.path.join(
+            glob.escape(inpath), '*{}'.format(glob.escape(suffix))
+        )
+        for infile in glob.glob(filepattern):
+            outfile = os.path.basename(infile)
+            outfile = outfile[:len(outfile)-len(suffix)] + '.xml'
             _xigt_import(infile, os.path.join(outpath, outfile), options)
     else:
         raise XigtImportError(
@@ -103,7 +106,13 @@ def prepare_outdir(outpath):
 
 def odin_igts(in_fh, options):
     for block in odintxt.odin_blocks(in_fh):
-        igt = make_igt(block, options)
+        try:
+            igt = make_igt(block, options)
+        except (XigtError, KeyError, ValueError) as ex:
+            # one bad block should not prevent the import of the others
+            logging.error('Error during import of item {}:\n  {}'
+                          .format(block.get('igt_id'), repr(ex)))
+            continue
         if igt.get('r') is not None:
             yield igt
 
@@ -150,7 +159,10 @@ def make_igt_metadata(block, options):
     if options['keep_headers'] and block.get('header_lines'):
         md.append(Meta(id='meta{}'.format(mi),
                        type='odin-header',
-                       text='\n'.join(block.get('header_lines', []))
+                       text=replace_invalid_xml_chars(
+                           '\n'.join(block.get('header_lines', [])),
+                           options['replacement_char']
+                       )
         ))
         mi += 1
 
@@ -192,7 +204,7 @@ def make_igt_raw_tier(block, options):
             options['replacement_char']
         )
         attrs = linedata.copy()
-        del attrs['content']
+        attrs.pop('content', None)
         items.append(Item(id='r{}'.format(j+1), attributes=attrs, text=text))
     tier = Tier(
         id='r',
@@ -224,8 +236,7 @@ def make_igt_raw_tier(block, options):
 #  \U000DFFFE, \U000DFFFF, \U000EFFFE, \U000EFFFF, \U000FFFFE, \U000FFFFF,
 #  \U0010FFFE, \U0010FFFF
 invalid_char_re = re.compile('[^\x09\x0A\x0D\u0020-\uD7FF\uE000-\uFFFD'
-                             #'\U00010000-\U0010FFFF]'
-                             ']'
+                             '\U00010000-\U0010FFFF]'
                              , re.UNICODE)
 
 
-- 
2.43.0


From bac7e47b9cc2e8669423ff6b65b73b9812a5b52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:55 +0000
Subject: [PATCH 31/56] fix: Toolbox import aborted on records with an empty or
 non-ASCII key or with unalignable fields

The caller's options were modified.
---
 xigt/importers/toolbox.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index 870141a..3f4a65f 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -51,7 +51,8 @@ except ImportError:
 
 from xigt import (XigtCorpus, Igt, Tier, Item, Metadata, Meta)
 from xigt.codecs import xigtxml
-from xigt.errors import XigtImportError
+from xigt.errors import XigtError, XigtImportError
+from xigt.ref import id_re
 
 try:
     import toolbox
@@ -109,8 +110,7 @@ default_bounds = '-=~.'
 
 def xigt_import(infile, outfile, options=None, encoding='utf-8'):
 
-    if options is None:
-        options = {}
+    options = dict(options or {})  # don't modify the original
     options.setdefault('record_markers', default_record_markers)
     options.setdefault('igt_attribute_map', default_igt_attribute_map)
     options.setdefault('tier_map', default_tier_map)
@@ -159,8 +159,7 @@ def toolbox_igts(tb, options):
 
 def make_igt(key, data, context, options):
     # IDs must start with a letter
-    assert key
-    if not key[0].isalpha():
+    if not id_re.match(key):
         key = 'igt{}'.format(key)
     if context is None:
         context = {}
@@ -185,7 +184,7 @@ def make_igt(key, data, context, options):
                 metadata=metadata,
                 tiers=tiers
             )
-        except (toolbox.ToolboxError, XigtImportError) as ex:
+        except (toolbox.ToolboxError, XigtError, ValueError) as ex:
             logging.error('Error during import of item {}:\n  {}'
                           .format(key, str(ex)))
             igt = None
@@ -228,7 +227,7 @@ def make_all_tiers(item_data, options):
         try:
             tier = make_tier(tier_type, tier_id,
                              refattr, aln_tokens, algn_tier)
-        except (AttributeError, AssertionError):
+        except (AttributeError, AssertionError, TypeError):
             raise XigtImportError('Error making {} tier (marker: {}).'
                                   .format(tier_type, mkr))
         prev[tier_id] = tier
-- 
2.43.0


From 9ebf18ba0cfe8762948d1723b8f699533ba09825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:20 +0000
Subject: [PATCH 32/56] fix: path queries for igt consumed a lazily loaded
 corpus

Checking for the igts property loaded everything: a transient corpus
gave no results, and an incremental one was loaded eagerly.
---
 xigt/xigtpath.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 020c73b..96c9aca 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -171,10 +171,12 @@ def _find_child(obj, name):
     if name == '*' and hasattr(obj, '__iter__'):
         results = list(getattr(obj, 'metadata', []))
         results.extend(obj.select(**kwargs))
-    elif (name == 'igt' and hasattr(obj, 'igts') or
-          name == 'tier' and hasattr(obj, 'tiers') or
-          name == 'item' and hasattr(obj, 'items') or
-          name == 'meta' and hasattr(obj, 'metas')):
+    # (look at the class, because getting the property of a lazily loaded
+    # corpus would load all of it)
+    elif (name == 'igt' and hasattr(obj.__class__, 'igts') or
+          name == 'tier' and hasattr(obj.__class__, 'tiers') or
+          name == 'item' and hasattr(obj.__class__, 'items') or
+          name == 'meta' and hasattr(obj.__class__, 'metas')):
         # select should just work on the containers as normal
         results = obj.select(**kwargs)
     elif name == 'metadata' and hasattr(obj, 'metadata'):
-- 
2.43.0


From 6ca185b9f201bfbcf1acd3c19ccc46844de637bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:10 +0000
Subject: [PATCH 33/56] fix: setting a reference to None made refreshing
 indices and writing fail

---
 xigt/mixins.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 945aa46..95849f8 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -329,23 +329,30 @@ class XigtReferenceAttributeMixin(object):
             raise XigtError('Cannot retrieve referrers; unspecified id.')
         return self.igt.referrers(self.id, refattrs=refattrs)
 
+    def _set_reference(self, refattr, value):
+        # as when instantiating, None means there is no reference
+        if value is None:
+            self.attributes.pop(refattr, None)
+        else:
+            self.attributes[refattr] = value
+
     @property
     def alignment(self):
         return self.attributes.get(ALIGNMENT)
     @alignment.setter
     def alignment(self, value):
-        self.attributes[ALIGNMENT] = value
+        self._set_reference(ALIGNMENT, value)
 
     @property
     def content(self):
         return self.attributes.get(CONTENT)
     @content.setter
     def content(self, value):
-        self.attributes[CONTENT] = value
+        self._set_reference(CONTENT, value)
 
     @property
     def segmentation(self):
         return self.attributes.get(SEGMENTATION)
     @segmentation.setter
     def segmentation(self, value):
-        self.attributes[SEGMENTATION] = value
+        self._set_reference(SEGMENTATION, value)
-- 
2.43.0


From 8e328c54071093315b32e928202f307dd12900ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:29 +0000
Subject: [PATCH 34/56] fix: path predicates without a comparison raised
 TypeError

---
 xigt/xigtpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 96c9aca..1b13eea 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -255,7 +255,7 @@ def _make_predicate_test(steps):
         subpath.append(steps.popleft())
     subpath = ''.join(subpath)  # ugly hack so findall() works
     if steps[0] == ']':
-        predtest = lambda obj: any(bool(findall(obj, subpath)))
+        predtest = lambda obj: bool(findall(obj, subpath))
     elif steps[0] in ('=', '!='):
         cmp = steps.popleft()
         val = steps.popleft().strip('"')
-- 
2.43.0


From ec9f24f0a6fb9669803b9f1a9718645c65fdfa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:46 +0000
Subject: [PATCH 35/56] fix: ODIN import replaced invalid characters only in
 lines, leaving others to make the output unreadable

---
 xigt/importers/odin.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index db4c93c..b59938e 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -118,6 +118,8 @@ def odin_igts(in_fh, options):
 
 
 def make_igt(block, options):
+    # invalid characters may occur in any part of the block
+    block = clean_block(block, options['replacement_char'])
     igt_id = block.get('igt_id', None)
 
     attributes = make_igt_attributes(block, options)
@@ -240,6 +242,17 @@ invalid_char_re = re.compile('[^\x09\x0A\x0D\u0020-\uD7FF\uE000-\uFFFD'
                              , re.UNICODE)
 
 
+def clean_block(obj, replacement_char):
+    if isinstance(obj, str):
+        return replace_invalid_xml_chars(obj, replacement_char)
+    elif isinstance(obj, dict):
+        return {k: clean_block(v, replacement_char) for k, v in obj.items()}
+    elif isinstance(obj, list):
+        return [clean_block(v, replacement_char) for v in obj]
+    else:
+        return obj
+
+
 def replace_invalid_xml_chars(input, replacement_char):
     # \uFFFD is the unicode replacement character
     return invalid_char_re.sub(replacement_char, input)
-- 
2.43.0


From 80e3c1061ec2ead2128407fe80ccb81126433eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:46 +0000
Subject: [PATCH 36/56] fix: Toolbox import wrote unreadable output when a
 record had characters XML cannot hold

---
 xigt/importers/toolbox.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index 3f4a65f..1381880 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -104,6 +104,10 @@ default_alignments = {
 default_error_recovery_method = 'ratio'
 
 
+# Characters that cannot occur in XML, even when escaped
+invalid_char_re = re.compile('[^\x09\x0A\x0D\u0020-\uD7FF\uE000-\uFFFD'
+                             '\U00010000-\U0010FFFF]')
+
 # Default morpheme boundaries
 default_bounds = '-=~.'
 
@@ -184,6 +188,7 @@ def make_igt(key, data, context, options):
                 metadata=metadata,
                 tiers=tiers
             )
+            check_chars(igt)
         except (toolbox.ToolboxError, XigtError, ValueError) as ex:
             logging.error('Error during import of item {}:\n  {}'
                           .format(key, str(ex)))
@@ -200,6 +205,17 @@ def make_igt(key, data, context, options):
     return igt
 
 
+def check_chars(igt):
+    texts = [igt.id] + list(igt.attributes.values())
+    texts.extend(item.text for tier in igt for item in tier)
+    for text in texts:
+        match = invalid_char_re.search(text or '')
+        if match:
+            raise XigtImportError(
+                'Character not allowed in XML: {!r}'.format(match.group())
+            )
+
+
 def make_all_tiers(item_data, options):
     tier_map = options['tier_map']
     tier_types = options['tier_types']
-- 
2.43.0


From 7e9e8367287bb2768a0b2815466e04c85451601d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:56 +0000
Subject: [PATCH 37/56] fix: Toolbox import put extra spaces in lines that are
 not aligned

---
 xigt/importers/toolbox.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index 1381880..fa36736 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -127,7 +127,7 @@ def xigt_import(infile, outfile, options=None, encoding='utf-8'):
     options['tb_alignments'] = _make_tb_alignments(options) 
 
     with open(infile, 'rb') as in_fh, open(outfile, 'wb') as out_fh:
-        in_lines = (_respace_decode(line, encoding) for line in in_fh)
+        in_lines = _decode_lines(in_fh, encoding, options['tb_alignments'])
         tb = toolbox.read_toolbox_file(in_lines)
         igts = toolbox_igts(tb, options)
         xc = XigtCorpus(igts=igts, mode='transient')
@@ -357,6 +357,19 @@ def align_word(tier_type, s, src_data):
 
 
 
+def _decode_lines(in_fh, encoding, tb_alignments):
+    # only columns need respacing; other lines would get spurious spaces
+    aligned = set(tb_alignments.keys()).union(tb_alignments.values())
+    respace = False
+    for line in in_fh:
+        if line.startswith(b'\\'):
+            respace = line.split()[0].decode(encoding) in aligned
+        if respace or not line.strip():
+            yield _respace_decode(line, encoding)
+        else:
+            yield line.decode(encoding).rstrip('\n')
+
+
 def _respace_decode(line, encoding):
     toks = []
     line = line.rstrip(b'\n')
-- 
2.43.0


From e42931ea385d6f24b3d32ce6d8cc5fc21993d8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:20 +0000
Subject: [PATCH 38/56] fix: paths misread names containing periods or
 beginning like functions, and argument lists

---
 xigt/xigtpath.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 1b13eea..53c879b 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -40,8 +40,9 @@ xp_tokenizer_re = re.compile(
     r'\(|\)|'  # groups
     r'\||'  # union
     r'!=|=|'  # comparisons
-    r'(?:text|value|referent|referrer)|'
-    r'\*|[^.\/\[\]!=|()]+'  # .., *, igt, tier, item, etc.
+    r'(?:text|value|referent|referrer)(?=\s*\()|'  # functions
+    r',|\s+|'  # argument separators, spaces
+    r'\*|[^.\/\[\]!=|()][^\/\[\]!=|()]*'  # *, igt, tier, item, etc.
 )
 
 def tokenize(path):
@@ -125,7 +126,8 @@ def _step(objs, steps):
             results = objs
         # elif steps and steps[0] == '::':
 
-        elif step in ('text', 'value', 'referent', 'referrer'):
+        elif (step in ('text', 'value', 'referent', 'referrer')
+                and steps and steps[0] == '('):
             steps.popleft()  # (
             args = []
             while steps and steps[0] != ')':
-- 
2.43.0


From 845028645742e2503fa1c4792a9e263aaa578a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:21 +0000
Subject: [PATCH 39/56] fix: paths ignored steps after a leading group, and
 failed on groups applied to nothing

---
 xigt/xigtpath.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 53c879b..9642212 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -71,10 +71,7 @@ def iterfind(obj, path):
         yield result
 
 def _expr(objs, steps):
-    if steps[0] == '(':
-        steps.popleft()
-        results = _disjunction(objs, steps)
-    elif steps[0] in ('/', '//'):
+    if steps[0] in ('/', '//'):
         if steps[0] == '/':
             steps.popleft()
         results = _step([_get_corpus(objs[0])], steps)
@@ -85,10 +82,14 @@ def _expr(objs, steps):
 
 def _disjunction(objs, steps):
     results = []
-    # NOTE: on the first pass, steps is the original deque, so it is
-    #       modified in-place. Afterwards, the copy is reused.
-    orig_steps = deque(steps)
+    # take the whole group from steps, even if there are no objs
+    group = []
+    depth = 1
+    while depth:
+        group.append(steps.popleft())
+        depth += {'(': 1, ')': -1}.get(group[-1], 0)
     for obj in objs:
+        steps = deque(group)
         while True:
             results.extend(r for r in _expr([obj], steps))
             next_ = steps.popleft()
@@ -100,7 +101,6 @@ def _disjunction(objs, steps):
                 raise XigtPathError(
                     'expected "|" or ")": {}'.format(''.join(steps))
                 )
-        steps = deque(orig_steps)
     # don't yield here; lazy eval screws up the steps deque
     return results
 
-- 
2.43.0


From ce92a8f4f12f923698e92c4ff441606b7d6ca170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:21 +0000
Subject: [PATCH 40/56] fix: namespace prefixes in paths were ignored below //
 and gave None for @prefix:*

---
 xigt/xigtpath.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 9642212..fcde350 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -187,8 +187,9 @@ def _find_child(obj, name):
         # namespace, so maybe this is unnecessary?)
         results = iter(obj.metadata)
         if 'namespace' in kwargs:
+            uri = obj.nsmap.get(namespace, namespace)
             results = filter(
-                lambda x: getattr(x, 'namespace', None) == namespace,
+                lambda x: getattr(x, 'namespace', None) == uri,
                 results
             )
     elif isinstance(obj, (Meta, MetaChild)):
@@ -210,22 +211,27 @@ def _find_attr(obj, attr):
         if ':' in attr:
             namespace, attr = attr.split(':', 1)
         if attr == '*':
-            vals.extend(obj.get_attribute(attrkey, namespace=namespace)
-                        for attrkey in obj.attributes)
+            start = ''
+            if namespace is not None:
+                start = '{%s}' % obj.nsmap.get(namespace, namespace)
+            vals.extend(val for key, val in obj.attributes.items()
+                        if key.startswith(start))
         else:
             vals.append(obj.get_attribute(attr, namespace=namespace))
     for val in vals:
         yield val
 
 def _find_descendant_or_self(obj, name):
-    namespace = None
+    namespace, localname = None, name
     if ':' in name:
-        namespace, name = name.split(':', 1)
+        namespace, localname = name.split(':', 1)
+        namespace = obj.nsmap.get(namespace, namespace)
     if isinstance(obj, MetaChild):
         objname = obj.name
     else:
         objname = obj.__class__.__name__.lower()
-    if (namespace is None or obj.namespace == namespace) and objname == name:
+    if ((namespace is None or obj.namespace == namespace)
+            and localname in (objname, '*')):
         yield obj
     for child in _find_child(obj, '*'):
         for desc in _find_descendant_or_self(child, name):
-- 
2.43.0


From e654dd69623c906dde8a2de172e15108fc2b6257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:21 +0000
Subject: [PATCH 41/56] fix: path predicates did not unescape quotes in quoted
 strings

---
 xigt/xigtpath.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index fcde350..fe035ed 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -266,7 +266,9 @@ def _make_predicate_test(steps):
         predtest = lambda obj: bool(findall(obj, subpath))
     elif steps[0] in ('=', '!='):
         cmp = steps.popleft()
-        val = steps.popleft().strip('"')
+        val = steps.popleft()
+        if val.startswith('"'):
+            val = val[1:-1].replace('\\"', '"')
         if cmp == '=':
             predtest = lambda obj: any(v==val for v in findall(obj, subpath))
         elif cmp == '!=':
-- 
2.43.0


From f5dcaefcc216c57838aa975114e7deecb2536c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:18 +0000
Subject: [PATCH 42/56] fix: absent attributes were matches in paths, so
 predicates like [@alignment] held for everything

---
 xigt/xigtpath.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index fe035ed..280d48b 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -217,7 +217,9 @@ def _find_attr(obj, attr):
             vals.extend(val for key, val in obj.attributes.items()
                         if key.startswith(start))
         else:
-            vals.append(obj.get_attribute(attr, namespace=namespace))
+            val = obj.get_attribute(attr, namespace=namespace)
+            if val is not None:
+                vals.append(val)
     for val in vals:
         yield val
 
@@ -263,7 +265,7 @@ def _make_predicate_test(steps):
         subpath.append(steps.popleft())
     subpath = ''.join(subpath)  # ugly hack so findall() works
     if steps[0] == ']':
-        predtest = lambda obj: bool(findall(obj, subpath))
+        predtest = lambda obj: any(v is not None for v in findall(obj, subpath))
     elif steps[0] in ('=', '!='):
         cmp = steps.popleft()
         val = steps.popleft()
-- 
2.43.0


From d38dcd8993c1bc027570a947818dbbe0b09bef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:19 +0000
Subject: [PATCH 43/56] fix: paths did not find id, type and name attributes
 that are not members of the model

---
 xigt/xigtpath.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 280d48b..06f6fc1 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -204,6 +204,9 @@ def _find_attr(obj, attr):
     # pseudo-attributes (members in the model, attrs in the xml and path)
     if attr in ('type', 'id', 'name'):
         val = getattr(obj, attr, None)
+        if val is None:
+            # arbitrary XML has these as attributes like any other
+            val = getattr(obj, 'attributes', {}).get(attr)
         if val is not None:
             vals.append(val)
     else:
-- 
2.43.0


From 52758cc52bbb6a302131b2946bc9e63349fd8b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:17 +0000
Subject: [PATCH 44/56] fix: query tallies and distinct counts failed when
 matches were objects

---
 xigt/scripts/xigt_query.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/xigt/scripts/xigt_query.py b/xigt/scripts/xigt_query.py
index 5bde2ca..b43e0f6 100755
--- a/xigt/scripts/xigt_query.py
+++ b/xigt/scripts/xigt_query.py
@@ -120,19 +120,27 @@ def find_pattern(xc, agendum):
         print(' ', describe(agendum, match))
 
 
+def identity(match):
+    # objects (e.g., tiers) are not hashable, and are distinct if not the same
+    return match if isinstance(match, str) or match is None else id(match)
+
+
 def tally_pattern(xc, agendum):
     counts = Counter()
+    groups = {}
     for match in xp.findall(xc, agendum['query']):
         group = CSTuple(xp.findall(match, agendum['subquery']))
-        counts[group] += 1
+        key = tuple(map(identity, group))
+        groups.setdefault(key, group)
+        counts[key] += 1
     return [
-        (count, describe(agendum, match))
-        for match, count in counts.most_common()
+        (count, describe(agendum, groups[key]))
+        for key, count in counts.most_common()
     ]
 
 
 def unique_pattern(xc, agendum):
-    counts = Counter(xp.findall(xc, agendum['query']))
+    counts = Counter(map(identity, xp.findall(xc, agendum['query'])))
     return (len(counts), describe(agendum, ''))
 
 
-- 
2.43.0


From 70f037d7ce010875d227f3246cda7c6c24d60230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:47 +0000
Subject: [PATCH 45/56] fix: sort ended its output with a newline in the
 locale's encoding, unreadable if not ASCII-based

---
 xigt/scripts/xigt_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/scripts/xigt_sort.py b/xigt/scripts/xigt_sort.py
index c2e5684..e338687 100644
--- a/xigt/scripts/xigt_sort.py
+++ b/xigt/scripts/xigt_sort.py
@@ -36,7 +36,7 @@ def run(args):
     elif hasattr(sys.stdout, 'buffer'):
         # the locale's encoding would have to be declared
         xigtxml.dump(sys.stdout, xc)
-        print()
+        sys.stdout.buffer.write(b'\n')
     else:
         print(xigtxml.dumps(xc))
 
-- 
2.43.0


From 419191357ef1671dd88448bacaf7a7ba83a643b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:04 +0000
Subject: [PATCH 46/56] fix: XigtJSON wrote namespaces in the order of string
 hashes

---
 xigt/codecs/xigtjson.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 28226e6..6464abd 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -200,7 +200,8 @@ def _make_obj(x, nscontext=None):
     active_nsmap = dict(nscontext)
     active_nsmap.update(x.nsmap)
     inv_nsmap = _invert_nsmap(active_nsmap)
-    nsmap = dict(set(active_nsmap.items()).difference(nscontext.items()))
+    nsmap = dict(ns for ns in active_nsmap.items()
+                 if ns not in nscontext.items())
     obj = {}
     if x.id: obj['id'] = x.id
     if x.type is not None: obj['type'] = x.type
-- 
2.43.0


From 9a69e49c245145e2d55ded9c6dfeaec3655f5c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:04 +0000
Subject: [PATCH 47/56] fix: inherited attributes with a namespace were not
 found

---
 xigt/mixins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 95849f8..516f000 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -249,7 +249,9 @@ class XigtAttributeMixin(object):
                 'Attribute key must be of type str, not '
                 + key.__class__.__name__
             )
-        if not key.startswith('{') and ':' in key:
+        if key.startswith('{'):
+            pass  # already expanded, as when inheriting
+        elif ':' in key:
             prefix, suffix = key.split(':', 1)
             key = '{%s}%s' % (self.nsmap[prefix], suffix)
         elif namespace in self.nsmap:
-- 
2.43.0


From 1392c46c0d5491110362f019123f11570fdefed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:04 +0000
Subject: [PATCH 48/56] fix: selecting metadata by namespace raised
 AttributeError

---
 xigt/mixins.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 516f000..8c446bb 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -106,8 +106,11 @@ class XigtContainerMixin(list):
 
     def select(self, **kwargs):
         # handle namespace separately so we can lookup the nsmap
-        if 'namespace' in kwargs and kwargs['namespace'] in self.nsmap:
-            kwargs['namespace'] = self.nsmap[kwargs['namespace']]
+        if 'namespace' in kwargs:
+            # (metadata collections get the nsmap of what they are part of)
+            nsmap = self._container.nsmap
+            if kwargs['namespace'] in nsmap:
+                kwargs['namespace'] = nsmap[kwargs['namespace']]
         def match(x):
             return all(getattr(x, k, None) == v for k, v in kwargs.items())
         return filter(match, self)
-- 
2.43.0


From c9f7ec70d932c10db15d3e190da6ff77f1198f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:42 +0000
Subject: [PATCH 49/56] fix: LaTeX export of backslashes, tildes, carets and
 empty tokens did not print them

\textbackslash and the like took following letters as part of the command
and swallowed following spaces; the braces for empty tokens were escaped.
---
 xigt/exporters/latex.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 0dacbb8..cae09eb 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -14,9 +14,8 @@ from xigt.errors import XigtError, XigtStructureError
 from xigt.exporters.util import sub
 
 DEFAULT_TIER_TYPES = ('words', 'morphemes', 'glosses')
-# order matters here
 LATEX_CHARMAP = [
-    ('\\', '\\textbackslash'),
+    ('\\', '\\textbackslash{}'),
     ('&', '\\&'),
     ('%', '\\%'),
     ('$', '\\$'),
@@ -24,8 +23,8 @@ LATEX_CHARMAP = [
     ('_', '\\_'),
     ('{', '\\{'),
     ('}', '\\}'),
-    ('~', '\\textasciitilde'),
-    ('^', '\\textasciicircum'),
+    ('~', '\\textasciitilde{}'),
+    ('^', '\\textasciicircum{}'),
 ]
 
 header = '''
@@ -55,14 +54,9 @@ def prepare_config(config):
     return config
 
 def escape(s):
-    # consider a re sub with a function. e.g.
-    # _character_unescapes = {'\\s': _field_delimiter, '\\n': '\n', '\\\\': '\\'}
-    # _unescape_func = lambda m: _character_unescapes[m.group(0)]
-    # _unescape_re = re.compile(r'(\\s|\\n|\\\\)')
-    # _unescape_re.sub(_unescape_func, string, re.UNICODE)
-    for c, r in LATEX_CHARMAP:
-        s = s.replace(c, r)
-    return s
+    # in one pass, so what replaces a character is not itself escaped
+    charmap = dict(LATEX_CHARMAP)
+    return ''.join(charmap.get(c, c) for c in s)
 
 def export_corpus(xc, config):
     for igt in xc:
@@ -111,7 +105,7 @@ def export_igt(igt, config):
             items = col[i]
             toks.append('{{{}}}'.format(
                 ' '.join(
-                    sub(escape(get_value(item) or '{}'),
+                    sub(escape(get_value(item) or '') or '{}',
                         tier_type,
                         item_subs)
                     for item in items
@@ -122,7 +116,7 @@ def export_igt(igt, config):
     for tier in igt.tiers:
         if tier.type == 'translations' and len(tier) > 0:
             lines.append('\\trans {}'.format(
-                sub(escape(get_value(tier[0]) or '{}'),
+                sub(escape(get_value(tier[0]) or '') or '{}',
                     tier.type,
                     tier_subs)
             ))
-- 
2.43.0


From dcdf7cfdcfa33d8faef0621fbf1a7eede6d659db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:03 +0000
Subject: [PATCH 50/56] fix: containers could be neither equal nor unequal

---
 xigt/mixins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 8c446bb..59e19ea 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -48,6 +48,10 @@ class XigtContainerMixin(list):
         except AttributeError:
             return False
 
+    def __ne__(self, other):
+        # list.__ne__() only compares the contained objects
+        return not self == other
+
     def __getitem__(self, obj_id):
         if isinstance(obj_id, (int, slice)):
             return list.__getitem__(self, obj_id)
-- 
2.43.0


From 51e4a07240d5e1ebca38856407d8a57f74cd0d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:46 +0000
Subject: [PATCH 51/56] fix: corpora not yet loaded were equal to corpora with
 other contents

---
 xigt/mixins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 59e19ea..f5d5d7f 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -1,4 +1,5 @@
 
+from itertools import zip_longest
 from operator import index
 import warnings
 
@@ -42,8 +43,8 @@ class XigtContainerMixin(list):
             return (
                 # quick check for comparing, e.g., XigtCorpus and Igt
                 self._contained_type == other._contained_type
-                and len(self) == len(other)
-                and all(a == b for a, b in zip(self, other))
+                # lazily loaded corpora don't have a length yet
+                and all(a == b for a, b in zip_longest(self, other))
             )
         except AttributeError:
             return False
-- 
2.43.0


From 383a4989e2dd93141915c13bf0070959eea5cbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:41 +0000
Subject: [PATCH 52/56] fix: items and metas could equal metadata of other
 kinds

---
 xigt/metadata.py | 3 ++-
 xigt/model.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/xigt/metadata.py b/xigt/metadata.py
index c82e6b8..791dcf2 100644
--- a/xigt/metadata.py
+++ b/xigt/metadata.py
@@ -147,7 +147,8 @@ class Meta(XigtContainerMixin, XigtAttributeMixin):
     def __eq__(self, other):
         try:
             return (
-                self.text == other.text
+                isinstance(other, Meta)
+                and self.text == other.text
                 and XigtContainerMixin.__eq__(self, other)
                 and XigtAttributeMixin.__eq__(self, other)
             )
diff --git a/xigt/model.py b/xigt/model.py
index 1b9d7bd..2992d6f 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -381,7 +381,8 @@ class Item(XigtAttributeMixin, XigtReferenceAttributeMixin):
     def __eq__(self, other):
         try:
             return (
-                self.text == other.text
+                isinstance(other, Item)
+                and self.text == other.text
                 and XigtAttributeMixin.__eq__(self, other)
             )
         except AttributeError:
-- 
2.43.0


From d56e0ac200e724216e8468501ac61e323192239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:50 +0000
Subject: [PATCH 53/56] fix: xigt validate did not see overlapping spans

---
 xigt/scripts/xigt_validate.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 26880ea..777ebac 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -302,18 +302,21 @@ def algnexpr_spans_do_not_overlap(item, refattr):
     for span in spans(itemref):
         if span in alignment_expression_delimiters:
             continue  # schema validator should catch bad algnexprs like '+w3'
-        if isinstance(span, str):
-            tgt_item = reftier.get(span)
-            if tgt_item is None:
-                continue  # this should be caught by algnexpr_ids_in_referred_tier
-            val = get_value(tgt_item)
-            if val is None:
-                continue  # does this need to be handled?
-            item_len = len(val)
-            spans_by_id[span].update(range(0, item_len))
-        else:
-            item_id, start, end = span
-            spans_by_id[item_id].update(range(start, end))
+        selection = selection_re.match(span)
+        if selection is None:
+            continue  # some other delimiter
+        sel_delim, item_id, _range = selection.groups()
+        tgt_item = reftier.get(item_id)
+        if tgt_item is None:
+            continue  # this should be caught by algnexpr_ids_in_referred_tier
+        val = get_value(tgt_item)
+        if val is None:
+            continue  # does this need to be handled?
+        span_slice = slice(None)
+        if _range:
+            _, start, end = span_re.match(_range).groups()
+            span_slice = slice(int(start), int(end))
+        spans_by_id[item_id].update(range(*span_slice.indices(len(val))))
     error_spans = [
         item_id for item_id, count in spans_by_id.items()
         if any(count[c] > 1 for c in count)
-- 
2.43.0


From 892756f92f7ccea843a5d164082533275adfc4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:40 +0000
Subject: [PATCH 54/56] fix: ns:* in XigtPaths found metadata of any namespace

---
 xigt/xigtpath.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 06f6fc1..f5d4cc5 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -169,9 +169,21 @@ def _find_child(obj, name):
     if ':' in name:
         namespace, name = name.split(':', 1)
         kwargs['namespace'] = namespace
+    # metadata are not among the contained objects, so we need to filter
+    # them by namespace ourselves (but we don't really expect <metadata>
+    # elements to have a namespace, so maybe this is unnecessary?)
+    def metadata():
+        results = iter(getattr(obj, 'metadata', []))
+        if 'namespace' in kwargs:
+            uri = obj.nsmap.get(namespace, namespace)
+            results = filter(
+                lambda x: getattr(x, 'namespace', None) == uri,
+                results
+            )
+        return results
     # simple case
     if name == '*' and hasattr(obj, '__iter__'):
-        results = list(getattr(obj, 'metadata', []))
+        results = list(metadata())
         results.extend(obj.select(**kwargs))
     # (look at the class, because getting the property of a lazily loaded
     # corpus would load all of it)
@@ -182,16 +194,7 @@ def _find_child(obj, name):
         # select should just work on the containers as normal
         results = obj.select(**kwargs)
     elif name == 'metadata' and hasattr(obj, 'metadata'):
-        # for metadata we need to filter by namespace ourselves (but
-        # we don't really expect for <metadata> elements to have a
-        # namespace, so maybe this is unnecessary?)
-        results = iter(obj.metadata)
-        if 'namespace' in kwargs:
-            uri = obj.nsmap.get(namespace, namespace)
-            results = filter(
-                lambda x: getattr(x, 'namespace', None) == uri,
-                results
-            )
+        results = metadata()
     elif isinstance(obj, (Meta, MetaChild)):
         # for MetaChild objects, we need to give the name as well
         kwargs['name'] = name
-- 
2.43.0


From f30dd4bbba456e17b32bb0a9b32bd3fb94c8011c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:07 +0000
Subject: [PATCH 55/56] fix: toolbox import selected wrong segments of words

---
 xigt/importers/toolbox.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index fa36736..d73a246 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -315,7 +315,9 @@ def align_word(tier_type, s, src_data):
     beg = 0
     end = 0
     tgt_tok, src_toks = src_data
-    tgt_tok = tgt_tok.lower()  # This may cause problems with diacriticals!
+    tgt_tok = _lower(tgt_tok)
+    src_toks = [_lower(tok) for tok in src_toks]
+    word_end = len(tgt_tok)
     if tier_type == 'words':
         for i in range(s):
             beg += len(src_toks[i])
@@ -323,7 +325,7 @@ def align_word(tier_type, s, src_data):
         end = beg + len(src_toks[s])
     elif tier_type == 'morphemes':
         if len(src_toks) == 1:  # when there is only one morpheme, assume it is correct
-            return 0, len(src_toks[s]), 0
+            return 0, min(len(src_toks[s]), word_end), 0
         else:  # attempt some common morpheme separations
             def_val = -1  # default is NO MATCH FOUND
             if s == 0:  # this is the FIRST token in line
@@ -342,7 +344,7 @@ def align_word(tier_type, s, src_data):
                         try_tgt = try_tgt[len(m1.group()):]  # truncate the hyphen
                     if tgt_tok.startswith(prev_toks + src_toks[j].strip(default_bounds)):
                         prev_toks += src_toks[j].strip(default_bounds)  # add the previous morphemes to amalgam
-                        try_tgt = try_tgt[len(prev_toks):]
+                        try_tgt = tgt_tok[len(prev_toks):]
                     else:  # when we encounter a non-matching morpheme, assume the rest of the word
                         return len(prev_toks), len(tgt_tok), -1
                 if tgt_tok.startswith(prev_toks):  # when previous morphemes match LHS of word
@@ -352,10 +354,15 @@ def align_word(tier_type, s, src_data):
                     if tgt_tok.startswith(new_tok):  # left hand side of tgt_tok is the same as new_tok
                         return len(prev_toks), len(new_tok) + len(prev_toks),0  # end of segment = length of current tok
                 def_val = len(prev_toks)  # when no match is found, assume the rest of the word is the token
-            return def_val, len(tgt_tok), -1
+            return def_val, word_end, -1
     return beg, end, 0
 
 
+def _lower(tok):
+    # segments are offsets, so the length must stay the same
+    low = tok.lower()
+    return low if len(low) == len(tok) else tok
+
 
 def _decode_lines(in_fh, encoding, tb_alignments):
     # only columns need respacing; other lines would get spurious spaces
-- 
2.43.0


From 8afaf9546ad8e641307546a1a9717937daec93fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:23 +0000
Subject: [PATCH 56/56] fix: LaTeX export aborted on an IGT with cyclic
 references, its debug messages resolved the values of items

---
 xigt/exporters/latex.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index cae09eb..5562263 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -185,7 +185,7 @@ def align_tier(trellis, tier, depth):
         #trellis[idx][depth]
         trellis[idx][depth].extend(items)
         logging.debug('Added items at idx {} depth {}: {}'
-                      .format(idx, depth, items))
+                      .format(idx, depth, [i.id for i in items]))
     # if the agenda was shorter than the prev tier, fill in empty values
     idx += 1
     while idx < len(trellis):
@@ -196,7 +196,7 @@ def align_tier(trellis, tier, depth):
     trellis, _ = add_delayed(trellis, delay, len(trellis), depth)
     logging.debug('Agenda done.')
     for col in trellis:
-        logging.debug('Col {}'.format(col))
+        logging.debug('Col {}'.format([[i.id for i in r] for r in col]))
     return trellis
 
 def get_agenda(tier):
@@ -220,7 +220,7 @@ def add_delayed(trellis, delay, pos, depth):
         col.append(delayed_items)
         trellis.insert(pos + num, col)
         logging.debug('Added delayed items at {}: {}'
-                      .format(pos, delayed_items))
+                      .format(pos, [i.id for i in delayed_items]))
         num += 1
     return trellis, num
 
-- 
2.43.0

