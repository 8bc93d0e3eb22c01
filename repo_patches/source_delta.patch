From 975e056ebd30edc948c76569fc0e1a4f1c9d828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:00 +0000
Subject: [PATCH 01/32] fix: restore filter, output and buffering when a region
 is left early

An exception, #break, #continue or #stop inside #filter, #call, #capture or
#cache left the region's filter or output collector in force, so the output
of a surrounding #try, and of later fills, was filtered wrongly or lost.
#cache did not buffer method calls when a transaction was attached.
---
 Cheetah/Compiler.py | 81 +++++++++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 40 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 61c7468..c7406b0 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -761,6 +761,32 @@ class MethodCompiler(GenUtils):
         return ('_' + str(random.randrange(100, 999))
                 + str(random.randrange(10000, 99999)))
 
+    def _startCollecting(self, ID, collector):
+        """Redirect the output of the code up to _endCollecting(ID).
+        """
+        self.addChunk('_orig_trans%(ID)s = trans' % locals())
+        self.addChunk('_wasBuffering%(ID)s = self._CHEETAH__isBuffering'
+                      % locals())
+        # The region may be left by an exception, #break, #continue or #stop
+        self.addChunk('try:')
+        self.indent()
+        self.addChunk('self._CHEETAH__isBuffering = True')
+        self.addChunk('trans = %(collector)s = DummyTransaction()' % locals())
+        self.addChunk('write = %(collector)s.response().write' % locals())
+
+    def _endCollecting(self, ID):
+        self.commitStrConst()
+        self.dedent()
+        self.addChunk('finally:')
+        self.indent()
+        self.addChunk('self._CHEETAH__isBuffering = _wasBuffering%(ID)s'
+                      % locals())
+        self.addChunk('trans = _orig_trans%(ID)s' % locals())
+        self.addChunk('write = trans.response().write')
+        self.addChunk('del _wasBuffering%(ID)s' % locals())
+        self.addChunk('del _orig_trans%(ID)s' % locals())
+        self.dedent()
+
     def startCacheRegion(self, cacheInfo, lineCol, rawPlaceholder=None):
 
         # @@TR: we should add some runtime logging to this
@@ -830,20 +856,15 @@ class MethodCompiler(GenUtils):
             'if _RECACHE_%(ID)s or not _cacheItem_%(ID)s.getRefreshTime():'
             % locals())
         self.indent()
-        self.addChunk('_orig_trans%(ID)s = trans' % locals())
-        self.addChunk('trans = _cacheCollector_%(ID)s = DummyTransaction()'
-                      % locals())
-        self.addChunk('write = _cacheCollector_%(ID)s.response().write'
-                      % locals())
         if interval:
             self.addChunk(("_cacheItem_%(ID)s.setExpiryTime(currentTime() +"
                           % locals())
                           + str(interval) + ")")
+        self._startCollecting(ID, '_cacheCollector_%(ID)s' % locals())
 
     def endCacheRegion(self):
         ID = self._cacheRegionsStack.pop()
-        self.addChunk('trans = _orig_trans%(ID)s' % locals())
-        self.addChunk('write = trans.response().write')
+        self._endCollecting(ID)
         self.addChunk(
             '_cacheData = _cacheCollector_%(ID)s.response().getvalue()'
             % locals())
@@ -851,7 +872,6 @@ class MethodCompiler(GenUtils):
         self.addWriteChunk('_cacheData')
         self.addChunk('del _cacheData')
         self.addChunk('del _cacheCollector_%(ID)s' % locals())
-        self.addChunk('del _orig_trans%(ID)s' % locals())
         self.dedent()
         self.addChunk('## END CACHE REGION: ' + ID)
         self.addChunk('')
@@ -874,14 +894,7 @@ class MethodCompiler(GenUtils):
         self.addChunk('## START %(regionTitle)s REGION: ' % locals() + ID
                       + ' of ' + functionName
                       + ' at line %s, col %s' % lineCol + ' in the source.')
-        self.addChunk('_orig_trans%(ID)s = trans' % locals())
-        self.addChunk('_wasBuffering%(ID)s = self._CHEETAH__isBuffering'
-                      % locals())
-        self.addChunk('self._CHEETAH__isBuffering = True')
-        self.addChunk('trans = _callCollector%(ID)s = DummyTransaction()'
-                      % locals())
-        self.addChunk('write = _callCollector%(ID)s.response().write'
-                      % locals())
+        self._startCollecting(ID, '_callCollector%(ID)s' % locals())
 
     def setCallArg(self, argName, lineCol):
         ID, callDetails = self._callRegionsStack[-1]
@@ -911,16 +924,8 @@ class MethodCompiler(GenUtils):
         functionName, initialKwArgs, lineCol = (
             callDetails.functionName, callDetails.args, callDetails.lineCol)
 
-        def reset(ID=ID):
-            self.addChunk('trans = _orig_trans%(ID)s' % locals())
-            self.addChunk('write = trans.response().write')
-            self.addChunk('self._CHEETAH__isBuffering = _wasBuffering%(ID)s '
-                          % locals())
-            self.addChunk('del _wasBuffering%(ID)s' % locals())
-            self.addChunk('del _orig_trans%(ID)s' % locals())
-
         if not callDetails.usesKeywordArgs:
-            reset()
+            self._endCollecting(ID)
             self.addChunk(
                 '_callArgVal%(ID)s = '
                 '_callCollector%(ID)s.response().getvalue()' % locals())
@@ -935,7 +940,7 @@ class MethodCompiler(GenUtils):
             if initialKwArgs:
                 initialKwArgs = initialKwArgs + ', '
             self._endCallArg()
-            reset()
+            self._endCollecting(ID)
             self.addFilteredChunk(
                 '%(functionName)s(%(initialKwArgs)s**_callKws%(ID)s)'
                 % locals())
@@ -961,28 +966,16 @@ class MethodCompiler(GenUtils):
         self._captureRegionsStack.append((ID, captureDetails))
         self.addChunk('## START CAPTURE REGION: ' + ID + ' ' + assignTo
                       + ' at line %s, col %s' % lineCol + ' in the source.')
-        self.addChunk('_orig_trans%(ID)s = trans' % locals())
-        self.addChunk(
-            '_wasBuffering%(ID)s = self._CHEETAH__isBuffering' % locals())
-        self.addChunk('self._CHEETAH__isBuffering = True')
-        self.addChunk(
-            'trans = _captureCollector%(ID)s = DummyTransaction()' % locals())
-        self.addChunk(
-            'write = _captureCollector%(ID)s.response().write' % locals())
+        self._startCollecting(ID, '_captureCollector%(ID)s' % locals())
 
     def endCaptureRegion(self):
         ID, captureDetails = self._captureRegionsStack.pop()
         assignTo, lineCol = (captureDetails.assignTo, captureDetails.lineCol)
-        self.addChunk('trans = _orig_trans%(ID)s' % locals())
-        self.addChunk('write = trans.response().write')
-        self.addChunk(
-            'self._CHEETAH__isBuffering = _wasBuffering%(ID)s ' % locals())
+        self._endCollecting(ID)
         self.addChunk(
             '%(assignTo)s = _captureCollector%(ID)s.response().getvalue()'
             % locals())
-        self.addChunk('del _orig_trans%(ID)s' % locals())
         self.addChunk('del _captureCollector%(ID)s' % locals())
-        self.addChunk('del _wasBuffering%(ID)s' % locals())
 
     def setErrorCatcher(self, errorCatcherName):
         self.turnErrorCatcherOn()
@@ -1023,6 +1016,9 @@ class MethodCompiler(GenUtils):
         self._filterRegionsStack.append((ID, filterDetails))
 
         self.addChunk('_orig_filter%(ID)s = _filter' % locals())
+        # The region may be left by an exception, #break, #continue or #stop
+        self.addChunk('try:')
+        self.indent()
         if isKlass:
             self.addChunk(
                 '_filter = self._CHEETAH__currentFilter = '
@@ -1053,9 +1049,14 @@ class MethodCompiler(GenUtils):
         ID, filterDetails = self._filterRegionsStack.pop()
         # self.addChunk('_filter = self._CHEETAH__initialFilter')
         # self.addChunk('_filter = _orig_filter%(ID)s'%locals())
+        self.commitStrConst()
+        self.dedent()
+        self.addChunk('finally:')
+        self.indent()
         self.addChunk(
             '_filter = self._CHEETAH__currentFilter = _orig_filter%(ID)s'
             % locals())
+        self.dedent()
 
 
 class AutoMethodCompiler(MethodCompiler):
-- 
2.43.0


From 54ebca83c95c860ec1fef9b8568e874f85a0e94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:00 +0000
Subject: [PATCH 02/32] fix: #stop inside #call, #capture or #cache returns the
 output so far

---
 Cheetah/Compiler.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index c7406b0..400ea3a 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -352,6 +352,7 @@ class MethodCompiler(GenUtils):
         self._callRegionsStack = []
         self._captureRegionsStack = []
         self._filterRegionsStack = []
+        self._collectingRegions = []
 
         self._isErrorCatcherOn = False
 
@@ -764,6 +765,7 @@ class MethodCompiler(GenUtils):
     def _startCollecting(self, ID, collector):
         """Redirect the output of the code up to _endCollecting(ID).
         """
+        self._collectingRegions.append(ID)
         self.addChunk('_orig_trans%(ID)s = trans' % locals())
         self.addChunk('_wasBuffering%(ID)s = self._CHEETAH__isBuffering'
                       % locals())
@@ -775,6 +777,7 @@ class MethodCompiler(GenUtils):
         self.addChunk('write = %(collector)s.response().write' % locals())
 
     def _endCollecting(self, ID):
+        self._collectingRegions.pop()
         self.commitStrConst()
         self.dedent()
         self.addChunk('finally:')
@@ -1180,8 +1183,12 @@ class AutoMethodCompiler(MethodCompiler):
         self.addChunk('')
 
     def addStop(self, expr=None):
+        trans = 'trans'
+        if self._collectingRegions:
+            # the output so far is not in the innermost collector
+            trans = '_orig_trans' + self._collectingRegions[0]
         self.addChunk(
-            'return _dummyTrans and trans.response().getvalue() or ""')
+            'return _dummyTrans and ' + trans + '.response().getvalue() or ""')
 
     def addMethArg(self, name, defVal=None):
         self._argStringList.append((name, defVal))
-- 
2.43.0


From 131258a101546dafc32b85365ae6d76ba60dc9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:09 +0000
Subject: [PATCH 03/32] fix: #include keeps raw, source and file includes of
 one name apart

---
 Cheetah/Template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index e7d06a4..070715c 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1665,7 +1665,7 @@ class Template(Servlet):
                               includeFrom='file', raw=False):
         """Called at runtime to handle #include directives.
         """
-        _includeID = srcArg
+        _includeID = (srcArg, includeFrom, raw)
         if _includeID not in self._CHEETAH__cheetahIncludes:
             if not raw:
                 if includeFrom == 'file':
-- 
2.43.0


From 0ca90558a5df31080eda2a9fbb69e3aa3c991d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:09 +0000
Subject: [PATCH 04/32] fix: #cache varyBy accepts non-ASCII keys

---
 Cheetah/CacheRegion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/CacheRegion.py b/Cheetah/CacheRegion.py
index 153aec9..84f33d0 100644
--- a/Cheetah/CacheRegion.py
+++ b/Cheetah/CacheRegion.py
@@ -129,7 +129,7 @@ class CacheRegion(object):
 
             Returns a `CacheItem` instance.
         """
-        cacheItemID = md5(str(cacheItemID).encode('ascii')).hexdigest()
+        cacheItemID = md5(str(cacheItemID).encode('utf-8')).hexdigest()
 
         if cacheItemID not in self._cacheItems:
             cacheItem = self._cacheItemClass(
-- 
2.43.0


From d7aa944d77f5e48b474bdaf36b9e784beb636b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:09 +0000
Subject: [PATCH 05/32] fix: refreshCache() of an item the cache store does not
 hold

---
 Cheetah/CacheRegion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Cheetah/CacheRegion.py b/Cheetah/CacheRegion.py
index 84f33d0..14d170a 100644
--- a/Cheetah/CacheRegion.py
+++ b/Cheetah/CacheRegion.py
@@ -68,8 +68,11 @@ class CacheItem(object):
         return self.getData() or ""
 
     def clear(self):
-        self._cacheStore.delete(self._cacheItemID)
         self._refreshTime = None
+        try:
+            self._cacheStore.delete(self._cacheItemID)
+        except KeyError:
+            pass  # never stored, or already dropped by the store
 
 
 class _CacheDataStoreWrapper(object):
-- 
2.43.0


From 8ff6e1a03e4e640cfdd87da5c470c714aa7a1579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:38 +0000
Subject: [PATCH 06/32] fix: MemoryCacheStore.replace() needs an existing key,
 expired keys are absent

---
 Cheetah/CacheStore.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/Cheetah/CacheStore.py b/Cheetah/CacheStore.py
index 00b77ec..12cf902 100644
--- a/Cheetah/CacheStore.py
+++ b/Cheetah/CacheStore.py
@@ -47,25 +47,33 @@ class MemoryCacheStore(AbstractCacheStore):
         self._data[key] = (val, time)
 
     def add(self, key, val, time=0):
-        if key in self._data:
+        if self._isLive(key):
             raise Error('a value for key %r is already in the cache' % key)
         self._data[key] = (val, time)
 
     def replace(self, key, val, time=0):
-        if key in self._data:
-            raise Error('a value for key %r is already in the cache' % key)
+        if not self._isLive(key):
+            raise Error('no value for key %r is in the cache' % key)
         self._data[key] = (val, time)
 
     def delete(self, key):
+        if not self._isLive(key):
+            raise KeyError(key)
         del self._data[key]
 
     def get(self, key):
-        (val, exptime) = self._data[key]
+        if not self._isLive(key):
+            raise KeyError(key)
+        return self._data[key][0]
+
+    def _isLive(self, key):
+        if key not in self._data:
+            return False
+        exptime = self._data[key][1]
         if exptime and time.time() > exptime:
             del self._data[key]
-            raise KeyError(key)
-        else:
-            return val
+            return False
+        return True
 
     def clear(self):
         self._data.clear()
-- 
2.43.0


From 1590bf128c9a23ee6da4c504f10c91598c6fde07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:38 +0000
Subject: [PATCH 07/32] fix: MemcachedCacheStore.add(), replace() and the
 default server list

---
 Cheetah/CacheStore.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Cheetah/CacheStore.py b/Cheetah/CacheStore.py
index 12cf902..a5e0264 100644
--- a/Cheetah/CacheStore.py
+++ b/Cheetah/CacheStore.py
@@ -80,7 +80,7 @@ class MemoryCacheStore(AbstractCacheStore):
 
 
 class MemcachedCacheStore(AbstractCacheStore):
-    servers = ('127.0.0.1:11211')
+    servers = ('127.0.0.1:11211',)
 
     def __init__(self, servers=None, debug=False):
         if servers is None:
@@ -95,13 +95,11 @@ class MemcachedCacheStore(AbstractCacheStore):
         res = self._client.add(key, val, time)
         if not res:
             raise Error('a value for key %r is already in the cache' % key)
-        self._data[key] = (val, time)
 
     def replace(self, key, val, time=0):
         res = self._client.replace(key, val, time)
         if not res:
-            raise Error('a value for key %r is already in the cache' % key)
-        self._data[key] = (val, time)
+            raise Error('no value for key %r is in the cache' % key)
 
     def delete(self, key):
         res = self._client.delete(key, time=0)
-- 
2.43.0


From 91b87ada6e6dd66058a88b0458613a0ace6c4c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:48 +0000
Subject: [PATCH 08/32] fix: MemoryCacheStore operations are atomic between
 threads

---
 Cheetah/CacheStore.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/Cheetah/CacheStore.py b/Cheetah/CacheStore.py
index a5e0264..3f881ed 100644
--- a/Cheetah/CacheStore.py
+++ b/Cheetah/CacheStore.py
@@ -15,6 +15,7 @@ delete(key)
   deletes or raises a KeyError
 '''
 import time
+from threading import RLock
 
 
 class Error(Exception):
@@ -42,29 +43,35 @@ class AbstractCacheStore(object):
 class MemoryCacheStore(AbstractCacheStore):
     def __init__(self):
         self._data = {}
+        self._lock = RLock()
 
     def set(self, key, val, time=0):
-        self._data[key] = (val, time)
+        with self._lock:
+            self._data[key] = (val, time)
 
     def add(self, key, val, time=0):
-        if self._isLive(key):
-            raise Error('a value for key %r is already in the cache' % key)
-        self._data[key] = (val, time)
+        with self._lock:
+            if self._isLive(key):
+                raise Error('a value for key %r is already in the cache' % key)
+            self._data[key] = (val, time)
 
     def replace(self, key, val, time=0):
-        if not self._isLive(key):
-            raise Error('no value for key %r is in the cache' % key)
-        self._data[key] = (val, time)
+        with self._lock:
+            if not self._isLive(key):
+                raise Error('no value for key %r is in the cache' % key)
+            self._data[key] = (val, time)
 
     def delete(self, key):
-        if not self._isLive(key):
-            raise KeyError(key)
-        del self._data[key]
+        with self._lock:
+            if not self._isLive(key):
+                raise KeyError(key)
+            del self._data[key]
 
     def get(self, key):
-        if not self._isLive(key):
-            raise KeyError(key)
-        return self._data[key][0]
+        with self._lock:
+            if not self._isLive(key):
+                raise KeyError(key)
+            return self._data[key][0]
 
     def _isLive(self, key):
         if key not in self._data:
@@ -76,7 +83,8 @@ class MemoryCacheStore(AbstractCacheStore):
         return True
 
     def clear(self):
-        self._data.clear()
+        with self._lock:
+            self._data.clear()
 
 
 class MemcachedCacheStore(AbstractCacheStore):
-- 
2.43.0


From 847342ff8c169bf5aa51a61cf6fe7b7dca94b115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:58 +0000
Subject: [PATCH 09/32] fix: C NameMapper crash when a mapping fails after the
 key was found

---
 Cheetah/c/_namemapper.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Cheetah/c/_namemapper.c b/Cheetah/c/_namemapper.c
index 52a9293..440905a 100644
--- a/Cheetah/c/_namemapper.c
+++ b/Cheetah/c/_namemapper.c
@@ -187,6 +187,12 @@ static PyObject *PyNamemapper_valueForName(PyObject *obj, char *nameChunks[], in
         #else
         if (PyMapping_Check(currentVal) && PyMapping_HasKeyString(currentVal, currentKey)) {
             nextVal = PyMapping_GetItemString(currentVal, currentKey);
+            if (nextVal == NULL) {
+                if (i > 0) {
+                    Py_DECREF(currentVal);
+                }
+                return NULL;
+            }
         #endif
 
         } else {
-- 
2.43.0


From d645d947a3a9e002f645fc74dc0482dbdc5b1211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:58 +0000
Subject: [PATCH 10/32] fix: region IDs are unique within a template

---
 Cheetah/Compiler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 400ea3a..b9d2ade 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -759,8 +759,13 @@ class MethodCompiler(GenUtils):
             self.indent()
 
     def nextCacheID(self):
-        return ('_' + str(random.randrange(100, 999))
-                + str(random.randrange(10000, 99999)))
+        ID = ('_' + str(random.randrange(100, 999))
+              + str(random.randrange(10000, 99999)))
+        usedIDs = self._moduleCompiler._regionIDs
+        while ID in usedIDs:
+            ID += '_'
+        usedIDs.add(ID)
+        return ID
 
     def _startCollecting(self, ID, collector):
         """Redirect the output of the code up to _endCollecting(ID).
@@ -1645,6 +1650,7 @@ class ModuleCompiler(SettingsManager, GenUtils):
             self.setSetting('useStackFrames', False)
 
         self._compiled = False
+        self._regionIDs = set()
         self._moduleName = moduleName
         if not mainClassName:
             self._mainClassName = moduleName
-- 
2.43.0


From d3407ab80008ff49df14d0fcd4b0108dbc7db82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:58 +0000
Subject: [PATCH 11/32] fix: each Indenter has its own stack of levels

---
 Cheetah/Utils/Indenter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Utils/Indenter.py b/Cheetah/Utils/Indenter.py
index c722040..ed0c866 100644
--- a/Cheetah/Utils/Indenter.py
+++ b/Cheetah/Utils/Indenter.py
@@ -94,7 +94,9 @@ class Indenter(object):
     On = 1
     Level = 0
     Chars = '    '
-    LevelStack = []
+
+    def __init__(self):
+        self.LevelStack = []
 
     def on(self):
         self.On = 1
-- 
2.43.0


From 25ec33e8a89427022e9d5eb210dc7de27fae2510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:58 +0000
Subject: [PATCH 12/32] fix: a worker killed by a signal fails the parallel run

---
 Cheetah/CheetahWrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index 8c85a71..3774ba4 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -389,6 +389,8 @@ you do have write permission to and re-run the tests.""")
             def child_wait():
                 pid, status = os.wait()
                 pid_pool.remove(pid)
+                if os.WIFSIGNALED(status):
+                    return 128 + os.WTERMSIG(status)
                 return os.WEXITSTATUS(status)
 
             while bundles:
-- 
2.43.0


From 8d6340da05076fc27455258cddeb100e46011bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:08 +0000
Subject: [PATCH 13/32] fix: the import hook never leaves an incomplete module
 file behind

---
 Cheetah/ImportHooks.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/Cheetah/ImportHooks.py b/Cheetah/ImportHooks.py
index 00d6dca..f080fc7 100644
--- a/Cheetah/ImportHooks.py
+++ b/Cheetah/ImportHooks.py
@@ -20,6 +20,10 @@ try:
 except ImportError:  # PY2
     import __builtin__ as builtin
 from threading import RLock
+try:
+    from threading import get_ident
+except ImportError:  # PY2
+    from thread import get_ident
 import traceback
 
 from . import ImportManager
@@ -76,6 +80,20 @@ class CheetahDirOwner(DirOwner):
         finally:
             self._releaseLock()
 
+    def _save(self, code, path):
+        # Never leave an incomplete file at `path`: later loads would use it
+        tmp = '%s.%d.%d.tmp' % (path, os.getpid(), get_ident())
+        try:
+            with open(tmp, 'w') as _py_file:
+                _py_file.write(code)
+            getattr(os, 'replace', os.rename)(tmp, path)
+        except BaseException:
+            try:
+                os.remove(tmp)
+            except (IOError, OSError):
+                pass
+            raise
+
     def _compile(self, name, tmplPath):
         if invalidate_caches:
             invalidate_caches()
@@ -89,8 +107,7 @@ class CheetahDirOwner(DirOwner):
         else:
             __file__ = os.path.splitext(tmplPath)[0] + '.py'
         try:
-            with open(__file__, 'w') as _py_file:
-                _py_file.write(code)
+            self._save(code, __file__)
         except (IOError, OSError):
             # @@ TR: need to add some error code here
             if self.debuglevel > 0:
-- 
2.43.0


From 0e3b52f6914fe01805d2e25e56bb38433845384f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:24 +0000
Subject: [PATCH 14/32] fix: compiles nested in or waiting for another compile
 do not deadlock

---
 Cheetah/Template.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 070715c..2acbf3a 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -795,9 +795,14 @@ class Template(Servlet):
                 cacheItem.lastCheckoutTime = time.time()
                 return cacheItem.klass
 
+            mod = None
             try:
-                klass._CHEETAH_compileLock.acquire()
-                uniqueModuleName = _genUniqueModuleName(moduleName)
+                # Only the choice of the name is locked: the code of the
+                # module may itself compile templates or wait for locks.
+                with klass._CHEETAH_compileLock:
+                    uniqueModuleName = _genUniqueModuleName(moduleName)
+                    mod = types.ModuleType(str(uniqueModuleName))
+                    sys.modules[uniqueModuleName] = mod
                 # relative file path with no dir part
                 __file__ = uniqueModuleName + '.py'
 
@@ -811,7 +816,6 @@ class Template(Servlet):
                     open(__file__, 'w').write(generatedModuleCode)
                     # @@TR: should probably restrict the perms, etc.
 
-                mod = types.ModuleType(str(uniqueModuleName))
                 if moduleGlobals:
                     for k, v in moduleGlobals.items():
                         setattr(mod, k, v)
@@ -841,11 +845,12 @@ class Template(Servlet):
                     e.generatedModuleCode = generatedModuleCode
                     raise
                 ##
-                sys.modules[uniqueModuleName] = mod
-            finally:
-                klass._CHEETAH_compileLock.release()
-
-            templateClass = getattr(mod, className)
+                templateClass = getattr(mod, className)
+            except BaseException:
+                if mod is not None and \
+                        sys.modules.get(mod.__name__) is mod:
+                    del sys.modules[mod.__name__]
+                raise
 
             if (cacheCompilationResults and cacheHash
                     and cacheHash not in klass._CHEETAH_compileCache):
-- 
2.43.0


From 3b32158668e70166da492ae1ea7d7130096fc116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:24 +0000
Subject: [PATCH 15/32] fix: different compile requests never share a compile
 cache entry

---
 Cheetah/Template.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 2acbf3a..15adb7b 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -94,8 +94,8 @@ def hashList(v_list):
             v = hashDict(v)
         elif isinstance(v, list):
             v = hashList(v)
-        hashedList.append(v)
-    return hash(tuple(hashedList))
+        hashedList.append((type(v), v))
+    return tuple(hashedList)
 
 
 def hashDict(d):
@@ -106,8 +106,8 @@ def hashDict(d):
             v = hashDict(v)
         elif isinstance(v, list):
             v = hashList(v)
-        hashedList.append((k, v))
-    return hash(tuple(hashedList))
+        hashedList.append((k, type(v), v))
+    return tuple(hashedList)
 
 
 ###############################################################################
@@ -737,9 +737,9 @@ class Template(Servlet):
 
             fileHash = None
             if file:
-                fileHash = str(hash(file))
+                fileHash = (file,)
                 if globals()['__checkFileMtime']:
-                    fileHash += str(os.path.getmtime(file))
+                    fileHash += (os.path.getmtime(file),)
 
             try:
                 # @@TR: find some way to create a cacheHash that is consistent
@@ -747,21 +747,21 @@ class Template(Servlet):
                 # compiled module on disk and thereby reduce the startup time
                 # for applications that use a lot of dynamically compiled
                 # templates.
-                cacheHash = ''.join([str(v) for v in
-                                     [hash(source),
-                                      fileHash,
-                                      className,
-                                      moduleName,
-                                      mainMethodName,
-                                      hash(compilerClass),
-                                      hash(baseclass),
-                                      compilerSettingsHash,
-                                      moduleGlobalsHash,
-                                      hash(cacheDirForModuleFiles),
-                                      ]])
+                cacheHash = (source,
+                             fileHash,
+                             className,
+                             moduleName,
+                             mainMethodName,
+                             compilerClass,
+                             baseclass,
+                             compilerSettingsHash,
+                             moduleGlobalsHash,
+                             cacheDirForModuleFiles,
+                             )
+                hash(cacheHash)
             except Exception:
                 # @@TR: should add some logging to this
-                pass
+                cacheHash = None
         outputEncoding = 'ascii'
         compiler = None
         if useCache and cacheHash and cacheHash in klass._CHEETAH_compileCache:
-- 
2.43.0


From 5253461c8456826d60c10d7c35af8b9387939b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:24 +0000
Subject: [PATCH 16/32] fix: generated source text keeps its encoding when a
 class was cached

---
 Cheetah/Template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 15adb7b..eddab07 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -764,7 +764,8 @@ class Template(Servlet):
                 cacheHash = None
         outputEncoding = 'ascii'
         compiler = None
-        if useCache and cacheHash and cacheHash in klass._CHEETAH_compileCache:
+        if useCache and returnAClass and cacheHash \
+                and cacheHash in klass._CHEETAH_compileCache:
             cacheItem = klass._CHEETAH_compileCache[cacheHash]
             generatedModuleCode = cacheItem.code
         else:
-- 
2.43.0


From d2caf034ebbbf4cc42c8a8b76d70d679176ba150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:07 +0000
Subject: [PATCH 17/32] fix: a custom cache store that is still empty is not
 replaced

---
 Cheetah/CacheRegion.py | 2 +-
 Cheetah/Template.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Cheetah/CacheRegion.py b/Cheetah/CacheRegion.py
index 14d170a..c5c8a01 100644
--- a/Cheetah/CacheRegion.py
+++ b/Cheetah/CacheRegion.py
@@ -107,7 +107,7 @@ class CacheRegion(object):
         self._isNew = True
         self._regionID = regionID
         self._templateCacheIdPrefix = templateCacheIdPrefix
-        if not cacheStore:
+        if cacheStore is None:
             cacheStore = CacheStore.MemoryCacheStore()
         self._cacheStore = cacheStore
         self._wrappedCacheDataStore = _CacheDataStoreWrapper(
diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index eddab07..36fb1d1 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1375,7 +1375,7 @@ class Template(Servlet):
 
     # cache methods ##
     def _getCacheStore(self):
-        if not self._CHEETAH__cacheStore:
+        if self._CHEETAH__cacheStore is None:
             if self._CHEETAH_cacheStore is not None:
                 self._CHEETAH__cacheStore = self._CHEETAH_cacheStore
             else:
-- 
2.43.0


From 95a8a2106eb43d48a5b28619181c288e53e22022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:18 +0000
Subject: [PATCH 18/32] fix: workers are waited for when another one cannot be
 started

---
 Cheetah/CheetahWrapper.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index 3774ba4..5ee4b9d 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -393,24 +393,26 @@ you do have write permission to and re-run the tests.""")
                     return 128 + os.WTERMSIG(status)
                 return os.WEXITSTATUS(status)
 
-            while bundles:
-                b = bundles.pop()
-                pid = os.fork()
-                if pid:
-                    pid_pool.add(pid)
-                else:
-                    self._compileOrFillBundle(b)
-                    sys.exit(0)
-
-                if len(pid_pool) == self.opts.parallel:
-                    bad_child_exit = child_wait()
-                    if bad_child_exit:
-                        break
-
-            while pid_pool:
-                child_exit = child_wait()
-                if not bad_child_exit:
-                    bad_child_exit = child_exit
+            try:
+                while bundles:
+                    b = bundles.pop()
+                    pid = os.fork()
+                    if pid:
+                        pid_pool.add(pid)
+                    else:
+                        pid_pool.clear()  # they are not our children
+                        self._compileOrFillBundle(b)
+                        sys.exit(0)
+
+                    if len(pid_pool) == self.opts.parallel:
+                        bad_child_exit = child_wait()
+                        if bad_child_exit:
+                            break
+            finally:
+                while pid_pool:
+                    child_exit = child_wait()
+                    if not bad_child_exit:
+                        bad_child_exit = child_exit
 
             if bad_child_exit:
                 sys.exit("Child process failed, exited with code %d"
-- 
2.43.0


From 782754c867866e230a40aaedd90371c08fcff978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:03 +0000
Subject: [PATCH 19/32] fix: tuples of equal values of different types are
 different compile requests

---
 Cheetah/Template.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 36fb1d1..3a926ea 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -90,11 +90,12 @@ class PreprocessError(Error):
 def hashList(v_list):
     hashedList = []
     for v in v_list:
+        v_type = type(v)
         if isinstance(v, dict):
             v = hashDict(v)
-        elif isinstance(v, list):
+        elif isinstance(v, (list, tuple)):
             v = hashList(v)
-        hashedList.append((type(v), v))
+        hashedList.append((v_type, v))
     return tuple(hashedList)
 
 
@@ -102,11 +103,12 @@ def hashDict(d):
     items = sorted(d.items())
     hashedList = []
     for k, v in items:
+        v_type = type(v)
         if isinstance(v, dict):
             v = hashDict(v)
-        elif isinstance(v, list):
+        elif isinstance(v, (list, tuple)):
             v = hashList(v)
-        hashedList.append((k, type(v), v))
+        hashedList.append((k, v_type, v))
     return tuple(hashedList)
 
 
-- 
2.43.0


From 13609f24a0d807d3f307bd7bb72386d70bbf8c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:44 +0000
Subject: [PATCH 20/32] fix: the import hook never saves code that is not valid
 Python

A template whose generated code has a syntax error was saved as .py and
used by every later load, even after the template was corrected.
---
 Cheetah/ImportHooks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Cheetah/ImportHooks.py b/Cheetah/ImportHooks.py
index f080fc7..89369c9 100644
--- a/Cheetah/ImportHooks.py
+++ b/Cheetah/ImportHooks.py
@@ -106,6 +106,8 @@ class CheetahDirOwner(DirOwner):
                 _cacheDir[0], convertTmplPathToModuleName(tmplPath)) + '.py'
         else:
             __file__ = os.path.splitext(tmplPath)[0] + '.py'
+        # Code that is not valid Python must not be saved
+        co = compile(code + '\n', __file__, 'exec')
         try:
             self._save(code, __file__)
         except (IOError, OSError):
@@ -113,12 +115,12 @@ class CheetahDirOwner(DirOwner):
             if self.debuglevel > 0:
                 traceback.print_exc(file=sys.stderr)
             __file__ = tmplPath
+            co = compile(code + '\n', __file__, 'exec')
         else:
             try:
                 py_compile.compile(__file__)
             except IOError:
                 pass
-        co = compile(code + '\n', __file__, 'exec')
 
         mod = types.ModuleType(name)
         mod.__file__ = co.co_filename
-- 
2.43.0


From 496e6d7fc6042a992dbbeaf8c66d4f0dc431a364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:44 +0000
Subject: [PATCH 21/32] fix: a failed template load leaves no half-built module
 behind

The module stayed in sys.modules, so the next import of it returned a
module without a usable template class.
---
 Cheetah/ImportManager.py |  8 +++++++-
 Cheetah/LoadTemplate.py  | 11 ++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/Cheetah/ImportManager.py b/Cheetah/ImportManager.py
index 3abb6ee..06ea32f 100644
--- a/Cheetah/ImportManager.py
+++ b/Cheetah/ImportManager.py
@@ -560,7 +560,13 @@ class ImportManager:
             if hasattr(mod, '__co__'):
                 co = mod.__co__
                 del mod.__co__
-                exec(co, mod.__dict__)
+                try:
+                    exec(co, mod.__dict__)
+                except BaseException:
+                    # a half-built module must not be found by later imports
+                    if sys.modules.get(fqname) is mod:
+                        del sys.modules[fqname]
+                    raise
             if fqname == 'thread' and not self.threaded:
                 self.setThreaded()
         else:
diff --git a/Cheetah/LoadTemplate.py b/Cheetah/LoadTemplate.py
index 28d4394..705d1ca 100644
--- a/Cheetah/LoadTemplate.py
+++ b/Cheetah/LoadTemplate.py
@@ -34,10 +34,19 @@ def loadTemplateModule(templatePath, debuglevel=0):
     if mod is None:
         raise ModuleNotFoundError("Cannot find {}".format(templatePath))
     mod.__name__ = filename
+    previous = sys.modules.get(filename)
     sys.modules[filename] = mod
     co = mod.__co__
     del mod.__co__
-    exec(co, mod.__dict__)
+    try:
+        exec(co, mod.__dict__)
+    except BaseException:
+        # a half-built module must not be found by later imports
+        if previous is not None:
+            sys.modules[filename] = previous
+        else:
+            sys.modules.pop(filename, None)
+        raise
     return mod
 
 
-- 
2.43.0


From d0f818c937886fe82d9e9750b24803d2a7fceb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:44 +0000
Subject: [PATCH 22/32] fix: an interrupted import does not disable its path
 entry

The path stayed marked as being built, and no later import looked there.
---
 Cheetah/ImportManager.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/Cheetah/ImportManager.py b/Cheetah/ImportManager.py
index 06ea32f..d87d0b9 100644
--- a/Cheetah/ImportManager.py
+++ b/Cheetah/ImportManager.py
@@ -394,16 +394,18 @@ class PathImportDirector(ImportDirector):
             return None
         self._building[path] = 1
         owner = None
-        for klass in self._ownertypes:
-            try:
-                # this may cause an import, which may cause recursion
-                # hence the protection
-                owner = klass(path)
-            except Exception:
-                pass
-            else:
-                break
-        del self._building[path]
+        try:
+            for klass in self._ownertypes:
+                try:
+                    # this may cause an import, which may cause recursion
+                    # hence the protection
+                    owner = klass(path)
+                except Exception:
+                    pass
+                else:
+                    break
+        finally:
+            del self._building[path]
         return owner
 
 # =================ImportManager============================#
-- 
2.43.0


From 602d84dfc87fbf307c87b214b0eaf1c7b1b9c649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:16 +0000
Subject: [PATCH 23/32] fix: reloading a template never shows other threads a
 half-built module

---
 Cheetah/LoadTemplate.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/Cheetah/LoadTemplate.py b/Cheetah/LoadTemplate.py
index 705d1ca..d3ba920 100644
--- a/Cheetah/LoadTemplate.py
+++ b/Cheetah/LoadTemplate.py
@@ -34,19 +34,12 @@ def loadTemplateModule(templatePath, debuglevel=0):
     if mod is None:
         raise ModuleNotFoundError("Cannot find {}".format(templatePath))
     mod.__name__ = filename
-    previous = sys.modules.get(filename)
-    sys.modules[filename] = mod
     co = mod.__co__
     del mod.__co__
-    try:
-        exec(co, mod.__dict__)
-    except BaseException:
-        # a half-built module must not be found by later imports
-        if previous is not None:
-            sys.modules[filename] = previous
-        else:
-            sys.modules.pop(filename, None)
-        raise
+    exec(co, mod.__dict__)
+    # Only now: neither other threads that import the module
+    # nor later imports may find it half-built
+    sys.modules[filename] = mod
     return mod
 
 
-- 
2.43.0


From 9bba03bed443e7455f970a78de57f0b53e7bdffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:10 +0000
Subject: [PATCH 24/32] fix: parallel workers may make the same output
 directory at once

---
 Cheetah/CheetahWrapper.py | 7 ++++++-
 Cheetah/Utils/Misc.py     | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index 5ee4b9d..9a703e8 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -643,7 +643,12 @@ be named according to the same rules as Python modules.""" % tup)
             if self.isCompile:
                 mkdirsWithPyInitFiles(dstDir)
             else:
-                os.makedirs(dstDir)
+                try:
+                    os.makedirs(dstDir)
+                except OSError:
+                    # Another worker may have made it in the meantime.
+                    if not os.path.isdir(dstDir):
+                        raise
         if self.opts.stdout:
             if not PY2:
                 encoding = self.opts.encoding
diff --git a/Cheetah/Utils/Misc.py b/Cheetah/Utils/Misc.py
index a046f5f..4accf0b 100644
--- a/Cheetah/Utils/Misc.py
+++ b/Cheetah/Utils/Misc.py
@@ -60,7 +60,13 @@ def mkdirsWithPyInitFiles(path):
     if dir and not os.path.exists(dir):
         mkdirsWithPyInitFiles(dir)
     if not os.path.exists(path):
-        os.mkdir(path)
+        try:
+            os.mkdir(path)
+        except OSError:
+            # Another process may have made it in the meantime.
+            if os.path.isdir(path):
+                return
+            raise
         init = os.path.join(path, "__init__.py")
         f = open(init, 'w')  # Open and close to produce empty file.
         f.close()
-- 
2.43.0


From 754cc89b73955ae30bdbabd030df42431ef7548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:49 +0000
Subject: [PATCH 25/32] fix: refreshCache() of an item whose key is 0 or empty
 refreshes only that item

---
 Cheetah/Template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 3a926ea..0eaeab7 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1426,7 +1426,7 @@ class Template(Servlet):
             cregion = self._CHEETAH__cacheRegions.get(cacheRegionId)
             if not cregion:
                 return
-            if not cacheItemId:
+            if cacheItemId is None:
                 # clear the desired region and all its cacheItems
                 cregion.clear()
             else:  # clear one specific cache of a specific region
-- 
2.43.0


From ba20c2611b81c00dc4145f4efdd299d9ffddeb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:21 +0000
Subject: [PATCH 26/32] fix: a failed recomputation of a cached region does not
 renew the expiry of the old data

---
 Cheetah/Compiler.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index b9d2ade..6e7fcc7 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -806,7 +806,8 @@ class MethodCompiler(GenUtils):
         if customID:
             ID = customID
         varyBy = cacheInfo.get('varyBy', repr(ID))
-        self._cacheRegionsStack.append(ID)  # attrib of current methodCompiler
+        # attrib of current methodCompiler
+        self._cacheRegionsStack.append((ID, interval))
 
         # @@TR: add this to a special class var as well
         self.addChunk('')
@@ -865,17 +866,21 @@ class MethodCompiler(GenUtils):
             % locals())
         self.indent()
         if interval:
-            self.addChunk(("_cacheItem_%(ID)s.setExpiryTime(currentTime() +"
-                          % locals())
-                          + str(interval) + ")")
+            self.addChunk('_cacheExpiry_%(ID)s = currentTime() + ' % locals()
+                          + str(interval))
         self._startCollecting(ID, '_cacheCollector_%(ID)s' % locals())
 
     def endCacheRegion(self):
-        ID = self._cacheRegionsStack.pop()
+        ID, interval = self._cacheRegionsStack.pop()
         self._endCollecting(ID)
         self.addChunk(
             '_cacheData = _cacheCollector_%(ID)s.response().getvalue()'
             % locals())
+        if interval:
+            # not before the region is computed: a failure must not make the
+            # old data look fresh
+            self.addChunk('_cacheItem_%(ID)s.setExpiryTime('
+                          '_cacheExpiry_%(ID)s)' % locals())
         self.addChunk('_cacheItem_%(ID)s.setData(_cacheData)' % locals())
         self.addWriteChunk('_cacheData')
         self.addChunk('del _cacheData')
-- 
2.43.0


From a877fcc7c6e8dbac4162dc5eeef2e1669b5e4257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:31 +0000
Subject: [PATCH 27/32] fix: a template of a package that failed to import must
 not stay on the package

ImportManager sets the new module as an attribute of its package before
its code runs. When that code failed, later 'from package import name'
found the half-built module.
---
 Cheetah/ImportManager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/ImportManager.py b/Cheetah/ImportManager.py
index d87d0b9..e85537a 100644
--- a/Cheetah/ImportManager.py
+++ b/Cheetah/ImportManager.py
@@ -568,6 +568,8 @@ class ImportManager:
                     # a half-built module must not be found by later imports
                     if sys.modules.get(fqname) is mod:
                         del sys.modules[fqname]
+                    if parentnm and getattr(parent, nm, None) is mod:
+                        delattr(parent, nm)
                     raise
             if fqname == 'thread' and not self.threaded:
                 self.setThreaded()
-- 
2.43.0


From 5bbeac059ea563492674030f453f5e2cc016ed44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:54 +0000
Subject: [PATCH 28/32] fix: compiling does not add to the caller's
 macroDirectives setting

The parser added its own macros to the dictionary it was given, so a
repeated compile with the same settings was not found in the compile cache.
---
 Cheetah/Parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 3b7c4b1..56cb693 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1472,7 +1472,8 @@ class _HighLevelParser(_LowLevelParser):
         for directiveName in self.setting('closeableDirectives', []):
             self._closeableDirectives.append(directiveName)
 
-        macroDirectives = self.setting('macroDirectives', {})
+        # a copy: the dictionary may be the caller's own
+        macroDirectives = dict(self.setting('macroDirectives', {}))
         macroDirectives['i18n'] = I18n
 
         for macroName, callback in macroDirectives.items():
-- 
2.43.0


From e01cb374905cef6d6ff1303b361267dbcbbab88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:12 +0000
Subject: [PATCH 29/32] fix: preprocessors do not change the caller's settings
 dictionaries

---
 Cheetah/Template.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 0eaeab7..eee2def 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -964,8 +964,9 @@ class Template(Servlet):
                 'Preprocessor requires either a "tokens" '
                 'or a "compilerSettings" arg. Neither was provided.')
 
-        if not hasattr(settings, 'templateInitArgs'):
-            settings.templateInitArgs = {}
+        # the caller's dictionaries may be shared with other preprocessors
+        settings.templateInitArgs = dict(
+            getattr(settings, 'templateInitArgs', {}))
         if 'searchList' not in settings.templateInitArgs:
             if not hasattr(settings, 'searchList') \
                     and hasattr(settings, 'namespaces'):
@@ -984,8 +985,8 @@ class Template(Servlet):
                 pass
             settings.templateAPIClass = PreprocessTemplateAPIClass
 
-        if not hasattr(settings, 'compilerSettings'):
-            settings.compilerSettings = {}
+        settings.compilerSettings = dict(
+            getattr(settings, 'compilerSettings', {}))
 
         klass._updateSettingsWithPreprocessTokens(
             compilerSettings=settings.compilerSettings,
-- 
2.43.0


From 04b6924f9807a30d76b80e343e5a4671c9d6851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:50 +0000
Subject: [PATCH 30/32] fix: TurboCheetah loads a template again after it
 failed to compile

---
 Cheetah/Tools/turbocheetah/cheetahsupport.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/Cheetah/Tools/turbocheetah/cheetahsupport.py b/Cheetah/Tools/turbocheetah/cheetahsupport.py
index 7a7f2c0..a35566a 100644
--- a/Cheetah/Tools/turbocheetah/cheetahsupport.py
+++ b/Cheetah/Tools/turbocheetah/cheetahsupport.py
@@ -75,19 +75,15 @@ class TurboCheetah:
                                                     "%s.%s" %
                                                     (basename,
                                                      self.extension))
-            if classname in ct:
-                mtime = os.stat(tfile).st_mtime
-                if ct[classname] != mtime:
-                    ct[classname] = mtime
-                    del sys.modules[classname]
-                    mod = _recompile_template(package, basename,
-                                              tfile, classname)
-                else:
-                    mod = __import__(classname, dict(), dict(), [basename])
-            else:
-                ct[classname] = os.stat(tfile).st_mtime
+            mtime = os.stat(tfile).st_mtime
+            if ct.get(classname) != mtime:
                 mod = _recompile_template(package, basename,
                                           tfile, classname)
+                # Only now: a template that fails to compile
+                # must be compiled again the next time
+                ct[classname] = mtime
+            else:
+                mod = __import__(classname, dict(), dict(), [basename])
         else:
             mod = __import__(classname, dict(), dict(), [basename])
         tempclass = getattr(mod, basename)
-- 
2.43.0


From bd8252eedfb8eba87d062af8cb6feedba5232801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:50 +0000
Subject: [PATCH 31/32] fix: TurboCheetah renders the text of a template, not
 the repr of its bytes

---
 Cheetah/Tools/turbocheetah/cheetahsupport.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Tools/turbocheetah/cheetahsupport.py b/Cheetah/Tools/turbocheetah/cheetahsupport.py
index a35566a..83eb53d 100644
--- a/Cheetah/Tools/turbocheetah/cheetahsupport.py
+++ b/Cheetah/Tools/turbocheetah/cheetahsupport.py
@@ -10,6 +10,8 @@ from Cheetah.compat import new_module
 
 def _recompile_template(package, basename, tfile, classname):
     tmpl = pkg_resources.resource_string(package, "%s.tmpl" % basename)
+    if not isinstance(tmpl, str):
+        tmpl = tmpl.decode('utf-8')
     c = Compiler.Compiler(source=tmpl, mainClassName='GenTemplate')
     code = str(c)
     mod = new_module(classname)
-- 
2.43.0


From 2c05dbaccb96c75240029c7142369bde440cc327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:40 +0000
Subject: [PATCH 32/32] fix: a class is complete before the compile cache hands
 it to other threads

---
 Cheetah/Template.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index eee2def..b90c9b6 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -855,6 +855,15 @@ class Template(Servlet):
                     del sys.modules[mod.__name__]
                 raise
 
+            if keepRefToGeneratedCode or cacheCompilationResults:
+                templateClass._CHEETAH_generatedModuleCode = \
+                    generatedModuleCode
+
+            # If we have a compiler object, let's set it to the compiler class
+            # to help the directive analyzer code
+            if compiler:
+                templateClass._CHEETAH_compilerInstance = compiler
+
             if (cacheCompilationResults and cacheHash
                     and cacheHash not in klass._CHEETAH_compileCache):
                 cacheItem = CompileCacheItem()
@@ -865,15 +874,6 @@ class Template(Servlet):
                 klass._CHEETAH_compileCache[cacheHash] = cacheItem
             else:
                 templateClass._CHEETAH_isInCompilationCache = False
-
-            if keepRefToGeneratedCode or cacheCompilationResults:
-                templateClass._CHEETAH_generatedModuleCode = \
-                    generatedModuleCode
-
-            # If we have a compiler object, let's set it to the compiler class
-            # to help the directive analyzer code
-            if compiler:
-                templateClass._CHEETAH_compilerInstance = compiler
             return templateClass
 
     @classmethod
-- 
2.43.0

