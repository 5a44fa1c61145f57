From 22ffea88986b276a01f1896b38e1a99d58323069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 01/43] fix: settle deferred storage charges as part of the
 invocation

A deferred deletion charge that runs out of steps at the end of an
invocation escaped from the engine and terminated it. Report it as the
status of the invocation instead, and always restore the context stack.
---
 pyee/pyexec/service_engine.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index ef5356e..4f6f646 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -21,6 +21,7 @@ from .iconscore.icon_score_base import IconScoreBase
 from .iconscore.icon_score_context import ContextContainer, IconScoreContext
 from .iconscore.icon_score_eventlog import EventLogEmitter
 from .iconscore.icon_score_mapper import IconScoreMapper
+from .iconscore.icon_score_step import OutOfStepException
 from .iconscore.internal_call import InternalCall
 from .iconscore.score_package_validator import ScorePackageValidator
 from .logger import Logger, SystemLogger
@@ -63,8 +64,10 @@ class ServiceEngine(ContextContainer):
         Logger.debug(f'[invoke] {context.method}, {context.params}', TAG)
 
         cls._push_context(context)
-        status, step_used, ret = cls._handle_invoke(context)
-        cls._pop_context()
+        try:
+            status, step_used, ret = cls._handle_invoke(context)
+        finally:
+            cls._pop_context()
 
         Logger.debug(f'*** RESULT: {status}, {step_used}, {ret}', TAG)
         return status, step_used, ret
@@ -94,13 +97,19 @@ class ServiceEngine(ContextContainer):
             status = Status.SUCCESS
         except BaseException as e:
             status, ret = cls._get_status_from_exception(e)
-        finally:
-            cls._proxy.handle_set_values()
-            if context.fee_sharing_proportion > 0:
-                cls._proxy.set_fee_proportion(context.fee_sharing_proportion)
-            step_used = context.step_counter.step_used
 
-        return status, step_used, ret
+        # Deferred charges may run out of steps
+        pending = True
+        while pending:
+            try:
+                pending = cls._proxy.handle_set_values()
+            except OutOfStepException as e:
+                status, ret = cls._get_status_from_exception(e)
+
+        if context.fee_sharing_proportion > 0:
+            cls._proxy.set_fee_proportion(context.fee_sharing_proportion)
+
+        return status, context.step_counter.step_used, ret
 
     @classmethod
     def _internal_call(cls, context: IconScoreContext):
-- 
2.43.0


From 0ffd587c584c6fa391921974770917ae88980d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:03 +0000
Subject: [PATCH 02/43] fix: tolerate recursive processing of write
 acknowledgements

A deferred charge that exceeds the limit processes the remaining
acknowledgements recursively; the outer loop then popped from an empty
list and failed an invocation with sufficient steps.
---
 pyee/pyexec/ipc/proxy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index 0fd7c7e..b12c529 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -447,14 +447,14 @@ class ServiceManagerProxy:
                 return data[0], self.decode(TypeTag.INT, data[1]), self.decode_any(data[2])
 
     def handle_set_values(self) -> bool:
-        count: int = len(self.__set_handlers)
-        if count > 0:
-            self.__handle_set_values(count)
+        if len(self.__set_handlers) > 0:
+            self.__handle_set_values(0)
             return True
         return False
 
-    def __handle_set_values(self, cnt: int):
-        for i in range(0, cnt):
+    def __handle_set_values(self, remain: int):
+        # handlers may process the others recursively
+        while len(self.__set_handlers) > remain:
             handler, size = self.__set_handlers.pop(0)
             msg, data = self.__client.receive()
             if msg != Message.SETVALUE:
@@ -493,7 +493,7 @@ class ServiceManagerProxy:
             size = 0 if value is None else len(value)
             self.__set_handlers.append((cb, size))
             if len(self.__set_handlers) > MAX_SET_VALUE_HANDLERS:
-                self.__handle_set_values(len(self.__set_handlers) - MAX_SET_VALUE_HANDLERS)
+                self.__handle_set_values(MAX_SET_VALUE_HANDLERS)
 
     def set_fee_proportion(self, pct: int):
         if self.__readonly:
-- 
2.43.0


From 368ef8b6dd8fa201c27e04cb0054d792f35b14fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 03/43] fix: do not take a deferred deletion charge for the
 charge of a new value

When a deferred deletion charge ran out of steps while a value was being
stored, it was reverted and the value was charged again.
---
 pyee/pyexec/database/db.py               | 8 ++++++--
 pyee/pyexec/iconscore/icon_score_step.py | 8 ++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyee/pyexec/database/db.py b/pyee/pyexec/database/db.py
index e62b267..1b4c332 100644
--- a/pyee/pyexec/database/db.py
+++ b/pyee/pyexec/database/db.py
@@ -165,8 +165,11 @@ class ContextDatabase(object):
             try:
                 # apply steps for set first
                 self._charge_step_set(context, value)
-                self._db.put(key, value, self.__refund_handler)
+                cb = self.__refund_handler
             except OutOfStepException as e:
+                if e.step_type != StepType.SET:
+                    # not for this value but for a deferred charge
+                    raise
                 # restore to the previous state
                 context.step_counter.add_step(e.step_used - e.step_limit)
                 # do fallback handling
@@ -181,7 +184,8 @@ class ContextDatabase(object):
                     if old_val:
                         self.__refund_handler(True, len(old_val))
                     context.step_counter.apply_step(StepType.SET, len(value))
-                self._db.put(key, value, None)
+                cb = None
+            self._db.put(key, value, cb)
         else:
             if value is None:
                 raise DatabaseException('value should not be None')
diff --git a/pyee/pyexec/iconscore/icon_score_step.py b/pyee/pyexec/iconscore/icon_score_step.py
index b1e9e4c..28ad10c 100644
--- a/pyee/pyexec/iconscore/icon_score_step.py
+++ b/pyee/pyexec/iconscore/icon_score_step.py
@@ -101,6 +101,14 @@ class OutOfStepException(IconServiceBaseException):
         """
         return self.__requested_step
 
+    @property
+    def step_type(self) -> StepType:
+        """
+        Returns the step type which the exception has been thrown for
+        :return: step type
+        """
+        return self.__step_type
+
 
 class IconScoreStepCounter(object):
     """ Counts steps in a transaction
-- 
2.43.0


From 8088b75b2ee68dd0dfaa912aec66f34323753a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 04/43] fix: keep message exchanges intact when a SCORE
 exhausts the stack

---
 pyee/pyexec/ipc/proxy.py | 44 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index b12c529..36225d8 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -12,8 +12,10 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import sys
 import traceback
 from abc import ABCMeta, abstractmethod
+from functools import wraps
 from typing import Any, Tuple, List, Union, Callable, Optional
 
 from .client import Client
@@ -22,6 +24,7 @@ TAG = 'Proxy'
 
 # Set this value to non-zero value for actual
 MAX_SET_VALUE_HANDLERS = 5
+RESERVED_STACK = 100
 
 
 # Convert python int to bytes of golang big.Int.
@@ -119,6 +122,28 @@ class SetValueFlag(object):
 SetHandler = Callable[[bool, int, int], None]
 
 
+def _stack_reserved(func):
+    """
+    Extends the stack while messages are exchanged. Otherwise a SCORE
+    which has exhausted the stack may leave replies unread.
+    """
+    def probe():
+        pass
+
+    @wraps(func)
+    def wrapper(*args, **kwargs):
+        # make sure that the limit can be restored
+        probe()
+        limit = sys.getrecursionlimit()
+        sys.setrecursionlimit(limit + RESERVED_STACK)
+        try:
+            return func(*args, **kwargs)
+        finally:
+            sys.setrecursionlimit(limit)
+
+    return wrapper
+
+
 class Info(object):
     BLOCK_TIMESTAMP = "B.timestamp"
     BLOCK_HEIGHT = "B.height"
@@ -248,6 +273,7 @@ class APIInfo(object):
 class ServiceManagerProxy:
     def __init__(self):
         self.__client = Client()
+        self.__stack_limit = sys.getrecursionlimit()
         self.__invoke = None
         self.__get_api = None
         self.__codec = None
@@ -380,7 +406,7 @@ class ServiceManagerProxy:
         try:
             self.__readonly_stack.append(self.__readonly)
             self.__readonly = is_query
-            status, step_used, result = self.__invoke(
+            status, step_used, result = self.__invoke_score(
                 code, is_query, _from, _to, value, limit, method, params, info)
 
             self.__client.send(Message.RESULT, [
@@ -399,6 +425,15 @@ class ServiceManagerProxy:
         finally:
             self.__readonly = self.__readonly_stack.pop(-1)
 
+    def __invoke_score(self, *args) -> Tuple[int, int, Any]:
+        # SCORE runs without the stack reserved by the caller
+        reserved = sys.getrecursionlimit()
+        sys.setrecursionlimit(self.__stack_limit)
+        try:
+            return self.__invoke(*args)
+        finally:
+            sys.setrecursionlimit(reserved)
+
     def __handle_get_api(self, data):
         try:
             code = self.decode(TypeTag.STRING, data)
@@ -425,6 +460,7 @@ class ServiceManagerProxy:
             elif msg == Message.CLOSE:
                 return
 
+    @_stack_reserved
     def call(self, to: 'Address', value: int,
              step_limit: int, method: str,
              params: Any) -> Tuple[int, int, Any]:
@@ -446,6 +482,7 @@ class ServiceManagerProxy:
             elif msg == Message.RESULT:
                 return data[0], self.decode(TypeTag.INT, data[1]), self.decode_any(data[2])
 
+    @_stack_reserved
     def handle_set_values(self) -> bool:
         if len(self.__set_handlers) > 0:
             self.__handle_set_values(0)
@@ -470,6 +507,7 @@ class ServiceManagerProxy:
         self.handle_set_values()
         return self.__client.receive()
 
+    @_stack_reserved
     def get_value(self, key: bytes) -> Optional[bytes]:
         msg, value = self.send_and_receive(Message.GETVALUE, key)
         if msg != Message.GETVALUE:
@@ -479,6 +517,7 @@ class ServiceManagerProxy:
         else:
             return None
 
+    @_stack_reserved
     def set_value(self, key: bytes, value: Optional[bytes], cb: Optional[SetHandler]):
         if self.__readonly:
             raise Exception('NoPermissionToWrite')
@@ -503,6 +542,7 @@ class ServiceManagerProxy:
             raise Exception('InvalidParameter')
         self.__client.send(Message.SETFEEPCT, pct)
 
+    @_stack_reserved
     def contains(self, prefix: bytes, value: bytes, limit: int) -> Tuple[bool, int, int]:
         msg, ret = self.send_and_receive(Message.CONTAINS, [prefix, value, limit])
         if msg != Message.CONTAINS:
@@ -515,12 +555,14 @@ class ServiceManagerProxy:
             raise Exception(f'InvalidMsg({msg}) exp={Message.GETINFO}')
         return self.decode_any(value)
 
+    @_stack_reserved
     def get_balance(self, addr: 'Address') -> int:
         msg, value = self.send_and_receive(Message.GETBALANCE, self.encode(addr))
         if msg != Message.GETBALANCE:
             raise Exception(f'InvalidMsg({msg}) exp={Message.GETBALANCE}')
         return self.decode(TypeTag.INT, value)
 
+    @_stack_reserved
     def send_event(self, indexed: List[Any], data: List[Any]):
         if self.__readonly:
             return
-- 
2.43.0


From ce850d6750a469d53f91aafcf795977702b6e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 05/43] fix: keep unreadable exceptions and malformed values of
 a SCORE from breaking the connection

---
 pyee/pyexec/ipc/proxy.py      | 46 +++++++++++++++++++++++++----------
 pyee/pyexec/pyexec.py         |  2 +-
 pyee/pyexec/service_engine.py | 14 ++++++++++-
 3 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index 36225d8..8b2ed5b 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -25,10 +25,12 @@ TAG = 'Proxy'
 # Set this value to non-zero value for actual
 MAX_SET_VALUE_HANDLERS = 5
 RESERVED_STACK = 100
+ADDRESS_BYTES = 21
 
 
 # Convert python int to bytes of golang big.Int.
 def int_to_bytes(v: int) -> bytes:
+    v = int.__index__(v)
     n_bytes = ((v + (v < 0)).bit_length() + 8) // 8
     return v.to_bytes(n_bytes, byteorder="big", signed=True)
 
@@ -321,7 +323,7 @@ class ServiceManagerProxy:
         if o is None:
             return None
         if isinstance(o, str):
-            return o.encode('utf-8')
+            return str.encode(o, 'utf-8')
         elif isinstance(o, bytes):
             return o
         elif isinstance(o, bool):
@@ -335,6 +337,13 @@ class ServiceManagerProxy:
             t, v = self.__codec.encode(o)
             return v
 
+    def __encode_address(self, o: 'Address') -> bytes:
+        # The service manager disconnects on a malformed address
+        _, v = self.__codec.encode(o)
+        if len(v) != ADDRESS_BYTES:
+            raise Exception(f'InvalidAddress({v.hex()})')
+        return v
+
     def decode_any(self, to: list) -> Any:
         tag: int = to[0]
         val: Union[bytes, dict, list] = to[1]
@@ -360,20 +369,20 @@ class ServiceManagerProxy:
             return TypeTag.NIL, None
         elif isinstance(o, dict):
             m = {}
-            for k, v in o.items():
+            for k, v in dict.items(o):
                 if not isinstance(k, str):
                     raise Exception(f'InvalidKeyType:{type(k)}')
                 m[k] = self.encode_any(v)
             return TypeTag.DICT, m
         elif isinstance(o, list) or isinstance(o, tuple):
             lst = []
-            for v in o:
+            for v in (list if isinstance(o, list) else tuple).__iter__(o):
                 lst.append(self.encode_any(v))
             return TypeTag.LIST, lst
         elif isinstance(o, bytes):
             return TypeTag.BYTES, o
         elif isinstance(o, str):
-            return TypeTag.STRING, o.encode('utf-8')
+            return TypeTag.STRING, str.encode(o, 'utf-8')
         elif isinstance(o, bool):
             if o:
                 return TypeTag.BOOL, b'\x01'
@@ -414,17 +423,27 @@ class ServiceManagerProxy:
                 self.encode(step_used),
                 self.encode_any(result)
             ])
-        except Exception as e:
-            e_str = traceback.format_exc()
-            self.debug(f"Exception in INVOKE:\n{e_str}", TAG)
+        except BaseException as e:
+            self.__debug_exception("Exception in INVOKE")
+            try:
+                message = self.encode_any(f'ExceptionInInvoke({str(e)})')
+            except BaseException:
+                message = self.encode_any('ExceptionInInvoke()')
             self.__client.send(Message.RESULT, [
                 Status.SYSTEM_FAILURE,
                 self.encode(limit),
-                self.encode_any(f'ExceptionInInvoke({str(e)})')
+                message
             ])
         finally:
             self.__readonly = self.__readonly_stack.pop(-1)
 
+    def __debug_exception(self, title: str) -> None:
+        try:
+            self.debug(f"{title}:\n{traceback.format_exc()}", TAG)
+        except BaseException:
+            # it may not be printable
+            self.debug(title, TAG)
+
     def __invoke_score(self, *args) -> Tuple[int, int, Any]:
         # SCORE runs without the stack reserved by the caller
         reserved = sys.getrecursionlimit()
@@ -445,9 +464,8 @@ class ServiceManagerProxy:
                     self.__client.send(Message.GETAPI, [Status.SYSTEM_FAILURE, None])
             else:
                 self.__client.send(Message.GETAPI, [status, None])
-        except Exception:
-            e_str = traceback.format_exc()
-            self.debug(f"Exception in GETAPI:\n{e_str}", TAG)
+        except BaseException:
+            self.__debug_exception("Exception in GETAPI")
             self.__client.send(Message.GETAPI, [Status.SYSTEM_FAILURE, None])
 
     def loop(self):
@@ -468,8 +486,10 @@ class ServiceManagerProxy:
             'method': method,
             'params': params
         }
+        if not isinstance(value, int):
+            raise Exception(f'InvalidValueType:{type(value)}')
         self.__client.send(Message.CALL, [
-            self.encode(to), self.encode(value), self.encode(step_limit),
+            self.__encode_address(to), self.encode(value), self.encode(step_limit),
             self.encode('call'), self.encode_any(data)
         ])
 
@@ -557,7 +577,7 @@ class ServiceManagerProxy:
 
     @_stack_reserved
     def get_balance(self, addr: 'Address') -> int:
-        msg, value = self.send_and_receive(Message.GETBALANCE, self.encode(addr))
+        msg, value = self.send_and_receive(Message.GETBALANCE, self.__encode_address(addr))
         if msg != Message.GETBALANCE:
             raise Exception(f'InvalidMsg({msg}) exp={Message.GETBALANCE}')
         return self.decode(TypeTag.INT, value)
diff --git a/pyee/pyexec/pyexec.py b/pyee/pyexec/pyexec.py
index b82d9bd..40591ca 100644
--- a/pyee/pyexec/pyexec.py
+++ b/pyee/pyexec/pyexec.py
@@ -33,7 +33,7 @@ version_number = 1
 class EECodec(Codec):
     def encode(self, obj) -> Tuple[int, bytes]:
         if isinstance(obj, Address):
-            return TypeTag.ADDRESS, obj.to_bytes()
+            return TypeTag.ADDRESS, Address.to_bytes(obj)
         raise Exception(f"UnknownType: {type(obj)}")
 
     def decode(self, t: int, b: bytes) -> Any:
diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index 4f6f646..54d4c4b 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -69,7 +69,7 @@ class ServiceEngine(ContextContainer):
         finally:
             cls._pop_context()
 
-        Logger.debug(f'*** RESULT: {status}, {step_used}, {ret}', TAG)
+        Logger.debug(f'*** RESULT: {status}, {step_used}, {type(ret)}', TAG)
         return status, step_used, ret
 
     @classmethod
@@ -143,6 +143,14 @@ class ServiceEngine(ContextContainer):
 
     @classmethod
     def _get_status_from_exception(cls, e: BaseException):
+        try:
+            return cls._parse_exception(e)
+        except BaseException:
+            # The exception may be overridden by SCORE not to be readable
+            return ExceptionCode.SYSTEM_ERROR, 'Unreadable exception'
+
+    @classmethod
+    def _parse_exception(cls, e: BaseException):
         if isinstance(e, IconServiceBaseException):
             if isinstance(e, IconScoreException):
                 tag = 'ScoreException'
@@ -152,6 +160,10 @@ class ServiceEngine(ContextContainer):
 
             code = e.code
             message = e.message
+            # A failure should not be reported with other than failure codes
+            if not isinstance(code, int) or \
+                    not ExceptionCode.OK < int.__index__(code) <= ExceptionCode.END:
+                code = ExceptionCode.SYSTEM_ERROR
         else:
             SystemLogger.exception(repr(e), 'SystemError')
 
-- 
2.43.0


From 07e1c35a204661b01e5756fe2019d0eb94495b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 06/43] fix: load a SCORE with the same stack regardless of the
 depth of the call

---
 pyee/pyexec/iconscore/icon_score_loader.py |  2 +
 pyee/pyexec/ipc/proxy.py                   | 39 +++----------
 pyee/pyexec/utils/stack.py                 | 68 ++++++++++++++++++++++
 3 files changed, 78 insertions(+), 31 deletions(-)
 create mode 100644 pyee/pyexec/utils/stack.py

diff --git a/pyee/pyexec/iconscore/icon_score_loader.py b/pyee/pyexec/iconscore/icon_score_loader.py
index 46c8510..e1aefab 100644
--- a/pyee/pyexec/iconscore/icon_score_loader.py
+++ b/pyee/pyexec/iconscore/icon_score_loader.py
@@ -18,6 +18,7 @@ import os
 import sys
 
 from ..base.exception import IllegalFormatException
+from ..utils.stack import stack_separated
 
 PACKAGE_JSON_FILE = 'package.json'
 MAIN_MODULE = 'main_module'
@@ -49,6 +50,7 @@ class IconScoreLoader(object):
         return main_module, main_score
 
     @staticmethod
+    @stack_separated
     def load_module(score_path: str) -> callable:
         if not os.path.exists(score_path):
             return None
diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index 8b2ed5b..56141af 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -15,16 +15,15 @@
 import sys
 import traceback
 from abc import ABCMeta, abstractmethod
-from functools import wraps
 from typing import Any, Tuple, List, Union, Callable, Optional
 
 from .client import Client
+from ..utils.stack import stack_reserved
 
 TAG = 'Proxy'
 
 # Set this value to non-zero value for actual
 MAX_SET_VALUE_HANDLERS = 5
-RESERVED_STACK = 100
 ADDRESS_BYTES = 21
 
 
@@ -124,28 +123,6 @@ class SetValueFlag(object):
 SetHandler = Callable[[bool, int, int], None]
 
 
-def _stack_reserved(func):
-    """
-    Extends the stack while messages are exchanged. Otherwise a SCORE
-    which has exhausted the stack may leave replies unread.
-    """
-    def probe():
-        pass
-
-    @wraps(func)
-    def wrapper(*args, **kwargs):
-        # make sure that the limit can be restored
-        probe()
-        limit = sys.getrecursionlimit()
-        sys.setrecursionlimit(limit + RESERVED_STACK)
-        try:
-            return func(*args, **kwargs)
-        finally:
-            sys.setrecursionlimit(limit)
-
-    return wrapper
-
-
 class Info(object):
     BLOCK_TIMESTAMP = "B.timestamp"
     BLOCK_HEIGHT = "B.height"
@@ -478,7 +455,7 @@ class ServiceManagerProxy:
             elif msg == Message.CLOSE:
                 return
 
-    @_stack_reserved
+    @stack_reserved
     def call(self, to: 'Address', value: int,
              step_limit: int, method: str,
              params: Any) -> Tuple[int, int, Any]:
@@ -502,7 +479,7 @@ class ServiceManagerProxy:
             elif msg == Message.RESULT:
                 return data[0], self.decode(TypeTag.INT, data[1]), self.decode_any(data[2])
 
-    @_stack_reserved
+    @stack_reserved
     def handle_set_values(self) -> bool:
         if len(self.__set_handlers) > 0:
             self.__handle_set_values(0)
@@ -527,7 +504,7 @@ class ServiceManagerProxy:
         self.handle_set_values()
         return self.__client.receive()
 
-    @_stack_reserved
+    @stack_reserved
     def get_value(self, key: bytes) -> Optional[bytes]:
         msg, value = self.send_and_receive(Message.GETVALUE, key)
         if msg != Message.GETVALUE:
@@ -537,7 +514,7 @@ class ServiceManagerProxy:
         else:
             return None
 
-    @_stack_reserved
+    @stack_reserved
     def set_value(self, key: bytes, value: Optional[bytes], cb: Optional[SetHandler]):
         if self.__readonly:
             raise Exception('NoPermissionToWrite')
@@ -562,7 +539,7 @@ class ServiceManagerProxy:
             raise Exception('InvalidParameter')
         self.__client.send(Message.SETFEEPCT, pct)
 
-    @_stack_reserved
+    @stack_reserved
     def contains(self, prefix: bytes, value: bytes, limit: int) -> Tuple[bool, int, int]:
         msg, ret = self.send_and_receive(Message.CONTAINS, [prefix, value, limit])
         if msg != Message.CONTAINS:
@@ -575,14 +552,14 @@ class ServiceManagerProxy:
             raise Exception(f'InvalidMsg({msg}) exp={Message.GETINFO}')
         return self.decode_any(value)
 
-    @_stack_reserved
+    @stack_reserved
     def get_balance(self, addr: 'Address') -> int:
         msg, value = self.send_and_receive(Message.GETBALANCE, self.__encode_address(addr))
         if msg != Message.GETBALANCE:
             raise Exception(f'InvalidMsg({msg}) exp={Message.GETBALANCE}')
         return self.decode(TypeTag.INT, value)
 
-    @_stack_reserved
+    @stack_reserved
     def send_event(self, indexed: List[Any], data: List[Any]):
         if self.__readonly:
             return
diff --git a/pyee/pyexec/utils/stack.py b/pyee/pyexec/utils/stack.py
new file mode 100644
index 0000000..baaf646
--- /dev/null
+++ b/pyee/pyexec/utils/stack.py
@@ -0,0 +1,68 @@
+# Copyright 2023 ICON Foundation
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+#
+#     http://www.apache.org/licenses/LICENSE-2.0
+#
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+
+import sys
+from functools import wraps
+
+RESERVED_STACK = 100
+
+
+def _probe():
+    pass
+
+
+def _depth() -> int:
+    depth = 0
+    frame = sys._getframe()
+    while frame is not None:
+        depth += 1
+        frame = frame.f_back
+    return depth
+
+
+def stack_reserved(func):
+    """
+    Extends the stack while the function is running, so that it doesn't fail
+    in the middle of it because SCORE has exhausted the stack.
+    """
+    @wraps(func)
+    def wrapper(*args, **kwargs):
+        # make sure that the limit can be restored
+        _probe()
+        limit = sys.getrecursionlimit()
+        sys.setrecursionlimit(limit + RESERVED_STACK)
+        try:
+            return func(*args, **kwargs)
+        finally:
+            sys.setrecursionlimit(limit)
+
+    return wrapper
+
+
+def stack_separated(func):
+    """
+    Runs the function with same amount of the stack regardless of current depth
+    """
+    @wraps(func)
+    def wrapper(*args, **kwargs):
+        # make sure that the limit can be restored
+        depth = _depth()
+        limit = sys.getrecursionlimit()
+        sys.setrecursionlimit(limit + depth)
+        try:
+            return func(*args, **kwargs)
+        finally:
+            sys.setrecursionlimit(limit)
+
+    return wrapper
-- 
2.43.0


From e6dec00de7d80f8e63823a629f71c176ee457240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 07/43] fix: keep logging from affecting the execution of a
 SCORE

---
 pyee/pyexec/iconscore/internal_call.py |  5 ++---
 pyee/pyexec/logger/logger.py           | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/pyee/pyexec/iconscore/internal_call.py b/pyee/pyexec/iconscore/internal_call.py
index 7d2f2b9..3590a93 100644
--- a/pyee/pyexec/iconscore/internal_call.py
+++ b/pyee/pyexec/iconscore/internal_call.py
@@ -58,9 +58,8 @@ class InternalCall(object):
             params = arg_params
         else:
             params = []
-        if Logger.isDebugEnabled():
-            Logger.debug(f'>>> from={addr_from} to={addr_to} amount={amount} func_name={func_name}', TAG)
-            Logger.debug(f'    new_limit={new_limit}, params={params}', TAG)
+        # It should not format objects made by SCORE only for the log level
+        Logger.debug(f'>>> from={addr_from} new_limit={new_limit}', TAG)
         status, step_used, result = \
             cls._proxy.call(addr_to, amount, new_limit, func_name, params)
         Logger.debug(f'<<< Result: {status}, {step_used}, {result}', TAG)
diff --git a/pyee/pyexec/logger/logger.py b/pyee/pyexec/logger/logger.py
index 9986289..5fffda7 100644
--- a/pyee/pyexec/logger/logger.py
+++ b/pyee/pyexec/logger/logger.py
@@ -15,9 +15,11 @@
 import logging
 import os
 import sys
+import traceback
 
 from logging import DEBUG, INFO, WARNING, ERROR, currentframe
 from .utils import LoggerUtil
+from ..utils.stack import stack_reserved
 
 default_logger = logging.Logger("python")
 
@@ -40,6 +42,9 @@ class Logger(object):
     @classmethod
     def load_config(cls, config: dict, handler=None):
         LoggerUtil.apply_config(default_logger, config, handler)
+        # The first query for each level takes more stack than others
+        for level in (DEBUG, INFO, WARNING, ERROR):
+            default_logger.isEnabledFor(level)
 
     @classmethod
     def print_config(cls, config: dict):
@@ -80,6 +85,18 @@ class Logger(object):
 
     @classmethod
     def _log(cls, level, msg, args=None, exc_info=None, extra=None):
+        """
+        Log level should not make differences in the execution of SCORE,
+        so it does nothing if there is no room for it in the stack
+        """
+        try:
+            cls._log_record(level, msg, args, exc_info, extra)
+        except RecursionError:
+            pass
+
+    @classmethod
+    @stack_reserved
+    def _log_record(cls, level, msg, args=None, exc_info=None, extra=None):
         """
         Low-level logging routine which creates a LogRecord and then calls
         all the handlers of this logger to handle the record.
@@ -98,6 +115,9 @@ class Logger(object):
         if exc_info:
             if not isinstance(exc_info, tuple):
                 exc_info = sys.exc_info()
+            # The exception itself may be implemented by SCORE
+            msg = f'{msg}\n' + ''.join(traceback.format_tb(exc_info[2])).rstrip()
+            exc_info = None
         record = default_logger.makeRecord(
             default_logger.name, level, fn, lno, msg, args, exc_info, func, extra)
         default_logger.handle(record)
-- 
2.43.0


From f77a5901d81243b4148810ce2aa3693841249913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 08/43] fix: refuse malformed addresses instead of sending them

---
 pyee/pyexec/ipc/proxy.py | 5 +----
 pyee/pyexec/pyexec.py    | 8 ++++++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index 56141af..cb4311d 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -24,7 +24,6 @@ TAG = 'Proxy'
 
 # Set this value to non-zero value for actual
 MAX_SET_VALUE_HANDLERS = 5
-ADDRESS_BYTES = 21
 
 
 # Convert python int to bytes of golang big.Int.
@@ -315,10 +314,8 @@ class ServiceManagerProxy:
             return v
 
     def __encode_address(self, o: 'Address') -> bytes:
-        # The service manager disconnects on a malformed address
+        # Others than address are not acceptable by the service manager
         _, v = self.__codec.encode(o)
-        if len(v) != ADDRESS_BYTES:
-            raise Exception(f'InvalidAddress({v.hex()})')
         return v
 
     def decode_any(self, to: list) -> Any:
diff --git a/pyee/pyexec/pyexec.py b/pyee/pyexec/pyexec.py
index 40591ca..44a0ab5 100644
--- a/pyee/pyexec/pyexec.py
+++ b/pyee/pyexec/pyexec.py
@@ -15,7 +15,7 @@
 from logging import Handler
 from typing import Tuple, Any, List, Optional
 
-from .base.address import Address
+from .base.address import Address, ICON_ADDRESS_BYTES_SIZE
 from .base.block import Block
 from .base.message import Message
 from .base.transaction import Transaction
@@ -33,7 +33,11 @@ version_number = 1
 class EECodec(Codec):
     def encode(self, obj) -> Tuple[int, bytes]:
         if isinstance(obj, Address):
-            return TypeTag.ADDRESS, Address.to_bytes(obj)
+            bs = Address.to_bytes(obj)
+            # The service manager disconnects on a malformed address
+            if len(bs) != ICON_ADDRESS_BYTES_SIZE:
+                raise Exception(f"InvalidAddress: {bs.hex()}")
+            return TypeTag.ADDRESS, bs
         raise Exception(f"UnknownType: {type(obj)}")
 
     def decode(self, t: int, b: bytes) -> Any:
-- 
2.43.0


From 8134f66f88cfb67cd61a769c5c12e4330beb91ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 09/43] fix: keep formatting of SCORE's objects from affecting
 logs and exchanges

---
 pyee/pyexec/ipc/proxy.py      | 9 +++++++++
 pyee/pyexec/logger/logger.py  | 8 ++++----
 pyee/pyexec/logger/utils.py   | 4 +++-
 pyee/pyexec/service_engine.py | 6 +++---
 4 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index cb4311d..2202c95 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -403,6 +403,7 @@ class ServiceManagerProxy:
                 message = self.encode_any(f'ExceptionInInvoke({str(e)})')
             except BaseException:
                 message = self.encode_any('ExceptionInInvoke()')
+            self.__discard_set_values()
             self.__client.send(Message.RESULT, [
                 Status.SYSTEM_FAILURE,
                 self.encode(limit),
@@ -496,6 +497,14 @@ class ServiceManagerProxy:
                 else:
                     handler(False, 0, 0)
 
+    def __discard_set_values(self):
+        # to consume acknowledgements which are not processed by the invocation
+        while len(self.__set_handlers) > 0:
+            self.__set_handlers.pop(0)
+            msg, _ = self.__client.receive()
+            if msg != Message.SETVALUE:
+                raise Exception(f'InvalidMsg({msg}) exp={Message.SETVALUE}')
+
     def send_and_receive(self, msg: int, data: bytes) -> Tuple[int, Any]:
         self.__client.send(msg, data)
         self.handle_set_values()
diff --git a/pyee/pyexec/logger/logger.py b/pyee/pyexec/logger/logger.py
index 5fffda7..b0ae211 100644
--- a/pyee/pyexec/logger/logger.py
+++ b/pyee/pyexec/logger/logger.py
@@ -66,15 +66,15 @@ class Logger(object):
 
     @classmethod
     def warning(cls, msg: str, tag: str = "WARN"):
-        if default_logger.isEnabledFor(WARNING):
+        if default_logger.isEnabledFor(INFO):
             # redirect warning to info
-            cls.info(msg, tag)
+            cls._log(INFO, LoggerUtil.make_log_msg(tag, msg))
 
     @classmethod
     def error(cls, msg: str, tag: str = "ERROR"):
-        if default_logger.isEnabledFor(ERROR):
+        if default_logger.isEnabledFor(INFO):
             # redirect error to info
-            cls.info(msg, tag)
+            cls._log(INFO, LoggerUtil.make_log_msg(tag, msg))
 
     @classmethod
     def exception(cls, msg: str, tag: str = "LOG"):
diff --git a/pyee/pyexec/logger/utils.py b/pyee/pyexec/logger/utils.py
index 1a711a8..eb09dae 100644
--- a/pyee/pyexec/logger/utils.py
+++ b/pyee/pyexec/logger/utils.py
@@ -124,4 +124,6 @@ class LoggerUtil(object):
 
     @classmethod
     def make_log_msg(cls, tag: str, msg: Union[str, BaseException]):
-        return f'[{tag}] {msg}'
+        # SCORE may pass an object, whose formatting should not depend on log level
+        text = str.__str__(msg) if isinstance(msg, str) else object.__repr__(msg)
+        return f'[{tag}] {text}'
diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index 54d4c4b..b4abb81 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -98,6 +98,9 @@ class ServiceEngine(ContextContainer):
         except BaseException as e:
             status, ret = cls._get_status_from_exception(e)
 
+        if context.fee_sharing_proportion > 0:
+            cls._proxy.set_fee_proportion(context.fee_sharing_proportion)
+
         # Deferred charges may run out of steps
         pending = True
         while pending:
@@ -106,9 +109,6 @@ class ServiceEngine(ContextContainer):
             except OutOfStepException as e:
                 status, ret = cls._get_status_from_exception(e)
 
-        if context.fee_sharing_proportion > 0:
-            cls._proxy.set_fee_proportion(context.fee_sharing_proportion)
-
         return status, context.step_counter.step_used, ret
 
     @classmethod
-- 
2.43.0


From 741eb8e2b1c42671ab2ce236d5d50ce43ca24c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:12 +0000
Subject: [PATCH 10/43] fix: check the method before converting its keyword
 arguments

---
 pyee/pyexec/iconscore/icon_score_base.py | 20 +++++++++++++-------
 pyee/pyexec/service_engine.py            |  3 +++
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/pyee/pyexec/iconscore/icon_score_base.py b/pyee/pyexec/iconscore/icon_score_base.py
index 72cb6e8..857e4c0 100644
--- a/pyee/pyexec/iconscore/icon_score_base.py
+++ b/pyee/pyexec/iconscore/icon_score_base.py
@@ -428,6 +428,18 @@ class IconScoreBase(IconScoreObject, ContextGetter,
             raise MethodNotFoundException(
                 f"Method not found: {type(self).__name__}.{func_name}")
 
+    def __validate_callable(self, func_name: str) -> None:
+        """Validate the method indicated by func_name can be called by the message
+
+        :param func_name: name of method
+        """
+        if func_name == STR_FALLBACK:
+            if not self.__is_payable_method(func_name):
+                raise MethodNotFoundException(
+                    f"Method not found: {type(self).__name__}.{func_name}")
+        elif func_name != STR_ON_INSTALL and func_name != STR_ON_UPDATE:
+            self.__validate_external_method(func_name)
+
     @classmethod
     def __get_score_element_metadata(cls) -> ScoreElementMetadataContainer:
         return getattr(cls, CONST_CLASS_ELEMENT_METADATA)
@@ -437,15 +449,9 @@ class IconScoreBase(IconScoreObject, ContextGetter,
                arg_params: Optional[list] = None,
                kw_params: Optional[dict] = None) -> Any:
 
-        if func_name != STR_FALLBACK and \
-                func_name != STR_ON_INSTALL and \
-                func_name != STR_ON_UPDATE:
-            self.__validate_external_method(func_name)
+        self.__validate_callable(func_name)
 
         if func_name == STR_FALLBACK:
-            if not self.__is_payable_method(func_name):
-                raise MethodNotFoundException(
-                    f"Method not found: {type(self).__name__}.{func_name}")
             score_func = getattr(self, func_name)
             ret = score_func()
         else:
diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index b4abb81..b847b7b 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -121,6 +121,9 @@ class ServiceEngine(ContextContainer):
         context.set_func_type_by_icon_score(icon_score, func_name)
 
         if isinstance(context.params, dict):
+            # Only the methods which can be called may be accessed for the conversion
+            validate_callable = getattr(icon_score, '_IconScoreBase__validate_callable')
+            validate_callable(func_name)
             arg_params = []
             params: dict = decode_params(context.params)
             kw_params = cls._convert_score_params_by_annotations(icon_score, func_name, params)
-- 
2.43.0


From 5a357c3d6828e27ad8d90c1754e09731f0f5ed86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 11/43] fix: refuse to set fee sharing proportion in read-only
 methods

---
 pyee/pyexec/iconscore/icon_score_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyee/pyexec/iconscore/icon_score_base.py b/pyee/pyexec/iconscore/icon_score_base.py
index 857e4c0..e70282f 100644
--- a/pyee/pyexec/iconscore/icon_score_base.py
+++ b/pyee/pyexec/iconscore/icon_score_base.py
@@ -50,7 +50,7 @@ from ..base.exception import *
 from ..base.message import Message
 from ..base.transaction import Transaction
 from ..database.db import IconScoreDatabase
-from ..icon_constant import ICX_TRANSFER_EVENT_LOG, IconScoreContextType
+from ..icon_constant import ICX_TRANSFER_EVENT_LOG
 from ..utils import get_main_type_from_annotations_type
 
 INDEXED_ARGS_LIMIT = 3
@@ -632,7 +632,7 @@ class IconScoreBase(IconScoreObject, ContextGetter,
         return self._context.fee_sharing_proportion
 
     def set_fee_sharing_proportion(self, proportion: int):
-        if self._context.type == IconScoreContextType.QUERY:
+        if self._context.readonly:
             raise InvalidRequestException("Cannot set fee sharing proportion in read-only context")
         if proportion < 0 or proportion > 100:
             raise InvalidRequestException("Invalid proportion: should be between 0 and 100")
-- 
2.43.0


From f5fd0ade23fb562fc225658587319224bcbf7e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 12/43] fix: validate imports of modules having many names or
 constants

---
 .../iconscore/score_package_validator.py      | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/iconscore/score_package_validator.py b/pyee/pyexec/iconscore/score_package_validator.py
index ed66daf..1eb57a5 100644
--- a/pyee/pyexec/iconscore/score_package_validator.py
+++ b/pyee/pyexec/iconscore/score_package_validator.py
@@ -27,6 +27,7 @@ LOAD_CONST = 100
 IMPORT_STAR = 84
 IMPORT_NAME = 108
 IMPORT_FROM = 109
+EXTENDED_ARG = 144
 
 BASE_PACKAGE = 'iconservice'
 
@@ -123,7 +124,7 @@ class ScorePackageValidator(object):
         if not hasattr(code, CODE_ATTR):
             return
 
-        byte_code_list = [x for x in code.co_code]
+        byte_code_list = cls._apply_extended_arg(code.co_code)
 
         length_byte_code_list = len(byte_code_list)
         for code_index in range(OPCODE_HEADER_END_INDEX, length_byte_code_list, 2):
@@ -131,6 +132,22 @@ class ScorePackageValidator(object):
             if IMPORT_NAME == key:
                 cls._validate_import(code_index, byte_code_list, code.co_names, code.co_consts)
 
+    @staticmethod
+    def _apply_extended_arg(byte_code: bytes) -> list:
+        """ Returns pairs of an opcode and its argument without EXTENDED_ARG,
+        which is used if the module has more than 256 names or constants.
+        """
+        result = []
+        extended = 0
+        for opcode, arg in zip(byte_code[0::2], byte_code[1::2]):
+            arg |= extended
+            if opcode == EXTENDED_ARG:
+                extended = arg << 8
+            else:
+                extended = 0
+                result += [opcode, arg]
+        return result
+
     @classmethod
     def _validate_import_from_const(cls, co_consts: tuple):
         for co_const in co_consts:
-- 
2.43.0


From df71aea6e88f11020f8d3c5799d3d24552bef7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 13/43] fix: recognize import star of the recent python in
 package validation

---
 pyee/pyexec/iconscore/score_package_validator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/iconscore/score_package_validator.py b/pyee/pyexec/iconscore/score_package_validator.py
index 1eb57a5..09c6b95 100644
--- a/pyee/pyexec/iconscore/score_package_validator.py
+++ b/pyee/pyexec/iconscore/score_package_validator.py
@@ -28,6 +28,9 @@ IMPORT_STAR = 84
 IMPORT_NAME = 108
 IMPORT_FROM = 109
 EXTENDED_ARG = 144
+# import star is a function of CALL_INTRINSIC_1 since python 3.12
+CALL_INTRINSIC_1 = 173
+INTRINSIC_IMPORT_STAR = 2
 
 BASE_PACKAGE = 'iconservice'
 
@@ -209,7 +212,9 @@ class ScorePackageValidator(object):
             return
         else:
             next_op_code_key = byte_code_list[current_index + 2]
-            if IMPORT_STAR == next_op_code_key:
+            if IMPORT_STAR == next_op_code_key or \
+                    (CALL_INTRINSIC_1 == next_op_code_key and
+                     INTRINSIC_IMPORT_STAR == byte_code_list[current_index + 3]):
                 # import_star
                 if from_list[0] != '*':
                     raise IllegalFormatException(f'Invalid star import: {import_name}')
-- 
2.43.0


From 08257164d163897546e0a722c0e05a0c7f3bc82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:51 +0000
Subject: [PATCH 14/43] fix: do not run modules of the package while validating
 it

---
 pyee/pyexec/iconscore/score_package_validator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyee/pyexec/iconscore/score_package_validator.py b/pyee/pyexec/iconscore/score_package_validator.py
index 09c6b95..a0fe7dc 100644
--- a/pyee/pyexec/iconscore/score_package_validator.py
+++ b/pyee/pyexec/iconscore/score_package_validator.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import importlib.machinery
 import importlib.util
 import os
 import sys
@@ -91,8 +92,9 @@ class ScorePackageValidator(object):
         for imp in cls.CUSTOM_IMPORT_LIST:
             full_name = f'{package}.{imp}'
 
-            spec = importlib.util.find_spec(full_name)
-            code = spec.loader.get_code(full_name)
+            # Do not find it with the import system, which runs the packages containing it
+            file_path = os.path.join(code_path, *imp.split('.')) + '.py'
+            code = importlib.machinery.SourceFileLoader(full_name, file_path).get_code(full_name)
 
             cls._validate_import_from_code(code)
             cls._validate_import_from_const(code.co_consts)
-- 
2.43.0


From c5bada27b31cdd088c287274657278263357c3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:53 +0000
Subject: [PATCH 15/43] fix: refuse packages including modules without source

---
 pyee/pyexec/iconscore/score_package_validator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyee/pyexec/iconscore/score_package_validator.py b/pyee/pyexec/iconscore/score_package_validator.py
index a0fe7dc..553c730 100644
--- a/pyee/pyexec/iconscore/score_package_validator.py
+++ b/pyee/pyexec/iconscore/score_package_validator.py
@@ -107,6 +107,7 @@ class ScorePackageValidator(object):
             for file in filenames:
                 file_name, extension = os.path.splitext(file)
                 if extension != '.py':
+                    cls._validate_not_importable(file)
                     continue
                 sub_pkg_path = os.path.relpath(dir_path, pkg_root_path)
                 if sub_pkg_path == '.':
@@ -118,6 +119,13 @@ class ScorePackageValidator(object):
                 tmp_list.append(pkg_path)
         return tmp_list
 
+    @classmethod
+    def _validate_not_importable(cls, file: str):
+        # Modules without source also may be imported
+        for suffix in importlib.machinery.all_suffixes():
+            if file.endswith(suffix) and file[:-len(suffix)].isidentifier():
+                raise IllegalFormatException(f'Invalid module file: {file}')
+
     @classmethod
     def _validate_blacklist_keyword_from_names(cls, co_names: tuple):
         for co_name in co_names:
-- 
2.43.0


From 002fb8fcdbfc43377b9d70be0b0820b058f96f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 16/43] fix: let the node send back values of more than 10 MiB

---
 pyee/pyexec/ipc/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/ipc/client.py b/pyee/pyexec/ipc/client.py
index 471e7e8..16ce0a6 100644
--- a/pyee/pyexec/ipc/client.py
+++ b/pyee/pyexec/ipc/client.py
@@ -37,7 +37,8 @@ class Client:
         sock.connect(address)
         self.conn = sock
         self.unpacker = msgpack.Unpacker(self,
-                                         max_bin_len=10*1024*1024,
+                                         # SCORE may make the service manager send back any value
+                                         max_bin_len=2**31-1,
                                          max_buffer_size=2**31)
 
     def write(self, b: bytes) -> None:
-- 
2.43.0


From 1a51498dab2ca8f7c7058431e97a85b429e2f739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 17/43] fix: proving a key without value that ends in a branch
 of the trie fails instead of giving nil

---
 common/trie/ompt/branch.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/common/trie/ompt/branch.go b/common/trie/ompt/branch.go
index 7f39fd4..ebda576 100644
--- a/common/trie/ompt/branch.go
+++ b/common/trie/ompt/branch.go
@@ -339,15 +339,16 @@ func (n *branch) prove(m *mpt, keys []byte, proof [][]byte) (nn node, obj trie.O
 	}
 
 	if len(keys) == 0 {
-		if n.value != nil {
-			value, changed, err := m.getObject(n.value)
-			if err != nil {
-				return n, nil, err
-			}
-			if changed {
-				lock.Migrate()
-				n.value = value
-			}
+		if n.value == nil {
+			return n, nil, common.ErrNotFound
+		}
+		value, changed, err := m.getObject(n.value)
+		if err != nil {
+			return n, nil, err
+		}
+		if changed {
+			lock.Migrate()
+			n.value = value
 		}
 		return n, n.value, nil
 	}
-- 
2.43.0


From 0175932f315d8941119a236b021e55c2701dee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 18/43] fix: a failing read while deleting below an extension
 of the trie was not reported

---
 common/trie/ompt/extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/trie/ompt/extension.go b/common/trie/ompt/extension.go
index 83a79a2..87fe650 100644
--- a/common/trie/ompt/extension.go
+++ b/common/trie/ompt/extension.go
@@ -193,7 +193,7 @@ func (n *extension) delete(m *mpt, nibs []byte, depth int) (node, bool, trie.Obj
 			n.next = next
 		}
 	}
-	return n, false, nil, nil
+	return n, false, nil, err
 }
 
 func (n *extension) get(m *mpt, nibs []byte, depth int) (node, trie.Object, error) {
-- 
2.43.0


From 1c36e56e0cacecdd97b98384936e4414ab3d217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:43 +0000
Subject: [PATCH 19/43] fix: a candidate which cannot be an active validator
 does not fail the selection of the others

---
 havah/hvh/hvhstate/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/havah/hvh/hvhstate/state.go b/havah/hvh/hvhstate/state.go
index f3db644..296e2f7 100644
--- a/havah/hvh/hvhstate/state.go
+++ b/havah/hvh/hvhstate/state.go
@@ -1405,7 +1405,7 @@ func (s *State) GetNextActiveValidatorsAndChangeIndex(
 			return nil, err
 		}
 	}
-	return nextActiveValidators, err
+	return nextActiveValidators, nil
 }
 
 func (s *State) GetSubValidatorsIndex() int64 {
-- 
2.43.0


From 7fb512a43574efc4dc07108cdc793c08855e5644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:43 +0000
Subject: [PATCH 20/43] fix: replace penalized validators in the same order on
 all nodes

---
 havah/hvh/decentralization.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/havah/hvh/decentralization.go b/havah/hvh/decentralization.go
index a9c944c..9cdeb93 100644
--- a/havah/hvh/decentralization.go
+++ b/havah/hvh/decentralization.go
@@ -1,6 +1,8 @@
 package hvh
 
 import (
+	"sort"
+
 	"github.com/icon-project/goloop/common/errors"
 	"github.com/icon-project/goloop/havah/hvh/hvhstate"
 	"github.com/icon-project/goloop/havah/hvhmodule"
@@ -160,11 +162,18 @@ func (es *ExtensionStateImpl) replacePenalizedActiveValidators(
 		return err
 	}
 
+	// All nodes should replace them in the same order
+	indexes := make([]int, 0, len(m))
+	for idx := range m {
+		indexes = append(indexes, idx)
+	}
+	sort.Ints(indexes)
+
 	i := 0
 	oc := validatorState.Len()
 	var owner module.Address
 	var validator module.Validator
-	for idx := range m {
+	for _, idx := range indexes {
 		info, _ := m[idx]
 		onActiveValidatorRemoved(cc, info.owner, info.validator.Address(), "penalized")
 
-- 
2.43.0


From 22643d1b59211085994680da5c843fe760d33b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:13 +0000
Subject: [PATCH 21/43] fix: validators without an owner can be replaced when
 the decentralization starts

---
 havah/hvh/decentralization.go | 6 +++++-
 havah/hvh/eventlog.go         | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/havah/hvh/decentralization.go b/havah/hvh/decentralization.go
index 9cdeb93..5c90fd5 100644
--- a/havah/hvh/decentralization.go
+++ b/havah/hvh/decentralization.go
@@ -7,6 +7,7 @@ import (
 	"github.com/icon-project/goloop/havah/hvh/hvhstate"
 	"github.com/icon-project/goloop/havah/hvhmodule"
 	"github.com/icon-project/goloop/module"
+	"github.com/icon-project/goloop/service/scoreresult"
 	"github.com/icon-project/goloop/service/state"
 )
 
@@ -74,7 +75,10 @@ func (es *ExtensionStateImpl) initActiveValidatorSet(cc hvhmodule.CallContext) e
 
 		owner, err = es.state.GetOwnerByNode(node)
 		if err != nil {
-			return err
+			// Validators before the decentralization may have no owner
+			if status, _ := scoreresult.StatusOf(err); v >= 0 || status != hvhmodule.StatusNotFound {
+				return err
+			}
 		}
 		if v < 0 {
 			onActiveValidatorRemoved(cc, owner, node, "termchange")
diff --git a/havah/hvh/eventlog.go b/havah/hvh/eventlog.go
index ba264f4..d5932d6 100644
--- a/havah/hvh/eventlog.go
+++ b/havah/hvh/eventlog.go
@@ -3,6 +3,7 @@ package hvh
 import (
 	"math/big"
 
+	"github.com/icon-project/goloop/common"
 	"github.com/icon-project/goloop/common/intconv"
 	"github.com/icon-project/goloop/havah/hvhmodule"
 	"github.com/icon-project/goloop/module"
@@ -182,7 +183,7 @@ func onActiveValidatorRemoved(cc hvhmodule.CallContext, owner, node module.Addre
 		state.SystemAddress,
 		[][]byte{
 			[]byte(signature),
-			owner.Bytes(),
+			common.BytesOfAddress(owner),
 		},
 		[][]byte{
 			node.Bytes(),
-- 
2.43.0


From b2ae207e9903f29e135428c37955c6381506868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:55 +0000
Subject: [PATCH 22/43] fix: look up duplicates of a transaction in all
 unfinalized blocks

---
 common/txlocator/manager.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/common/txlocator/manager.go b/common/txlocator/manager.go
index bec0e19..ce42970 100644
--- a/common/txlocator/manager.go
+++ b/common/txlocator/manager.go
@@ -413,6 +413,26 @@ func (t *tracker) parentHasInLock(id []byte, ts int64) (bool, error) {
 	}
 }
 
+// ancestorHasInLock looks up the transaction in all preceding blocks. Unlike
+// Has(), it doesn't skip a block by its threshold, because the last timestamp
+// is also valid for the block, and the threshold may be changed by following
+// blocks.
+func (t *tracker) ancestorHasInLock(id []byte, ts int64) (bool, error) {
+	if t.parent == nil {
+		return t.manager.Has(t.list.group, id, ts)
+	}
+	p := t.parent
+	p.lock.Lock()
+	defer p.lock.Unlock()
+
+	if p.locators != nil {
+		if _, ok := p.locators[string(id)]; ok {
+			return true, nil
+		}
+	}
+	return p.ancestorHasInLock(id, ts)
+}
+
 func (t *tracker) Add(list module.TransactionList, force bool) (int, error) {
 	t.lock.Lock()
 	defer t.lock.Unlock()
@@ -435,7 +455,7 @@ func (t *tracker) Add(list module.TransactionList, force bool) (int, error) {
 				return cnt, errors.IllegalArgumentError.Errorf("DuplicateTx(id=%#x)", id)
 			}
 			if !force {
-				if has, err := t.parentHasInLock(id, txi.Timestamp()) ; err != nil {
+				if has, err := t.ancestorHasInLock(id, txi.Timestamp()) ; err != nil {
 					return cnt, err
 				} else if has {
 					return cnt, errors.IllegalArgumentError.Errorf("DuplicateTx(id=%#x)", id)
-- 
2.43.0


From ea507637fa368a4fceeee8dd44a3b53d0cf9a92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:56 +0000
Subject: [PATCH 23/43] fix: look up the database for the transaction with the
 maximum timestamp in it

---
 common/txlocator/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/txlocator/manager.go b/common/txlocator/manager.go
index ce42970..d49dafd 100644
--- a/common/txlocator/manager.go
+++ b/common/txlocator/manager.go
@@ -153,7 +153,7 @@ func (m *manager) hasLocatorInCache(group module.TransactionGroup, id []byte, ts
 	if _, ok := m.locators[string(id)]; ok {
 		return ok, true
 	}
-	if l := m.cache[group].maxTSInDB; l != 0 && l <= ts {
+	if l := m.cache[group].maxTSInDB; l != 0 && l < ts {
 		return false, true
 	}
 	return false, false
-- 
2.43.0


From 694ae14d6c86239af7b754e272429224fe8e2a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:33 +0000
Subject: [PATCH 24/43] fix: refuse transactions with unknown data type

A signed transaction with unknown dataType passed Verify(), but there is no
handler for it. So, the block including it can't be executed.
---
 service/transaction/transaction_v3.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/service/transaction/transaction_v3.go b/service/transaction/transaction_v3.go
index 03a8556..a8cb901 100644
--- a/service/transaction/transaction_v3.go
+++ b/service/transaction/transaction_v3.go
@@ -210,6 +210,10 @@ func (tx *transactionV3) Verify() error {
 			// if _, err := contract.ParseDepositData(tx.Data); err != nil {
 			// 	return InvalidTxValue.Wrap(err, "TxData is invalid")
 			// }
+		case contract.DataTypeMessage:
+			// any data is allowed
+		default:
+			return InvalidTxValue.Errorf("InvalidDataType(%s)", *tx.DataType)
 		}
 	}
 
-- 
2.43.0


From 0b08f1533e6f51106abe6115de45318022584b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:33 +0000
Subject: [PATCH 25/43] fix: deposit to a contract without owner fails instead
 of panic

---
 service/contract/deposithandler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/service/contract/deposithandler.go b/service/contract/deposithandler.go
index 1250793..bdfd260 100644
--- a/service/contract/deposithandler.go
+++ b/service/contract/deposithandler.go
@@ -111,7 +111,7 @@ func (h *DepositHandler) ExecuteSync(cc CallContext) (err error, ro *codec.Typed
 			"InvalidAddress(%s)", h.To.String()), nil, nil
 	}
 
-	if owner := as2.ContractOwner(); !owner.Equal(h.From) {
+	if owner := as2.ContractOwner(); owner == nil || !owner.Equal(h.From) {
 		return scoreresult.InvalidRequestError.New("NotOwner"), nil, nil
 	}
 
-- 
2.43.0


From da35896295517e6919108b3f9eabda2bd998ad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:33 +0000
Subject: [PATCH 26/43] fix: accept only transactions from users for the pool

Base transactions and genesis transactions don't have signatures. If they are
sent by clients or peers, then they are included in the proposed block and
the block is refused.
---
 service/transactionmanager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/service/transactionmanager.go b/service/transactionmanager.go
index a7b2aae..ec1ffd9 100644
--- a/service/transactionmanager.go
+++ b/service/transactionmanager.go
@@ -196,6 +196,10 @@ func (m *TransactionManager) VerifyTx(tx transaction.Transaction) error {
 	if tx.Version() < transaction.Version3 {
 		return InvalidTransactionError.New("IllegalTransactionVersion")
 	}
+	// transactions made by block proposers (or genesis) are not skippable.
+	if tx.Group() == module.TransactionGroupNormal && !tx.IsSkippable() {
+		return InvalidTransactionError.New("NotAllowedToSend")
+	}
 	if err := tx.Verify(); err != nil {
 		return InvalidTransactionError.Wrap(err,
 			"Failed to verify transaction")
-- 
2.43.0


From 654110a0b1abc2850d2dea7101075ce23b716441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:33 +0000
Subject: [PATCH 27/43] fix: issue nothing at the start of the term if the
 amount is zero

The base transaction is required at the start of the term, but the proposer
didn't make it with zero issue amount.
---
 havah/hvh/extension.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/havah/hvh/extension.go b/havah/hvh/extension.go
index 060daea..3ab6bad 100644
--- a/havah/hvh/extension.go
+++ b/havah/hvh/extension.go
@@ -183,8 +183,9 @@ func (es *ExtensionStateImpl) NewBaseTransactionData(height int64) map[string]in
 	issueAmount := es.state.GetIssueAmount(height, issueStart)
 	if issueAmount == nil || issueAmount.Sign() <= 0 {
 		termPeriod := es.GetTermPeriod()
-		_, blockIndex := hvhstate.GetTermSequenceAndBlockIndex(height, issueStart, termPeriod)
-		if !es.IsItTimeToCheckBlockVote(blockIndex) {
+		termSeq, blockIndex := hvhstate.GetTermSequenceAndBlockIndex(height, issueStart, termPeriod)
+		termStart := termSeq >= 0 && blockIndex == 0
+		if !termStart && !es.IsItTimeToCheckBlockVote(blockIndex) {
 			return nil
 		}
 
-- 
2.43.0


From b19bfece2ecb5eb44b977379e712e84b6c55372f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:33 +0000
Subject: [PATCH 28/43] fix: check the group of transactions in the block

A transaction in the list of other group is tracked separately, so a user's
transaction in both of the lists is executed twice.
---
 service/transition.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/service/transition.go b/service/transition.go
index 89fb107..f8a23c1 100644
--- a/service/transition.go
+++ b/service/transition.go
@@ -694,13 +694,13 @@ func (t *transition) doExecute(alreadyValidated bool) {
 		} else {
 			tsr = NewDummyTimeStampRange()
 		}
-		err = t.validateTxs(t.patchTransactions, wc, tsr)
+		err = t.validateTxs(t.patchTransactions, module.TransactionGroupPatch, wc, tsr)
 		if err != nil {
 			t.reportValidation(err)
 			return
 		}
 		tsr = NewTxTimestampRangeFor(wc, module.TransactionGroupNormal)
-		err = t.validateTxs(t.normalTransactions, wc, tsr)
+		err = t.validateTxs(t.normalTransactions, module.TransactionGroupNormal, wc, tsr)
 		if err != nil {
 			t.reportValidation(err)
 			return
@@ -877,7 +877,7 @@ func (t *transition) minimumTxVersion(wc state.WorldContext) int {
 	}
 }
 
-func (t *transition) validateTxs(l module.TransactionList, wc state.WorldContext, tsr TimestampRange) error {
+func (t *transition) validateTxs(l module.TransactionList, g module.TransactionGroup, wc state.WorldContext, tsr TimestampRange) error {
 	if l == nil {
 		return nil
 	}
@@ -893,6 +893,9 @@ func (t *transition) validateTxs(l module.TransactionList, wc state.WorldContext
 		}
 		tx := txi.(transaction.Transaction)
 
+		if tx.Group() != g {
+			return transaction.InvalidTxValue.Errorf("InvalidTxGroup(id=%#x,group=%d)", tx.ID(), tx.Group())
+		}
 		if tx.Version() < minVersion {
 			return transaction.InvalidTxValue.Errorf("InvalidTxVersion(id=%#x,version=%d)", tx.ID(), tx.Version())
 		}
-- 
2.43.0


From 9238130a9e13dfefc3183010204aa35c224f6fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:33 +0000
Subject: [PATCH 29/43] fix: verify base transactions before accepting the
 block

Base transactions which aren't the first in the block, which have no data or
have invalid data were accepted, and execution of them fails, panics or never
succeeds.
---
 havah/hvh/base.go | 52 ++++++++++++++++++++++++++++++++++++++++++++++-
 havah/platform.go | 35 +++++++++++++++++++++++--------
 2 files changed, 77 insertions(+), 10 deletions(-)

diff --git a/havah/hvh/base.go b/havah/hvh/base.go
index 59cd506..eb4a7f2 100644
--- a/havah/hvh/base.go
+++ b/havah/hvh/base.go
@@ -38,6 +38,8 @@ import (
 	"github.com/icon-project/goloop/service/txresult"
 )
 
+const baseDataType = "base"
+
 type baseDataJSON struct {
 	IssueAmount common.HexInt `json:"issueAmount"`
 }
@@ -171,6 +173,17 @@ func (tx *baseV3) ID() []byte {
 	return tx.id
 }
 
+// updateID calculates ID of the transaction. It must be called on parsing it
+// because it fails if the data can't be serialized.
+func (tx *baseV3) updateID() error {
+	id, err := tx.baseV3Data.calcHash()
+	if err != nil {
+		return transaction.InvalidFormat.Wrap(err, "InvalidData")
+	}
+	tx.id = id
+	return nil
+}
+
 func (tx *baseV3) From() module.Address {
 	return state.SystemAddress
 }
@@ -194,6 +207,16 @@ func (tx *baseV3) Hash() []byte {
 }
 
 func (tx *baseV3) Verify() error {
+	if tx.DataType != baseDataType {
+		return transaction.InvalidFormat.Errorf("InvalidDataType(%s)", tx.DataType)
+	}
+	baseData, err := parseBaseData(tx.Data)
+	if err != nil {
+		return transaction.InvalidFormat.Wrap(err, "InvalidBaseData")
+	}
+	if baseData == nil {
+		return transaction.InvalidFormat.New("NoBaseData")
+	}
 	return nil
 }
 
@@ -237,7 +260,7 @@ func (tx *baseV3) IsSkippable() bool {
 }
 
 func checkBaseV3JSON(jso map[string]interface{}) bool {
-	if d, ok := jso["dataType"]; !ok || d != "base" {
+	if d, ok := jso["dataType"]; !ok || d != baseDataType {
 		return false
 	}
 	if v, ok := jso["version"]; !ok || v != "0x3" {
@@ -254,6 +277,9 @@ func parseBaseV3JSON(bs []byte, jsm map[string]any, raw bool) (transaction.Trans
 	if tx.baseV3Data.From != nil {
 		return nil, transaction.InvalidFormat.New("InvalidFromValue(NonNil)")
 	}
+	if err := tx.updateID(); err != nil {
+		return nil, err
+	}
 	return tx, nil
 }
 
@@ -275,6 +301,9 @@ func parseBaseV3Bytes(bs []byte) (transaction.Transaction, error) {
 	if _, err := codec.BC.UnmarshalFromBytes(bs, &tx.baseV3Data); err != nil {
 		return nil, err
 	}
+	if err := tx.updateID(); err != nil {
+		return nil, err
+	}
 	return tx, nil
 }
 
@@ -619,6 +648,27 @@ func increaseScoreVarDB(cc hvhmodule.CallContext, score module.Address, key stri
 	return varDB.Set(value)
 }
 
+// VerifyBaseTX checks whether the data of the base transaction is the same
+// as the expected one for the height.
+func (es *ExtensionStateImpl) VerifyBaseTX(tx module.Transaction, height int64) error {
+	btx, ok := transaction.Unwrap(tx).(*baseV3)
+	if !ok {
+		return transaction.InvalidFormat.New("NotBaseTransaction")
+	}
+	baseData, err := parseBaseData(btx.Data)
+	if err != nil {
+		return transaction.InvalidFormat.Wrap(err, "InvalidBaseData")
+	}
+	if baseData == nil {
+		return transaction.InvalidFormat.New("NoBaseData")
+	}
+	if issueAmount := es.state.GetIssueAmount(height, es.GetIssueStart()); issueAmount.Cmp(baseData.IssueAmount.Value()) != 0 {
+		return transaction.InvalidTxValue.Errorf("InvalidIssueAmount(exp=%d,real=%d)",
+			issueAmount, baseData.IssueAmount.Value())
+	}
+	return nil
+}
+
 func CheckBaseTX(tx module.Transaction) bool {
 	_, ok := transaction.Unwrap(tx).(*baseV3)
 	return ok
diff --git a/havah/platform.go b/havah/platform.go
index fa9dffc..d747887 100644
--- a/havah/platform.go
+++ b/havah/platform.go
@@ -84,13 +84,24 @@ func (p *platform) OnExtensionSnapshotFinalization(state.ExtensionSnapshot, log.
 	// Do nothing
 }
 
-func checkBaseTX(txs module.TransactionList) bool {
-	tx, err := txs.Get(0)
-	if err == nil {
-		return hvh.CheckBaseTX(tx)
-	} else {
-		return false
+// getBaseTX returns the base transaction in the list.
+// It fails if there is a base transaction which isn't the first one.
+func getBaseTX(txs module.TransactionList) (module.Transaction, error) {
+	var baseTX module.Transaction
+	for itr := txs.Iterator(); itr.Has(); itr.Next() {
+		tx, idx, err := itr.Get()
+		if err != nil {
+			return nil, err
+		}
+		if !hvh.CheckBaseTX(tx) {
+			continue
+		}
+		if idx != 0 {
+			return nil, errors.IllegalArgumentError.Errorf("BaseMustBeTheFirst(idx=%d)", idx)
+		}
+		baseTX = tx
 	}
+	return baseTX, nil
 }
 
 func (p *platform) OnValidateTransactions(wc state.WorldContext, patches, txs module.TransactionList) error {
@@ -109,15 +120,21 @@ func (p *platform) OnValidateTransactions(wc state.WorldContext, patches, txs mo
 			issueStart, termPeriod, termSeq, blockIndex, needBaseTX,
 		)
 	}
-	if hasBaseTX := checkBaseTX(txs); needBaseTX == hasBaseTX {
-		return nil
-	} else {
+	baseTX, err := getBaseTX(txs)
+	if err != nil {
+		return err
+	}
+	if hasBaseTX := baseTX != nil; needBaseTX != hasBaseTX {
 		if needBaseTX {
 			return errors.IllegalArgumentError.New("NoBaseTransaction")
 		} else {
 			return errors.IllegalArgumentError.New("InvalidBaseTransaction")
 		}
 	}
+	if baseTX != nil {
+		return es.VerifyBaseTX(baseTX, wc.BlockHeight())
+	}
+	return nil
 }
 
 func (p *platform) OnExecutionBegin(wc state.WorldContext, logger log.Logger) error {
-- 
2.43.0


From 159517e7100b4a30fbdaf03ae70647834cb84d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:32 +0000
Subject: [PATCH 30/43] fix: refuse votes with unverifiable signatures instead
 of panicking

---
 consensus/commitvotelist.go | 11 +++++++++++
 consensus/patch.go          |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/consensus/commitvotelist.go b/consensus/commitvotelist.go
index 19b07ac..478c3b5 100644
--- a/consensus/commitvotelist.go
+++ b/consensus/commitvotelist.go
@@ -55,6 +55,9 @@ func (bvl *blockCommitVoteList) VerifyBlock(block module.BlockData, validators m
 	for i, item := range bvl.Items {
 		msg.Timestamp = item.Timestamp
 		msg.setSignature(item.Signature)
+		if err := msg.verify(); err != nil {
+			return nil, errors.Wrapf(err, "bad vote at index %d in vote list", i)
+		}
 		index := validators.IndexOf(msg.address())
 		if index < 0 {
 			return nil, errors.Errorf("bad voter %v at index %d in vote list", msg.address(), i)
@@ -248,6 +251,9 @@ func (vl *CommitVoteList) toVoteList(
 	for _, item := range vl.Items {
 		msg.Timestamp = item.Timestamp
 		msg.setSignature(item.Signature)
+		if err := msg.verify(); err != nil {
+			return nil, err
+		}
 		vIdx := validators.IndexOf(msg.address())
 		if vIdx < 0 {
 			return nil, errors.Errorf("not a validator address=%s", msg.address().String())
@@ -328,6 +334,11 @@ func NewCommitVoteSetFromBytes(bs []byte) module.CommitVoteSet {
 	if err != nil {
 		return nil
 	}
+	for _, item := range vl.Items {
+		if sig := item.Signature.Signature; sig != nil && !sig.HasV() {
+			return nil
+		}
+	}
 	return vl
 }
 
diff --git a/consensus/patch.go b/consensus/patch.go
index 9a3854c..bf01290 100644
--- a/consensus/patch.go
+++ b/consensus/patch.go
@@ -40,6 +40,9 @@ func (s *skipPatch) Verify(vl module.ValidatorList, roundLimit int64, nid int) e
 	}
 	for i := 0; i < l; i++ {
 		msg := s.VoteList.Get(i)
+		if err := msg.verify(); err != nil {
+			return errors.Wrapf(err, "bad vote at index %d in vote list", i)
+		}
 		index := vl.IndexOf(msg.address())
 		if index < 0 {
 			return errors.Errorf("bad voter %v at index %d in vote list", msg.address(), i)
-- 
2.43.0


From 031c15224fd7c8baf42b121fbacddfbab5dc96d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:32 +0000
Subject: [PATCH 31/43] fix: check indexes of votes in the patch on decoding it

---
 consensus/patch.go    | 7 +++++--
 consensus/votelist.go | 9 ++++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/consensus/patch.go b/consensus/patch.go
index bf01290..c716489 100644
--- a/consensus/patch.go
+++ b/consensus/patch.go
@@ -77,8 +77,11 @@ func DecodePatch(t string, bs []byte) (module.Patch, error) {
 	var patch module.Patch
 	switch t {
 	case module.PatchTypeSkipTransaction:
-		patch = &skipPatch{}
-		_, err = codec.UnmarshalFromBytes(bs, patch)
+		skip := &skipPatch{}
+		if _, err = codec.UnmarshalFromBytes(bs, skip); err == nil {
+			err = skip.VoteList.verifyPrototypes()
+		}
+		patch = skip
 	default:
 		err = errors.ErrUnsupported
 	}
diff --git a/consensus/votelist.go b/consensus/votelist.go
index 435c250..43329a1 100644
--- a/consensus/votelist.go
+++ b/consensus/votelist.go
@@ -66,13 +66,20 @@ func (vl *VoteList) Get(i int) *VoteMessage {
 	return msg
 }
 
-func (vl *VoteList) Verify(ctx verifyContext) error {
+func (vl *VoteList) verifyPrototypes() error {
 	for i := range vl.VoteItems {
 		pi := int(vl.VoteItems[i].PrototypeIndex)
 		if pi < 0 || pi >= len(vl.Prototypes) {
 			return errors.Errorf("invalid prototype index VoteItemIndex=%d PrototypeIndex=%d Prototypes.len=%d", i, vl.VoteItems[i].PrototypeIndex, len(vl.Prototypes))
 		}
 	}
+	return nil
+}
+
+func (vl *VoteList) Verify(ctx verifyContext) error {
+	if err := vl.verifyPrototypes(); err != nil {
+		return err
+	}
 	for i := 0; i < vl.Len(); i++ {
 		v := vl.Get(i)
 		if err := v.Verify(ctx); err != nil {
-- 
2.43.0


From b5b9accd0d3b9bfbfbf65dc90029a0c5d8373d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:32 +0000
Subject: [PATCH 32/43] fix: votes of a skip transaction patch must be for the
 same height

---
 consensus/patch.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/consensus/patch.go b/consensus/patch.go
index c716489..613a252 100644
--- a/consensus/patch.go
+++ b/consensus/patch.go
@@ -34,6 +34,7 @@ func (s *skipPatch) Verify(vl module.ValidatorList, roundLimit int64, nid int) e
 	if l == 0 {
 		return errors.Errorf("votes(%d) <= 2/3 of validators(%d)", l, vl.Len())
 	}
+	height := s.VoteList.Get(0).Height
 	round := s.VoteList.Get(0).Round
 	if round < int32(roundLimit) {
 		return errors.Errorf("bad round %d roundLimit %d", round, roundLimit)
@@ -56,6 +57,9 @@ func (s *skipPatch) Verify(vl module.ValidatorList, roundLimit int64, nid int) e
 		if !bytes.Equal(msg.BlockID, nidBytes) {
 			return errors.Errorf("bad nid %x for validator %v", msg.BlockID, msg.address())
 		}
+		if msg.Height != height {
+			return errors.Errorf("different height %d %d in vote list", height, msg.Height)
+		}
 		if msg.Round != round {
 			return errors.Errorf("different round %d %d in vote list", round, msg.Round)
 		}
-- 
2.43.0


From 3a1baa066135d623cc071a213b0f13a85fbd0b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:16 +0000
Subject: [PATCH 33/43] fix: consensus: keep the lock round over a restart when
 a locked block gets two thirds of the prevotes again

enterPrecommit() updates lockedRound in memory only, if the polka is for
the block which is locked already. After a restart the node had the
round of the first lock, and prevotes of a round in between freed it.
---
 consensus/consensus.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/consensus/consensus.go b/consensus/consensus.go
index 8ccebf7..fda56f4 100644
--- a/consensus/consensus.go
+++ b/consensus/consensus.go
@@ -851,6 +851,14 @@ func (cs *consensus) enterPrecommit() {
 	} else if cs.lockedBlockParts.ID().Equal(partSetID) {
 		cs.log.Traceln("enterPrecommit: update lock round")
 		cs.lockedRound = cs.round
+		msg := newVoteListMessage()
+		msg.VoteList = prevotes.voteList()
+		if err := cs.lockWAL.WriteMessage(msg); err != nil {
+			cs.log.Errorf("fail to write WAL: enterPrecommit: %+v\n", err)
+		}
+		if err := cs.lockWAL.Sync(); err != nil {
+			cs.log.Errorf("fail to sync WAL: enterPrecommit: %+v\n", err)
+		}
 		cs.sendVote(VoteTypePrecommit, &cs.lockedBlockParts)
 	} else if cs.currentBlockParts.ID().Equal(partSetID) && cs.currentBlockParts.HasBlockData() {
 		cs.log.Traceln("enterPrecommit: update lock")
@@ -1525,8 +1533,13 @@ func (cs *consensus) applyLockWAL() error {
 			psid, ok := prevotes.getOverTwoThirdsPartSetID()
 			if ok && psid != nil {
 				cs.log.Tracef("WAL: POL R=%v psid=%v\n", vmsg.Round, psid)
-				bpset = NewPartSetFromID(psid)
-				bpsetLockRound = vmsg.Round
+				if lastBPSet != nil && lastBPSet.ID().Equal(psid) {
+					// lock round of the same block is updated
+					lastBPSetLockRound = vmsg.Round
+				} else {
+					bpset = NewPartSetFromID(psid)
+					bpsetLockRound = vmsg.Round
+				}
 			}
 			// update round/step
 			var mstep step
-- 
2.43.0


From 41aca5683657e0d0a7ec1d4e09aa92d13f8785e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:47 +0000
Subject: [PATCH 34/43] fix: consensus: make proofs of a block whose size is a
 multiple of the part size

PartSet() made the tree of the parts only if the last part was not full.
Otherwise the hash of the set was nil and no part could be added by
others, so such a block could not be decided.
---
 consensus/partset.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/consensus/partset.go b/consensus/partset.go
index bbdbd68..2d715fe 100644
--- a/consensus/partset.go
+++ b/consensus/partset.go
@@ -230,7 +230,8 @@ func (b *partSetBuffer) PartSet() PartSet {
 		b.ps.parts = append(b.ps.parts, b.part)
 		b.ps.added += 1
 		b.part = nil
-
+	}
+	if b.ps.tree == nil && len(b.ps.parts) > 0 {
 		mt := trie_manager.NewMutable(db.NewNullDB(), nil)
 		for i, p := range b.ps.parts {
 			key, _ := codec.MarshalToBytes(uint16(i))
-- 
2.43.0


From e63ab4ed451215e8c374bae29335d0afbc945098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:29 +0000
Subject: [PATCH 35/43] fix: trie: refuse nodes with an empty header or without
 a next node

A part of a block brings nodes of the tree which the proposer made up,
so they may be anything. These two made Prove() panic.
---
 common/trie/ompt/extension.go | 4 ++++
 common/trie/ompt/node.go      | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/common/trie/ompt/extension.go b/common/trie/ompt/extension.go
index 87fe650..669e129 100644
--- a/common/trie/ompt/extension.go
+++ b/common/trie/ompt/extension.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/icon-project/goloop/common"
+	"github.com/icon-project/goloop/common/errors"
 	"github.com/icon-project/goloop/common/log"
 	"github.com/icon-project/goloop/common/merkle"
 	"github.com/icon-project/goloop/common/trie"
@@ -25,6 +26,9 @@ func newExtension(h, s []byte, blist [][]byte, state nodeState) (node, error) {
 	if err != nil {
 		return nil, err
 	}
+	if node == nil {
+		return nil, errors.New("extension without next node")
+	}
 	return &extension{
 		nodeBase: nodeBase{
 			hashValue:  h,
diff --git a/common/trie/ompt/node.go b/common/trie/ompt/node.go
index 91b7e00..6bd730b 100644
--- a/common/trie/ompt/node.go
+++ b/common/trie/ompt/node.go
@@ -235,6 +235,9 @@ func deserialize(h, serialized []byte, state nodeState) (node, error) {
 		if err != nil {
 			return nil, errors.New("fail to parse header of node")
 		}
+		if len(keyheader) == 0 {
+			return nil, errors.New("empty header of node")
+		}
 		if (keyheader[0] & 0x20) == 0 {
 			// extension
 			return newExtension(h, serialized, blist, state)
-- 
2.43.0


From fac133faf6577eacc4d8275604ddd1e195b2e7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:07 +0000
Subject: [PATCH 36/43] fix: consensus: a proposal of an earlier round needs
 the two thirds for its own block

isProposalAndPOLPrevotesComplete() took any block which got two thirds of
the prevotes in the round which the proposal names. The proposer in the
header of the block is not looked at for such a proposal, so the next
proposer could have nodes vote for a block in the name of any other.
---
 consensus/consensus.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/consensus/consensus.go b/consensus/consensus.go
index fda56f4..df789e0 100644
--- a/consensus/consensus.go
+++ b/consensus/consensus.go
@@ -1349,10 +1349,8 @@ func (cs *consensus) isProposalAndPOLPrevotesComplete() bool {
 	}
 	if cs.proposalPOLRound >= 0 {
 		prevotes := cs.hvs.votesFor(cs.proposalPOLRound, VoteTypePrevote)
-		if id, _ := prevotes.getOverTwoThirdsPartSetID(); id != nil {
-			return true
-		}
-		return false
+		id, _ := prevotes.getOverTwoThirdsPartSetID()
+		return id != nil && id.Equal(cs.currentBlockParts.ID())
 	}
 	return true
 }
-- 
2.43.0


From 5ac3788237d85cbaef6eea4c0f2b3b87e68f3a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:03 +0000
Subject: [PATCH 37/43] fix: consensus: go on with a commit which was decided
 before a restart

If a node enters commit by precommits of a round before its own, and goes
down before the block is finalized, it has the precommits in the commit
log. After the restart they were loaded, but commit was not entered, and
the same votes of others were no longer new, so the node stayed at the
height until it was behind enough for fast synchronisation.
---
 consensus/consensus.go |  5 ++++-
 consensus/voteset.go   | 17 +++++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/consensus/consensus.go b/consensus/consensus.go
index df789e0..9c99005 100644
--- a/consensus/consensus.go
+++ b/consensus/consensus.go
@@ -1869,7 +1869,10 @@ func (cs *consensus) Start() error {
 	if err != nil {
 		return err
 	}
-	if cs.step == stepNewHeight && cs.round == 0 {
+	if precommits, psid := cs.hvs.getCommitPrecommits(); psid != nil {
+		// it was decided already, maybe in a round before cs.round
+		cs.enterCommit(precommits, psid, precommits.getRound())
+	} else if cs.step == stepNewHeight && cs.round == 0 {
 		cs.enterTransactionWait()
 	} else if cs.step == stepNewHeight && cs.round > 0 {
 		cs.enterPropose()
diff --git a/consensus/voteset.go b/consensus/voteset.go
index 8350bbc..b8b8c55 100644
--- a/consensus/voteset.go
+++ b/consensus/voteset.go
@@ -235,6 +235,23 @@ func (hvs *heightVoteSet) votesFor(round int32, voteType VoteType) *voteSet {
 	return vs
 }
 
+// getCommitPrecommits returns precommits of the last round which have +2/3 for
+// a block, and the ID of the block.
+func (hvs *heightVoteSet) getCommitPrecommits() (*voteSet, *PartSetID) {
+	var precommits *voteSet
+	var partSetID *PartSetID
+	for _, rvs := range hvs._votes {
+		vs := rvs[VoteTypePrecommit]
+		if vs == nil || precommits != nil && precommits.getRound() > vs.getRound() {
+			continue
+		}
+		if psid, _ := vs.getOverTwoThirdsPartSetID(); psid != nil {
+			precommits, partSetID = vs, psid
+		}
+	}
+	return precommits, partSetID
+}
+
 func (hvs *heightVoteSet) reset(nValidators int) {
 	hvs._nValidators = nValidators
 	hvs._votes = make(map[int32][numberOfVoteTypes]*voteSet)
-- 
2.43.0


From faaa533523e331bc2ec0808f195ba01387efd535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:47 +0000
Subject: [PATCH 38/43] fix: consensus: refuse bit arrays of negative length
 from peers

BitArray.Verify() accepted them, and the goroutine which helps the peer
panicked in Copy().
---
 consensus/bitarray.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/bitarray.go b/consensus/bitarray.go
index 8cd223b..932ee03 100644
--- a/consensus/bitarray.go
+++ b/consensus/bitarray.go
@@ -18,7 +18,7 @@ type BitArray struct {
 }
 
 func (ba *BitArray) Verify() error {
-	if ba.NumBits > len(ba.Words)*wordBits {
+	if ba.NumBits < 0 || ba.NumBits > len(ba.Words)*wordBits {
 		return errors.Errorf("invalid BitArray NumBits=%d Words.len=%d", ba.NumBits, len(ba.Words))
 	}
 	return nil
-- 
2.43.0


From 2d19bfaf2f5de575ac8237544e465e2f6c364a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:47 +0000
Subject: [PATCH 39/43] fix: consensus: flip bit arrays of a multiple of 64
 bits

The last word was cleared, so none of the last 64 parts of a block with
64 (128, ...) parts was ever sent to a node which is behind.
---
 consensus/bitarray.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/bitarray.go b/consensus/bitarray.go
index 932ee03..3d9e287 100644
--- a/consensus/bitarray.go
+++ b/consensus/bitarray.go
@@ -65,7 +65,7 @@ func (ba *BitArray) Flip() {
 	for i := 0; i < l; i++ {
 		ba.Words[i] = ^ba.Words[i]
 	}
-	if l > 0 {
+	if l > 0 && ba.NumBits%wordBits != 0 {
 		ba.Words[l-1] = ba.Words[l-1] & ((1 << uint(ba.NumBits%wordBits)) - 1)
 	}
 }
-- 
2.43.0


From 527f6cc240a1103ca9b349e38416076f84a88c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:47 +0000
Subject: [PATCH 40/43] fix: consensus: repair a log which ends right after the
 header of a record

It was taken for a clean end, so what was written after the restart was
read as the payload of that header, and was lost at the next start.
---
 consensus/wal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/consensus/wal.go b/consensus/wal.go
index 0d6df46..def9511 100644
--- a/consensus/wal.go
+++ b/consensus/wal.go
@@ -393,6 +393,10 @@ func (w *walReader) ReadBytes() ([]byte, error) {
 	payloadLen := binary.BigEndian.Uint32(header[4:headerLen])
 	payload := make([]byte, payloadLen)
 	_, err = io.ReadAtLeast(w.reader, payload, int(payloadLen))
+	if err == io.EOF && payloadLen > 0 {
+		// the file ends right after the header
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-- 
2.43.0


From 82d3db0ec46ec2a283214c6dcd8498e96413aec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:47 +0000
Subject: [PATCH 41/43] fix: consensus: take zeros at the end of a log as
 damage

A file system may leave them after a crash. They were read as an empty
record, which the engine refuses, so the node did not start.
---
 consensus/wal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/consensus/wal.go b/consensus/wal.go
index def9511..8982cde 100644
--- a/consensus/wal.go
+++ b/consensus/wal.go
@@ -391,6 +391,10 @@ func (w *walReader) ReadBytes() ([]byte, error) {
 	}
 	crc := binary.BigEndian.Uint32(header[0:4])
 	payloadLen := binary.BigEndian.Uint32(header[4:headerLen])
+	if crc == 0 && payloadLen == 0 {
+		// zero filled tail of a file which was being extended
+		return nil, errors.Wrap(errCorruptedWAL, "zero header")
+	}
 	payload := make([]byte, payloadLen)
 	_, err = io.ReadAtLeast(w.reader, payload, int(payloadLen))
 	if err == io.EOF && payloadLen > 0 {
-- 
2.43.0


From 2a95dca436e0fdee1bb26fe6793af281be547852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:47 +0000
Subject: [PATCH 42/43] fix: consensus: remove the files after the damaged one
 when a log is repaired

It removed the file with the valid records instead, when the file after
it was damaged, and lost all votes and locks which were synced. Begin
with the last one, so that a crash in between leaves no gap.
---
 consensus/wal.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/consensus/wal.go b/consensus/wal.go
index 8982cde..d78fa69 100644
--- a/consensus/wal.go
+++ b/consensus/wal.go
@@ -435,14 +435,15 @@ func (w *walReader) CloseAndRepair() error {
 	idx := w.wi.headIdx
 	for _, s := range w.wi.fileSizes {
 		if left <= s {
-			if left < s {
-				err := os.Truncate(fileFor(w.id, idx), left)
-				if err != nil {
+			// remove from the tail to leave no gap even if it's interrupted
+			for i := w.wi.tailIdx; i > idx; i-- {
+				if err := os.Remove(fileFor(w.id, i)); err != nil {
 					return errors.WithStack(err)
 				}
 			}
-			for i := idx + 1; i <= w.wi.tailIdx; i++ {
-				if err := os.Remove(fileFor(w.id, idx)); err != nil {
+			if left < s {
+				err := os.Truncate(fileFor(w.id, idx), left)
+				if err != nil {
 					return errors.WithStack(err)
 				}
 			}
-- 
2.43.0


From 4f2b81c282b08189c5aaa16437328f7d4a2d867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:47 +0000
Subject: [PATCH 43/43] fix: consensus: do not allocate what a damaged header
 of a log tells

---
 consensus/wal.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/consensus/wal.go b/consensus/wal.go
index d78fa69..b09778c 100644
--- a/consensus/wal.go
+++ b/consensus/wal.go
@@ -395,10 +395,9 @@ func (w *walReader) ReadBytes() ([]byte, error) {
 		// zero filled tail of a file which was being extended
 		return nil, errors.Wrap(errCorruptedWAL, "zero header")
 	}
-	payload := make([]byte, payloadLen)
-	_, err = io.ReadAtLeast(w.reader, payload, int(payloadLen))
-	if err == io.EOF && payloadLen > 0 {
-		// the file ends right after the header
+	// do not allocate what a damaged header tells
+	payload, err := io.ReadAll(io.LimitReader(w.reader, int64(payloadLen)))
+	if err == nil && len(payload) < int(payloadLen) {
 		err = io.ErrUnexpectedEOF
 	}
 	if err != nil {
-- 
2.43.0

