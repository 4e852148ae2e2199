From 33eec19577d75ee016bede7b80095be0e1b51afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:23 +0000
Subject: [PATCH 01/34] fix: release upstream subscriptions when a guarded
 sequence terminates

auto_detach_observer cancelled its own mailbox before posting the dispose
message, so the worker died before it could dispose the registered
subscriptions.
---
 aioreactive/observers.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index d62ee76..d7e7072 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -4,7 +4,7 @@ from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, C
 from typing import Any, TypeVar, cast
 
 from expression.core import MailboxProcessor, TailCall, tailrec_async
-from expression.system import AsyncDisposable, CancellationTokenSource, Disposable
+from expression.system import AsyncDisposable, Disposable
 
 from .msg import Msg
 from .notification import MsgKind, Notification, OnCompleted, OnError, OnNext
@@ -205,17 +205,13 @@ def auto_detach_observer(
     AsyncObserver[_TSource],
     Callable[[Coroutine[None, None, AsyncDisposable]], Coroutine[None, None, AsyncDisposable]],
 ]:
-    cts = CancellationTokenSource()
-    token = cts.token
+    detached = False
 
     async def worker(inbox: MailboxProcessor[Msg[_TSource]]) -> None:
         @tailrec_async
         async def message_loop(
             disposables: list[AsyncDisposable],
         ) -> Any:
-            if token.is_cancellation_requested:
-                return
-
             cmd = await inbox.receive()
             match cmd:
                 case Msg(tag="disposable", disposable=disposable):
@@ -228,10 +224,11 @@ def auto_detach_observer(
 
         await message_loop([])
 
-    agent = MailboxProcessor.start(worker, token)
+    agent = MailboxProcessor.start(worker)
 
     async def cancel() -> None:
-        cts.cancel()
+        nonlocal detached
+        detached = True
         agent.post(Msg(dispose=True))
 
     canceller = AsyncDisposable.create(cancel)
@@ -240,7 +237,11 @@ def auto_detach_observer(
     # Auto-detaches (disposes) the disposable when the observer completes with success or error.
     async def auto_detach(async_disposable: Coroutine[None, None, AsyncDisposable]) -> AsyncDisposable:
         disposable = await async_disposable
-        agent.post(Msg(disposable=disposable))
+        if detached:
+            # The observer terminated while we were still subscribing.
+            await disposable.dispose_async()
+        else:
+            agent.post(Msg(disposable=disposable))
         return disposable
 
     return safe_obv, auto_detach
-- 
2.43.0


From 0688474a5e4d25d6c4b5350551d4cc0c832ac086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:26 +0000
Subject: [PATCH 02/34] fix: dispose the upstream when the observer itself
 raises

---
 aioreactive/observers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index d7e7072..88c727f 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -172,6 +172,7 @@ def safe_observer(obv: AsyncObserver[_TSource], disposable: AsyncDisposable) ->
                     try:
                         await msg.accept_observer(obv)
                     except Exception as ex:
+                        await disposable.dispose_async()
                         await obv.athrow(ex)
                         running = False
                 elif msg.kind == MsgKind.ON_ERROR:
-- 
2.43.0


From 44373e6d9977cb5369e125edd248d7e8dec2106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:29 +0000
Subject: [PATCH 03/34] fix: single subject busy-looped after dispose and could
 deliver two terminals

---
 aioreactive/subject.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index d3d7eb1..0d72d36 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -44,6 +44,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
             log.debug("AsyncSingleStream:asend:awaiting start")
             await self._wait
             log.debug("AsyncSingleStream:asend:awaiting:done")
+            self.check_disposed()
 
         if not self._is_stopped:
             await self._observer.asend(value)
@@ -51,26 +52,30 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
     async def athrow(self, error: Exception) -> None:
         log.debug("AsyncSingleStream:athrow()")
 
+        self.check_disposed()
+
         while self._observer is None:
             await self._wait
+            self.check_disposed()
 
-        self.check_disposed()
         if not self._is_stopped:
-            await self._observer.athrow(error)
             self._is_stopped = True
+            await self._observer.athrow(error)
 
     async def aclose(self) -> None:
         log.debug("AsyncSingleStream:aclose()")
 
+        self.check_disposed()
+
         while self._observer is None:
             log.debug("AsyncSingleStream:aclose:awaiting start")
             await self._wait
+            self.check_disposed()
 
-        self.check_disposed()
         if not self._is_stopped:
             log.debug("AsyncSingleStream:subscription disposed")
-            await self._observer.aclose()
             self._is_stopped = True
+            await self._observer.aclose()
 
     async def dispose_async(self) -> None:
         log.debug("AsyncSingleStream:dispose_async()")
@@ -78,6 +83,10 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         self._observer = None
         self._is_disposed = True
 
+        # Release producers that are still waiting for an observer.
+        if not self._wait.done():
+            self._wait.set_result(True)
+
     async def subscribe_async(
         self,
         send: SendAsync[_TSource] | AsyncObserver[_TSource] | None = None,
-- 
2.43.0


From 662787a23eb8d9a45435cb46870b803cd07d7e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:07 +0000
Subject: [PATCH 04/34] fix: catch tracks the fallback subscription and handles
 only the source's error

---
 aioreactive/transform.py | 41 +++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 8a5eeab..85c94d4 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -400,29 +400,44 @@ def catch(
     def _catch(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
         async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
             disposable = AsyncDisposable.empty()
+            is_caught = False
+            is_disposed = False
 
-            async def action(source: AsyncObservable[_TSource]) -> None:
-                nonlocal disposable
+            async def asend(value: _TSource) -> None:
+                await aobv.asend(value)
 
-                async def asend(value: _TSource) -> None:
-                    await aobv.asend(value)
+            async def athrow(error: Exception) -> None:
+                nonlocal disposable, is_caught
+                is_caught = True
 
-                async def athrow(error: Exception) -> None:
+                await disposable.dispose_async()
+                try:
                     next_source = handler(error)
-                    await action(next_source)
+                except Exception as ex:
+                    await aobv.athrow(ex)
+                    return
 
-                async def aclose() -> None:
-                    await aobv.aclose()
+                disposable = await next_source.subscribe_async(aobv)
+                if is_disposed:
+                    await disposable.dispose_async()
 
-                _obv = AsyncAnonymousObserver(asend, athrow, aclose)
+            async def aclose() -> None:
+                await aobv.aclose()
 
-                await disposable.dispose_async()
-                subscription = await source.subscribe_async(_obv)
+            _obv = AsyncAnonymousObserver(asend, athrow, aclose)
+            subscription = await source.subscribe_async(_obv)
+            if is_caught:
+                # The source failed while we were still subscribing.
+                await subscription.dispose_async()
+            else:
                 disposable = subscription
 
-            await action(source)
+            async def cancel() -> None:
+                nonlocal is_disposed
+                is_disposed = True
+                await disposable.dispose_async()
 
-            return AsyncDisposable.create(disposable.dispose_async)
+            return AsyncDisposable.create(cancel)
 
         return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From af4d48e84f3205f333b6a6bcc944ec2ab999a208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:11 +0000
Subject: [PATCH 05/34] fix: retry resubscribes up to the given count and then
 surfaces the error

---
 aioreactive/transform.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 85c94d4..6a6ab1a 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -18,7 +18,6 @@ from expression.core import (
 from expression.system import AsyncDisposable
 
 from .combine import merge_inner, zip_seq
-from .create import fail
 from .msg import (
     Key,
     Msg,
@@ -448,18 +447,13 @@ def retry(
     retry_count: int,
 ) -> Callable[[AsyncObservable[_TSource]], AsyncObservable[_TSource]]:
     def _retry(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
-        count = retry_count
-
-        def factory(exn: Exception) -> AsyncObservable[_TSource]:
-            nonlocal count
-
-            if not count:
-                return fail(exn)
-            else:
-                count -= count
+        def attempt(remaining: int) -> AsyncObservable[_TSource]:
+            if not remaining:
                 return source
 
-        return pipe(source, catch(factory))
+            return pipe(source, catch(lambda _: attempt(remaining - 1)))
+
+        return attempt(retry_count)
 
     return _retry
 
-- 
2.43.0


From 742904aad51c228f1951721936290eb70fa7fc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:14 +0000
Subject: [PATCH 06/34] fix: switch_latest completes with its last inner
 sequence and drops stale inner events

---
 aioreactive/transform.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 6a6ab1a..54865a8 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -262,13 +262,16 @@ def switch_latest(
 
     async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
         safe_obv, auto_detach = auto_detach_observer(aobv)
+        latest_id = 0
 
         def obv(mb: MailboxProcessor[Msg[_TSource]], id: int) -> AsyncObserver[_TSource]:
             async def asend(value: _TSource) -> None:
-                await safe_obv.asend(value)
+                if id == latest_id:
+                    await safe_obv.asend(value)
 
             async def athrow(error: Exception) -> None:
-                await safe_obv.athrow(error)
+                if id == latest_id:
+                    await safe_obv.athrow(error)
 
             async def aclose() -> None:
                 pipe(
@@ -283,22 +286,25 @@ def switch_latest(
             async def message_loop(
                 current: Option[AsyncDisposable], is_stopped: bool, current_id: int
             ) -> TailCallResult[None, [Option[AsyncDisposable], bool, int]]:
+                nonlocal latest_id
                 cmd = await inbox.receive()
 
                 match cmd:
                     case Msg(tag="inner_observable", inner_observable=xs):
-                        next_id = current_id + 1
+                        latest_id = next_id = current_id + 1
                         for disp in current.to_list():
                             await disp.dispose_async()
                         inner = await xs.subscribe_async(obv(inbox, next_id))
                         current, current_id = Some(inner), next_id
 
                     case Msg(tag="inner_completed", inner_completed=idx):
-                        if is_stopped and idx == current_id:
-                            await safe_obv.aclose()
-                            current, is_stopped = Nothing, True
+                        if idx == current_id:
+                            current = Nothing
+                            if is_stopped:
+                                await safe_obv.aclose()
 
                     case Msg(tag="completed"):
+                        is_stopped = True
                         if current.is_none():
                             await safe_obv.aclose()
 
-- 
2.43.0


From 5bfc41110d033f0c16d2fec83172b58dfeeaffef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:55 +0000
Subject: [PATCH 07/34] fix: switch_latest releases the inner sequence when it
 terminates or is disposed

---
 aioreactive/transform.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 54865a8..ba5573f 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -311,7 +311,7 @@ def switch_latest(
                     case Msg(tag="dispose"):
                         if current.is_some():
                             await current.value.dispose_async()
-                        current, is_stopped = Nothing, True
+                        return None
                     case _:
                         raise ValueError(f"Unknown message: {cmd}")
 
@@ -334,17 +334,16 @@ def switch_latest(
             inner_agent.post(Msg(completed=True))
 
         _obv = AsyncAnonymousObserver(asend, athrow, aclose)
-        dispose = await pipe(
-            _obv,
-            source.subscribe_async,
-            auto_detach,
-        )
 
         async def cancel() -> None:
-            await dispose.dispose_async()
             inner_agent.post(Msg(dispose=True))
 
-        return AsyncDisposable.create(cancel)
+        async def subscribe_source() -> AsyncDisposable:
+            dispose = await source.subscribe_async(_obv)
+            return AsyncDisposable.composite(dispose, AsyncDisposable.create(cancel))
+
+        # Auto-detach the inner sequence as well as the source.
+        return await auto_detach(subscribe_source())
 
     return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From d9244ac1b4431b3fd55fcb077570a4146cf05345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:58 +0000
Subject: [PATCH 08/34] fix: merge_inner releases sibling inner sequences when
 one of them fails

---
 aioreactive/combine.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aioreactive/combine.py b/aioreactive/combine.py
index 7cdd42a..bf30b34 100644
--- a/aioreactive/combine.py
+++ b/aioreactive/combine.py
@@ -138,19 +138,21 @@ def merge_inner(
 
             async def athrow(error: Exception) -> None:
                 await safe_obv.athrow(error)
-                agent.post(Msg(dispose=True))
 
             async def aclose() -> None:
                 agent.post(Msg(completed=True))
 
             obv = AsyncAnonymousObserver(asend, athrow, aclose)
-            dispose = await auto_detach(source.subscribe_async(obv))
 
             async def cancel() -> None:
-                await dispose.dispose_async()
                 agent.post(Msg(dispose=True))
 
-            return AsyncDisposable.create(cancel)
+            async def subscribe_source() -> AsyncDisposable:
+                dispose = await source.subscribe_async(obv)
+                return AsyncDisposable.composite(dispose, AsyncDisposable.create(cancel))
+
+            # Auto-detach the inner sequences as well as the source.
+            return await auto_detach(subscribe_source())
 
         return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From 879919db9ec375f13ffc9f786768910fd9db51e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:02 +0000
Subject: [PATCH 09/34] fix: skip_last dropped elements that are None

---
 aioreactive/filtering.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 846f3ee..ad0a548 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -216,13 +216,9 @@ def skip_last(
             q: list[_TSource] = []
 
             async def asend(value: _TSource) -> None:
-                front: _TSource | None = None
                 q.append(value)
                 if len(q) > count:
-                    front = q.pop(0)
-
-                if front is not None:
-                    await safe_obv.asend(front)
+                    await safe_obv.asend(q.pop(0))
 
             obv = AsyncAnonymousObserver(asend, safe_obv.athrow, safe_obv.aclose)
             return await pipe(obv, source.subscribe_async, auto_detach)
-- 
2.43.0


From aceae02809ab4212655f3a3869099d6736611139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:05 +0000
Subject: [PATCH 10/34] fix: delay shared one cancellation token between all
 its subscriptions

---
 aioreactive/timeshift.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 913a643..1865665 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -47,10 +47,11 @@ def delay(
     Returns:
         Delayed stream.
     """
-    cts = CancellationTokenSource()
-    token = cts.token
 
     async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
+        cts = CancellationTokenSource()
+        token = cts.token
+
         def worker(inbox: MailboxProcessor[tuple[Notification[_TSource], datetime]]) -> Awaitable[None]:
             @tailrec_async
             async def loop() -> TailCallResult[None, ...]:
-- 
2.43.0


From bae8fbefd369888c3ab4e85806e20a11308baf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:09 +0000
Subject: [PATCH 11/34] fix: debounce completed the observer, or delivered a
 pending value, after dispose

---
 aioreactive/timeshift.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 1865665..2b880cd 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -19,7 +19,7 @@ from expression.system import CancellationTokenSource
 
 from .combine import with_latest_from
 from .create import interval
-from .notification import Notification, OnCompleted, OnError, OnNext
+from .notification import Notification, OnError, OnNext
 from .observables import AsyncAnonymousObservable
 from .observers import AsyncNotificationObserver, auto_detach_observer
 from .transform import map
@@ -107,6 +107,7 @@ def debounce(
     def _debounce(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
         async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
             safe_obv, auto_detach = auto_detach_observer(aobv)
+            cts = CancellationTokenSource()
             infinite: Iterable[int] = seq.infinite
 
             async def worker(inbox: MailboxProcessor[tuple[Notification[_TSource], int]]) -> None:
@@ -135,7 +136,7 @@ def debounce(
 
                 await message_loop(-1)
 
-            agent = MailboxProcessor.start(worker)
+            agent = MailboxProcessor.start(worker, cts.token)
 
             indexer = iter(infinite)
 
@@ -155,7 +156,7 @@ def debounce(
 
             async def cancel() -> None:
                 await dispose.dispose_async()
-                agent.post((OnCompleted, 0))
+                cts.cancel()
 
             return AsyncDisposable.create(cancel)
 
-- 
2.43.0


From 1d11c62a31a4f567ced14ef0340ded7528ab566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 12/34] fix: scan kept sending values after its accumulator had
 failed

---
 aioreactive/transform.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index ba5573f..bb38f91 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -471,27 +471,36 @@ def _scan(
         async def subscribe_async(observer: AsyncObserver[_TResult]) -> AsyncDisposable:
             disposable: AsyncDisposable = AsyncDisposable.empty()
             current: _TResult = initial
+            is_stopped = False
 
             async def anext(value: _TSource) -> None:
-                nonlocal current
+                nonlocal current, is_stopped
+
+                if is_stopped:
+                    return
 
                 try:
                     intermediate = await accumulator(current, value)
                 except Exception as ex:
+                    is_stopped = True
                     await observer.athrow(ex)
+                    await disposable.dispose_async()
                 else:
                     current = intermediate
 
                     await observer.asend(current)
 
             async def athrow(exception: Exception) -> None:
-                await observer.athrow(exception)
+                if not is_stopped:
+                    await observer.athrow(exception)
 
             async def aclose() -> None:
-                await observer.aclose()
+                if not is_stopped:
+                    await observer.aclose()
 
-            await disposable.dispose_async()
             disposable = await obs.subscribe_async(anext, athrow, aclose)
+            if is_stopped:
+                await disposable.dispose_async()
 
             return disposable
 
-- 
2.43.0


From 562e985ed946fc0ea2575ca494c3a9d9f6c9ef68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:42 +0000
Subject: [PATCH 13/34] fix: from_async_iterable lost errors raised by the
 iterable

---
 aioreactive/create.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index ea0f4ef..9b6ba0d 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -87,15 +87,14 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
         sub = AsyncDisposable.create(cancel)
 
         async def worker() -> None:
-            async for value in iterable:
-                try:
+            try:
+                async for value in iterable:
                     await observer.asend(value)
-                except Exception as ex:
-                    await observer.athrow(ex)
-                    return
+            except Exception as ex:
+                await observer.athrow(ex)
+                return
 
             await observer.aclose()
-            tasks.remove(task)
 
         try:
             task = asyncio.create_task(worker())
@@ -104,6 +103,7 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
             await observer.athrow(ex)
         else:
             tasks.add(task)
+            task.add_done_callback(tasks.discard)
         return sub
 
     return AsyncAnonymousObservable(subscribe_async)
-- 
2.43.0


From 4e9644da51561def338fb3b74bb580d3a8160de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:45 +0000
Subject: [PATCH 14/34] fix: from_iterable lost errors raised by the iterable

---
 aioreactive/create.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index 9b6ba0d..da473af 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -167,14 +167,15 @@ def of_seq(xs: Iterable[TSource]) -> AsyncObservable[TSource]:
 
     async def worker(obv: AsyncObserver[TSource], token: CancellationToken) -> None:
         log.debug("of_seq:worker()")
-        for x in xs:
-            token.throw_if_cancellation_requested()
-            log.debug("of_seq:asend(%s)", x)
-
-            try:
+        try:
+            for x in xs:
+                if token.is_cancellation_requested:
+                    return
+                log.debug("of_seq:asend(%s)", x)
                 await obv.asend(x)
-            except Exception as ex:
-                await obv.athrow(ex)
+        except Exception as ex:
+            await obv.athrow(ex)
+            return
 
         await obv.aclose()
 
-- 
2.43.0


From 4a0de4f1a6e79f7c7ca622af650e2ac3e8d3b3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:49 +0000
Subject: [PATCH 15/34] fix: take_until kept its trigger subscribed after the
 source terminated

---
 aioreactive/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index ad0a548..c056b4e 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -318,7 +318,7 @@ def take_until(
                 await safe_obv.aclose()
 
             obv = AsyncAnonymousObserver(asend, safe_obv.athrow)
-            sub2 = await pipe(obv, other.subscribe_async)
+            sub2 = await pipe(obv, other.subscribe_async, auto_detach)
             sub1 = await pipe(safe_obv, source.subscribe_async, auto_detach)
 
             return AsyncDisposable.composite(sub1, sub2)
-- 
2.43.0


From d6385556dccea752ed2cda5e0033e1d593aa2435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:52 +0000
Subject: [PATCH 16/34] fix: slice with a stop of zero returned the whole
 sequence

---
 aioreactive/filtering.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index c056b4e..2034b5c 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -361,8 +361,6 @@ def slice(
     """
 
     def _slice(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
-        nonlocal start
-
         if start is not None:
             if start < 0:
                 source = pipe(source, take_last(abs(start)))
@@ -370,9 +368,8 @@ def slice(
                 source = pipe(source, skip(start))
 
         if stop is not None:
-            if stop > 0:
-                start = start or 0
-                source = pipe(source, take(stop - start))
+            if stop >= 0:
+                source = pipe(source, take(max(stop - (start or 0), 0)))
             else:
                 source = pipe(source, skip_last(abs(stop)))
 
-- 
2.43.0


From 011acb72b53799011ca449204b780f23c5074122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:55 +0000
Subject: [PATCH 17/34] fix: async iteration never released the producer of the
 terminal event

---
 aioreactive/observers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 88c727f..46e13c2 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -40,7 +40,7 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         await self._wait_for_pull()
 
     async def athrow(self, error: Exception) -> None:
-        log.debug("AsyncIteratorObserver:athrow()", error)
+        log.debug("AsyncIteratorObserver:athrow(%s)", error)
         await self._serialize_access()
 
         self._push.set_exception(error)
@@ -71,7 +71,13 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         if self._subscription is None:
             self._subscription = await self._source.subscribe_async(self)
 
-        value = await self._push
+        try:
+            value = await self._push
+        except Exception:
+            # Terminated, release the producer of the final event.
+            if not self._pull.done():
+                self._pull.set_result(True)
+            raise
         self._push = Future()
         self._pull.set_result(True)
 
-- 
2.43.0


From 22f81d1c22623a4df0c528ddc1c53c963994320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:59 +0000
Subject: [PATCH 18/34] fix: test observer invoked each of its callbacks twice

---
 aioreactive/testing/observer.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/aioreactive/testing/observer.py b/aioreactive/testing/observer.py
index 43ac07a..436b899 100644
--- a/aioreactive/testing/observer.py
+++ b/aioreactive/testing/observer.py
@@ -37,10 +37,6 @@ class AsyncTestObserver(AsyncAwaitableObserver[TSource]):
 
         self._values: list[tuple[float, Notification[TSource]]] = []
 
-        self._send = asend
-        self._throw = athrow
-        self._close = aclose
-
     def time(self) -> float:
         return self._loop.time()
 
@@ -49,7 +45,6 @@ class AsyncTestObserver(AsyncAwaitableObserver[TSource]):
         time = self.time()
         self._values.append((time, OnNext(value)))
 
-        await self._send(value)
         await super().asend(value)
 
     async def athrow(self, error: Exception) -> None:
@@ -57,7 +52,6 @@ class AsyncTestObserver(AsyncAwaitableObserver[TSource]):
         time = self.time()
         self._values.append((time, OnError(error)))
 
-        await self._throw(error)
         await super().athrow(error)
 
     async def aclose(self) -> None:
@@ -66,7 +60,6 @@ class AsyncTestObserver(AsyncAwaitableObserver[TSource]):
         time = self.time()
         self._values.append((time, OnCompleted()))
 
-        await self._close()
         await super().aclose()
 
     @property
-- 
2.43.0


From a7079ba8bb57f9d8abfe41c9c25bac687f3099fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:03 +0000
Subject: [PATCH 19/34] fix: to_observable failed its subscribe task and
 ignored an early dispose

---
 aioreactive/leave.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aioreactive/leave.py b/aioreactive/leave.py
index 58ca389..85cb243 100644
--- a/aioreactive/leave.py
+++ b/aioreactive/leave.py
@@ -49,16 +49,19 @@ def to_observable(source: AsyncObservable[_TSource]) -> Observable[_TSource]:
                 obv.on_completed()
 
             subscription = await source.subscribe_async(AsyncAnonymousObserver(asend, athrow, aclose))
-            tasks.remove(task)
 
         task = asyncio.create_task(start())
         tasks.add(task)
-        task.add_done_callback(lambda _: tasks.remove(task))
+        task.add_done_callback(tasks.discard)
 
         def dispose() -> None:
             if subscription:
-                task = asyncio.create_task(subscription.dispose_async())
-                tasks.add(task)
+                dispose_task = asyncio.create_task(subscription.dispose_async())
+                tasks.add(dispose_task)
+                dispose_task.add_done_callback(tasks.discard)
+            else:
+                # Not subscribed yet.
+                task.cancel()
 
         return Disposable(dispose)
 
-- 
2.43.0


From 7f0d18965826ad15b46e2ad1523190edabd0ca00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:06 +0000
Subject: [PATCH 20/34] fix: scheduled close of a test subject never dropped
 its finished task

---
 aioreactive/testing/subject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aioreactive/testing/subject.py b/aioreactive/testing/subject.py
index b5d8d3b..982e9f4 100644
--- a/aioreactive/testing/subject.py
+++ b/aioreactive/testing/subject.py
@@ -92,6 +92,7 @@ class AsyncSubjectBase(AsyncObserver[TSource]):
                 self._running_tasks.remove(task)
 
         def callback() -> None:
+            nonlocal task
             task = asyncio.ensure_future(worker())
             self._running_tasks.add(task)
 
-- 
2.43.0


From eb563a2c741d778ad09fc7269ac24899cd2bf226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:06 +0000
Subject: [PATCH 21/34] fix: switch_latest delivered events of the old inner
 sequence after a newer one had arrived

---
 aioreactive/transform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index bb38f91..fc2d695 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -286,12 +286,11 @@ def switch_latest(
             async def message_loop(
                 current: Option[AsyncDisposable], is_stopped: bool, current_id: int
             ) -> TailCallResult[None, [Option[AsyncDisposable], bool, int]]:
-                nonlocal latest_id
                 cmd = await inbox.receive()
 
                 match cmd:
                     case Msg(tag="inner_observable", inner_observable=xs):
-                        latest_id = next_id = current_id + 1
+                        next_id = current_id + 1
                         for disp in current.to_list():
                             await disp.dispose_async()
                         inner = await xs.subscribe_async(obv(inbox, next_id))
@@ -322,6 +321,8 @@ def switch_latest(
         inner_agent = MailboxProcessor.start(worker)
 
         async def asend(xs: AsyncObservable[_TSource]) -> None:
+            nonlocal latest_id
+            latest_id += 1
             pipe(
                 Msg(inner_observable=xs),
                 inner_agent.post,
-- 
2.43.0


From a7f9815fe106bbd792da2f9bc2e91eb80498afbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:45 +0000
Subject: [PATCH 22/34] Revert "fix: scheduled close of a test subject never
 dropped its finished task"

This reverts commit 7f0d18965826ad15b46e2ad1523190edabd0ca00.
---
 aioreactive/testing/subject.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aioreactive/testing/subject.py b/aioreactive/testing/subject.py
index 982e9f4..b5d8d3b 100644
--- a/aioreactive/testing/subject.py
+++ b/aioreactive/testing/subject.py
@@ -92,7 +92,6 @@ class AsyncSubjectBase(AsyncObserver[TSource]):
                 self._running_tasks.remove(task)
 
         def callback() -> None:
-            nonlocal task
             task = asyncio.ensure_future(worker())
             self._running_tasks.add(task)
 
-- 
2.43.0


From cd7bf2e5a5bac74b7426ed3b3752732a699c511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:45 +0000
Subject: [PATCH 23/34] Revert "fix: test observer invoked each of its
 callbacks twice"

This reverts commit 22f81d1c22623a4df0c528ddc1c53c963994320e.
---
 aioreactive/testing/observer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aioreactive/testing/observer.py b/aioreactive/testing/observer.py
index 436b899..43ac07a 100644
--- a/aioreactive/testing/observer.py
+++ b/aioreactive/testing/observer.py
@@ -37,6 +37,10 @@ class AsyncTestObserver(AsyncAwaitableObserver[TSource]):
 
         self._values: list[tuple[float, Notification[TSource]]] = []
 
+        self._send = asend
+        self._throw = athrow
+        self._close = aclose
+
     def time(self) -> float:
         return self._loop.time()
 
@@ -45,6 +49,7 @@ class AsyncTestObserver(AsyncAwaitableObserver[TSource]):
         time = self.time()
         self._values.append((time, OnNext(value)))
 
+        await self._send(value)
         await super().asend(value)
 
     async def athrow(self, error: Exception) -> None:
@@ -52,6 +57,7 @@ class AsyncTestObserver(AsyncAwaitableObserver[TSource]):
         time = self.time()
         self._values.append((time, OnError(error)))
 
+        await self._throw(error)
         await super().athrow(error)
 
     async def aclose(self) -> None:
@@ -60,6 +66,7 @@ class AsyncTestObserver(AsyncAwaitableObserver[TSource]):
         time = self.time()
         self._values.append((time, OnCompleted()))
 
+        await self._close()
         await super().aclose()
 
     @property
-- 
2.43.0


From 7901fa4b6854d0f75e1ad88ff7f44640ca2e636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:53 +0000
Subject: [PATCH 24/34] fix: async iteration lost or reordered elements sent
 concurrently

---
 aioreactive/observers.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 46e13c2..7e5af24 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -55,15 +55,21 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
     async def _wait_for_pull(self) -> None:
         await self._pull
         self._pull = Future()
+
+        # Hand over to the next producer, in order of arrival
+        while self._awaiters and not self._push.done():
+            awaiter = self._awaiters.pop(0)
+            if not awaiter.done():
+                awaiter.set_result(True)
+                return
         self._busy = False
 
     async def _serialize_access(self) -> None:
         # Serialize producer event to the iterator
-        while self._busy:
+        if self._busy:
             fut: Future[bool] = Future()
             self._awaiters.append(fut)
             await fut
-            self._awaiters.remove(fut)
 
         self._busy = True
 
@@ -80,10 +86,6 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
             raise
         self._push = Future()
         self._pull.set_result(True)
-
-        # Wake up any awaiters
-        for awaiter in self._awaiters[:1]:
-            awaiter.set_result(True)
         return value
 
     async def dispose_async(self) -> None:
-- 
2.43.0


From 5b8a2f4f79b009b88e14f1824b28f8c21dd8721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:39 +0000
Subject: [PATCH 25/34] fix: to_observable left a source subscribed when
 disposed while subscribing

---
 aioreactive/leave.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aioreactive/leave.py b/aioreactive/leave.py
index 85cb243..c932799 100644
--- a/aioreactive/leave.py
+++ b/aioreactive/leave.py
@@ -35,6 +35,7 @@ def to_observable(source: AsyncObservable[_TSource]) -> Observable[_TSource]:
 
     def subscribe(obv: ObserverBase[_TSource], scheduler: SchedulerBase | None = None) -> DisposableBase:
         subscription: AsyncDisposable | None = None
+        disposed = False
 
         async def start() -> None:
             nonlocal subscription
@@ -49,19 +50,21 @@ def to_observable(source: AsyncObservable[_TSource]) -> Observable[_TSource]:
                 obv.on_completed()
 
             subscription = await source.subscribe_async(AsyncAnonymousObserver(asend, athrow, aclose))
+            if disposed:
+                # Disposed before the subscription was established.
+                await subscription.dispose_async()
 
         task = asyncio.create_task(start())
         tasks.add(task)
         task.add_done_callback(tasks.discard)
 
         def dispose() -> None:
+            nonlocal disposed
+            disposed = True
             if subscription:
                 dispose_task = asyncio.create_task(subscription.dispose_async())
                 tasks.add(dispose_task)
                 dispose_task.add_done_callback(tasks.discard)
-            else:
-                # Not subscribed yet.
-                task.cancel()
 
         return Disposable(dispose)
 
-- 
2.43.0


From e5f87b74ce2c4632b96436aeb6d706299dbf4ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:07 +0000
Subject: [PATCH 26/34] fix: deliver a failing element comparison in
 distinct_until_changed

---
 aioreactive/filtering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 2034b5c..2c5b136 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -141,11 +141,11 @@ def distinct_until_changed(
                 async def get_latest() -> Notification[_TSource]:
                     match n:
                         case OnNext(value=x):
-                            if n != latest:
-                                try:
+                            try:
+                                if n != latest:
                                     await safe_obv.asend(x)
-                                except Exception as ex:
-                                    await safe_obv.athrow(ex)
+                            except Exception as ex:
+                                await safe_obv.athrow(ex)
                         case OnError(exception=err):
                             await safe_obv.athrow(err)
 
-- 
2.43.0


From 1ea2f08ca61fa98d31439b0c808beb241648f84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:13 +0000
Subject: [PATCH 27/34] fix: report inner sequences that cannot be subscribed
 to

---
 aioreactive/combine.py   | 5 ++++-
 aioreactive/transform.py | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/aioreactive/combine.py b/aioreactive/combine.py
index bf30b34..c221bba 100644
--- a/aioreactive/combine.py
+++ b/aioreactive/combine.py
@@ -123,7 +123,10 @@ def merge_inner(
                 async def message_loop(model: Model[_TSource]) -> None:
                     while True:
                         msg = await inbox.receive()
-                        model = await update(msg, model)
+                        try:
+                            model = await update(msg, model)
+                        except Exception as ex:
+                            await safe_obv.athrow(ex)
 
                         if model.is_stopped and not model.subscriptions:
                             break
diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index fc2d695..c2c33f4 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -293,8 +293,13 @@ def switch_latest(
                         next_id = current_id + 1
                         for disp in current.to_list():
                             await disp.dispose_async()
-                        inner = await xs.subscribe_async(obv(inbox, next_id))
-                        current, current_id = Some(inner), next_id
+                        current, current_id = Nothing, next_id
+                        try:
+                            inner = await xs.subscribe_async(obv(inbox, next_id))
+                        except Exception as ex:
+                            await safe_obv.athrow(ex)
+                        else:
+                            current = Some(inner)
 
                     case Msg(tag="inner_completed", inner_completed=idx):
                         if idx == current_id:
-- 
2.43.0


From 3c775cf12cbc47b350e2c59918ede6e6198606ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:13 +0000
Subject: [PATCH 28/34] fix: release the first source when subscribing to the
 second one fails

---
 aioreactive/combine.py   | 12 ++++++++++--
 aioreactive/filtering.py |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/aioreactive/combine.py b/aioreactive/combine.py
index c221bba..4f0cc58 100644
--- a/aioreactive/combine.py
+++ b/aioreactive/combine.py
@@ -249,7 +249,11 @@ def combine_latest(
         obv1: AsyncObserver[_TSource] = AsyncNotificationObserver(obv_fn1)
         obv2: AsyncObserver[_TOther] = AsyncNotificationObserver(obv_fn2)
         dispose1 = await pipe(obv1, source.subscribe_async, auto_detach)
-        dispose2 = await pipe(obv2, other.subscribe_async, auto_detach)
+        try:
+            dispose2 = await pipe(obv2, other.subscribe_async, auto_detach)
+        except BaseException:
+            await dispose1.dispose_async()
+            raise
 
         return AsyncDisposable.composite(dispose1, dispose2)
 
@@ -332,7 +336,11 @@ def with_latest_from(
         obv1: AsyncObserver[_TSource] = AsyncNotificationObserver(obv_fn1)
         obv2: AsyncObserver[_TOther] = AsyncNotificationObserver(obv_fn2)
         dispose1 = await pipe(obv1, source.subscribe_async, auto_detach)
-        dispose2 = await pipe(obv2, other.subscribe_async, auto_detach)
+        try:
+            dispose2 = await pipe(obv2, other.subscribe_async, auto_detach)
+        except BaseException:
+            await dispose1.dispose_async()
+            raise
         return AsyncDisposable.composite(dispose1, dispose2)
 
     return AsyncAnonymousObservable(subscribe_async)
diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 2c5b136..2e48c1e 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -319,7 +319,11 @@ def take_until(
 
             obv = AsyncAnonymousObserver(asend, safe_obv.athrow)
             sub2 = await pipe(obv, other.subscribe_async, auto_detach)
-            sub1 = await pipe(safe_obv, source.subscribe_async, auto_detach)
+            try:
+                sub1 = await pipe(safe_obv, source.subscribe_async, auto_detach)
+            except BaseException:
+                await sub2.dispose_async()
+                raise
 
             return AsyncDisposable.composite(sub1, sub2)
 
-- 
2.43.0


From 1206dce2829807e1ebdb17e6568deef4a671a785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:13 +0000
Subject: [PATCH 29/34] fix: to_observable reports a source that cannot be
 subscribed to

---
 aioreactive/leave.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aioreactive/leave.py b/aioreactive/leave.py
index c932799..fa44e3c 100644
--- a/aioreactive/leave.py
+++ b/aioreactive/leave.py
@@ -49,7 +49,11 @@ def to_observable(source: AsyncObservable[_TSource]) -> Observable[_TSource]:
             async def aclose() -> None:
                 obv.on_completed()
 
-            subscription = await source.subscribe_async(AsyncAnonymousObserver(asend, athrow, aclose))
+            try:
+                subscription = await source.subscribe_async(AsyncAnonymousObserver(asend, athrow, aclose))
+            except Exception as ex:
+                obv.on_error(ex)
+                return
             if disposed:
                 # Disposed before the subscription was established.
                 await subscription.dispose_async()
-- 
2.43.0


From c00da21984e27dcf33e131160c7df38fd029897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 30/34] fix: remove the disposed observer from a subject, not
 one that compares equal

---
 aioreactive/subject.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index 0d72d36..1f3a925 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -166,8 +166,11 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
 
         async def dispose() -> None:
             log.debug("AsyncMultiStream:dispose()")
-            if observer in self._observers:
-                self._observers.remove(observer)
+            # Remove exactly this observer, others might compare equal to it
+            for index, obv in enumerate(self._observers):
+                if obv is observer:
+                    del self._observers[index]
+                    break
 
         return AsyncDisposable.create(dispose)
 
-- 
2.43.0


From 88c102d5296607e926289a9ef1665f859ab18238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 31/34] fix: keep an async iteration usable when the consumer
 stops waiting for an element

---
 aioreactive/observers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 7e5af24..1c381b8 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import Future, iscoroutinefunction
+from asyncio import Future, iscoroutinefunction, shield
 from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, Coroutine
 from typing import Any, TypeVar, cast
 
@@ -78,7 +78,8 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
             self._subscription = await self._source.subscribe_async(self)
 
         try:
-            value = await self._push
+            # The consumer might stop waiting, e.g. because of a timeout
+            value = await shield(self._push)
         except Exception:
             # Terminated, release the producer of the final event.
             if not self._pull.done():
-- 
2.43.0


From 35105d915a4760f99bcff6c0057e1caaecaeac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 32/34] fix: do not fail the producer when the awaitable
 observer was cancelled

---
 aioreactive/observers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 1c381b8..97fe1f6 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -305,7 +305,9 @@ class AsyncAwaitableObserver(Future[_TSource], AsyncObserver[_TSource], Disposab
 
         self._is_stopped = True
 
-        self.set_exception(error)
+        # Might have been cancelled by whoever awaits it
+        if not self.done():
+            self.set_exception(error)
         await self._athrow(error)
 
     async def aclose(self) -> None:
@@ -317,7 +319,9 @@ class AsyncAwaitableObserver(Future[_TSource], AsyncObserver[_TSource], Disposab
 
         self._is_stopped = True
 
-        if self._has_value:
+        if self.done():
+            log.debug("AsyncAwaitableObserver:aclose(), Cancelled!!")
+        elif self._has_value:
             self.set_result(self._last_value)
         else:
             self.cancel()
-- 
2.43.0


From eee4f86230d0c0a1d307ebc3695cbce3f4de9bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 33/34] fix: keep an async iteration usable when a waiting
 producer is cancelled

---
 aioreactive/observers.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 97fe1f6..3fb991a 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import Future, iscoroutinefunction, shield
+from asyncio import CancelledError, Future, iscoroutinefunction, shield
 from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, Coroutine
 from typing import Any, TypeVar, cast
 
@@ -53,9 +53,20 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         await self._wait_for_pull()
 
     async def _wait_for_pull(self) -> None:
-        await self._pull
+        pull = self._pull
+        try:
+            await shield(pull)
+        except CancelledError:
+            # The producer gave up, but its event is still to be consumed
+            pull.add_done_callback(lambda _: self._consumed())
+            raise
+        self._consumed()
+
+    def _consumed(self) -> None:
         self._pull = Future()
+        self._hand_over()
 
+    def _hand_over(self) -> None:
         # Hand over to the next producer, in order of arrival
         while self._awaiters and not self._push.done():
             awaiter = self._awaiters.pop(0)
@@ -69,7 +80,13 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         if self._busy:
             fut: Future[bool] = Future()
             self._awaiters.append(fut)
-            await fut
+            try:
+                await fut
+            except CancelledError:
+                if not fut.cancelled():
+                    # It was our turn already, pass it on
+                    self._hand_over()
+                raise
 
         self._busy = True
 
-- 
2.43.0


From ab8af9ad50c8e6790537394ab1423e5e240d5770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:44 +0000
Subject: [PATCH 34/34] fix: cancelling one producer that waits for an observer
 does not cancel the others

---
 aioreactive/subject.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index 1f3a925..c26ad96 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import Future
+from asyncio import Future, shield
 from typing import TypeVar
 
 from expression.system import AsyncDisposable, ObjectDisposedException
@@ -42,7 +42,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         # AsyncSingleStreams are cold and will await a sink.
         while self._observer is None:
             log.debug("AsyncSingleStream:asend:awaiting start")
-            await self._wait
+            await shield(self._wait)
             log.debug("AsyncSingleStream:asend:awaiting:done")
             self.check_disposed()
 
@@ -55,7 +55,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         self.check_disposed()
 
         while self._observer is None:
-            await self._wait
+            await shield(self._wait)
             self.check_disposed()
 
         if not self._is_stopped:
@@ -69,7 +69,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
 
         while self._observer is None:
             log.debug("AsyncSingleStream:aclose:awaiting start")
-            await self._wait
+            await shield(self._wait)
             self.check_disposed()
 
         if not self._is_stopped:
-- 
2.43.0

