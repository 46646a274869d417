From 3bbbe7eda1cd0e9d76bf994c7837709504ac1654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 01/38] fix: accept a trace header given as a list in
 HTTP_HEADERS extraction

---
 jaeger_client/codecs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 3f11755..53ae5c7 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -89,7 +89,12 @@ class TextCodec(Codec):
             uc_key = key.lower()
             if uc_key == self.trace_id_header:
                 if self.url_encoding:
-                    value = urllib.parse.unquote(value)
+                    if isinstance(value, str):
+                        value = urllib.parse.unquote(value)
+                    elif isinstance(value, list):
+                        # sometimes headers are presented as arrays of values
+                        value = [urllib.parse.unquote(v) if isinstance(v, str) else v
+                                 for v in value]
                 trace_id, span_id, parent_id, flags = \
                     span_context_from_string(value)
             elif uc_key.startswith(self.baggage_prefix):
-- 
2.43.0


From ed87e9b9dad350c9db553b8cffaf6ff063faa829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 02/38] fix: raise SpanContextCorruptedException for malformed
 binary carriers

---
 jaeger_client/codecs.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 53ae5c7..a3ee6f1 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -161,21 +161,24 @@ class BinaryCodec(Codec):
         if not isinstance(carrier, bytearray):
             raise InvalidCarrierException('carrier not a bytearray')
         baggage = {}
-        high_trace_id, low_trace_id, span_id, parent_id, flags, baggage_count = \
-            struct.unpack('>QQQQBI', carrier[:37])
-        # if high_trace_id isn't 0, then we are dealing with 128bit trace id integer,
-        # therefore unpack into 1 number
-        if high_trace_id:
-            trace_id = (high_trace_id << 64) | low_trace_id
-        else:
-            trace_id = low_trace_id
+        try:
+            high_trace_id, low_trace_id, span_id, parent_id, flags, baggage_count = \
+                struct.unpack('>QQQQBI', carrier[:37])
+            # if high_trace_id isn't 0, then we are dealing with 128bit trace id integer,
+            # therefore unpack into 1 number
+            if high_trace_id:
+                trace_id = (high_trace_id << 64) | low_trace_id
+            else:
+                trace_id = low_trace_id
 
-        if baggage_count != 0:
-            baggage_data = carrier[37:]
-            for _ in range(baggage_count):
-                key, value, bytes_read = self._unpack_baggage_item(baggage_data)
-                baggage[key] = value
-                baggage_data = baggage_data[bytes_read:]
+            if baggage_count != 0:
+                baggage_data = carrier[37:]
+                for _ in range(baggage_count):
+                    key, value, bytes_read = self._unpack_baggage_item(baggage_data)
+                    baggage[key] = value
+                    baggage_data = baggage_data[bytes_read:]
+        except (struct.error, UnicodeDecodeError) as e:
+            raise SpanContextCorruptedException('malformed binary trace context: %s' % e)
 
         return SpanContext(trace_id=trace_id, span_id=span_id,
                            parent_id=parent_id, flags=flags, baggage=baggage)
@@ -202,7 +205,11 @@ class BinaryCodec(Codec):
         return key, value, bytes_read
 
     def _read_kv(self, data):
-        data_len = struct.unpack('>i', data[:4])[0]
+        data_len = struct.unpack('>I', data[:4])[0]
+        if data_len > len(data) - 4:
+            raise SpanContextCorruptedException(
+                'malformed binary trace context: %d bytes of baggage expected, %d left'
+                % (data_len, len(data) - 4))
         data_value = struct.unpack('>' + 'c' * data_len, data[4:4 + data_len])
         bytes_read = 4 + data_len
         return b''.join(data_value).decode('utf-8'), bytes_read
-- 
2.43.0


From 40113133cfcb103e4654851875e01ee2cfc5a34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 03/38] fix: keep the sampled bit of debug contexts in B3
 propagation

---
 jaeger_client/codecs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index a3ee6f1..8179d16 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -360,7 +360,7 @@ class B3Codec(Codec):
             carrier[self.parent_span_header] = format(span_context.parent_id, 'x').zfill(16)
         if span_context.flags & DEBUG_FLAG == DEBUG_FLAG:
             carrier[self.flags_header] = '1'
-        elif span_context.flags & SAMPLED_FLAG == SAMPLED_FLAG:
+        if span_context.flags & SAMPLED_FLAG == SAMPLED_FLAG:
             carrier[self.sampled_header] = '1'
 
     def extract(self, carrier):
-- 
2.43.0


From 9948bad944684ac57c2906109b8d4a112f4d60c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 04/38] fix: write B3 trace ids above 64 bits with 32 digits

---
 jaeger_client/codecs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 8179d16..4fc68c8 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -351,7 +351,7 @@ class B3Codec(Codec):
     def inject(self, span_context, carrier):
         if not isinstance(carrier, dict):
             raise InvalidCarrierException('carrier not a dictionary')
-        if self.generate_128bit_trace_id:
+        if self.generate_128bit_trace_id or span_context.trace_id >= 1 << 64:
             carrier[self.trace_header] = format(span_context.trace_id, 'x').zfill(32)
         else:
             carrier[self.trace_header] = format(span_context.trace_id, 'x').zfill(16)
-- 
2.43.0


From 1aa1ee0c59dd219aeaded66eadca77a8e4cb1bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 05/38] fix: refuse negative ids in B3 headers

---
 jaeger_client/codecs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 4fc68c8..1cbccd8 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -322,7 +322,10 @@ def header_to_hex(header):
             'malformed trace context "%s", expected hex string' % header)
 
     try:
-        return int(header, 16)
+        value = int(header, 16)
+        if value < 0:
+            raise ValueError('negative id')
+        return value
     except ValueError:
         raise SpanContextCorruptedException(
             'malformed trace context "%s", expected hex string' % header)
-- 
2.43.0


From 69ea1cc7b0709116b40ecb865d5cfaebeecc325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 06/38] fix: let references take precedence over the active
 span as parent

---
 jaeger_client/tracer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index 1c6c002..48b0e69 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -157,11 +157,6 @@ class Tracer(opentracing.Tracer):
         """
         parent = child_of
 
-        if self.active_span is not None \
-                and not ignore_active_span \
-                and not parent:
-            parent = self.active_span
-
         # allow Span to be passed as reference, not just SpanContext
         if isinstance(parent, Span):
             parent = parent.context
@@ -179,6 +174,10 @@ class Tracer(opentracing.Tracer):
         if valid_references and (parent is None or not parent.has_trace):
             parent = valid_references[0].referenced_context
 
+        # the active span is only the parent when no other one is given
+        if parent is None and not ignore_active_span and self.active_span is not None:
+            parent = self.active_span.context
+
         rpc_server = bool(tags and tags.get(ext_tags.SPAN_KIND) == ext_tags.SPAN_KIND_RPC_SERVER)
 
         if parent is None or not parent.has_trace:
-- 
2.43.0


From 9f76a7926dbbc78c7ed719b222a951257cedcf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 07/38] fix: consult the sampler for a new trace started from a
 baggage-only context

---
 jaeger_client/tracer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index 48b0e69..e3cf2f7 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -186,7 +186,7 @@ class Tracer(opentracing.Tracer):
             parent_id = None
             flags = 0
             baggage = None
-            if parent is None:
+            if parent is None or not parent.debug_id:
                 sampled, sampler_tags = \
                     self.sampler.is_sampled(trace_id, operation_name or '')
                 if sampled:
@@ -194,7 +194,7 @@ class Tracer(opentracing.Tracer):
                     tags = tags or {}
                     for k, v in sampler_tags.items():
                         tags[k] = v
-            elif parent.debug_id and self.is_debug_allowed(operation_name):
+            elif self.is_debug_allowed(operation_name):
                 flags = SAMPLED_FLAG | DEBUG_FLAG
                 tags = tags or {}
                 tags[self.debug_id_header] = parent.debug_id
-- 
2.43.0


From 1a801aa161a886cba38d7ebd07a007684c4b46d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 08/38] fix: never generate a zero trace or span id

---
 jaeger_client/tracer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index e3cf2f7..b4647a7 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -321,7 +321,8 @@ class Tracer(opentracing.Tracer):
         return self.random.getrandbits(constants.MAX_ID_BITS)
 
     def _random_id(self, bitsize: int) -> int:
-        return self.random.getrandbits(bitsize)
+        # zero means 'no id' to has_trace and to the other clients
+        return self.random.getrandbits(bitsize) or 1
 
     def is_debug_allowed(self, *args: Any, **kwargs: Any) -> bool:
         if not self.throttler:
-- 
2.43.0


From 7052c797debb686ef1a82823a6904ea732f2a3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:05 +0000
Subject: [PATCH 09/38] fix: ignore sampling.priority values that are no number
 instead of raising

---
 jaeger_client/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index 65ff161..9a43c1f 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -124,7 +124,7 @@ class Span(opentracing.Span):
 
         try:
             value_num = int(value)
-        except ValueError:
+        except (ValueError, TypeError, OverflowError):
             return False
         if value_num == 0:
             self.context.flags &= ~(SAMPLED_FLAG | DEBUG_FLAG)
-- 
2.43.0


From 42f95182523fa1f0da13c9130b9447294196c738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:24 +0000
Subject: [PATCH 10/38] fix: record integer tags that do not fit 64 bits as
 text

---
 jaeger_client/thrift.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index fbe07ff..6c5fca7 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -23,6 +23,8 @@ _max_signed_port = (1 << 15) - 1
 _max_unsigned_port = (1 << 16)
 _max_signed_id = (1 << 63) - 1
 _max_unsigned_id = (1 << 64)
+_min_signed_long = -(1 << 63)
+_max_signed_long = (1 << 63) - 1
 
 
 def _id_to_low(big_id):
@@ -66,7 +68,7 @@ def make_tag(key, value, max_length, max_traceback_length):
             key=key,
             value=value
         )
-    elif isinstance(value, int):
+    elif isinstance(value, int) and _min_signed_long <= value <= _max_signed_long:
         return _make_long_tag(
             key=key,
             value=value
-- 
2.43.0


From 66c5dbc60fb987018771f2ec165f98256d7c14e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:10 +0000
Subject: [PATCH 11/38] fix: count undecodable sampling responses as failed
 queries

---
 jaeger_client/sampler.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index 355f853..d941862 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -435,12 +435,10 @@ class RemoteControlledSampler(Sampler):
 
         # In Python 3.5 response.body is of type bytes and json.loads() does only support str
         # See: https://github.com/jaegertracing/jaeger-client-python/issues/180
-        if hasattr(response.body, 'decode') and callable(response.body.decode):
-            response_body = response.body.decode('utf-8')
-        else:
-            response_body = response.body
-
+        response_body = response.body
         try:
+            if hasattr(response_body, 'decode') and callable(response_body.decode):
+                response_body = response_body.decode('utf-8')
             sampling_strategies_response = json.loads(response_body)
             self.metrics.sampler_retrieved(1)
         except Exception as e:
-- 
2.43.0


From ec1fc90a02857d562ab826e67abd52266772be64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 12/38] fix: reject invalid per-operation strategies without
 applying parts of them

---
 jaeger_client/sampler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index d941862..9af9a9a 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -277,6 +277,8 @@ class AdaptiveSampler(Sampler):
         self.default_sampling_probability = \
             strategies.get(DEFAULT_SAMPLING_PROBABILITY_STR, DEFAULT_SAMPLING_PROBABILITY)
         self.lower_bound = strategies.get(DEFAULT_LOWER_BOUND_STR, DEFAULT_LOWER_BOUND)
+        # fail now rather than in is_sampled() if the lower bound is invalid
+        RateLimitingSampler(self.lower_bound)
         self.max_operations = max_operations
 
     def is_sampled(self, trace_id: int, operation: str = '') -> _IsSampledType:
@@ -295,6 +297,10 @@ class AdaptiveSampler(Sampler):
 
     def update(self, strategies: Dict[str, Any]) -> None:
         # (NB) This function should only be called while holding a Write lock.
+
+        # Raises if any of the strategies is invalid, before anything is changed.
+        AdaptiveSampler(strategies, self.max_operations)
+
         for strategy in strategies.get(STRATEGIES_STR, []):
             operation = strategy.get(OPERATION_STR)
             lower_bound = strategies.get(DEFAULT_LOWER_BOUND_STR, DEFAULT_LOWER_BOUND)
-- 
2.43.0


From 7efdc00ffb864c3ea9d9f71e58094295e2650e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:39 +0000
Subject: [PATCH 13/38] fix: complete the future when submitted work raises
 right away

---
 jaeger_client/ioloop_util.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/jaeger_client/ioloop_util.py b/jaeger_client/ioloop_util.py
index eb73b6f..8310bd9 100644
--- a/jaeger_client/ioloop_util.py
+++ b/jaeger_client/ioloop_util.py
@@ -37,9 +37,7 @@ def submit(fn, io_loop, *args, **kwargs):
             # The function we ran didn't return a future and instead raised
             # an exception. Let's pretend that it returned this dummy
             # future with our stack trace.
-            f = gen.Future()
-            f.set_exc_info(sys.exc_info())
-            on_done(f)
+            on_done(future_exception(sys.exc_info()[1]))
         else:
             result.add_done_callback(on_done)
 
-- 
2.43.0


From 1e59ad6062be0a3283ad461640599d2ec66852b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:42 +0000
Subject: [PATCH 14/38] fix: let a repeated close of the reporter complete

---
 jaeger_client/reporter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index 6888aa8..0ac4e41 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -236,8 +236,10 @@ class Reporter(BaseReporter):
     def _flush(self):
         # stopping here ensures we don't lose spans from pending _report_span_from_ioloop callbacks
         with self.stop_lock:
+            stopping = self.stopped
             self.stopped = True
-        yield self.queue.put(self.stop)
+        if not stopping:
+            yield self.queue.put(self.stop)
         yield self.queue.join()
 
 
-- 
2.43.0


From b3a8930290bf65b2b84e8ab1678aab169ea853fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:44 +0000
Subject: [PATCH 15/38] fix: count spans dropped for lack of a process

---
 jaeger_client/reporter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index 0ac4e41..ee3f26a 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -203,6 +203,7 @@ class Reporter(BaseReporter):
         with self._process_lock:
             process = self._process
             if not process:
+                self.metrics.reporter_dropped(len(spans))
                 return
         try:
             batch = thrift.make_jaeger_batch(spans=spans, process=process)
-- 
2.43.0


From f1ab83745d59956972574963549aae54235c5ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:46 +0000
Subject: [PATCH 16/38] fix: complete close of a composite reporter without
 reporters

---
 jaeger_client/reporter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index ee3f26a..4d1dc71 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -276,6 +276,8 @@ class CompositeReporter(BaseReporter):
         lock = Lock()
         count = [0]
         future: Future = Future()
+        if not self.reporters:
+            future.set_result(True)
 
         def on_close(_):
             with lock:
-- 
2.43.0


From 1d1fa6866f2bb01cf2cd55317acbf9eed03d582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:49 +0000
Subject: [PATCH 17/38] fix: do not poll the agent after close

---
 jaeger_client/sampler.py   | 3 +++
 jaeger_client/throttler.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index 9af9a9a..cf49337 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -411,6 +411,9 @@ class RemoteControlledSampler(Sampler):
                 'Delaying sampling strategy polling by %d sec', delay)
 
     def _delayed_polling(self):
+        with self.lock:
+            if not self.running:
+                return
         periodic = self._create_periodic_callback()
         self._poll_sampling_manager()  # Initialize sampler now
         with self.lock:
diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index 6866e4b..913917c 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -120,6 +120,10 @@ class RemoteThrottler(Throttler):
             return self.credits.keys()
 
     def _delayed_polling(self):
+        with self.lock:
+            if not self.running:
+                return
+
         def callback():
             self._fetch_credits(self._operations())
 
-- 
2.43.0


From b788200a183f752ef93a1482f4af40e5fbd20b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:52 +0000
Subject: [PATCH 18/38] fix: close the throttler with the tracer

---
 jaeger_client/tracer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index b4647a7..91388a5 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -290,6 +290,8 @@ class Tracer(opentracing.Tracer):
             flush has been completed.
         """
         self.sampler.close()
+        if self.throttler:
+            self.throttler.close()
         return self.reporter.close()
 
     def _emit_span_metrics(self, span: Span, join: Optional[bool] = False) -> Span:
-- 
2.43.0


From e7d48c293729977b8f56fa33cc83dd53dbabc80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:54 +0000
Subject: [PATCH 19/38] fix: request credits for a snapshot of the known
 operations

---
 jaeger_client/throttler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index 913917c..6a6cca8 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -117,7 +117,7 @@ class RemoteThrottler(Throttler):
 
     def _operations(self):
         with self.lock:
-            return self.credits.keys()
+            return list(self.credits)
 
     def _delayed_polling(self):
         with self.lock:
-- 
2.43.0


From f88d065cbd5eb98cba19250ad276823dc4f8e34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:57 +0000
Subject: [PATCH 20/38] fix: count undecodable throttling responses as failures

---
 jaeger_client/throttler.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index 6a6cca8..6361a07 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -161,12 +161,10 @@ class RemoteThrottler(Throttler):
         response = future.result()
         # In Python 3.5 response.body is of type bytes and json.loads() does only support str
         # See: https://github.com/jaegertracing/jaeger-client-python/issues/180
-        if hasattr(response.body, 'decode') and callable(response.body.decode):
-            response_body = response.body.decode('utf-8')
-        else:
-            response_body = response.body
-
+        response_body = response.body
         try:
+            if hasattr(response_body, 'decode') and callable(response_body.decode):
+                response_body = response_body.decode('utf-8')
             throttling_response = json.loads(response_body)
             self.logger.debug('Received throttling response: %s',
                               throttling_response)
-- 
2.43.0


From a7b5c8fed50d400e590c34ed279225ea31ee5cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:21 +0000
Subject: [PATCH 21/38] fix: refuse credit balances that are no finite number

---
 jaeger_client/throttler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index 6361a07..19e8c48 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -182,6 +182,8 @@ class RemoteThrottler(Throttler):
             for op_balance in response['balances']:
                 op = op_balance['operation']
                 balance = op_balance['balance']
+                if not abs(balance) < float('inf'):
+                    raise ValueError('Invalid balance %s' % balance)
                 if op not in self.credits:
                     self.credits[op] = 0
                 self.credits[op] += balance
-- 
2.43.0


From ba8d50f1cde57ae7194952ccdc2cfe34625fd912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:24 +0000
Subject: [PATCH 22/38] fix: do not lose concurrent baggage updates of a span

---
 jaeger_client/span.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index 9a43c1f..652efea 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -149,10 +149,9 @@ class Span(opentracing.Span):
         return self
 
     def set_baggage_item(self, key: str, value: Optional[str]) -> 'Span':
-        prev_value = self.get_baggage_item(key=key)
-        new_context = self.context.with_baggage_item(key=key, value=value)
         with self.update_lock:
-            self._context = new_context
+            prev_value = self.get_baggage_item(key=key)
+            self._context = self.context.with_baggage_item(key=key, value=value)
         if self.is_sampled():
             logs = {
                 'event': 'baggage',
-- 
2.43.0


From 590e14e60c438a8f951dfdae83f436f33f87ea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:27 +0000
Subject: [PATCH 23/38] fix: report the low 64 bits of ids that do not fit the
 wire

---
 jaeger_client/thrift.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index 6c5fca7..0ff5c9f 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -50,6 +50,7 @@ def id_to_int(big_id):
         return None
     # thrift defines ID fields as i64, which is signed,
     # therefore we convert large IDs (> 2^63) to negative longs
+    big_id &= _max_unsigned_id - 1
     if big_id > _max_signed_id:
         big_id -= _max_unsigned_id
     return big_id
-- 
2.43.0


From 2ad57dd9c4014edda08852d66f8f45cef78c047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 24/38] fix: report only the flag bits that fit the wire

---
 jaeger_client/thrift.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index 0ff5c9f..07ca05f 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -21,6 +21,7 @@ import jaeger_client.thrift_gen.sampling.SamplingManager as sampling_manager
 
 _max_signed_port = (1 << 15) - 1
 _max_unsigned_port = (1 << 16)
+_max_signed_flags = (1 << 31) - 1
 _max_signed_id = (1 << 63) - 1
 _max_unsigned_id = (1 << 64)
 _min_signed_long = -(1 << 63)
@@ -213,7 +214,7 @@ def make_jaeger_batch(spans, process):
                 parentSpanId=id_to_int(span.parent_id) or 0,
                 operationName=span.operation_name,
                 references=make_references(span.references),
-                flags=span.context.flags,
+                flags=span.context.flags & _max_signed_flags,
                 startTime=timestamp_micros(span.start_time),
                 duration=timestamp_micros(span.end_time - span.start_time),
                 tags=span.tags,  # TODO
-- 
2.43.0


From cef69422a94e555a0a35673b90457f4737fa95d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:33 +0000
Subject: [PATCH 25/38] fix: do not report references to contexts without a
 trace

---
 jaeger_client/thrift.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index 07ca05f..942f384 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -191,6 +191,10 @@ def make_references(references):
         return None
     list_of_span_refs = list()
     for span_ref in references:
+        if span_ref.referenced_context.trace_id is None or \
+                span_ref.referenced_context.span_id is None:
+            # a context without a trace cannot be referenced
+            continue
         list_of_span_refs.append(ttypes.SpanRef(
             refType=make_ref_type(span_ref.type),
             traceIdLow=id_to_int(_id_to_low(span_ref.referenced_context.trace_id)),
-- 
2.43.0


From d856e47f5fb3e9738a2e55de989faf732ed0d315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 26/38] fix: report a snapshot of the tags and logs of a span

---
 jaeger_client/thrift.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index 942f384..0990a51 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -221,8 +221,8 @@ def make_jaeger_batch(spans, process):
                 flags=span.context.flags & _max_signed_flags,
                 startTime=timestamp_micros(span.start_time),
                 duration=timestamp_micros(span.end_time - span.start_time),
-                tags=span.tags,  # TODO
-                logs=span.logs,  # TODO
+                tags=list(span.tags),  # TODO
+                logs=list(span.logs),  # TODO
             )
         batch.spans.append(jaeger_span)
     return batch
-- 
2.43.0


From 4abc88af1a8099cf7e35e8e81e924cce012c62c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:30 +0000
Subject: [PATCH 27/38] fix: discard a partly encoded batch

---
 jaeger_client/local_agent_net.py | 8 ++++++--
 jaeger_client/reporter.py        | 8 +++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/local_agent_net.py b/jaeger_client/local_agent_net.py
index 7f95606..dd1523f 100644
--- a/jaeger_client/local_agent_net.py
+++ b/jaeger_client/local_agent_net.py
@@ -78,8 +78,8 @@ class LocalAgentSender(TBufferedTransport):
 
         # UDP reporting - this will only get written to after our flush() call.
         # We are buffering things up because we are a TBufferedTransport.
-        udp = TUDPTransport(host, reporting_port)
-        TBufferedTransport.__init__(self, udp)
+        self._udp = TUDPTransport(host, reporting_port)
+        TBufferedTransport.__init__(self, self._udp)
 
     def _create_new_thread_loop(self):
         """
@@ -95,6 +95,10 @@ class LocalAgentSender(TBufferedTransport):
         """Empty read frame that is never ready"""
         return Future()
 
+    def discard(self):
+        """Forget what was written since the last flush()."""
+        TBufferedTransport.__init__(self, self._udp)
+
     # Pass-through for HTTP sampling strategies request.
     def request_sampling_strategy(self, *args, **kwargs):
         return self.local_agent_http.request_sampling_strategy(*args, **kwargs)
diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index 4d1dc71..e887525 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -224,7 +224,13 @@ class Reporter(BaseReporter):
         Send batch of spans out via thrift transport. Any exceptions thrown
         will be caught above in the exception handler of _submit().
         """
-        return self.agent.emitBatch(batch)
+        try:
+            return self.agent.emitBatch(batch)
+        except Exception:
+            # a partly encoded batch must not end up in the next datagram
+            if hasattr(self._channel, 'discard'):
+                self._channel.discard()
+            raise
 
     def close(self) -> Future:
         """
-- 
2.43.0


From 94d38256aab878e186c18e1a25c93d2419df8b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:33 +0000
Subject: [PATCH 28/38] fix: report names and texts that are not valid Unicode
 strings

---
 jaeger_client/reporter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index e887525..504747a 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -35,6 +35,12 @@ from jaeger_client.thrift_gen.agent import Agent
 default_logger = logging.getLogger('jaeger_tracing')
 
 
+class _CompactProtocol(TCompactProtocol.TCompactProtocol):
+    """Writes every value as a string, replacing characters that UTF-8 cannot represent."""
+    def writeString(self, value: Any) -> None:
+        self.writeBinary(str(value).encode('utf-8', 'replace'))
+
+
 class BaseReporter(object):
     """Abstract class."""
     def report_span(self, span: Span) -> None:
@@ -194,7 +200,7 @@ class Reporter(BaseReporter):
         :param: transport:
         :return: Thrift compact protocol
         """
-        return TCompactProtocol.TCompactProtocol(transport)
+        return _CompactProtocol(transport)
 
     @tornado.gen.coroutine
     def _submit(self, spans):
-- 
2.43.0


From 2717255a1af9363629de9b0cb62e00b3243a1a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:36 +0000
Subject: [PATCH 29/38] fix: accept all supported keys when validating the
 configuration

---
 jaeger_client/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jaeger_client/config.py b/jaeger_client/config.py
index c70f56a..fadc089 100644
--- a/jaeger_client/config.py
+++ b/jaeger_client/config.py
@@ -124,6 +124,9 @@ class Config(object):
 
     def _validate_config(self, config):
         allowed_keys = ['logging',
+                        'metrics',
+                        'max_operations',
+                        'debug_id_header',
                         'local_agent',
                         'sampler',
                         'tags',
-- 
2.43.0


From bd76dd29f140f30228bd88c8b420837749a6978f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:38 +0000
Subject: [PATCH 30/38] fix: do not write environment tags into the supplied
 configuration

---
 jaeger_client/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/config.py b/jaeger_client/config.py
index fadc089..bc27e88 100644
--- a/jaeger_client/config.py
+++ b/jaeger_client/config.py
@@ -316,7 +316,7 @@ class Config(object):
         :return: Returns tags from config and `JAEGER_TAGS` environment variable
         to use as process-wide tracer tags
         """
-        tags = self.config.get('tags', {})
+        tags = dict(self.config.get('tags') or {})
         env_tags = os.environ.get('JAEGER_TAGS', '')
         if env_tags:
             for kv in env_tags.split(','):
-- 
2.43.0


From cdbf92d244ae9126cd095ea4b4db59ff33979c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:41 +0000
Subject: [PATCH 31/38] fix: accept = in values and stray commas in JAEGER_TAGS

---
 jaeger_client/config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/config.py b/jaeger_client/config.py
index bc27e88..35efb85 100644
--- a/jaeger_client/config.py
+++ b/jaeger_client/config.py
@@ -320,8 +320,9 @@ class Config(object):
         env_tags = os.environ.get('JAEGER_TAGS', '')
         if env_tags:
             for kv in env_tags.split(','):
-                key, value = kv.split('=')
-                tags[key.strip()] = value.strip()
+                key, separator, value = kv.partition('=')
+                if separator:
+                    tags[key.strip()] = value.strip()
         return tags
 
     @property
-- 
2.43.0


From 695b958af1c1a64dd654ed031305010faae760d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:44 +0000
Subject: [PATCH 32/38] fix: keep Prometheus metrics with different names or
 labels apart

---
 jaeger_client/metrics/prometheus.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/jaeger_client/metrics/prometheus.py b/jaeger_client/metrics/prometheus.py
index a4f3339..3a3e557 100644
--- a/jaeger_client/metrics/prometheus.py
+++ b/jaeger_client/metrics/prometheus.py
@@ -37,13 +37,10 @@ class PrometheusMetricsFactory(MetricsFactory):
 
     def _get_metric(self, metricType, name, tags):
         if self._service_name_label:
-            if tags is None:
-                tags = {'service': self._service_name_label}
-            else:
-                tags['service'] = self._service_name_label
+            tags = dict(tags or {}, service=self._service_name_label)
 
-        label_name_list = self._get_tag_name_list(tags)
-        cache_key = name + '@@'.join(label_name_list)
+        label_name_list = sorted(self._get_tag_name_list(tags))
+        cache_key = (metricType, name, tuple(label_name_list))
 
         metric = self._cache.get(cache_key)
         if metric is None:
-- 
2.43.0


From e5eda9bd7837a96fc326f06f3325dcc0c41ec784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:35 +0000
Subject: [PATCH 33/38] fix: refuse credit balances too large for a float

---
 jaeger_client/throttler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index 19e8c48..df65ed4 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -14,6 +14,7 @@
 
 import json
 import logging
+import math
 import random
 from threading import Lock
 from typing import Any, Optional
@@ -182,7 +183,7 @@ class RemoteThrottler(Throttler):
             for op_balance in response['balances']:
                 op = op_balance['operation']
                 balance = op_balance['balance']
-                if not abs(balance) < float('inf'):
+                if not math.isfinite(balance):
                     raise ValueError('Invalid balance %s' % balance)
                 if op not in self.credits:
                     self.credits[op] = 0
-- 
2.43.0


From 57c0ad699e0d938b3af6c5e1b02333c41673db6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 34/38] fix: keep the rate limit when several threads sample

---
 jaeger_client/sampler.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index cf49337..7f6cf9f 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -148,6 +148,7 @@ class RateLimitingSampler(Sampler):
 
     def __init__(self, max_traces_per_second: float = 10) -> None:
         super(RateLimitingSampler, self).__init__()
+        self.lock = Lock()
         self.rate_limiter: RateLimiter = None  # type:ignore  # value is set below
         self._init(max_traces_per_second)
 
@@ -169,7 +170,8 @@ class RateLimitingSampler(Sampler):
             self.rate_limiter.update(max_traces_per_second, max_balance)
 
     def is_sampled(self, trace_id: int, operation: str = '') -> _IsSampledType:
-        return self.rate_limiter.check_credit(1.0), self._tags
+        with self.lock:
+            return self.rate_limiter.check_credit(1.0), self._tags
 
     def close(self) -> None:
         pass
@@ -185,10 +187,11 @@ class RateLimitingSampler(Sampler):
         return d1 == d2
 
     def update(self, max_traces_per_second: float) -> bool:
-        if self.traces_per_second == max_traces_per_second:
-            return False
-        self._init(max_traces_per_second)
-        return True
+        with self.lock:
+            if self.traces_per_second == max_traces_per_second:
+                return False
+            self._init(max_traces_per_second)
+            return True
 
     def __str__(self) -> str:
         return 'RateLimitingSampler(%s)' % self.traces_per_second
-- 
2.43.0


From 36107f890b2c89394b3d78c8af8319256c5b86a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 35/38] fix: report a tuple as a corrupted trace context

---
 jaeger_client/codecs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 1cbccd8..04d5665 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -247,7 +247,7 @@ def span_context_from_string(value):
         value = value[0]
     if not isinstance(value, (str,)):
         raise SpanContextCorruptedException(
-            'trace context not a string "%s"' % value)
+            'trace context not a string "%s"' % (value,))
     parts = value.split(':')
     if len(parts) != 4:
         raise SpanContextCorruptedException(
-- 
2.43.0


From 1c7ca068e96b439a0de7eb64ad71b468bf8104fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 36/38] fix: report a tuple as a corrupted B3 header

---
 jaeger_client/codecs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 04d5665..3864027 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -319,7 +319,7 @@ class ZipkinCodec(Codec):
 def header_to_hex(header):
     if not isinstance(header, (str,)):
         raise SpanContextCorruptedException(
-            'malformed trace context "%s", expected hex string' % header)
+            'malformed trace context "%s", expected hex string' % (header,))
 
     try:
         value = int(header, 16)
-- 
2.43.0


From 76ac65407b46b8b4de508eb56569e560b66532b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:26 +0000
Subject: [PATCH 37/38] fix: complete the future of submitted work that is
 cancelled

---
 jaeger_client/ioloop_util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jaeger_client/ioloop_util.py b/jaeger_client/ioloop_util.py
index 8310bd9..99de2e7 100644
--- a/jaeger_client/ioloop_util.py
+++ b/jaeger_client/ioloop_util.py
@@ -46,6 +46,10 @@ def submit(fn, io_loop, *args, **kwargs):
         Set tornado.Future results to the concurrent.Future.
         :param tornado_future:
         """
+        if tornado_future.cancelled():
+            # exception() and result() would raise here
+            future.cancel()
+            return
         exception = tornado_future.exception()
         if not exception:
             future.set_result(tornado_future.result())
-- 
2.43.0


From 53a6fd870eb907b8263abed306fd37a7b7d9929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:21 +0000
Subject: [PATCH 38/38] fix: look up network interfaces by their names

---
 jaeger_client/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/utils.py b/jaeger_client/utils.py
index ff464b4..4da32d2 100644
--- a/jaeger_client/utils.py
+++ b/jaeger_client/utils.py
@@ -93,7 +93,7 @@ def get_local_ip_by_interfaces() -> Optional[str]:
     ip = None
     # Check eth0, eth1, eth2, en0, ...
     interfaces = [
-        i + bytes(n) for i in (b'eth', b'en', b'wlan') for n in range(3)
+        i + b'%d' % n for i in (b'eth', b'en', b'wlan') for n in range(3)
     ]  # :(
     for interface in interfaces:
         try:
-- 
2.43.0

