From a979184644984a7fb5518aa68c549a77bb420068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:29 +0000
Subject: [PATCH 01/44] fix: report NO_MORE_EVENTS when the event queue runs
 empty

The exit reason stayed None when the last event was handled, and a stop
requested by the initializer was overwritten when nothing was scheduled.
---
 pysim/sim/simulator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index a7da8a3..87172a1 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -429,9 +429,6 @@ class Kernel:
         # 3) Инициализация модели
         self._initializer(sim, *self._initializer_args)
 
-        if self._queue.empty:
-            self.stop_reason = ExitReason.NO_MORE_EVENTS
-
         while not self._queue.empty and not self.stop_conditions():
             t, event_id, item = self._queue.pop()
             self._sim_time = t
@@ -439,6 +436,10 @@ class Kernel:
             handler(sim, *args)
             self._num_events_served += 1
             self.lhandler = handler
+
+        if self.stop_reason is None:
+            self.stop_reason = ExitReason.NO_MORE_EVENTS
+
         if self._finalize:
             fin_ret = self._finalize(sim)
         else:
-- 
2.43.0


From d45834d175d3b6561b55ab0c26873631fa2e28bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:30 +0000
Subject: [PATCH 02/44] fix: stop the simulation when max_num_events is reached

The limit was accepted and stored but never checked.
---
 pysim/sim/simulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index 87172a1..cda7565 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -27,6 +27,7 @@ class ExitReason(Enum):
     REACHED_SIM_TIME_LIMIT = 2
     STOPPED = 3
     INTERRUPTED = 4  # выполнение не закончилось - прерывание при отладке
+    REACHED_EVENTS_LIMIT = 5
 
 
 @dataclass
@@ -362,6 +363,9 @@ class Kernel:
         elif self._max_real_time is not None and self.real_time_elapsed > self._max_real_time:
             self.stop_reason = ExitReason.REACHED_REAL_TIME_LIMIT
             return True
+        elif self._max_num_events is not None and self._num_events_served >= self._max_num_events:
+            self.stop_reason = ExitReason.REACHED_EVENTS_LIMIT
+            return True
         elif self._user_stop:
             return True
 
-- 
2.43.0


From ff880f3987dc359c268208ad11e68ff2aa16440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:32 +0000
Subject: [PATCH 03/44] fix: number simulation events from 1

schedule() and call() document identifiers greater than zero, but the
first event of every run had the identifier 0.
---
 pysim/sim/simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index cda7565..3820c27 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -188,7 +188,7 @@ class EventQueue:
     Очередь событий, реализованная с помощью
     струкртуры данных "приоритетная куча (heapq)"
     '''
-    def __init__(self):
+    def __init__(self, first_id=0):
         '''
         Args:
             _event_list - лист событий, который будет упорядочен,
@@ -199,7 +199,7 @@ class EventQueue:
         '''
         self._event_list = []
         self._event_dict = {}
-        self._next_id = itertools.count()
+        self._next_id = itertools.count(first_id)
         # self.removed = '<removed-task>'
 
     def push(self, time, task):
@@ -288,7 +288,7 @@ class Kernel:
         self._initializer_args: Iterable[Any] = ()
 
         # Очередь событий
-        self._queue = EventQueue()
+        self._queue = EventQueue(first_id=1)  # идентификаторы событий > 0
 
         # Время и часы
         self._sim_time = 0.0
-- 
2.43.0


From 46d2037ee23d502aaabe1b3f908e054694da1039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:33 +0000
Subject: [PATCH 04/44] fix: tell cancelled queue entries from pending ones by
 their identifier

A pending entry with a None payload was skipped as if it were cancelled
(and popping past it raised IndexError), and to_list() returned cancelled
entries.
---
 pysim/sim/simulator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index 3820c27..6b64af4 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -232,7 +232,7 @@ class EventQueue:
         if self.empty:
             raise KeyError("Pop из пустой очереди событий!")
         (time, event_id, task) = heapq.heappop(self._event_list)
-        while task is None:
+        while event_id not in self._event_dict:  # событие отменено
             (time, event_id, task) = heapq.heappop(self._event_list)
         self._event_dict.pop(event_id)
         return time, event_id, task
@@ -264,7 +264,8 @@ class EventQueue:
         return len(self._event_dict) == 0
 
     def to_list(self):
-        return list(self._event_list)
+        return [event for event in self._event_list
+                if event[1] in self._event_dict]
 
 
 class Kernel:
-- 
2.43.0


From a712203fadb7a82e77e7f366680c950d897fb340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:45 +0000
Subject: [PATCH 05/44] fix: time each RFID exchange by its own frames

finish_transaction() scheduled the end of the new exchange and the power
update at its reply by the duration and reply time of the previous one
(the latter in the past), and never stored the id of the power update, so
switching the reader off could not cancel it.
---
 pysim/models/rfid/handlers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 9a71e4a..f5551c9 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -100,7 +100,8 @@ def turn_reader_on(kernel, reader):
         transaction.duration, finish_transaction, (transaction, ))
     if transaction.reply_start_time is not None:
         dt = transaction.reply_start_time - kernel.time
-        kernel.schedule(dt, update_power_at_response_start, (transaction, ))
+        transaction.response_start_event_id = kernel.schedule(
+            dt, update_power_at_response_start, (transaction, ))
 
     # Scheduling turning off
     power_mode = reader.power_control_mode
@@ -306,13 +307,15 @@ def finish_transaction(kernel, transaction):
         cmd_frame = _no_tag_response(kernel, ctx, reader)
 
     # Processing new command (reader frame)
-    ctx.transaction = _build_transaction(kernel, ctx.reader, cmd_frame)
+    transaction = _build_transaction(kernel, ctx.reader, cmd_frame)
+    ctx.transaction = transaction
     ctx.transaction.timeout_event_id = kernel.schedule(
-        transaction.duration, finish_transaction, (ctx.transaction, )
+        transaction.duration, finish_transaction, (transaction, )
     )
     if transaction.reply_start_time is not None:
         dt = transaction.reply_start_time - kernel.time
-        kernel.schedule(dt, update_power_at_response_start, (transaction, ))
+        transaction.response_start_event_id = kernel.schedule(
+            dt, update_power_at_response_start, (transaction, ))
 
 
 def switch_reader_antenna(kernel, reader):
-- 
2.43.0


From 94fb63060f6198dcfad7f9b588ee52c802bd17b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:46 +0000
Subject: [PATCH 06/44] fix: start the reply window T1 after the end of the
 command

It started T1 after the start of the command, that is, usually while the
reader was still sending.
---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 59cdb1f..445dfa5 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1578,7 +1578,7 @@ class Transaction():
             t4 = std.link_t4(reader.rtcal)
             exchange_duration = (self._command_duration + t1 +
                                  self._reply_duration + t2)
-            self._reply_start_time = time + t1
+            self._reply_start_time = self._command_end_time + t1
             self._reply_end_time = (
                 self._reply_start_time + self._reply_duration
             )
-- 
2.43.0


From df903cf6f7bd93f5c572136cb9f67a597823dfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:48 +0000
Subject: [PATCH 07/44] fix: compute the QueryAdjust duration from the command
 that is sent

query_adjust_duration() took its parameters in another order than its
siblings and passed the delimiter as TRcal, so the delimiter was ignored;
its default updn crashed, command_duration() did not know the command, and
the timeout was computed after updn had been reset.
---
 pysim/models/rfid/epcstd.py   | 11 ++++++-----
 pysim/models/rfid/handlers.py |  2 --
 pysim/models/rfid/objects.py  |  2 +-
 3 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index 2738602..535a981 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -849,12 +849,14 @@ def command_duration(command_code,
                      tari=None, rtcal=None, trcal=None, delim=None, dr=None,
                      m=None, trext=None, sel=None, session=None, target=None,
                      q=None, rn=None, bank=None, word_ptr=None,
-                     word_count=None, crc5=None, crc16=None):
+                     word_count=None, crc5=None, crc16=None, updn=0):
     if command_code is CommandCode.QUERY:
         return query_duration(tari, rtcal, trcal, delim, dr, m, trext, sel,
                               session, target, q, crc5)
     elif command_code is CommandCode.QUERY_REP:
         return query_rep_duration(tari, rtcal, trcal, delim, session)
+    elif command_code is CommandCode.QUERY_ADJUST:
+        return query_adjust_duration(tari, rtcal, trcal, delim, session, updn)
     elif command_code is CommandCode.ACK:
         return ack_duration(tari, rtcal, trcal, delim, rn)
     elif command_code is CommandCode.REQ_RN:
@@ -881,11 +883,10 @@ def query_rep_duration(tari=None, rtcal=None, trcal=None, delim=None,
                                  delim)
 
 
-def query_adjust_duration(
-    delim=None, tari=None, rtcal=None, session=None, updn=None
-):
+def query_adjust_duration(tari=None, rtcal=None, trcal=None, delim=None,
+                          session=None, updn=0):
     return reader_frame_duration(QueryAdjust(session, updn), tari, rtcal,
-                                 delim)
+                                 trcal, delim)
 
 
 # noinspection PyTypeChecker
diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index f5551c9..581b692 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -202,7 +202,6 @@ def _no_tag_response(kernel, ctx, reader):
                 # Отправить команду QueryAdjust
                 reader.updn = -1
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
-                reader.updn = 0
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
     return cmd_frame
@@ -276,7 +275,6 @@ def _multiple_tag_response(kernel, ctx, reader, transaction):
                 # Отправить команду QueryAdjust
                 reader.updn = 1
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
-                reader.updn = 0
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
     return cmd_frame
diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 445dfa5..122e6e7 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -325,7 +325,7 @@ class _ReaderAdjust(_ReaderState):
 
     def get_timeout(self, reader):
         t_cmd = std.query_adjust_duration(
-            reader.delim, reader.tari, reader.rtcal,
+            reader.tari, reader.rtcal, reader.trcal, reader.delim,
             reader.session, reader.updn
         )
         t1 = std.link_t1_max(reader.rtcal, reader.trcal, reader.dr,
-- 
2.43.0


From 7f3dc193050d483761c541ddb95b798b1667ae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:49 +0000
Subject: [PATCH 08/44] fix: start only Query with the full preamble

The other commands are sent with the frame-sync (EPC Gen2 6.3.1.2.8), which
is also what their timeouts and *_duration() functions assume.
---
 pysim/models/rfid/objects.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 122e6e7..5da5be7 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -291,7 +291,7 @@ class _ReaderQREP(_ReaderState):
     def enter(self, reader):
         reader.last_rn = None
         cmd = std.QueryRep(reader.session)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
@@ -336,7 +336,7 @@ class _ReaderAdjust(_ReaderState):
     def enter(self, reader):
         reader.last_rn = None
         cmd = std.QueryAdjust(reader.session, reader.updn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader):
         return None  # Reader is already ON
@@ -380,7 +380,7 @@ class _ReaderACK(_ReaderState):
 
     def enter(self, reader):
         cmd = std.Ack(reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader):
         return None
@@ -426,7 +426,7 @@ class _ReaderREQRN(_ReaderState):
 
     def enter(self, reader):
         cmd = std.ReqRN(reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
@@ -470,7 +470,7 @@ class _ReaderREAD(_ReaderState):
     def enter(self, reader):
         cmd = std.Read(std.MemoryBank.TID, 0x00, reader.read_tid_words_num,
                        reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
-- 
2.43.0


From e8bb6ecea1acef9b103e0ee1d6a84a59a50e6b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:21 +0000
Subject: [PATCH 09/44] fix: keep the Q of a tag within 0..15 on QueryAdjust

The bounds were joined with 'or', so every adjustment passed and lowering
Q = 0 made the tag draw its slot from an empty range.
---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 5da5be7..a2ee2f4 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1203,7 +1203,7 @@ class Tag:
             )
             self._set_state(Tag.State.ARBITRATE)
             updn = qadjust.updn
-            if self.q + updn >= 0 or self.q + updn <= 15:
+            if 0 <= self.q + updn <= 15:
                 self.q = self.q + updn
                 self._slot_counter = np.random.randint(0, pow(2, self.q))
                 stat = self.kernel.context.statistics
-- 
2.43.0


From 49a7207332aa41427efec3fbb051edd746c78c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:23 +0000
Subject: [PATCH 10/44] fix: give every generated tag its own EPC and TID

The counters behind the EPC and TID suffixes were reset for every tag.
---
 pysim/models/rfid/objects.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index a2ee2f4..27d1afa 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1355,6 +1355,8 @@ class Generator:
 
     def __init__(self):
         self._next_interval = (lambda: 1.0,)
+        self._epc_suffix = None
+        self._tid_suffix = None
 
     def set_interval(self, fn, *args):
         self._next_interval = (fn,) + args
@@ -1380,8 +1382,10 @@ class Generator:
         tid_suffix_bitlen = (
             self.tid_bitlen - hex_string_bitlen(self.tid_prefix)
         )
-        self._epc_suffix = '0' * int(np.ceil(epc_suffix_bitlen / 4))
-        self._tid_suffix = '0' * int(np.ceil(tid_suffix_bitlen / 4))
+        if self._epc_suffix is None:
+            self._epc_suffix = '0' * int(np.ceil(epc_suffix_bitlen / 4))
+        if self._tid_suffix is None:
+            self._tid_suffix = '0' * int(np.ceil(tid_suffix_bitlen / 4))
 
         tag_id = next(model.next_tag_id)
         tag = Tag(tag_id)
-- 
2.43.0


From d5ebab26031fa4e0731ce0efae0d96e40947cf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:24 +0000
Subject: [PATCH 11/44] fix: let a tag leave the model in the middle of its
 reading

Its statistics record is closed when it leaves, so the end of its slot or
of its reply found no record and the run died with AttributeError; the read
record in progress was lost as well.
---
 pysim/models/rfid/handlers.py | 15 ++++++++++-----
 pysim/models/rfid/objects.py  |  1 +
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 581b692..15c9052 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -212,9 +212,12 @@ def _one_tag_response(kernel, transaction, ctx, reader, tag, frame, snr, ber):
     Обработка единственного ответа от метки после
     завершения транзакции считывателя
     '''
-    if isinstance(frame.reply, std.AckReply):
+    # Метка могла покинуть модель, пока передавала ответ
+    tag_record = ctx.statistics.get_tag_record(tag)
+
+    if isinstance(frame.reply, std.AckReply) and tag_record is not None:
         tag_read_record = (
-            ctx.statistics.get_tag_record(tag)
+            tag_record
             .new_tag_read_record(reader, reader.inventory_round.index))
         tag_read_record.tag_pos = np.array(tag.pos, copy=True)
         tag_read_record.reader_antenna_pos = np.array(
@@ -224,7 +227,9 @@ def _one_tag_response(kernel, transaction, ctx, reader, tag, frame, snr, ber):
 
         # noinspection PyShadowingNames
         def on_slot_end(round_index, slot_index, reader, tag, statistics):
-            statistics.get_tag_record(tag).close_tag_read_record()
+            record = statistics.get_tag_record(tag)
+            if record is not None:
+                record.close_tag_read_record()
             reader.slot_finish_listeners.remove(
                 statistics.slot_end_listener_id)
 
@@ -242,8 +247,8 @@ def _one_tag_response(kernel, transaction, ctx, reader, tag, frame, snr, ber):
             )
         )
 
-    if isinstance(frame.reply, std.ReadReply):
-        tag_read_record = ctx.statistics.get_tag_record(tag).tag_read_record
+    if isinstance(frame.reply, std.ReadReply) and tag_record is not None:
+        tag_read_record = tag_record.tag_read_record
         tag_read_record.read_tid = True
 
         kernel.logger.info(
diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 27d1afa..04332ee 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1861,6 +1861,7 @@ class Statistics:
 
     def close_tag_record(self, tag):
         record = self._current_tag_records.pop(tag)
+        record.close_tag_read_record()
         self.tags_history.append(record)
 
     def average_rounds_per_tag(self):
-- 
2.43.0


From 3bc7f1b36edf9ed7c51c1824e2eb281429219d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:25 +0000
Subject: [PATCH 12/44] fix: use every target for rounds_per_target rounds

The round that switches the target was not counted, so all targets but the
first were used for one round too many.
---
 pysim/models/rfid/objects.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 04332ee..e6d4272 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -241,8 +241,7 @@ class _ReaderQUERY(_ReaderState):
                 reader.target = reader.target.invert()
                 reader.num_rounds_before_target_switch = \
                     reader.rounds_per_target
-            else:
-                reader.num_rounds_before_target_switch -= 1
+            reader.num_rounds_before_target_switch -= 1
 
         reader.last_rn = None
         cmd = std.Query(reader.dr, reader.tag_encoding, reader.trext,
-- 
2.43.0


From 1751456fe862d8a792d20e770678297ee72e7264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:27 +0000
Subject: [PATCH 13/44] fix: estimate the BER for the configured distribution

Medium.ber_distribution (a model setting) was never used.
---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index e6d4272..7ba8eae 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1526,7 +1526,7 @@ class Medium:
         return snr
 
     def estimate_reader_rx_ber(self, reader, tag, tags, snr):
-        return chan.ber(snr)
+        return chan.ber(snr, distr=self.ber_distribution)
 
 
 #############################################################################
-- 
2.43.0


From f2d34e989a32ceba92b25bf28a922ffec999aea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:28 +0000
Subject: [PATCH 14/44] fix: start the floating Q from the configured Q

The default of q_fp was bound to the default of q, so after changing q
alone the adaptation went on from 5.
---
 pysim/models/rfid/configurator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/configurator.py b/pysim/models/rfid/configurator.py
index 26e287f..51c3d78 100644
--- a/pysim/models/rfid/configurator.py
+++ b/pysim/models/rfid/configurator.py
@@ -133,7 +133,7 @@ class Settings:
     # (если есть значение по умолчанию в click, то не используется)
     # коэффициент, на который изменяется значение q
     adjust_delta: float = 0.1
-    q_fp: float = q
+    q_fp: float | None = None  # если None, то равно q
 
     # Значение поля Target команды Query, то есть флаг сессии, по которому
     # идет опрос меток. Ответ будут передавать только те метки, которые хранят
@@ -279,7 +279,9 @@ def create_model(settings=None, verbose=False, **kwargs) -> Model:
         'useadjust', settings.use_query_adjust
     )
     reader.adjust_delta = kwargs.get('delta', settings.adjust_delta)
-    reader.q_fp = settings.q_fp
+    reader.q_fp = (
+        settings.q_fp if settings.q_fp is not None else settings.q
+    )
     print(reader.use_query_adjust)
 
     # 2) Attaching antennas to reader
-- 
2.43.0


From d433e31d3d616a276e17d9724d30475914d03a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:30 +0000
Subject: [PATCH 15/44] fix: let the OFF state of the reader return its timeout

It asked the power mode for an attribute that does not exist.
---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 7ba8eae..a715e7b 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -176,7 +176,7 @@ class _ReaderOFF(_ReaderState):
         super().__init__('OFF')
 
     def get_timeout(self, reader):
-        return reader.power_control_mode.power_off_interval(reader)
+        return reader.power_control_mode.powered_off_interval(reader)
 
     def enter(self, reader):
         # On turning off the reader must finish current round and power down.
-- 
2.43.0


From e0e9ab809bf3f7a364ef6434ad0cd876377b2922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:31 +0000
Subject: [PATCH 16/44] fix: number the tags of every model from zero

The counter was shared by all models of the process, so the tag ids of a
run depended on the runs before it.
---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index a715e7b..7a4cbf3 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -71,7 +71,6 @@ class Model:
     medium = None
     statistics = None
     update_interval = 0.001
-    next_tag_id = itertools.count()
     max_tags_num = None
 
     def __init__(self):
@@ -81,6 +80,7 @@ class Model:
         self.generators = []
         self.medium = Medium()
         self.transaction = None
+        self.next_tag_id = itertools.count()
         self.num_tags_simulated = 0
 
 
-- 
2.43.0


From f8d9200929fe4386423761eca993b786626d018f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:33 +0000
Subject: [PATCH 17/44] fix: apply the session flag persistence settings to the
 tags

s1_persistence, s2_persistence and s3_persistence were never used.
---
 pysim/models/rfid/configurator.py | 3 +++
 pysim/models/rfid/objects.py      | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/pysim/models/rfid/configurator.py b/pysim/models/rfid/configurator.py
index 51c3d78..f78cc62 100644
--- a/pysim/models/rfid/configurator.py
+++ b/pysim/models/rfid/configurator.py
@@ -326,6 +326,9 @@ def create_model(settings=None, verbose=False, **kwargs) -> Model:
     generator.antenna_gain = settings.tag_antenna_gain
     generator.modulation_loss = settings.tag_modulation_loss
     generator.sensitivity = settings.tag_sensitivity
+    generator.s1_persistence = settings.s1_persistence
+    generator.s2_persistence = settings.s2_persistence
+    generator.s3_persistence = settings.s3_persistence
 
     generator.set_interval(
         settings.generation_interval[0],
diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 7a4cbf3..2a82869 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1352,6 +1352,11 @@ class Generator:
     modulation_loss = -12.0  # dBm
     sensitivity = -18.0  # dBm
 
+    # Persistence of the session flags
+    s1_persistence = 2.0  # sec.
+    s2_persistence = 2.0  # sec.
+    s3_persistence = 2.0  # sec.
+
     def __init__(self):
         self._next_interval = (lambda: 1.0,)
         self._epc_suffix = None
@@ -1402,6 +1407,9 @@ class Generator:
         tag.antenna.cable_loss = self.cable_loss
         tag.sensitivity = self.sensitivity
         tag.modulation_loss = self.modulation_loss
+        tag.s1_persistence = self.s1_persistence
+        tag.s2_persistence = self.s2_persistence
+        tag.s3_persistence = self.s3_persistence
         return tag
 
 
-- 
2.43.0


From 1947ad6c050f4100e619a15fa0959245018245d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:10 +0000
Subject: [PATCH 18/44] fix: reject invalid scheduling requests

schedule() and call() document SchedulingInPastError, ValueError and
TypeError, but nothing was checked: an event in the past moved the clock
back and a bad handler or arguments failed when the event was handled.
---
 pysim/sim/simulator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index 6b64af4..e095567 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -340,6 +340,13 @@ class Kernel:
     ) -> EventId:
         '''Планирование нового события'''
         if delay is not None:
+            if delay < 0:
+                raise SchedulingInPastError(f'delay = {delay} < 0')
+            if handler is None:
+                raise ValueError('event handler is None')
+            if not callable(handler):
+                raise TypeError(f'event handler {handler!r} is not callable')
+            iter(args)  # TypeError, если args - не Iterable
             return self._queue.push(self._sim_time + delay, (handler, args, msg))
         return None
 
-- 
2.43.0


From a7018ac44c86e3b2491fd27fe4b72f362f26ff9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:12 +0000
Subject: [PATCH 19/44] fix: accept byte sequences in to_bytes()

collections.Iterable does not exist since Python 3.10.
---
 pysim/models/rfid/epcstd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index 535a981..4daaf85 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -1,6 +1,6 @@
 from enum import Enum
 import random
-import collections
+import collections.abc
 import numpy as np
 
 
@@ -545,7 +545,7 @@ class QueryReply(Reply):
 def to_bytes(value):
     if isinstance(value, str):
         return list(bytearray.fromhex(value))
-    elif isinstance(value, collections.Iterable):
+    elif isinstance(value, collections.abc.Iterable):
         value = list(value)
         for b in value:
             if not isinstance(b, int) or not (0 <= b < 256):
-- 
2.43.0


From fcda7a08759d4f5a100c89181742980b160666d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:13 +0000
Subject: [PATCH 20/44] fix: apply the default encoding in
 tag_preamble_duration()

---
 pysim/models/rfid/epcstd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index 4daaf85..27635f0 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -809,6 +809,7 @@ def tag_preamble_bitlen(encoding=None, trext=None):
 
 def tag_preamble_duration(blf=None, encoding=None, trext=None):
     blf = blf if blf is not None else get_blf()
+    encoding = encoding if encoding is not None else stdParams.tag_encoding
     bitlen = tag_preamble_bitlen(encoding, trext)
     return (bitlen * encoding.symbols_per_bit) / blf
 
-- 
2.43.0


From 042c1e759d89907130495cf60166328066f680b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:15 +0000
Subject: [PATCH 21/44] fix: pass the QueryAdjust options to every run of an
 RFID sweep

Every sweep ended with KeyError: 'useadjust'.
---
 pysim/models/rfid/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysim/models/rfid/cli.py b/pysim/models/rfid/cli.py
index 5d45aab..c3553ca 100644
--- a/pysim/models/rfid/cli.py
+++ b/pysim/models/rfid/cli.py
@@ -144,6 +144,8 @@ def prepare_multiple_simulation(variadic, **kwargs):
         'power': kwargs['power'],
         'num_tags': kwargs['num_tags'],
         'verbose': False,
+        'useadjust': kwargs['useadjust'],
+        'delta': kwargs['delta'],
     } for _ in enumerate(variadic_values)]
 
     # Теперь заменим значения варьируемого аргумента, чтобы в каждом
-- 
2.43.0


From ab4ce6ca797fd8b2673fe35c159cab4dd7661a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:16 +0000
Subject: [PATCH 22/44] fix: print the ping-pong sweep values in the order of
 the results

The values were printed as given, unsorted and with duplicates, while the
simulations are run for the sorted distinct values.
---
 pysim/models/pingpong/processing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysim/models/pingpong/processing.py b/pysim/models/pingpong/processing.py
index 47ebaff..13093e2 100644
--- a/pysim/models/pingpong/processing.py
+++ b/pysim/models/pingpong/processing.py
@@ -60,6 +60,8 @@ def result_processing(initial_data, results, variadic, save_results=False):
             res['avg_interval'].append(results[i].avg_interval),
             res['avg_delay'].append(results[i].avg_delay),
             res['miss_rate'].append(results[i].miss_rate)
+        # Результаты идут по возрастанию варьируемого параметра без повторов
+        initial_data[variadic] = sorted(set(initial_data[variadic]))
     else:
         res = results.dict()
 
-- 
2.43.0


From 50b907ea0b9778b4344e8abf2c654c9dc357af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:18 +0000
Subject: [PATCH 23/44] fix: count the missed pings

The first timeout, before any ping, was counted as a miss, and after the
first pong nothing was.
---
 pysim/models/pingpong/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/models/pingpong/model.py b/pysim/models/pingpong/model.py
index aac84bb..fda478f 100755
--- a/pysim/models/pingpong/model.py
+++ b/pysim/models/pingpong/model.py
@@ -98,7 +98,7 @@ class Client(Node):
         assert self.channel is not None
         assert self.server is not None
 
-        if not self.was_acknowledged:
+        if self.num_pings_sent > 0 and not self.was_acknowledged:
             self.num_missed += 1
         self.number += 1
         if self.max_pings is None or self.num_pings_sent < self.max_pings:
@@ -110,6 +110,7 @@ class Client(Node):
             )
             sim.call(self.channel.send, (packet,))
             self.num_pings_sent += 1
+            self.was_acknowledged = False
         else:
             # Если достигли максимального числа пингов, останавливаемся.
             sim.logger.info("reached max pings (%d), stopping", self.max_pings)
-- 
2.43.0


From 19547e2bc1efa46fdd9a105f470f6f1757439367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:19 +0000
Subject: [PATCH 24/44] fix: report the miss rate of the ping-pong model, for
 every loss pattern

The reported miss_rate was the share of acknowledged pings, and a run in
which no pong or no ping occurred failed with an exception.
---
 pysim/models/pingpong/handlers.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pysim/models/pingpong/handlers.py b/pysim/models/pingpong/handlers.py
index 1b1b3c9..5fb6d50 100755
--- a/pysim/models/pingpong/handlers.py
+++ b/pysim/models/pingpong/handlers.py
@@ -17,10 +17,11 @@ def finalize(sim: Simulator) -> Result:
     # noinspection PyTypeChecker
     model: Model = sim.context
 
+    client, channel = model.client, model.channel
+    num_missed = client.num_pings_sent - client.num_acknowledged
     return Result(
-        avg_interval=statistics.mean(model.client.intervals_list),
-        avg_delay=statistics.mean(model.channel.delays_list),
-        miss_rate=(
-            model.client.num_acknowledged / model.client.num_pings_sent
-        ),
+        avg_interval=statistics.mean(
+            client.intervals_list or [client.interval]),
+        avg_delay=statistics.mean(channel.delays_list or [channel.delay]),
+        miss_rate=num_missed / max(client.num_pings_sent, 1),
     )
-- 
2.43.0


From 36b38f289fd2c50227a4559883c99f1b9babd47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:20 +0000
Subject: [PATCH 25/44] fix: take the first data fragment in the scenario 3
 analytic model

Index 4 is the second fragment, which is the last and longer one when
there are two and does not exist when there is one.
---
 pysim/models/tag_time/analitical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/tag_time/analitical_model.py b/pysim/models/tag_time/analitical_model.py
index f8cd192..738d279 100644
--- a/pysim/models/tag_time/analitical_model.py
+++ b/pysim/models/tag_time/analitical_model.py
@@ -95,7 +95,7 @@ def run_analitica(script_number, all_phases, chunks_number):
         for i in range(len(all_phases)):
             analit_res.append(
                 calculate_third_case(
-                    all_phases[i][0:3], all_phases[i][4], chunks_number
+                    all_phases[i][0:3], all_phases[i][3], chunks_number
                 )*1_000
             )
     return analit_res
-- 
2.43.0


From 152f5a83ac0ad280167c01537eccfe0d9bb75039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:22 +0000
Subject: [PATCH 26/44] fix: sum the whole series in the scenario 2 analytic
 model

Only 1000 terms were summed, which loses a large part of the expected time
when the success probability is small (a long reply and a high BER).
---
 pysim/models/tag_time/analitical_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/models/tag_time/analitical_model.py b/pysim/models/tag_time/analitical_model.py
index 738d279..edc4072 100644
--- a/pysim/models/tag_time/analitical_model.py
+++ b/pysim/models/tag_time/analitical_model.py
@@ -51,8 +51,8 @@ def calculate_second_case(phases):
     '''
     res = 0
     for phase in phases:
-        for n in range(1000):
-            res += (n + 1) * phase[1] * phase[0] * ((1 - phase[0]) ** n)
+        # Сумма ряда (n + 1) * t * p * (1 - p)^n, n = 0, 1, ...
+        res += phase[1] / phase[0]
     return res
 
 
-- 
2.43.0


From adbfe2d326f1482fd2f29e32f0836146471a740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:23 +0000
Subject: [PATCH 27/44] fix: compute T1 and T2 of the read-time model for its
 divide ratio

They were always computed for DR = 8.
---
 pysim/models/tag_time/calculate_params.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysim/models/tag_time/calculate_params.py b/pysim/models/tag_time/calculate_params.py
index fa8f5b0..fdf18cf 100644
--- a/pysim/models/tag_time/calculate_params.py
+++ b/pysim/models/tag_time/calculate_params.py
@@ -218,8 +218,9 @@ def prepare_probs(params, chunks_number, ber, points_number):
 
 
 def prepare_times(params, probs, chunks_number):
-    T1 = p.link_t1_max(rtcal=params['rtcal'], trcal=params['trcal'], dr=None)
-    T2 = p.link_t2_max(trcal=params['trcal'], dr=None)
+    T1 = p.link_t1_max(rtcal=params['rtcal'], trcal=params['trcal'],
+                      dr=params['DR'])
+    T2 = p.link_t2_max(trcal=params['trcal'], dr=params['DR'])
     T1_2 = T1 + T2
     delta = 1e-5
 
-- 
2.43.0


From 1ae290054c0db6fb0ff071f9b7ecd77b9ec195bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:25 +0000
Subject: [PATCH 28/44] fix: use the configured separator in the log file name

---
 pysim/sim/logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index af5e50e..1068f3d 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -200,7 +200,8 @@ class ModelLogger:
             else:
                 file_name = ModelLogger.build_file_name(
                     config.file_name, 
-                    self._run_id
+                    self._run_id,
+                    config.file_name_sep
                 )
             
             # Каждый запуск создает отдельный файл, поэтому режим = 'w'
-- 
2.43.0


From 51475ea076e5cee0d62a13009b31c03d1bb4bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:26 +0000
Subject: [PATCH 29/44] fix: accept zero as a run id

---
 pysim/sim/logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index 1068f3d..dc00d6f 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -143,7 +143,9 @@ class ModelLogger:
         """
         self._logger = logging.getLogger(model_name)
         self.time_getter = time_getter or (lambda: 0)
-        self._run_id: int = run_id or uuid.uuid4().int % 1_000_000
+        self._run_id: int = (
+            run_id if run_id is not None else uuid.uuid4().int % 1_000_000
+        )
         self._setup_was_called: bool = False
     
     def set_time_getter(self, fn: Callable[[], float]) -> None:
-- 
2.43.0


From c48068052025db3432e663885f0be7170c3687f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:27 +0000
Subject: [PATCH 30/44] fix: print records of non-standard levels to a coloured
 console

ColoredFormatter raised KeyError, so the record was lost.
---
 pysim/sim/logger.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index dc00d6f..ebd82c2 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -42,8 +42,9 @@ class ColoredFormatter(logging.Formatter):
         }
 
     def format(self, record):
-        log_fmt: logging.Formatter = self.FORMATS[record.levelno]
-        return log_fmt.format(record)
+        # Для нестандартных уровней цвета нет
+        log_fmt = self.FORMATS.get(record.levelno)
+        return log_fmt.format(record) if log_fmt else super().format(record)
 
 
 # Формат вывода по-умолчанию. Используются часть стандартных полей,
-- 
2.43.0


From 0c2c48a46a1128ac9e8defae8e98f7b6303232d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:02 +0000
Subject: [PATCH 31/44] fix: read from the requested word of a tag memory bank

The word pointer was ignored, and reading a bank without data failed with
TypeError.
---
 pysim/models/rfid/objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 2a82869..833c899 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1262,6 +1262,9 @@ class Tag:
             return None
         if read.rn == self.rn:
             content = self.bank_data(read.bank)
+            if content is None:
+                return None  # в банке нет данных
+            content = content[read.word_ptr * 4:]
             # Извлекаем из банка ровно столько данных, сколько запрошено.
             # В команде указывается число слов (по два байта), а в content
             # лежит hex-строка, в которой каждый байт кодируется двумя
-- 
2.43.0


From 66977c1fd2f7538d8fbd8152f96ffe30983ca65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:03 +0000
Subject: [PATCH 32/44] fix: keep the inventoried flag on a Query of another
 session

An acknowledged tag inverted the flag of its old session on any Query; EPC
Gen2 6.3.2.6 inverts it only when the session is the same.
---
 pysim/models/rfid/objects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 833c899..ab35fe2 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1125,8 +1125,9 @@ class Tag:
         if self.state is Tag.State.OFF:
             return None
 
-        if self.state not in {Tag.State.READY, Tag.State.ARBITRATE,
-                              Tag.State.REPLY}:
+        if (self.state not in {Tag.State.READY, Tag.State.ARBITRATE,
+                               Tag.State.REPLY} and
+                command.session is self._active_session):
             flag = self.sessions[self._active_session]
             self.sessions[self._active_session] = flag.invert()
 
-- 
2.43.0


From 007e668f19f4714bc02c5ee08f64a96fc2b8c66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:23 +0000
Subject: [PATCH 33/44] fix: use the parameters of every data fragment in
 scenario 3

create_dicts() and the matrix model have one probability and time per
fragment (the last one is longer), but the event simulation used those of
the first fragment for all of them.
---
 pysim/models/tag_time/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pysim/models/tag_time/model.py b/pysim/models/tag_time/model.py
index 6ff5de1..b4c801f 100644
--- a/pysim/models/tag_time/model.py
+++ b/pysim/models/tag_time/model.py
@@ -58,10 +58,13 @@ class Model:
             self.chunks_number = config.chunks_number
             self.secured = []
             for i in range(self.chunks_number):
+                # Если для 'чанка' параметры не заданы, то как у первого
+                p_idx = 3 + i if 3 + i < len(config.probability) else 3
+                t_idx = 3 + i if 3 + i < len(config.processing_time) else 3
                 secured_state = State(
                     code=STATE_CODES['Secured'],
-                    next_state_probability=config.probability[3],
-                    processing_time=config.processing_time[3],
+                    next_state_probability=config.probability[p_idx],
+                    processing_time=config.processing_time[t_idx],
                     max_transmisions=config.max_transmisions,
                     scenario=config.scenario,
                     secured_number=i
-- 
2.43.0


From f910261c3dcd6e2cd5149f09f40fb93934ec1bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 34/44] fix: call a finalizer object that evaluates to false

---
 pysim/sim/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index e095567..f91016b 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -452,7 +452,7 @@ class Kernel:
         if self.stop_reason is None:
             self.stop_reason = ExitReason.NO_MORE_EVENTS
 
-        if self._finalize:
+        if self._finalize is not None:
             fin_ret = self._finalize(sim)
         else:
             fin_ret = None
-- 
2.43.0


From 2378bfa764663e1f3bf34c43c22d6286f7ebb84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 35/44] fix: plot the results of a tag offset sweep

---
 pysim/models/rfid/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/processing.py b/pysim/models/rfid/processing.py
index b05d60b..307c47d 100644
--- a/pysim/models/rfid/processing.py
+++ b/pysim/models/rfid/processing.py
@@ -91,7 +91,7 @@ def plot_results(initial_data, results, variadic, save_fig = True):
     results_dict = results_to_dict(ret)
     current_time = time.strftime('%Y%m%d_%H%M%S', time.localtime())
     filename = 'results/plots/' + current_time + '-' + variadic + '.png'
-    units = {'speed': 'km/h', 'reader_offset': 'm', 'altitude': 'm', 'power': 'dBm', 'tid_word_size': 'words'}
+    units = {'speed': 'km/h', 'reader_offset': 'm', 'tag_offset': 'm', 'altitude': 'm', 'power': 'dBm', 'tid_word_size': 'words'}
     
     fig, ax = plt.subplots(figsize=(14, 8), layout='constrained')
     ax.plot(
-- 
2.43.0


From 44d59d86547b2a73cee0f26aff7de6ecbf405363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:48 +0000
Subject: [PATCH 36/44] fix: include the upper ends of the frequency tolerance
 rows

---
 pysim/models/rfid/epcstd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index 27635f0..c664ef4 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -982,19 +982,19 @@ def get_frt(trcal=None, dr=None, temp_range=None):
     if dr is DivideRatio.DR_643:
         if temp_range is TempRange.EXTENDED:
             f = [(33.633, 0.15), (66.033, 0.22), (82.467, 0.15),
-                 (84.133, 0.10), (131.967, 0.12), (198.00, 0.07),
+                 (84.133, 0.10), (134.633, 0.12), (202.00, 0.07),
                  (227.25, 0.05)]
         else:
             f = [(33.633, 0.15), (66.033, 0.22), (67.367, 0.10),
-                 (82.467, 0.12), (131.967, 0.10), (198.00, 0.07),
+                 (82.467, 0.12), (134.633, 0.10), (202.00, 0.07),
                  (227.25, 0.05)]
     else:
         if temp_range is TempRange.EXTENDED:
             f = [(24.7500, 0.19), (30.9375, 0.15), (49.50, 0.10),
-                 (75.0000, 0.07), (202.0, 0.04)]
+                 (75.7500, 0.07), (202.0, 0.04)]
         else:
             f = [(24.75, 0.19), (25.25, 0.10), (30.9375, 0.12),
-                 (49.50, 0.10), (75.00, 0.07), (202.000, 0.04)]
+                 (49.50, 0.10), (75.75, 0.07), (202.000, 0.04)]
     for highest_trcal, frt in f:
         if trcal < highest_trcal * 1e-6:
             return frt
-- 
2.43.0


From 73496921bb4cccfe4fd34fd1604251107500fb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:04 +0000
Subject: [PATCH 37/44] fix: send the QueryAdjust direction in which Q really
 changes

---
 pysim/models/rfid/handlers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 15c9052..188dd9e 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -198,9 +198,9 @@ def _no_tag_response(kernel, ctx, reader):
                 kernel.logger.error(
                     f'Считыватель уменьшил Q с {reader.q} до {new_q}'
                 )
+                reader.updn = new_q - reader.q
                 reader.q = new_q  # обновляем q в считывателе
                 # Отправить команду QueryAdjust
-                reader.updn = -1
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
@@ -276,9 +276,9 @@ def _multiple_tag_response(kernel, ctx, reader, transaction):
                 kernel.logger.error(
                     f'Считыватель увеличил Q с {reader.q} до {new_q}'
                 )
+                reader.updn = new_q - reader.q
                 reader.q = new_q  # обновляем q в считывателе
                 # Отправить команду QueryAdjust
-                reader.updn = 1
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
-- 
2.43.0


From df8059cdab2070286cb17df5724bd3d236798368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:59 +0000
Subject: [PATCH 38/44] fix: keep antenna gains defined for rays along the
 antenna axis

---
 pysim/models/rfid/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/models/rfid/channel.py b/pysim/models/rfid/channel.py
index aba87e3..d8c014e 100755
--- a/pysim/models/rfid/channel.py
+++ b/pysim/models/rfid/channel.py
@@ -5,7 +5,8 @@ import scipy.special as special
 
 
 def to_sin(cos):
-    return (1 - cos ** 2) ** .5
+    # из-за округлений модуль косинуса может немного превысить единицу
+    return max(0., 1 - cos ** 2) ** .5
 
 
 def to_log(value, dbm=False, tol=1e-15):
-- 
2.43.0


From 706cff0f2916507f6645829b2b1a396f81576fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 39/44] fix: estimate the tag's power at the position it has at
 that moment

---
 pysim/models/rfid/handlers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 188dd9e..9c226cd 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -29,12 +29,12 @@ def start_simulation(kernel):
 
 def _update_power(time, reader, tags, transaction, medium, statistics):
     for tag in tags:
-        power = medium.estimate_tag_rx_power(reader, tag, time)
-        tag.set_power(time, power)
         tag.pos += tag.velocity * tag.normalized_direction * (
             time - tag.last_pos_update
         )
         tag.last_pos_update = time
+        power = medium.estimate_tag_rx_power(reader, tag, time)
+        tag.set_power(time, power)
         # uncomment lines below for PL debug
         # print(f'Estimated tag RX power: {power}')
         # print(f'- tag:    pos={tag.antenna.pos}, '
-- 
2.43.0


From d10d71b0d84428f6283df9b8dd8ee6638c25f50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 40/44] fix: give a reply without power an effective SNR of
 zero, not 0.5

---
 pysim/models/rfid/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/channel.py b/pysim/models/rfid/channel.py
index d8c014e..3caa5b1 100755
--- a/pysim/models/rfid/channel.py
+++ b/pysim/models/rfid/channel.py
@@ -193,7 +193,7 @@ def snr(power, noise):
 def snr_full(*, snr, miller=1, symbol=1.25e-6, preamble=9.3e-6,
              bandwidth=1.2e6, tol=1e-8, **kwargs):
     if snr < tol:
-        return 0.5
+        return 0.0
 
     # print(">>> miller={}, symbol={}, preamble={}, bandwidth={}".format(
     #     miller, symbol, preamble, bandwidth
-- 
2.43.0


From 2ebfcf94f21fef7b4fd56f17aa088fd9b69c8781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:29 +0000
Subject: [PATCH 41/44] fix: get_color() failed with current matplotlib, which
 has no cm.get_cmap

---
 pysim/experiments/utility/graphs_style.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/experiments/utility/graphs_style.py b/pysim/experiments/utility/graphs_style.py
index f5bad32..c21c51e 100755
--- a/pysim/experiments/utility/graphs_style.py
+++ b/pysim/experiments/utility/graphs_style.py
@@ -40,7 +40,7 @@ def get_color(x: float):
     Returns:
         color
     """
-    return matplotlib.cm.get_cmap(CMAP_NAME)(x)
+    return matplotlib.colormaps[CMAP_NAME](x)
 
 
 def savefig(name: str, exts: Sequence[str] = IMAGE_EXTENSIONS,
-- 
2.43.0


From 694d722319ebabf26225fae73112dd993b25bc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:55 +0000
Subject: [PATCH 42/44] fix: build_simulation(debug=True) runs the model in
 debug mode

---
 pysim/sim/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index f91016b..8fd9729 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -550,7 +550,7 @@ def build_simulation(
     kernel.set_debug(debug)
 
     # Запускаем модель и возвращаем все, что она вернет
-    return kernel.build_runner()
+    return kernel.build_runner(debug)
 
 
 def run_simulation(sim: Iterator[ExecResult]) -> ExecResult:
-- 
2.43.0


From 55d752c9653a57d30a20f4bc9cbbb47e6ad015ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:53 +0000
Subject: [PATCH 43/44] fix: the reflected ray reaches an antenna from the side
 it comes from

---
 pysim/models/rfid/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/channel.py b/pysim/models/rfid/channel.py
index 3caa5b1..7221e40 100755
--- a/pysim/models/rfid/channel.py
+++ b/pysim/models/rfid/channel.py
@@ -136,7 +136,7 @@ def two_ray_pathloss(*, time, ground_reflection, wavelen,
     d0_vector_tx_n = d0_vector / d0  # LoS ray vector normalized
     d0_vector_rx_n = -d0_vector_tx_n
     d1_vector_tx_n = d1_vector / d1  # NLoS ray vector normalized
-    d1_vector_rx_n = np.array([-d1_vector_tx_n[0], -d1_vector_tx_n[1], d1_vector_tx_n[2]])
+    d1_vector_rx_n = np.array([-d1_vector_tx_n[0], d1_vector_tx_n[1], d1_vector_tx_n[2]])
 
     # Предполагается, что стена, от которой происходит отражение - это плоскость YOZ
     x_rfp = 0
-- 
2.43.0


From 90c713653d419b4a1c2f6975f477ce867bbb7aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:02 +0000
Subject: [PATCH 44/44] fix: the Doppler shift of the reflected ray takes the
 mirror image of the receiver's velocity

---
 pysim/models/rfid/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/models/rfid/channel.py b/pysim/models/rfid/channel.py
index 7221e40..8a6e8b5 100755
--- a/pysim/models/rfid/channel.py
+++ b/pysim/models/rfid/channel.py
@@ -161,7 +161,8 @@ def two_ray_pathloss(*, time, ground_reflection, wavelen,
 
     relative_velocity = rx_velocity - tx_velocity
     velocity_pr_0 = np.dot(d0_vector_tx_n, relative_velocity)
-    velocity_pr_1 = np.dot(d1_vector_tx_n, relative_velocity)
+    # The mirrored RX moves as the mirror image of RX
+    velocity_pr_1 = np.dot(d1_vector_tx_n, np.array([-1, 1, 1]) * rx_velocity - tx_velocity)
 
     # Attenuation caused by radiation pattern
     g0 = (tx_rp(azimuth=tx_azimuth_0) * rx_rp(azimuth=rx_azimuth_0))
-- 
2.43.0

