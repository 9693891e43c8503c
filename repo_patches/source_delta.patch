From 348f36de00c5a1897c00c59af2aa8b7d4e543b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 01/38] fix: TransactionalizedFIFO: present the right entry in
 the cycle after a read_discard

---
 amlib/utils/fifo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amlib/utils/fifo.py b/amlib/utils/fifo.py
index d82730f..6a212c4 100644
--- a/amlib/utils/fifo.py
+++ b/amlib/utils/fifo.py
@@ -179,8 +179,11 @@ class TransactionalizedFIFO(Elaboratable):
 
         # Our memory always takes a single cycle to provide its read output; so we'll update its address
         # "one cycle in advance". Accordingly, if we're about to advance the FIFO, we'll use the next read
-        # address as our input. If we're not, we'll use the current one.
-        with m.If(self.read_en & ~self.empty):
+        # address as our input. If we're not, we'll use the current one. When we're rewinding, the next
+        # entry is the first one that has not been committed yet.
+        with m.If(self.read_discard):
+            m.d.comb += read_port.addr.eq(committed_read_pointer)
+        with m.Elif(self.read_en & ~self.empty):
             m.d.comb += read_port.addr.eq(next_read_pointer)
         with m.Else():
             m.d.comb += read_port.addr.eq(current_read_pointer)
-- 
2.43.0


From 1f36f4e3ff4397c5ace1bdf65259876777269796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 02/38] fix: StreamArbiter: do not interrupt a burst whose
 multi-bit valid is only partly set

---
 amlib/stream/arbiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/stream/arbiter.py b/amlib/stream/arbiter.py
index c740349..2acf825 100644
--- a/amlib/stream/arbiter.py
+++ b/amlib/stream/arbiter.py
@@ -132,7 +132,7 @@ class StreamArbiter(Elaboratable):
         #
 
         # Only change which stream we're working with when the active stream stops transmitting.
-        with m.If(~active_stream.valid):
+        with m.If(~active_stream.valid.any()):
 
             # Assume we're idle until proven otherwise.
             m.d.comb += self.idle.eq(1)
-- 
2.43.0


From 5e72eb6d6ffd1f70d2f39c6666f14fd3977f36e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 03/38] fix: StreamInterface: let omit= apply to extra fields
 too

---
 amlib/stream/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/stream/__init__.py b/amlib/stream/__init__.py
index 2df6991..33ce571 100644
--- a/amlib/stream/__init__.py
+++ b/amlib/stream/__init__.py
@@ -70,7 +70,7 @@ class StreamInterface(Record):
     def attach(self, interface, omit=None):
         # Create lists of fields to be copied -to- the interface (RHS fields),
         # and lists of fields to be copied -from- the interface (LHS fields).
-        rhs_fields = ['valid', 'first', 'last', 'payload', *self._extra_fields]
+        rhs_fields = ['valid', 'first', 'last', 'payload', *[field[0] for field in self._extra_fields]]
         lhs_fields = ['ready']
         assignments = []
 
-- 
2.43.0


From 64421e9728e51e5856aa89fbdf6ea236ad0b7e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 04/38] fix: ConstantStreamGenerator: assert first on the first
 word whatever start_position is

---
 amlib/stream/generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index 7fc19b6..c9825a0 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -162,7 +162,7 @@ class ConstantStreamGenerator(Elaboratable):
             bytes_per_word = 0
 
         # Track when we're on the first and last packet.
-        on_first_packet = position_in_stream == self.start_position
+        on_first_packet = Signal()
         on_last_packet  = \
             (position_in_stream          == (data_length - 1)) | \
             (bytes_sent + bytes_per_word >= self.max_length)
@@ -173,7 +173,7 @@ class ConstantStreamGenerator(Elaboratable):
         start_position = Signal.like(position_in_stream)
 
         # If our starting position is greater than our data length, use our data length.
-        with m.If(self.start_position >= self._data_length):
+        with m.If(self.start_position >= data_length):
             m.d.comb += start_position.eq(data_length - 1)
 
         # Otherwise, use our starting position.
@@ -198,6 +198,7 @@ class ConstantStreamGenerator(Elaboratable):
                 # Keep ourselves at the beginning of the stream, but don't yet count.
                 m.d.sync += [
                     position_in_stream  .eq(start_position),
+                    on_first_packet     .eq(1),
                     bytes_sent          .eq(0)
                 ]
                 m.d.comb += [
@@ -288,6 +289,7 @@ class ConstantStreamGenerator(Elaboratable):
 
                 # If the current data byte is accepted, move past it.
                 with m.If(self.stream.ready):
+                    m.d.sync += on_first_packet.eq(0)
 
                     # If there's still data left to transmit, move forward.
                     with m.If(~on_last_packet):
-- 
2.43.0


From 1eeebfcf194734e448bcb11decfdb92fc1fd5bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 05/38] fix: PacketListStreamer: terminate for every total
 length, honour data_width, start right after reset

---
 amlib/stream/generator.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index c9825a0..bdfd861 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -718,6 +718,9 @@ class PacketListStreamer(Elaboratable):
         self.done       = Signal()
         self.packets    = packets
 
+        self._stream_type     = stream_type
+        self._requested_width = data_width
+
         # If we have a data width, apply it to our stream type; otherwise, use its defaults.
         if data_width:
             self.stream  = stream_type(payload_width=data_width)
@@ -731,19 +734,24 @@ class PacketListStreamer(Elaboratable):
         packet_lengths = [len(p) for p in self.packets]
         no_packets = len(packet_lengths)
 
-        max_length_width = bits_for(max(packet_lengths))
+        # the generator counts the length in bytes, while our packets consist of words
+        bytes_per_word = (self._data_width + 7) // 8
+        max_length_width = bits_for(max(packet_lengths) * bytes_per_word)
         packets_flattened = [words for packet in self.packets for words in packet]
 
         m.submodules.generator = generator = \
-            ConstantStreamGenerator(packets_flattened, max_length_width=max_length_width)
+            ConstantStreamGenerator(packets_flattened, stream_type=self._stream_type,
+                                    data_width=self._requested_width, max_length_width=max_length_width)
 
+        # asynchronous, so that the length of the first packet is already there right after reset
         rom = Memory(width=max_length_width, depth=no_packets, init=packet_lengths)
-        m.submodules.packet_lengths_rom = packet_lengths_rom = rom.read_port(transparent=False)
+        m.submodules.packet_lengths_rom = packet_lengths_rom = rom.read_port(domain="comb")
 
-        total_no_bytes = len(packets_flattened)
+        total_no_words = len(packets_flattened)
 
-        position           = Signal(range(total_no_bytes))
-        next_position      = Signal.like(position)
+        # the position after the last packet must be representable, too
+        position           = Signal(range(total_no_words))
+        next_position      = Signal(range(total_no_words + 1))
         current_packet     = Signal(range(no_packets))
         current_packet_len = Signal(max_length_width)
 
@@ -753,7 +761,7 @@ class PacketListStreamer(Elaboratable):
             generator.start_position.eq(position),
             packet_lengths_rom.addr.eq(current_packet),
             current_packet_len.eq(packet_lengths_rom.data),
-            generator.max_length.eq(current_packet_len),
+            generator.max_length.eq(current_packet_len * bytes_per_word),
             next_position.eq(position + current_packet_len),
             self.done.eq(0)
         ]
@@ -770,7 +778,7 @@ class PacketListStreamer(Elaboratable):
 
             with m.State("WAIT"):
                 with m.If(generator.done):
-                    with m.If(next_position >= total_no_bytes):
+                    with m.If(next_position >= total_no_words):
                         m.d.comb += self.done.eq(1)
                         m.d.sync += [
                             position.eq(0),
-- 
2.43.0


From 34856fffc861c50b30caee1dadfcdb7bce7e21b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:35 +0000
Subject: [PATCH 06/38] fix: Timer: honour load and reload values of one cycle

---
 amlib/utils/timer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/amlib/utils/timer.py b/amlib/utils/timer.py
index 8ac9f39..e0b8298 100644
--- a/amlib/utils/timer.py
+++ b/amlib/utils/timer.py
@@ -31,7 +31,10 @@ class Timer(Elaboratable):
                     # done should appear exactly 'load' cycles
                     # load is one-based, but we stop at zero
                     m.d.sync += counter.eq(counter - 1)
-                    m.next = "RUNNING"
+                    with m.If(counter == 1):
+                        m.next = "DONE"
+                    with m.Else():
+                        m.next = "RUNNING"
 
             with m.State("RUNNING"):
                 m.d.sync += counter.eq(counter - 1)
@@ -43,7 +46,9 @@ class Timer(Elaboratable):
                     # we want the next done to appear
                     # exactly 'reload_in' cycles later
                     m.d.sync += counter.eq(self.reload_in - 1)
-                    m.next = "RUNNING"
+                    # with a period of one cycle we are done again in the next one
+                    with m.If(self.reload_in > 1):
+                        m.next = "RUNNING"
                 if self._allow_restart:
                     with m.Else():
                         m.next = "IDLE"
-- 
2.43.0


From 98fc060704460c7b85cb53765496d1522f81f3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:35 +0000
Subject: [PATCH 07/38] fix: past_value_of, any_edge_detected: do not truncate
 multi-bit signals to their lowest bit

---
 amlib/utils/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/amlib/utils/__init__.py b/amlib/utils/__init__.py
index 01d14d9..b673996 100644
--- a/amlib/utils/__init__.py
+++ b/amlib/utils/__init__.py
@@ -3,7 +3,8 @@
 #
 """ Simple utility constructs  """
 
-from amaranth import Signal
+from amaranth         import Signal
+from amaranth.hdl.ast import Value
 
 from .bits            import bits
 from .cdc             import synchronize, stretch_strobe_signal
@@ -32,7 +33,7 @@ def _single_edge_detector(m, signal, *, domain, edge='rising'):
     """ Generates and returns a signal that goes high for a cycle upon a given edge of a given signal. """
 
     # Create a one-cycle delayed version of our input signal.
-    delayed = Signal()
+    delayed = Signal(Value.cast(signal).shape())
     m.d[domain] += delayed.eq(signal)
 
     # And create a signal that detects edges on the relevant signal.
@@ -52,7 +53,7 @@ def past_value_of(m, signal, *, domain):
     """ Generates and returns a signal that represents the value of another signal a cycle ago. """
 
     # Create a one-cycle delayed version of our input signal.
-    delayed = Signal()
+    delayed = Signal(Value.cast(signal).shape())
     m.d[domain] += delayed.eq(signal)
 
     return delayed
-- 
2.43.0


From eb0dc379ba79e6e01d9e44a3efbc508a6ee2b78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:35 +0000
Subject: [PATCH 08/38] fix: NumberToBitBar: make the maximum value
 representable, so that the full bar is reachable

---
 amlib/io/led.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/led.py b/amlib/io/led.py
index 3b133a7..5f27e2a 100644
--- a/amlib/io/led.py
+++ b/amlib/io/led.py
@@ -88,7 +88,7 @@ class NumberToBitBar(Elaboratable):
         self.bitbar   = [Const(int(2**n - 1), bitwidth_out) for n in range(bitwidth_out + 1)]
 
         # I/O
-        self.value_in   = Signal(range(maxvalue_in))
+        self.value_in   = Signal(range(maxvalue_in + 1))
         self.bitbar_out = Signal(bitwidth_out)
 
     def elaborate(self, platform: Platform) -> Module:
-- 
2.43.0


From ff71752f160cf75ddf55572e8309765f78fee88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:35 +0000
Subject: [PATCH 09/38] fix: NumberToSevenSegmentHex: keep dots and registered
 digits aligned

---
 amlib/io/led.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amlib/io/led.py b/amlib/io/led.py
index 5f27e2a..945b35d 100644
--- a/amlib/io/led.py
+++ b/amlib/io/led.py
@@ -63,8 +63,9 @@ class NumberToSevenSegmentHex(Elaboratable):
             digit_to_hex = NibbleToSevenSegmentHex()
             m.submodules += digit_to_hex
             domain = m.d.sync if self.register else m.d.comb
+            # only the output is registered: digits and dots must not be apart in time
+            m.d.comb += digit_to_hex.nibble_in.eq(self.number_in[(i * 4):(i * 4 + 4)])
             domain += [
-                digit_to_hex.nibble_in.eq(self.number_in[(i * 4):(i * 4 + 4)]),
                 self.seven_segment_out[(i * 8):(i * 8 + 7)].eq(digit_to_hex.seven_segment_out),
                 self.seven_segment_out[(i * 8) + 7].eq(self.dots_in[i])
             ]
-- 
2.43.0


From 3e0263e5b7ae74253e46cb9c5e515c5e1127b6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 10/38] fix: OneHotMultiplexer: pass muxed signals only while
 their valid signal is high

---
 amlib/utils/bus.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/amlib/utils/bus.py b/amlib/utils/bus.py
index e04ff99..173ec80 100644
--- a/amlib/utils/bus.py
+++ b/amlib/utils/bus.py
@@ -101,17 +101,19 @@ class OneHotMultiplexer(Elaboratable):
             m.d.comb += encoder.i[index].eq(valid_signal)
 
         # Create our multiplexer, and drive each of our output signals from it.
-        with m.Switch(encoder.o):
-            for index, interface in enumerate(self._inputs):
-
-                # If an interface is selected...
-                with m.Case(index):
-                    for identifier in self._mux_signals:
-
-                        # ... connect all of its muxed signals through to the output.
-                        output_signal = self._get_signal(self.output, identifier)
-                        input_signal  = self._get_signal(interface,   identifier)
-                        m.d.comb += output_signal.eq(input_signal)
+        # If no interface is valid, nothing is passed through.
+        with m.If(~encoder.n):
+            with m.Switch(encoder.o):
+                for index, interface in enumerate(self._inputs):
+
+                    # If an interface is selected...
+                    with m.Case(index):
+                        for identifier in self._mux_signals:
+
+                            # ... connect all of its muxed signals through to the output.
+                            output_signal = self._get_signal(self.output, identifier)
+                            input_signal  = self._get_signal(interface,   identifier)
+                            m.d.comb += output_signal.eq(input_signal)
 
         # Create the OR'ing logic for each of or or_signals.
         for identifier in self._or_signals:
-- 
2.43.0


From b364d5cc2df246a678fe83ad79222a785b21c0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 11/38] fix: seven segment hex digits: show D as d, so that it
 cannot be mistaken for 0

---
 amlib/io/led.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/led.py b/amlib/io/led.py
index 945b35d..43b79eb 100644
--- a/amlib/io/led.py
+++ b/amlib/io/led.py
@@ -24,7 +24,7 @@ seven_segment_font = [
 seven_segment_hex_numbers = [
   ['0', 0b1111110], ['1', 0b0110000], ['2', 0b1101101], ['3', 0b1111001], ['4', 0b0110011],
   ['5', 0b1011011], ['6', 0b1011111], ['7', 0b1110000], ['8', 0b1111111], ['9', 0b1111011],
-  ['A', 0b1110111], ['b', 0b0011111], ['C', 0b1001110], ['D', 0b1111110], ['E', 0b1001111], ['F', 0b1000111],
+  ['A', 0b1110111], ['b', 0b0011111], ['C', 0b1001110], ['d', 0b0111101], ['E', 0b1001111], ['F', 0b1000111],
 ]
 
 class NibbleToSevenSegmentHex(Elaboratable):
-- 
2.43.0


From 812a04d1cf2fc847e92533bc4011b8aad4bbc7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 12/38] fix: I2CInitiator: ignore strobes as long as busy is
 high, as documented

---
 amlib/io/i2c.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amlib/io/i2c.py b/amlib/io/i2c.py
index 3061964..89036a8 100644
--- a/amlib/io/i2c.py
+++ b/amlib/io/i2c.py
@@ -166,7 +166,10 @@ class I2CInitiator(Module):
 
         self.fsm.act("IDLE",
             NextValue(self.busy, 1),
-            If(self.start,
+            If(self.busy,
+                # strobes are ignored until busy has been seen low
+                NextValue(self.busy, 0)
+            ).Elif(self.start,
                 If(bus.scl_i & bus.sda_i,
                     NextState("START-SDA-L")
                 ).Elif(~bus.scl_i,
-- 
2.43.0


From 9b58a233577101a0b67ff918ab75c255e529487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 13/38] fix: I2CStreamTransmitter: do not send when the FIFO is
 empty in mid-packet

---
 amlib/stream/i2c.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/amlib/stream/i2c.py b/amlib/stream/i2c.py
index 5bf260b..439e322 100644
--- a/amlib/stream/i2c.py
+++ b/amlib/stream/i2c.py
@@ -53,15 +53,14 @@ class I2CStreamTransmitter(Elaboratable):
                     m.next = "STREAMING"
 
             with m.State("STREAMING"):
-                with m.If(~i2c.busy):
+                # when the FIFO runs empty in the middle of a packet, wait for more data
+                with m.If(~i2c.busy & in_fifo.r_rdy):
                     m.d.comb += [
                         i2c.data_i.eq(payload),
                         i2c.write.eq(1),
+                        in_fifo.r_en.eq(1),
                     ]
 
-                    with m.If(in_fifo.r_rdy):
-                        m.d.comb += in_fifo.r_en.eq(1)
-
                     with m.If(last):
                         m.next = "STOP"
 
-- 
2.43.0


From 1a2ea7c49b1fd053660f040b4ef3b16a64416a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:03 +0000
Subject: [PATCH 14/38] fix: SPIDeviceInterface: restart the bit counter after
 each word, whatever the word size

---
 amlib/io/spi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 3345ebb..8d2eecc 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -333,6 +333,7 @@ class SPIDeviceInterface(Elaboratable):
                 # If we're just completing a word, handle I/O.
                 with m.If(bit_count + 1 == self.word_size):
                     m.d.sync += [
+                        bit_count          .eq(0),
                         self.word_accepted .eq(1),
                         current_tx         .eq(self.word_out)
                     ]
-- 
2.43.0


From 96db118ec6ba9943e88cbc24aa24a5df60835e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:51 +0000
Subject: [PATCH 15/38] fix: SPIControllerInterface: present chip select and
 the first bit before the first leading edge in clock phase 0

---
 amlib/io/spi.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 8d2eecc..3cb01c5 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -58,7 +58,7 @@ class SPIControllerInterface(Elaboratable):
             word_size      -- The size of each transmitted word, in bits.
             divisor        -- the divisor of the clock divider providing the SPI clock
             clock_polarity -- The SPI-standard clock polarity. 0 for idle low, 1 for idle high.
-            clock_phase    -- The SPI-standard clock phase. 1 to capture on the leading edge, or 0 for on the trailing
+            clock_phase    -- The SPI-standard clock phase. 0 to capture on the leading edge, or 1 for on the trailing
             msb_first      -- If true, or not provided, data will be transmitted MSB first (standard).
             cs_idles_high  -- If provided, data will be captured when CS goes _low_, rather than high.
             skip_input_cdc -- skips the CDC at the input signals
@@ -128,13 +128,14 @@ class SPIControllerInterface(Elaboratable):
             self.word_complete.eq(spi_device.word_complete),
         ]
 
-        clock_edge = Rose(sck_divider.clock_out, clocks=self.divisor//8, domain="sync") if not self.clock_polarity else \
-                     Fell(sck_divider.clock_out, clocks=self.divisor//8, domain="sync")
+        # With clock phase 1 a transfer starts with a leading edge of the clock. With clock phase 0
+        # we start at a trailing edge, because the first bit must be out before the first leading edge.
+        start_edge = Rose if self.clock_phase != self.clock_polarity else Fell
+        clock_edge = start_edge(sck_divider.clock_out, clocks=self.divisor//8, domain="sync")
 
         with m.FSM() as fsm:
             m.d.comb += sck.eq(Mux(fsm.ongoing("TRANSFER"), sck_divider.clock_out, self.clock_polarity))
-            cs_domain = m.d.comb if self.clock_phase == 1 else m.d.sync
-            cs_domain += cs.eq(Mux(fsm.ongoing("TRANSFER"), cs_active, cs_inactive))
+            m.d.comb += cs.eq(Mux(fsm.ongoing("TRANSFER"), cs_active, cs_inactive))
 
             with m.State("IDLE"):
                 m.d.sync += sck_divider.clock_enable_in.eq(0)
-- 
2.43.0


From 1bb22a54b7bacaba3df1aede1dcb8593a82536d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:51 +0000
Subject: [PATCH 16/38] fix: SPI interfaces: connect_to_resource refers to the
 existing bus and respects pin directions

---
 amlib/io/spi.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 3cb01c5..46724f6 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -88,10 +88,10 @@ class SPIControllerInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs if not self.cs_idles_high else ~self.spi_bus_out.cs),
+            spi_resource.copi .eq(self.spi.sdo),
+            self.spi.sdi      .eq(spi_resource.cipo),
+            spi_resource.clk  .eq(self.spi.sck),
+            spi_resource.cs   .eq(self.spi.cs if not self.cs_idles_high else ~self.spi.cs),
         ]
 
     def elaborate(self, platform: Platform) -> Module:
@@ -218,10 +218,10 @@ class SPIDeviceInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs if not self.cs_idles_high else ~self.spi_bus_out.cs),
+            self.spi.sdi      .eq(spi_resource.copi),
+            spi_resource.cipo .eq(self.spi.sdo),
+            self.spi.sck      .eq(spi_resource.clk),
+            self.spi.cs       .eq(spi_resource.cs if not self.cs_idles_high else ~spi_resource.cs),
         ]
 
     def spi_edge_detectors(self, m, sck):
@@ -542,10 +542,10 @@ class SPICommandInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs),
+            self.spi.sdi      .eq(spi_resource.copi),
+            spi_resource.cipo .eq(self.spi.sdo),
+            self.spi.sck      .eq(spi_resource.clk),
+            self.spi.cs       .eq(spi_resource.cs),
         ]
 
     def elaborate(self, platform: Platform) -> Module:
@@ -898,10 +898,10 @@ class SPIRegisterInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs),
+            self.spi.sdi      .eq(spi_resource.copi),
+            spi_resource.cipo .eq(self.spi.sdo),
+            self.spi.sck      .eq(spi_resource.clk),
+            self.spi.cs       .eq(spi_resource.cs),
         ]
 
     def elaborate(self, platform: Platform) -> Module:
-- 
2.43.0


From fc251489bfdf12530aaba2b34234a4d09193758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:51 +0000
Subject: [PATCH 17/38] fix: SerialLEDArray: make the step counter wide enough
 for any init sequence

---
 amlib/io/max7219.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/max7219.py b/amlib/io/max7219.py
index e1d4051..ff2843a 100644
--- a/amlib/io/max7219.py
+++ b/amlib/io/max7219.py
@@ -76,7 +76,7 @@ class SerialLEDArray(Elaboratable):
         with m.If(next_digit):
             m.d.sync += digit_counter.eq(digit_counter + 1)
 
-        step_counter = Signal(range(10))
+        step_counter = Signal(range(2 * len(self.init_sequence) + 2))
         next_step    = Signal()
 
         with m.If(next_step):
-- 
2.43.0


From 942db7e505fbb9dd7393af50e9d34fa863279550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:57 +0000
Subject: [PATCH 18/38] fix: I2S bit counters and shift register are wide
 enough for every sample width

A 32 bit sample needs a counter that can hold 32 (33 in the standard format), and in the
left justified format the shift register lacked the bit that is sent, which crashed.
---
 amlib/io/i2s.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 4a2a230..aa5259e 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -6,7 +6,6 @@
 #   Copyright (c) 2021 Hans Baier <hansfbaier@gmail.com>
 # SPDX-License-Identifier: BSD-2-Clause
 
-import math
 from enum import Enum
 
 from amaranth import *
@@ -118,9 +117,8 @@ class I2STransmitter(Elaboratable):
         sample_width = sample_width + 1    if frame_format == I2S_FORMAT.STANDARD else sample_width
         offset       = [0]                 if frame_format == I2S_FORMAT.STANDARD else []
 
-        tx_cnt_width = math.ceil(math.log(fifo_data_width,2))
-        tx_cnt = Signal(tx_cnt_width)
-        tx_shifter = Signal(tx_buf_width - 1)
+        tx_cnt = Signal(range(sample_width + 1))
+        tx_shifter = Signal(fifo_data_width)
         sample_msb = fifo_data_width - 1
 
         bit_clock  = Signal()
@@ -350,8 +348,7 @@ class I2SReceiver(Elaboratable):
                 concatenate_channels = False
                 print("I2S warning: sample width greater than 16 bits. your channels can't be glued")
 
-        rx_cnt_width = math.ceil(math.log(fifo_data_width, 2))
-        rx_cnt = Signal(rx_cnt_width)
+        rx_cnt = Signal(range(sample_width + 1))
 
         bit_clock  = Signal()
         word_clock = Signal()
-- 
2.43.0


From f5b05db991e22d49b06e12cbd5f2c987a258eeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:25 +0000
Subject: [PATCH 19/38] fix: I2S starts at the beginning of a left channel

After enabling, the transmitter sent the first left sample one bit late (and took it from the
FIFO unconditionally, even if it was empty or its sample belonged to the right channel), and a
receiver enabled in the middle of a left channel delivered shifted samples. In the left justified
format the first bit was lost.
---
 amlib/io/i2s.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index aa5259e..5b81aaf 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -155,19 +155,16 @@ class I2STransmitter(Elaboratable):
         ]
 
         with m.FSM(reset="IDLE"):
+            # wait for a right channel, so that the first sample is sent
+            # at the beginning of the left channel that follows it
             with m.State("IDLE"):
+                m.d.sync += [
+                    tx_cnt.eq(0),
+                    tx_shifter.eq(0),
+                ]
                 with m.If(self.enable_in):
-                    with m.If(bit_clock_rose & left_channel):
-                        m.next = "WAIT_SYNC"
-
-            with m.State("WAIT_SYNC"):
-                with m.If(bit_clock_rose & left_channel):
-                    m.next = "LEFT_FALL"
-                    m.d.sync += [
-                        tx_cnt.eq(sample_width),
-                        tx_shifter.eq(Cat(tx_fifo.r_data, offset))
-                    ]
-                    m.d.comb += tx_fifo.r_en.eq(1),
+                    with m.If(bit_clock_rose & right_channel):
+                        m.next = "RIGHT_WAIT"
 
             # sync should be sampled on rising edge, but data should change on falling edge
             with m.State("LEFT_FALL"):
@@ -392,7 +389,8 @@ class I2SReceiver(Elaboratable):
             with m.State("IDLE"):
                 m.d.sync += rx_buf.eq(0)
                 with m.If(self.enable_in):
-                    with m.If(bit_clock_rose & left_channel):
+                    # reception begins at the start of the next left channel
+                    with m.If(bit_clock_rose & right_channel):
                         m.d.sync += rx_delay_cnt.eq(rx_delay_val)
                         m.next = "WAIT_SYNC"
 
-- 
2.43.0


From 9b564dc64b28b888b3d410a895ebe07550883e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:04 +0000
Subject: [PATCH 20/38] fix: I2S with samples of 16 bits or less carries both
 channels

The FIFO was made two samples wide although the stream carries one sample per transfer: the
transmitter sent silence on the left channel, and the receiver lost all left samples.
---
 amlib/io/i2s.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 5b81aaf..64156d9 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -105,13 +105,8 @@ class I2STransmitter(Elaboratable):
         frame_format = self._frame_format
 
         fifo_data_width = sample_width
-        concatenate_channels = True
-        if concatenate_channels:
-            if sample_width <= 16:
-                fifo_data_width = sample_width * 2
-            else:
-                concatenate_channels = False
-                print("I2S warning: sample width greater than 16 bits. your channels can't be glued")
+        # the stream carries one sample per transfer, so the channels can't be glued
+        concatenate_channels = False
 
         tx_buf_width = fifo_data_width + 1 if frame_format == I2S_FORMAT.STANDARD else fifo_data_width
         sample_width = sample_width + 1    if frame_format == I2S_FORMAT.STANDARD else sample_width
@@ -337,13 +332,8 @@ class I2SReceiver(Elaboratable):
         frame_format = self._frame_format
 
         fifo_data_width = sample_width
-        concatenate_channels = True
-        if concatenate_channels:
-            if sample_width <= 16:
-                fifo_data_width = sample_width * 2
-            else:
-                concatenate_channels = False
-                print("I2S warning: sample width greater than 16 bits. your channels can't be glued")
+        # the stream carries one sample per transfer, so the channels can't be glued
+        concatenate_channels = False
 
         rx_cnt = Signal(range(sample_width + 1))
 
-- 
2.43.0


From 4bfd0263ef110e916eb783daf57d5554fa1189b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:44 +0000
Subject: [PATCH 21/38] fix: left justified I2S transmitter sends the first bit
 together with the word clock change

It waited for the rising edge after the word clock change, so every sample was one bit late.
---
 amlib/io/i2s.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 64156d9..e51fbe1 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -135,6 +135,14 @@ class I2STransmitter(Elaboratable):
             right_channel.eq(~left_channel)
         ]
 
+        # In the standard format the word clock is evaluated on the rising edge, as the first bit is sent
+        # on the falling edge that follows. In the left justified format the first bit
+        # is sent on the very falling edge on which the word clock changes.
+        if frame_format == I2S_FORMAT.STANDARD:
+            channel_edge, left_start, right_start = bit_clock_rose, "LEFT_FALL", "RIGHT_FALL"
+        else:
+            channel_edge, left_start, right_start = bit_clock_fell, "LEFT", "RIGHT"
+
         m.submodules.tx_fifo = tx_fifo = SyncFIFOBuffered(width=fifo_data_width + 1, depth=self._fifo_depth)
 
         # first marks left channel
@@ -196,7 +204,7 @@ class I2STransmitter(Elaboratable):
                     with m.If(~self.enable_in):
                         m.next = "IDLE"
                     with m.Else():
-                        with m.If(bit_clock_rose):
+                        with m.If(Mux(tx_cnt == 0, channel_edge, bit_clock_rose)):
                             with m.If((tx_cnt == 0)):
                                 with m.If(right_channel):
                                     m.d.sync += tx_cnt.eq(sample_width),
@@ -211,7 +219,7 @@ class I2STransmitter(Elaboratable):
                                     with m.Else():
                                         m.d.comb += self.underflow_out.eq(1)
 
-                                    m.next = "RIGHT_FALL"
+                                    m.next = right_start
                                 with m.Else():
                                     m.next = "LEFT_WAIT"
                             with m.Elif(tx_cnt > 0):
@@ -237,7 +245,7 @@ class I2STransmitter(Elaboratable):
                 with m.If(~self.enable_in):
                     m.next = "IDLE"
                 with m.Else():
-                    with m.If(bit_clock_rose):
+                    with m.If(Mux(tx_cnt == 0, channel_edge, bit_clock_rose)):
                         with m.If((tx_cnt == 0) & left_channel):
                             m.d.sync += tx_cnt.eq(sample_width)
                             with m.If(tx_fifo.r_rdy):
@@ -249,7 +257,7 @@ class I2STransmitter(Elaboratable):
                                     m.d.comb += self.mismatch_out.eq(1)
                             with m.Else():
                                 m.d.comb += self.underflow_out.eq(1)
-                            m.next = "LEFT_FALL"
+                            m.next = left_start
                         with m.Elif(tx_cnt > 0):
                             m.next = "RIGHT_FALL"
 
-- 
2.43.0


From 9d1e917846934be174861b19a94f58561e51a72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:17 +0000
Subject: [PATCH 22/38] fix: WS2812 reset lasts 50us

The line was low for one bit time only, so the LEDs would not take over their colors.
---
 amlib/io/ws2812.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amlib/io/ws2812.py b/amlib/io/ws2812.py
index e46fe52..c45d57c 100644
--- a/amlib/io/ws2812.py
+++ b/amlib/io/ws2812.py
@@ -23,6 +23,8 @@ class WS2812(Elaboratable):
         self.full_cycle_length = sys_clock_freq // 800e3
         self.low_cycle_length  = int(0.32 * self.full_cycle_length)
         self.high_cycle_length = int(0.64 * self.full_cycle_length)
+        # the LEDs take over their colors when the line has been low for 50us
+        self.reset_cycle_length = int(50e-6 * sys_clock_freq)
         print(f"full cycle: {self.full_cycle_length}")
 
         self.mem = Memory(width=24, depth=no_leds, name="led_memory")
@@ -51,7 +53,7 @@ class WS2812(Elaboratable):
         bit_counter = Signal(5)
         current_bit = Signal()
 
-        cycle_counter_width  = bits_for(int(self.full_cycle_length)) + 1
+        cycle_counter_width  = bits_for(self.reset_cycle_length) + 1
         cycle_counter        = Signal(cycle_counter_width)
         current_cycle_length = Signal.like(cycle_counter)
 
@@ -77,7 +79,7 @@ class WS2812(Elaboratable):
                 m.d.comb += self.data_out.eq(0)
                 m.d.sync += cycle_counter.eq(cycle_counter + 1)
 
-                with m.If(cycle_counter >= Const(self.full_cycle_length)):
+                with m.If(cycle_counter >= self.reset_cycle_length):
                     m.d.sync += cycle_counter.eq(0)
 
                     with m.If(led_counter == 0):
-- 
2.43.0


From ee9410f405c78c1f7cfae6f70838f71be92f4f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:17 +0000
Subject: [PATCH 23/38] fix: bits: negative indices count from the end

---
 amlib/utils/bits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/utils/bits.py b/amlib/utils/bits.py
index feda7d8..0b01dc8 100644
--- a/amlib/utils/bits.py
+++ b/amlib/utils/bits.py
@@ -137,7 +137,7 @@ class bits:
     def __getitem__(self, key):
         if isinstance(key, int):
             if key < 0:
-                return (self._int_ >> (self._len_ - key)) & 1
+                return (self._int_ >> (self._len_ + key)) & 1
             else:
                 return (self._int_ >> key) & 1
         if isinstance(key, slice):
-- 
2.43.0


From 44a11964e5ced76565d01a54d2ed792941414334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 24/38] fix: FixedPointFIRFilter: cutoff is in Hz like the
 samplerate, MAC loop uses the newest sample and full width taps

---
 amlib/dsp/fixedpointfirfilter.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/amlib/dsp/fixedpointfirfilter.py b/amlib/dsp/fixedpointfirfilter.py
index 6cdc154..b4a95dd 100644
--- a/amlib/dsp/fixedpointfirfilter.py
+++ b/amlib/dsp/fixedpointfirfilter.py
@@ -27,8 +27,7 @@ class FixedPointFIRFilter(Elaboratable):
         self.signal_out = Signal(signed(bitwidth))
 
         if type(cutoff_freq) == int:
-            cutoff = cutoff_freq / samplerate
-            taps = signal.firwin(filter_order, cutoff, fs=samplerate, pass_zero=filter_type, window='hamming')
+            taps = signal.firwin(filter_order, cutoff_freq, fs=samplerate, pass_zero=filter_type, window='hamming')
         elif type(cutoff_freq) == list and len(cutoff_freq) == 2:
             Fs = samplerate
             Fpb = cutoff_freq[0]
@@ -49,7 +48,7 @@ class FixedPointFIRFilter(Elaboratable):
 
         if verbose:
             if type(cutoff_freq) == int:
-                print(f"{filter_order}-order windowed FIR with cutoff: {cutoff * samplerate}")
+                print(f"{filter_order}-order windowed FIR with cutoff: {cutoff_freq}")
             else:
                 print(f"{filter_order}-order FIR with start/stop band: {cutoff_freq} weight: {weight}")
             print(f"taps: {pformat(taps)}")
@@ -86,14 +85,14 @@ class FixedPointFIRFilter(Elaboratable):
             ix = Signal(range(n + 1))
             madd = Signal(signed(self.bitwidth))
             a = Signal(signed(self.bitwidth))
-            b = Signal(signed(self.bitwidth))
+            b = Signal(signed(width))
 
             with m.FSM(reset="IDLE"):
                 with m.State("IDLE"):
                     with m.If(self.enable_in):
                         m.d.sync += [
                             ix.eq(1),
-                            a.eq(x[0]),
+                            a.eq(self.signal_in),
                             b.eq(taps[0]),
                             madd.eq(0)
                         ]
-- 
2.43.0


From 10ac046970d3b3a7ef532548488ad4d4c7df43c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 25/38] fix: FixedPointHBFilter: MAC loop uses the newest
 sample and full width taps

---
 amlib/dsp/fixedpointhbfilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/fixedpointhbfilter.py b/amlib/dsp/fixedpointhbfilter.py
index ce33b54..fc4442a 100644
--- a/amlib/dsp/fixedpointhbfilter.py
+++ b/amlib/dsp/fixedpointhbfilter.py
@@ -75,14 +75,14 @@ class FixedPointHBFilter(Elaboratable):
             ix = Signal(range(n + 2))
             madd = Signal(signed(self.bitwidth + 1))
             a = Signal(signed(self.bitwidth + 1))
-            b = Signal(signed(self.bitwidth))
+            b = Signal(signed(width))
 
             with m.FSM(reset="IDLE"):
                 with m.State("IDLE"):
                     with m.If(self.strobe_in):
                         m.d.sync += [
                             ix.eq(2),
-                            a.eq(x[0] + x[n - 1]),
+                            a.eq(self.signal_in + x[n - 2]),
                             b.eq(taps[0]),
                             madd.eq(0)
                         ]
-- 
2.43.0


From fb90f72a1bdf5b84d0a28f98063709b30bd24050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 26/38] fix: FixedPointCICFilter: make room for the full scale
 positive sum

---
 amlib/dsp/fixedpointcicfilter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/amlib/dsp/fixedpointcicfilter.py b/amlib/dsp/fixedpointcicfilter.py
index f4aaea3..08e7212 100644
--- a/amlib/dsp/fixedpointcicfilter.py
+++ b/amlib/dsp/fixedpointcicfilter.py
@@ -5,7 +5,6 @@
 
 from amaranth import *
 from amaranth import Signal, Module, Elaboratable
-from math import log2, ceil
 
 from ..test   import GatewareTestCase, sync_test_case
 
@@ -48,7 +47,7 @@ class FixedPointCICFilter(Elaboratable):
         self.stage = filter_stage
         self.decimation = decimation
         self.bitwidth = bitwidth
-        self.delay_width = max(1 + ceil(filter_stage*log2(decimation)), bitwidth)
+        self.delay_width = max(1 + (decimation**filter_stage).bit_length(), bitwidth)
 
         if verbose:
             print(f"{filter_stage}-stage CIC with decimation: {decimation}")
-- 
2.43.0


From 270aca75cb70ab9ced003bbd6bfac97e3763824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 27/38] fix: FractionalResampler: do not lose samples under
 backpressure, keep valid until ready

---
 amlib/dsp/resampler.py | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/amlib/dsp/resampler.py b/amlib/dsp/resampler.py
index 07c4618..baa5d08 100644
--- a/amlib/dsp/resampler.py
+++ b/amlib/dsp/resampler.py
@@ -84,8 +84,8 @@ class FractionalResampler(Elaboratable):
             input_ready.eq((upsample_counter == 0) & (downsamplefifo.w_rdy)),
             input_data.eq(self.signal_in.payload.as_signed()),
             antialiasingfilter.signal_in.eq(upsampled_signal),
-            antialiasingfilter.enable_in.eq(upsample_counter > 0),
-            downsamplefifo.w_en.eq(downsamplefifo.w_rdy & antialiasingfilter.enable_in),
+            antialiasingfilter.enable_in.eq((upsample_counter > 0) & downsamplefifo.w_rdy),
+            downsamplefifo.w_en.eq(antialiasingfilter.enable_in),
         ]
 
         with m.If(input_valid & input_ready):
@@ -94,36 +94,29 @@ class FractionalResampler(Elaboratable):
                 antialiasingfilter.enable_in.eq(1),
             ]
             m.d.sync += upsample_counter.eq(self.upsample_factor - 1)
-        with m.Elif(upsample_counter > 0):
+        with m.Elif((upsample_counter > 0) & downsamplefifo.w_rdy):
             m.d.comb += upsampled_signal.eq(0)
             m.d.sync += upsample_counter.eq(upsample_counter - 1)
 
         # downsampling and output
         downsample_counter = Signal(range(self.downsample_factor))
 
+        # only every downsample_factor-th sample is passed on, the others are dropped
+        drop_sample        = Signal()
+
         m.d.comb += [
             downsamplefifo.w_data.eq(antialiasingfilter.signal_out),
-            self.signal_out.valid.eq(downsamplefifo.r_rdy),
+            drop_sample.eq(downsample_counter != 0),
+            self.signal_out.payload.eq(downsamplefifo.r_data),
+            self.signal_out.valid.eq(downsamplefifo.r_rdy & ~drop_sample),
+            downsamplefifo.r_en.eq(downsamplefifo.r_rdy & (drop_sample | self.signal_out.ready)),
         ]
 
-        with m.If(downsamplefifo.r_rdy & self.signal_out.ready):
-            m.d.comb += downsamplefifo.r_en.eq(1)
-
-            with m.If(downsample_counter == 0):
-                m.d.sync += downsample_counter.eq(self.downsample_factor - 1)
-                m.d.comb += [
-                    self.signal_out.payload.eq(downsamplefifo.r_data),
-                    self.signal_out.valid.eq(1),
-                ]
-            with m.Else():
+        with m.If(downsamplefifo.r_en):
+            with m.If(drop_sample):
                 m.d.sync += downsample_counter.eq(downsample_counter - 1)
-                m.d.comb += self.signal_out.valid.eq(0)
-
-        with m.Else():
-            m.d.comb += [
-                downsamplefifo.r_en.eq(0),
-                self.signal_out.valid.eq(0),
-            ]
+            with m.Else():
+                m.d.sync += downsample_counter.eq(self.downsample_factor - 1)
 
         return m
 
-- 
2.43.0


From 1c9a993030f111982539889a6fffb2e875660c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 28/38] fix: StereoConvolutionMAC: separate negative taps of
 slices, keep the output valid until it is taken

---
 amlib/dsp/convolution/mac.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index b20a128..8a71cc3 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -89,14 +89,16 @@ class StereoConvolutionMAC(Elaboratable):
         self._samples1_memory = Memory(width=self._size_of_slizes, depth=self._samples_per_slice)
         self._samples2_memory = Memory(width=self._size_of_slizes, depth=self._samples_per_slice)
 
+        # mask the taps, lest negative ones spill over into the neighboring slices
+        tap_mask = (1 << self._bitwidth) - 1
         taps_fp_mod = []
         taps2_fp_mod = []
         for i in range(0, self._tapcount, self._slices):
             val1 = 0
             val2 = 0
             for j in range(self._slices):
-                val1 += int(taps_fp[i+j]) << (self._slices - j - 1) * self._bitwidth
-                val2 += int(taps2_fp[i+j]) << (self._slices - j - 1) * self._bitwidth
+                val1 += (int(taps_fp[i+j]) & tap_mask) << (self._slices - j - 1) * self._bitwidth
+                val2 += (int(taps2_fp[i+j]) & tap_mask) << (self._slices - j - 1) * self._bitwidth
             taps_fp_mod.append(val1)
             taps2_fp_mod.append(val2)
 
@@ -148,7 +150,6 @@ class StereoConvolutionMAC(Elaboratable):
         ]
 
         m.d.sync += [
-            self.signal_out.valid.eq(0),
             samples1_write_port.en.eq(0),
             samples2_write_port.en.eq(0),
 
@@ -282,16 +283,17 @@ class StereoConvolutionMAC(Elaboratable):
                     ix.eq(0),
                 ]
 
-                with m.If(output_channels == 2):
-                    m.next = "IDLE"
-                with m.Elif(self.signal_out.ready):
-                    m.d.sync += [
-                        output_channels.eq(output_channels + 1),
-                        self.signal_out.payload.eq(Mux(output_channels == 0, sumSignalL >> self._bitwidth, sumSignalR >> self._bitwidth)),
-                        self.signal_out.valid.eq(1),
-                        self.signal_out.first.eq(~output_channels),
-                        self.signal_out.last.eq(output_channels),
-                    ]
+                m.d.comb += [
+                    self.signal_out.payload.eq(Mux(output_channels == 0, sumSignalL >> self._bitwidth, sumSignalR >> self._bitwidth)),
+                    self.signal_out.valid.eq(1),
+                    self.signal_out.first.eq(~output_channels),
+                    self.signal_out.last.eq(output_channels),
+                ]
+
+                with m.If(self.signal_out.ready):
+                    m.d.sync += output_channels.eq(output_channels + 1)
+                    with m.If(output_channels == 1):
+                        m.next = "IDLE"
 
         return m
 
-- 
2.43.0


From 1d1932908579b5159669b61e3e30c37b7aadcda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 29/38] fix: FixedPointFFT: output every bin once, load the
 window at its place

---
 amlib/dsp/fixedpointfft.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index 5c57ff9..6403cbc 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -143,10 +143,6 @@ class FixedPointFFT(Elaboratable):
 
         # Window write
         wfidx = Signal(range(self.pts+1))
-        m.d.comb += [
-            wFr_wr.data.eq(self.wf_real),
-            wFi_wr.data.eq(self.wf_imag),
-        ]
 
         # FFT
         widx = Signal(N)
@@ -222,15 +218,18 @@ class FixedPointFFT(Elaboratable):
                     m.d.sync += wfidx.eq(0)
                     m.next = "DONE"
                 with m.Else():
-                    m.d.sync += wfidx.eq(wfidx+1)
                     m.next = "WINDOW_WR"
 
             with m.State("WINDOW_WR"):
                 with m.If(self.wf_strobe):
                     m.d.sync += [
                         wFr_wr.addr.eq(wfidx),
+                        wFi_wr.addr.eq(wfidx),
+                        wFr_wr.data.eq(self.wf_real),
+                        wFi_wr.data.eq(self.wf_imag),
                         wFr_wr.en.eq(1),
                         wFi_wr.en.eq(1),
+                        wfidx.eq(wfidx+1),
                     ]
                     m.next = "WINDOW_WRLOOP"
 
@@ -422,7 +421,10 @@ class FixedPointFFT(Elaboratable):
                             xr_rd.addr.eq(idx),
                             xi_rd.addr.eq(idx),
                         ]
-                    m.next = "READOUT"
+                    m.next = "READOUT_LATCHED"
+
+            with m.State("READOUT_LATCHED"):
+                m.next = "READOUT"
 
             with m.State("READOUT"):
                 with m.If(N & 1):
-- 
2.43.0


From c8241cfcd5d6f880be9cb416f453e2eaad560419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 30/38] fix: StereoConvolutionMAC: do not hang for 2**n - 1
 samples per slice

---
 amlib/dsp/convolution/mac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index 8a71cc3..75a2356 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -120,7 +120,7 @@ class StereoConvolutionMAC(Elaboratable):
         set1 = Signal()
         set2 = Signal()
         output_channels = Signal(2)
-        ix = Signal(range(self._samples_per_slice + 1))
+        ix = Signal(range(self._samples_per_slice + 2))
 
         previous_sample1 = Signal(self._size_of_slizes)
         previous_sample2 = Signal.like(previous_sample1)
-- 
2.43.0


From ea40a15fbc6817aededebac116d47e801c0d9f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 31/38] fix: IntegratedLogicAnalyzer: capture two pretrigger
 samples when asked for two, no stale samples while filling

---
 amlib/debug/ila.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 79f6bed..4185a54 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -127,19 +127,22 @@ class IntegratedLogicAnalyzer(Elaboratable):
 
             # the first stage captures the trigger
             # the second stage the first pretrigger sample
+            # (the FIFO takes two cycles until its first output,
+            # so it can only be used for three or more samples)
+            stages = 3 if self.samples_pretrigger == 2 else 2
             m.submodules.pretrigger_samples = \
-                FFSynchronizer(self.inputs,  synced_inputs)
+                FFSynchronizer(self.inputs,  synced_inputs, stages=stages)
             if with_enable:
                 synced_enable  = Signal()
                 m.submodules.pretrigger_enable = \
-                    FFSynchronizer(self.enable, synced_enable)
+                    FFSynchronizer(self.enable, synced_enable, stages=stages)
 
-            if self.samples_pretrigger == 1:
+            if self.samples_pretrigger <= 2:
                 m.d.comb += delayed_inputs.eq(synced_inputs)
                 if with_enable:
                     delayed_enable = Signal()
                     m.d.comb += delayed_enable.eq(synced_enable)
-            else: # samples_pretrigger >= 2
+            else: # samples_pretrigger >= 3
                 capture_fifo_width = self.sample_width
                 if with_enable:
                     capture_fifo_width += 1
@@ -175,7 +178,7 @@ class IntegratedLogicAnalyzer(Elaboratable):
                     delayed_enable = Signal()
                     m.d.comb += [
                         pretrigger_fifo.w_data[-1].eq(synced_enable),
-                        delayed_enable.eq(pretrigger_fifo.r_data[-1]),
+                        delayed_enable.eq(pretrigger_fifo.r_data[-1] & pretrigger_filled),
                     ]
 
         else:
-- 
2.43.0


From 4d7e538b0e46eb88f6f7d48fc02f60643f175ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 32/38] fix: SyncSerialILA: honour cs_idles_high

---
 amlib/debug/ila.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 4185a54..5e12591 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -503,6 +503,7 @@ class SyncSerialILA(Elaboratable):
 
         self.clock_phase = clock_phase
         self.clock_polarity = clock_polarity
+        self.cs_idles_high = cs_idles_high
 
         # Extract the domain from our keyword arguments, and then translate it to sync
         # before we pass it back below. We'll use a DomainRenamer at the boundary to
@@ -549,13 +550,18 @@ class SyncSerialILA(Elaboratable):
         m  = Module()
         m.submodules.ila = self.ila
 
-        transaction_start = Rose(self.spi.cs)
+        # chip select, always active high
+        selected = Signal()
+        m.d.comb += selected.eq(self.spi.cs if not self.cs_idles_high else ~self.spi.cs)
+
+        transaction_start = Rose(selected)
 
         # Connect up our SPI transciever to our public interface.
         interface = SPIDeviceInterface(
             word_size=self.bits_per_sample,
             clock_polarity=self.clock_polarity,
-            clock_phase=self.clock_phase
+            clock_phase=self.clock_phase,
+            cs_idles_high=self.cs_idles_high
         )
         m.submodules.spi = interface
         m.d.comb += [
@@ -570,7 +576,7 @@ class SyncSerialILA(Elaboratable):
 
         # Our first piece of data is latched in when the transaction
         # starts, so we'll move on to sample #1.
-        with m.If(self.spi.cs):
+        with m.If(selected):
             with m.If(transaction_start):
                 m.d.sync += current_sample_number.eq(1)
 
-- 
2.43.0


From af125913cdc887c30abd7e79f0bf524ba9a64615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 33/38] fix: StreamILA: end after the last sample and keep the
 clock domains when crossing domains, valid does not wait for ready

---
 amlib/debug/ila.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 5e12591..a91f6ce 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -805,8 +805,8 @@ class StreamILA(Elaboratable):
                 ]
 
                 # Each time the UART accepts a valid word, move on to the next one.
-                with m.If(in_domain_stream.ready):
-                    with m.If(data_valid):
+                with m.If(data_valid):
+                    with m.If(in_domain_stream.ready):
                         m.d.sync += [
                             current_sample_number   .eq(current_sample_number + 1),
                             data_valid              .eq(0),
@@ -815,16 +815,25 @@ class StreamILA(Elaboratable):
 
 
                         # If this was the last sample, we're done! Move back to idle.
-                        with m.If(self.stream.last):
+                        with m.If(in_domain_stream.last):
                             m.next = "IDLE"
 
-                    with m.Else():
-                        m.d.sync += data_valid.eq(1)
+                # Meanwhile the memory provides the next word.
+                with m.Else():
+                    m.d.sync += data_valid.eq(1)
 
 
+        # Convert our sync domain to the domain requested by the user, if necessary.
+        if self.domain != "sync":
+            m = DomainRenamer(self.domain)(m)
+
         # If we're not streaming out of the same domain we're capturing from,
         # we'll add some clock-domain crossing hardware.
         if self._o_domain != self.domain:
+            capture = m
+            m = Module()
+            m.submodules.capture = capture
+
             in_domain_signals  = Cat(
                 in_domain_stream.first,
                 in_domain_stream.payload,
@@ -837,10 +846,11 @@ class StreamILA(Elaboratable):
             )
 
             # Create our async FIFO...
+            # (its domains are given by the user, so they must not be renamed)
             m.submodules.cdc = fifo = AsyncFIFOBuffered(
                 width=len(in_domain_signals),
                 depth=16,
-                w_domain="sync",
+                w_domain=self.domain,
                 r_domain=self._o_domain
             )
 
@@ -856,10 +866,6 @@ class StreamILA(Elaboratable):
                 fifo.r_en               .eq(self.stream.ready)
             ]
 
-        # Convert our sync domain to the domain requested by the user, if necessary.
-        if self.domain != "sync":
-            m = DomainRenamer(self.domain)(m)
-
         return m
 
 class StreamILATest(GatewareTestCase):
-- 
2.43.0


From 83bbc9813394c9d31c369d3eb8451644c371a5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 34/38] fix: ILA frontend: samples are little-endian, round VCD
 timestamps to the nearest ns

---
 amlib/debug/ila.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index a91f6ce..30eceac 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -1173,13 +1173,13 @@ class ILAFrontend(metaclass=ABCMeta):
                     # the last value-change.
                     if add_clock:
                         while clock_time < timestamp:
-                            writer.change(clock_signal, clock_time / 1e-9, clock_value)
+                            writer.change(clock_signal, round(clock_time / 1e-9), clock_value)
 
                             clock_value ^= 1
                             clock_time  += (self.ila.sample_period / 2)
 
                     # Register the signal change.
-                    writer.change(signals[signal_name], timestamp / 1e-9, signal_value.to_int())
+                    writer.change(signals[signal_name], round(timestamp / 1e-9), signal_value.to_int())
 
 
         # If we're generating a GTKW, delegate that to our helper function.
@@ -1270,7 +1270,8 @@ class AsyncSerialILAFrontend(ILAFrontend):
             raw_sample    = all_samples[i:i + sample_width_bytes]
             sample_length = len(Cat(self.ila.signals))
 
-            yield bits.from_bytes(raw_sample, length=sample_length, byteorder='big')
+            # the UART transmits the least significant byte first
+            yield bits.from_bytes(raw_sample, length=sample_length, byteorder='little')
 
 
     def _read_samples(self):
-- 
2.43.0


From 443fba2a26b5ec8a9cd91d34e7f7c2eb99b5b801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 35/38] fix: WishboneRAM initialized from bytes honours
 granularities other than 8; WishboneROM honours its granularity

---
 amlib/soc/memory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/soc/memory.py b/amlib/soc/memory.py
index 23b9d48..f8d1db2 100644
--- a/amlib/soc/memory.py
+++ b/amlib/soc/memory.py
@@ -33,7 +33,7 @@ class WishboneRAM(Elaboratable):
         if not isinstance(value, bytes):
             return value
 
-        bytes_per_chunk = data_width // granularity
+        bytes_per_chunk = data_width // 8
 
         words = (value[pos:pos + bytes_per_chunk] for pos in range(0, len(value), bytes_per_chunk))
         return [int.from_bytes(word, byteorder=byteorder) for word in words]
@@ -152,7 +152,7 @@ class WishboneROM(WishboneRAM):
         super().__init__(
             addr_width=addr_width,
             data_width=data_width,
-            granularity=8,
+            granularity=granularity,
             init=data,
             read_only=True,
             name=name
-- 
2.43.0


From 546f54aef7e690858b84dcc6488b29e8e806f266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 36/38] fix: SimpleSoC.resources() skips the BIOS memories
 instead of failing

---
 amlib/soc/simplesoc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/soc/simplesoc.py b/amlib/soc/simplesoc.py
index 6d1f25b..a3acc5f 100644
--- a/amlib/soc/simplesoc.py
+++ b/amlib/soc/simplesoc.py
@@ -260,7 +260,7 @@ class SimpleSoC(CPUSoC, Elaboratable):
             for resource in resources:
                 if self._build_bios and omit_bios_mem:
                     # If we're omitting bios resources, skip the BIOS ram/rom.
-                    if (self.ram._mem is resource) or (self.rom._mem is resource):
+                    if (self.scratchpad._mem is resource.resource) or (self.bootrom._mem is resource.resource):
                         continue
 
                 # ... and extract the peripheral's range/vitals...
-- 
2.43.0


From 28ec61444b5192ec8df676390add21d4703d2031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:18 +0000
Subject: [PATCH 37/38] fix: SPI interfaces and SyncSerialILA detect edges in
 their own clock domain, also when it is renamed

---
 amlib/debug/ila.py |  6 ++++--
 amlib/io/spi.py    | 25 ++++++++++++++++++-------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 30eceac..44c2221 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -18,7 +18,6 @@ import subprocess
 from abc             import ABCMeta, abstractmethod
 
 from amaranth          import Signal, Module, Cat, Elaboratable, Memory, DomainRenamer, Mux
-from amaranth.hdl.ast  import Rose
 from amaranth.lib.cdc  import FFSynchronizer
 from amaranth.lib.fifo import SyncFIFOBuffered, AsyncFIFOBuffered
 from vcd             import VCDWriter
@@ -554,7 +553,10 @@ class SyncSerialILA(Elaboratable):
         selected = Signal()
         m.d.comb += selected.eq(self.spi.cs if not self.cs_idles_high else ~self.spi.cs)
 
-        transaction_start = Rose(selected)
+        # (amaranth's Rose() would sample in a domain which the DomainRenamer below does not rename)
+        was_selected = Signal(reset_less=True)
+        m.d.sync += was_selected.eq(selected)
+        transaction_start = ~was_selected & selected
 
         # Connect up our SPI transciever to our public interface.
         interface = SPIDeviceInterface(
diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 46724f6..2dff27a 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -10,13 +10,24 @@ import unittest
 
 from amaranth          import Signal, Module, Cat, Elaboratable, Record, Mux
 from amaranth.build    import Platform
-from amaranth.hdl.ast  import Rose, Fell
 from amaranth.hdl.rec  import DIR_FANIN, DIR_FANOUT
 from amaranth.lib.cdc  import FFSynchronizer
 
 from ..test   import GatewareTestCase, sync_test_case
 from ..utils  import SimpleClockDivider
 
+def _edge_detected(m, signal, *, edge, clocks=0):
+    """ Returns an expression that is high for a cycle upon a given edge of a signal, `clocks` cycles ago.
+
+    amaranth's Rose() and Fell() sample in a fixed clock domain, which a DomainRenamer does not rename.
+    """
+    current = past = signal
+    for _ in range(clocks + 1):
+        current = past
+        past    = Signal.like(current, reset_less=True)
+        m.d.sync += past.eq(current)
+    return (~past & current) if edge == 'rising' else (past & ~current)
+
 class SPIDeviceBus(Record):
     """ Record representing an SPI bus. """
 
@@ -130,8 +141,8 @@ class SPIControllerInterface(Elaboratable):
 
         # With clock phase 1 a transfer starts with a leading edge of the clock. With clock phase 0
         # we start at a trailing edge, because the first bit must be out before the first leading edge.
-        start_edge = Rose if self.clock_phase != self.clock_polarity else Fell
-        clock_edge = start_edge(sck_divider.clock_out, clocks=self.divisor//8, domain="sync")
+        start_edge = 'rising' if self.clock_phase != self.clock_polarity else 'falling'
+        clock_edge = _edge_detected(m, sck_divider.clock_out, edge=start_edge, clocks=self.divisor//8)
 
         with m.FSM() as fsm:
             m.d.comb += sck.eq(Mux(fsm.ongoing("TRANSFER"), sck_divider.clock_out, self.clock_polarity))
@@ -242,8 +253,8 @@ class SPIDeviceInterface(Elaboratable):
         # Generate the leading and trailing edge detectors.
         # Note that we use rising and falling edge detectors, but call these leading and
         # trailing edges, as our clock here may have been inverted.
-        leading_edge  = Rose(serial_clock, domain="sync")
-        trailing_edge = Fell(serial_clock, domain="sync")
+        leading_edge  = _edge_detected(m, serial_clock, edge='rising')
+        trailing_edge = _edge_detected(m, serial_clock, edge='falling')
 
         # Determine the sample and output edges based on the SPI clock phase.
         sample_edge = trailing_edge if self.clock_phase else leading_edge
@@ -314,7 +325,7 @@ class SPIDeviceInterface(Elaboratable):
         # with clock phase 0 we need to output the first bit when chip select
         # goes active, because it will be sampled on the leading edge
         if self.clock_phase == 0:
-            with m.If(Rose(chip_selected, domain="sync")):
+            with m.If(_edge_detected(m, chip_selected, edge='rising')):
                 output_one_bit(m)
 
         with m.If(chip_selected):
@@ -553,7 +564,7 @@ class SPICommandInterface(Elaboratable):
         m = Module()
         spi = self.spi
 
-        sample_edge = Fell(spi.sck, domain="sync")
+        sample_edge = _edge_detected(m, spi.sck, edge='falling')
 
         # Bit counter: counts the number of bits received.
         max_bit_count = max(self.word_size, self.command_size)
-- 
2.43.0


From ccde5d6c5065c14fc963c5d463335dff0ec2b11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:37 +0000
Subject: [PATCH 38/38] fix: ILA frontend: the GTKWave view shows the clock
 only if there is one, interactive_display honours add_clock

---
 amlib/debug/ila.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 44c2221..8f368b5 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -1209,7 +1209,8 @@ class ILAFrontend(metaclass=ABCMeta):
             gtkw.dumpfile(dump_filename)
 
             # If we're adding a clock, add it to the top of the view.
-            gtkw.trace('ila.ila_clock')
+            if add_clock:
+                gtkw.trace('ila.ila_clock')
 
             # Gain more screen space by collapsing the signal tree
             gtkw.sst_expanded(False)
@@ -1234,7 +1235,7 @@ class ILAFrontend(metaclass=ABCMeta):
             vcd_filename = os.path.join(tempfile.gettempdir(), os.urandom(24).hex() + '.vcd')
             gtkw_filename = os.path.join(tempfile.gettempdir(), os.urandom(24).hex() + '.gtkw')
 
-            self.emit_vcd(vcd_filename, gtkw_filename=gtkw_filename)
+            self.emit_vcd(vcd_filename, gtkw_filename=gtkw_filename, add_clock=add_clock)
             subprocess.run(["gtkwave", "-f", vcd_filename, "-a", gtkw_filename])
         finally:
             os.remove(vcd_filename)
-- 
2.43.0

